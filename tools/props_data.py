# --- execution of topologies ------------------------------------------------
prop(
    "C01", "An asynchronous run ends only when every item has been processed",
    "With the asynchronous executors, for every interleaving of the works, the run is declared finished only when all queues are empty and no work is in progress, and then every item has been given exactly once to the work reading its queue and every result is in the queue written by that work. "
    "A run whose items can all be consumed does finish: no finished, failed or empty-handed task stays counted as in progress.",
    ["schedules"],
    "All interleavings of polling loops, started tasks, computing threads / servers and of the end-of-run detector; any number of other tasks in progress, any queue contents, any success or failure of the works.",
    "A test run exercises a handful of timings; the loss of an item needs the end-of-run detector to run at one particular point of the life of a task.",
    ["executors/exec_async.py", "executors/exec_async_sequential.py", "executors/exec_async_servers.py", "executors/servers.py"],
    [("counters of tasks in progress", "executors/exec_async.py"), ("end-of-run detector", "executors/exec_async.py"), ("busy / available flags of the servers", "executors/servers.py")],
)
prop(
    "C02", "The limits on concurrent works and on queue sizes are respected",
    "With the thread-based asynchronous executor, a work is started only when an item is waiting for it, when (at the moment the loop starts the task) its output queue holds fewer items than the limit on queue items, and when fewer works of its category (input/output or CPU-bound) than the limit on workers are running, so that the number of running works of a category never exceeds the limit. "
    "With the server-based executor, a server is never handed a job while it is being handed another one, nor beyond its maximum number of pending items, and the least loaded of the free servers is chosen.",
    ["schedules", "configurations"],
    "All interleavings of the polling loops and tasks, any limits, any queue lengths and loads.",
    "Tests use one limit and never observe the instantaneous number of running works.",
    ["executors/exec_async.py", "executors/exec_async_servers.py"],
    [("guards of the polling loops", "executors/exec_async.py"), ("choice of a server", "executors/exec_async_servers.py")],
)
prop(
    "C03", "A failing item affects only what depends on it",
    "When processing an item fails, the run goes on: the failure itself replaces the result in the output queue under the same key, works downstream are not called for it but pass it on, it is reported (in the log, and for the executors without servers in an error file), and every other item is processed exactly as if the failure had not happened. "
    "If the run was asked to stop at the first error, the error is raised to the caller.",
    ["fault_sequences", "inputs"],
    "Every subset of failing items and every failing stage, for the sequential and thread-based executors; bounded number of items and stages.",
    "Tests inject one failure at one place.",
    ["executors/exec_sequential.py", "executors/exec_async.py", "executors/exec_async_sequential.py", "topologies/base.py", "executors/base.py"],
    [("exception stored as a result", "executors/exec_async.py"), ("propagation of exceptions", "topologies/base.py")],
)
prop(
    "C04", "Splitting a computation between processes is an exact partition",
    "Whatever the number of processes, the ranges of series, of images or the lists of missing indices given to the sub-processes form an exact partition of the work: every index to be computed is given to exactly one process, in order, nothing else is added, sizes differ by at most one and the announced number of expected results of ranges of series is the number of indices (for BOS the reference counts too). The sub-processes save in the directory of results chosen by the parent, also in the mode 'new_dir', and lists of indices written for them are read back unchanged.",
    ["inputs", "configurations"],
    "All start / stop / step, all list lengths and all numbers of processes within the bounds.",
    "Tests try a few (length, number of processes) pairs; off-by-one errors depend on the remainder.",
    ["topologies/splitters.py", "executors/multi_exec_async.py"],
    [("split of a range / of a list", "topologies/splitters.py"), ("files of indices and parameters per process", "topologies/splitters.py")],
)
prop(
    "C05", "Existing results are completed, redone or kept apart as asked",
    "The directory of the results is the requested path or the input path followed by a dot and the postfix (also for paths ending with a separator), and is recorded in the parameters; in the mode 'new_dir' the chosen directory did not exist before; in the modes 'complete' and 'recompute' (or when asked and answered so, in upper or lower case) the named directory itself is used with that mode; answering 'stop' leaves without creating anything. "
    "No other directory is created and an invalid mode is refused before anything is created.",
    ["inputs", "configurations"],
    "All modes, all sequences of answers (bounded length), all patterns of already existing directories.",
    "Tests never run the interactive mode and use one existing directory.",
    ["topologies/base.py"],
    [("preparation of the result directory", "topologies/base.py")],
)
prop(
    "C06", "The complete mode computes exactly the missing results",
    "In the mode 'complete', the items computed are exactly those whose result file does not exist (for PIV and optical flow couples, preprocessing subsets, image to image and BOS, with or without an image-to-image function and for every saving format), in the order of the series; existing result files are left as they are, and at the end the result files are those of a computation from scratch, one per item, also when nothing was missing, when images could not be read in the first run or when images were added since. "
    "For surface tracking, whose results depend on the previous ones, all results are recomputed if one is missing and none otherwise.",
    ["histories", "inputs"],
    "Every subset of missing result files, every subset of unreadable images in the first run, bounded numbers of images, several naming schemes.",
    "Tests delete one or two results of one naming scheme.",
    ["topologies/base.py", "topologies/piv.py", "topologies/preproc.py", "topologies/bos.py", "topologies/image2image.py", "topologies/splitters.py", "data_objects/piv.py", "data_objects/preproc.py"],
    [("indices to be computed", "topologies/base.py"), ("names of results", "data_objects/piv.py")],
)
prop(
    "C07", "Couples of images are formed once, with the right images, in the right order",
    "When images arrive in any order, a couple is formed as soon as, and only when, its two images are there, exactly once, with its own names and arrays in the order of the couple; an image is kept as long as a waiting couple needs it and released when none does. "
    "If one image of a couple is an error, the couple is that error and other couples are not affected (PIV and optical flow). For surface tracking each image is corrected with the result of the preceding one: the chain goes through all the images in order.",
    ["schedules", "fault_sequences"],
    "Every state of the queues (any waiting couples sharing images, any subset of images present, any of them failed), bounded numbers of images and couples.",
    "Tests run one reading order with successful reads.",
    ["topologies/piv.py", "topologies/surface_tracking.py"],
    [("making of couples", "topologies/piv.py"), ("making of couples", "topologies/surface_tracking.py")],
)
prop(
    "C08", "Preprocessing subsets hold the images of their series, in order",
    "For the preprocessing of series, whatever the arrival order of the images, each subset contains exactly the images of its series, in the order of the names, and is made exactly once when all its images are there; an image shared by several subsets is kept until the last of them is made. Each preprocessed image is saved by at most one subset, under a name made from its own.",
    ["schedules"],
    "Every state of the queues with bounded numbers of images and subsets, any subset of the images present.",
    "Tests run one arrival order.",
    ["topologies/preproc.py"],
    [("making of subsets", "topologies/preproc.py")],
)
prop(
    "C09", "The mean image does not depend on the order of the partial sums",
    "The mean of a set of images (8 or 16 bits without sign, fewer than 65537 images) is the sum of all of them divided by their number (truncated to an integer), each image being counted exactly once, whatever the order in which images are read and partial sums are combined and however many are combined at a time. "
    "Images that can not be read are left out. The result has the type of the input images.",
    ["schedules", "inputs"],
    "Every order of reading / reduction for a bounded number of images, any pixel values.",
    "Tests check one order on one small set.",
    ["topologies/mean.py"],
    [("reductions and final division", "topologies/mean.py")],
)
prop(
    "C10", "Different couples and subsets never share a result file",
    "Two different series of images of the same source give different result file names, with the indices of the first and last images, for all index formats (numbers of any number of digits, letters, several indices of which one changes from a series to the next) and for the images of movies. "
    "A field saved from a couple is saved in the file with the name the complete mode looks for.",
    ["inputs"],
    "All indices within the formats, one to three indices, digits or letters.",
    "Tests use two naming schemes and one couple.",
    ["data_objects/piv.py", "data_objects/preproc.py"],
    [("name of a field from a series", "data_objects/piv.py"), ("name of a preprocessed image", "data_objects/preproc.py")],
)
# --- PIV kernels --------------------------------------------------------------
prop(
    "C20", "The displacement is taken at the highest acceptable correlation value",
    "For every correlation map, possibly with missing values, the peak retained is the highest value of the allowed search region (displacements up to the maximum, if given); if it is on the border of the map or adjacent to a missing value (or to a zone already discarded), a zone of the particle radius around it is discarded and the highest remaining value is retained if it is acceptable, otherwise an error is reported for this vector with the location of the first peak. "
    "Other peaks, when requested, are the successive highest values outside of the zones of the peaks already found, with decreasing correlation, at most the number requested; no map makes the search crash.",
    ["inputs", "configurations"],
    "All values of maps up to the stated sizes including NaN, all search limits and radii within the bounds.",
    "Tests use a few synthetic images with one clear peak.",
    ["calcul/correl.py"],
    [("search of the maximum", "calcul/correl.py"), ("second chance and secondary peaks", "calcul/correl.py"), ("mask of the large displacements", "calcul/correl.py")],
)
prop(
    "C21", "A correlation value at an index means the right displacement",
    "For every available correlation method (direct, scipy, FFT) the value stored at an index of the map is the correlation of the first window with the second one shifted by the displacement given by the index-to-displacement conversion, and the conversion and its inverse are exact inverses; hence two windows that differ by an integer translation have their peak at this translation, with x and y and signs not exchanged. "
    "The map is normalised so that the correlation of a window with an identical one is one.",
    ["inputs"],
    "All pixel values of windows of the stated sizes (even, odd, non square, second window smaller), all indices.",
    "Tests use square windows of a few sizes and one displacement with tolerance.",
    ["calcul/correl.py", "calcul/fft.py"],
    [("direct correlation", "calcul/correl.py"), ("shift of the FFT correlation", "calcul/correl.py"), ("indices and displacements", "calcul/correl.py")],
)
prop(
    "C22", "Subpixel refinement is exact on its model peak and never moves far",
    "The subpixel refinement returns the true centre of a peak that exactly has the shape its method assumes (Gaussian with axes along the grid for 2d_gaussian; for 2d_gaussian2, a Gaussian of any orientation whose smallest value in the neighbourhood is 1e-8 of its maximum, the floor this method applies), the centre of mass for the centroid method and the integer position without refinement; exchanging or reversing the axes of the neighbourhood does the same to the result of 2d_gaussian2. "
    "For any correlation values, either the refined position stays within the documented distance of the integer peak or an error is reported, a peak too close to the border is reported as an error, and the map of correlation given by the caller is read at the right place (rows are y, columns are x).",
    ["inputs"],
    "All real positions, widths and amplitudes of the peaks; all 3x3 (or 5x5) neighbourhoods.",
    "Tests evaluate a few peaks with a tolerance.",
    ["calcul/subpix.py"],
    [("refinement methods", "calcul/subpix.py")],
)
prop(
    "C23", "The neighbour mean uses exactly the valid surrounding vectors",
    "For every grid of vectors with any of them missing (either component NaN), the neighbour mean at a valid vector is the mean over its valid immediate neighbours (up to eight, fewer on sides and corners, itself excluded), separately for x and y, and it is NaN where the vector itself is missing or has no valid neighbour.",
    ["inputs"],
    "All values and patterns of missing vectors on grids up to the stated sizes.",
    "Tests compare one random grid without (or with one) missing vector.",
    ["calcul/mean_neighbors.py"],
    [("sums on corners, sides, core", "calcul/mean_neighbors.py")],
)
prop(
    "C24", "Vectors are rejected exactly by the configured criteria and stay traceable",
    "After the fixing step a vector is missing (NaN) if and only if its computation failed, its correlation is below the minimum, its displacement is above the maximum (if set) or it differs from the mean of its valid neighbours by more than the threshold (if set); each rejected vector has an explanation and its rejected value is kept, and accepted vectors are unchanged. "
    "With several peaks searched, a vector is replaced only by one of its own secondary peaks with sufficient correlation, closer to the neighbour mean, and satisfying the same displacement and neighbour limits.",
    ["inputs", "configurations"],
    "All displacements, correlations, error sets, thresholds and secondary peaks within bounded grids.",
    "Tests check that a run on one image pair gives few errors.",
    ["works/piv/fix.py"],
    [("rejection criteria", "works/piv/fix.py"), ("replacement by secondary peaks", "works/piv/fix.py")],
)
prop(
    "C25", "Interrogation windows tile the image as configured and stay inside",
    "For all image sizes, window sizes (including different windows for the two images and sizes in fractions of the image) and overlaps, vectors are regularly spaced with the configured step, centred on their interrogation windows, every window extracted has the nominal shape and contains the pixels of the image at these positions (only padding outside), and no vector position is outside the image. "
    "Further vectors could not be added at the end of a row or a column.",
    ["inputs", "configurations"],
    "All image sizes, window sizes and overlaps within the stated bounds.",
    "Tests use two image sizes and a few window sizes.",
    ["works/piv/singlepass.py"],
    [("grid of vectors", "works/piv/singlepass.py"), ("padding and cropping", "works/piv/singlepass.py")],
)
prop(
    "C26", "In later passes windows are shifted by the estimated displacement",
    "In a pass starting from an estimate, the two windows of a vector are separated by exactly the rounded estimate, which is recorded as the input displacement, they remain inside the images, and the displacement of the vector is this input plus the one measured between the windows; a vector whose estimate is missing is reported as an error and not computed. "
    "Each pass uses windows reduced by the zoom coefficient and receives the smoothed field of the previous one at its own positions.",
    ["inputs"],
    "All estimates (including NaN and displacements pointing outside of the image), all positions, bounded image and window sizes.",
    "Tests run one pair with small displacements.",
    ["works/piv/singlepass.py", "works/piv/multipass.py"],
    [("positions of the windows", "works/piv/singlepass.py"), ("sum of displacements", "works/piv/singlepass.py"), ("chain of passes", "works/piv/multipass.py")],
)
prop(
    "C27", "Thin-plate-spline interpolation is exact on data and linear fields",
    "Without smoothing, the spline goes through the data; with any smoothing a field varying linearly in space is reproduced everywhere, together with its gradient; splitting in subdomains changes none of this: every position (data or target, inside or around the domain of the data) belongs to at least one subdomain. "
    "Missing vectors are left out: they do not change the interpolated field. Data further from the smooth field than the threshold are replaced, and only them.",
    ["inputs"],
    "All values at the data points and bounded sets of positions; all domain sizes and numbers of subdomains within bounds.",
    "Tests compare one function with a tolerance.",
    ["calcul/interpolate/thin_plate_spline.py", "calcul/interpolate/thin_plate_spline_subdom.py", "works/piv/singlepass.py"],
    [("spline system and evaluation", "calcul/interpolate/thin_plate_spline.py"), ("subdomains", "calcul/interpolate/thin_plate_spline_subdom.py")],
)
prop(
    "C28", "A crop of the images only translates the results",
    "With a crop window given as 'start:stop' ranges, the pixels processed are exactly those of the window and positions are given in the coordinates of the original image: conversion to the coordinates of the cropped image and back is the identity, rows are y and columns are x, and open bounds mean the image limits.",
    ["inputs"],
    "All crop bounds (including open and negative ones) and positions for bounded image sizes.",
    "Tests crop one image with one window.",
    ["data_objects/piv.py", "works/with_mask.py"],
    [("reading of crop strings and masking", "data_objects/piv.py"), ("conversion of coordinates", "works/with_mask.py")],
)
prop(
    "C29", "Saved fields are loaded back unchanged",
    "Saving a PIV result (one or several passes) in the default layout and loading it gives the same positions, displacements, correlations (with the precision of the files, float32), errors, rejected values, interpolation data, images and parameters, each under its own name and in its own pass, for every content, including missing vectors, absent data sets and any number of passes and of interpolation subdomains. "
    "The light result of a pass (the last one by default) contains the field of this pass and is also loaded back unchanged. In the uvmat layout, the positions, displacements (0 where missing), correlations and flags of each pass are written under the names of this pass.",
    ["inputs"],
    "All values and error sets within bounded sizes; every optional data set present or absent; up to twelve subdomains.",
    "Tests reload one result and compare two arrays.",
    ["data_objects/piv.py"],
    [("saving and loading", "data_objects/piv.py")],
)
# --- post-processing ------------------------------------------------------------
prop(
    "C30", "Vector fields keep each value attached to its position",
    "Building a field on a grid, whatever the directions of the axes, and then extracting a region, extracting a square, truncating, regularizing, filtering, saving and loading, or computing with fields, keeps each vector attached to its own coordinates, with increasing axes; extraction returns exactly the grid points within the requested bounds; sums, differences, products and averages over arrays of fields act on each component at each time and leave coordinates and operands unchanged. "
    "Divergence and rotation of a linear field are exact; filters act on one component (or one pixel over time) at a time.",
    ["inputs"],
    "All values, all axis directions and region bounds on bounded grids.",
    "Tests use one reloaded field and check shapes mostly.",
    ["postproc/vector_field.py"],
    [("field on a grid", "postproc/vector_field.py")],
)
prop(
    "C31", "Spectra conserve the energy of the field",
    "The spectra of a field are given at increasing wavenumbers which contain 0, with the step 2 pi / L of the grid, and the sum of the power spectral density times the step(s) of wavenumber is the half of the mean of the square of the field, for any values; a field with a single wave has its energy at this wavenumber (and the opposite one) only.",
    ["inputs"],
    "All values of fields on small grids.",
    "Tests check one or two fields with a tolerance.",
    ["postproc/util.py"],
    [("spectra", "postproc/util.py")],
)
prop(
    "C32", "Regridding puts each vector at its place",
    "Given the positions of the vectors of a full final grid listed row by row or column by column, in any directions, the regular grid found has exactly the distinct positions and each value is placed at its own position. A field loaded from a PIV file (full or light) is the final field of the last pass on increasing axes. The grid of pixels recomputed from the parameters and the shape of the images is the set of the positions, in the original images, of the vectors computed by the pass, with and without a crop of the images.",
    ["inputs"],
    "All positions, directions and orders of the axes on bounded grids; all bounds of the crop.",
    "Tests use one saved field.",
    ["postproc/util.py", "postproc/piv.py"],
    [("reshape on a grid", "postproc/util.py"), ("grid of pixels", "postproc/piv.py"), ("field from a PIV file", "postproc/vector_field.py")],
)
# --- preprocessing ---------------------------------------------------------------
prop(
    "C33", "Preprocessing tools do to each pixel what they document",
    "With the tools of the Python backend and for all pixel values: sliding (temporal) tools subtract from each pixel the chosen fraction of the median, percentile or minimum of the window centred on it (by default, for temporal tools, of the values of this pixel only, in a window of as many times as images), with the documented border conditions, and give 0 rather than negative intensities; thresholding replaces the values outside the bounds with the bound; the adaptive threshold gives a binary image (a pixel brighter than the local mean minus the offset is in the foreground); linear rescaling gives the requested range, tanh rescaling follows tanh(intensity / threshold) and keeps the maximum (rounded down to integers), and both keep the order of the intensities; sharpening adds alpha times the difference of the two blurred images. "
    "None of them changes the shape of images or its argument, exchanges pixels or times (spatial tools process each image of a series alone), or gives other results for images of integers than for the same images of floats.",
    ["inputs"],
    "All pixel values of small stacks of images, all windows and thresholds within the bounds.",
    "Tests check that tools run and some maxima decrease.",
    ["works/preproc/_toolbox_py.py", "works/preproc/io.py"],
    [("tools", "works/preproc/_toolbox_py.py")],
)
prop(
    "C34", "Only enabled preprocessing tools are applied, once, in the configured order",
    "Preprocessing applies each enabled tool exactly once per occurrence in the configured sequence (all the tools in the default order if there is no sequence), in this order, with its own parameters (the defaults being those of the function of the tool), each to the output of the preceding one; disabled tools change nothing, and with none enabled the images are returned unchanged.",
    ["configurations"],
    "Every subset of enabled tools and every sequence.",
    "Tests enable one tool at a time or all of them in the default order.",
    ["works/preproc/toolbox.py", "works/preproc/__init__.py"],
    [("chain of tools", "works/preproc/toolbox.py")],
)
# --- calibration -------------------------------------------------------------------
prop(
    "C35", "Calibration conversions between pixels and space are inverse of each other",
    "With the calibration read from a UVmat file (Calibration), the position found for a pixel is on the plane of the given index (horizontal, or turned by the angles of the file; with or without interface and index of refraction), this position is converted back to the same pixel, and the pixel of a point of the plane is converted back to this point, for numbers and for arrays, every camera and every point; without lens distortion this is exact (the vertical index given by phys2pix is the one of UVmat, from the bottom: nbypix minus the one given to pix2phys). "
    "Arguments are not modified; a displacement is the difference of the positions of its two ends. "
    "With the simple calibration (Calibration2DSimple), the two reference points are at the given distance, the origin is at the given position, pixels have the given aspect ratio (height divided by width), and displacements are differences of positions.",
    ["inputs"],
    "All points, pixels and camera parameters without distortion; a few rotations of the planes.",
    "Tests check one calibration file, without comparing any number.",
    ["calibration/calib_tsai.py", "calibration/calib2d_simple.py", "calibration/util.py"],
    [("conversions", "calibration/calib_tsai.py"), ("conversions", "calibration/calib2d_simple.py"), ("reading of the parameters", "calibration/util.py")],
)
prop(
    "C36", "Lines of sight and planes are computed exactly",
    "The line of sight fitted for a pixel from its positions at several levels (aligned points) contains them, also when the pixel is seen only at some of the levels, and it is missing (NaN) with fewer than two levels; the position found for a pixel on a plane is on this plane and on the line of sight of the pixel, and a displacement is the difference of the positions of its two ends; the equation of a plane turned around x or y is verified by its points, and the base attached to a plane is orthonormal, direct, with its third vector along the normal. "
    "A displacement of which the projections are seen by two cameras with different directions (whatever they are, for example one above the other) is given back by the stereo reconstruction, and the common grid of two cameras is regular, on the plane, spans the rectangle seen by both and does not go beyond it.",
    ["inputs"],
    "All lines, planes, pixels and displacements in real arithmetic; cameras and directions of the fitted lines in a list.",
    "Tests use one calibration data set and check no number.",
    ["calibration/calib_direct.py", "calibration/util.py"],
    [("intersection of lines and planes", "calibration/calib_direct.py"), ("planes and bases", "calibration/util.py"), ("stereo reconstruction", "calibration/calib_direct.py")],
)
# --- utilities -----------------------------------------------------------------------
prop(
    "C37", "Parameters imported from UVmat keep their meaning",
    "A PIV computation run from a UVmat document processes exactly the couples of the document: for first, last and increment of the index range (one, if absent), images i and i+1 for series(Di), images a and b of each i for pair j1-j2, images j and j+1 of the given i for series(Dj) (with numbers), in the directory of the input table, results being saved in this directory with the extension of the document. "
    "The parameters keep the values of the document: search box of Civ1 rounded down to an even number of pixels (even if it is a single digit), two passes if Civ2 is there and one otherwise, minimum correlation and maximum displacement (none if absent) of Fix1, smoothing, threshold and subdomain size of Patch2 for the splines (not used without it). "
    "The computation is run once, with the mode of the command line (recompute by default); a fluidimage document is run with its own parameters.",
    ["inputs"],
    "All values of the numeric fields of the document and index ranges on small series.",
    "Tests run two documents and check the names of the results.",
    ["uvmat.py", "run_from_xml.py"],
    [("translation of parameters", "uvmat.py"), ("command", "run_from_xml.py")],
)
prop(
    "C38", "Monitoring counts what the log says",
    "The summary of a run read from its log files contains each started execution of each work once (works of the log: for the sequential executor all but the global works), with its key, the time at which it was started and its duration if it ended without error (not a number otherwise), whatever the interleaving of the executions, the failures and the names of the works and keys (with spaces and parentheses, one beginning as another one), also when a key is given several times to the same global work. "
    "The log of a run which is not finished or was interrupted, cut at any character after its first line, is read the same way up to this point.",
    ["schedules", "histories", "crash_points", "fault_sequences"],
    "All subsets of failing works, schedules with a bounded number of deviations, lists of names, every point of interruption of a bounded run.",
    "Tests parse the log of complete runs with simple names.",
    ["topologies/log.py", "executors/base.py", "executors/exec_async.py", "executors/exec_sequential.py"],
    [("parsing of logs", "topologies/log.py")],
)
