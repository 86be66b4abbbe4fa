"""Notes of DESIGN.md for each property: oracle, reach, what is outside."""

NOTES = {
"C01": """Oracle: counts of the calls of every work, the contents of every queue at the end, and the fact that `compute` returns (a run where no task can make progress is a violation, as is one which ends early). Reach: the loss of an item needs the end-of-run detector to run between two particular statements of a task; a test sees a handful of timings, here all schedules with the stated number of deviations are enumerated by the solver, and the steps of the life of one task are checked from any number of other tasks in progress (inductive invariant: the counter of tasks equals the number of started and unfinished tasks).
Outside: a server process which dies, a failed start of a process, the operating system's own scheduling inside a statement (statements are atomic).""",
"C02": """Oracle: number of running works observed at each start, lengths of the queues read at the decision. The decisions of the polling loops and of the choice of a server are taken from any state (any counters, any limits).""",
"C03": """Oracle: reference run of the same items, the failing ones removed; the failing calls are symbolic booleans. Error reports are read in the log and in the files really written in a scratch directory.""",
"C04": """Oracle: the concatenation of the ranges given to the processes is the whole range, sizes differ by at most one. Start and stop are unbounded integers. `whole`: real parent and children objects, with the sub-processes run in place (stand-in of `subprocess` which reads the command actually written and runs the same entry point).
Known remainder (not repaired): with `multi_exec_subproc` in the mode recompute, overlapping subsets of preprocessing at the edges of the sub-ranges save the same images twice (statement restricted to the partition of the work).""",
"C05": """Oracle: table of the documented modes. Directories are really created in a scratch directory; the pattern of existing ones, the answers typed by the user and the mode are symbolic.""",
"C06": """Oracle: set of expected results minus the ones already there, as computed by the naming functions really used for saving in a first run. The subset of results present and the images arriving later are symbolic; whole runs of the real topologies with real files in a scratch directory and stand-ins for the works.
Outside: a partial file left by a crash in the middle of a save is taken as done.""",
"C07": """Oracle: couples written from the documentation of `str_subset`. The arrival times of the images in the input queue, hence any batches and any orders, and unreadable images are symbolic.""",
"C08": """Same method as C07 for the subsets of the preprocessing and which of their images are saved.""",
"C09": """Oracle: the exact mean as a linear term of symbolic pixels (dtype-aware sums: an accumulation in a narrow dtype wraps). Real topology, real executors, symbolic schedule.""",
"C10": """Oracle: injectivity: two different symbolic indices and the equality of the two names is unsatisfiable. Names are sequences of symbolic characters and numerals (`checks/text.py`).
Outside: three-index names of images have no separator between the first two indices in the given file names themselves (ambiguous input).""",
"C20": """Oracle: argmax over the acceptable cells, written as a formula over the whole map (values any real; some cells NaN).""",
"C21": """Oracle: each value of the map is a polynomial of the pixels; it is compared with the sum of products for the displacement given by the conversion of its index. FFTs of sizes 2 and 4 are exact. Outside: cuda and skcuda methods; FFTs of other sizes (same code, the transform is a library).""",
"C22": """Oracle: exact centre for the model peak; |shift| bounded otherwise. `2d_gaussian2` is checked at listed centres with any widths and orientation. Known remainder: 2d_gaussian2 is biased for very broad Gaussians by its own definition (normalisation by the minimum): restricted to peaks whose smallest value is 1e-8 of the largest.""",
"C23": """Oracle: definition of the mean, over all values and all patterns of missing points.""",
"C24": """Oracle: the criteria of the documentation evaluated on symbolic correlations, thresholds and displacements; the removed values must be found in `deltaxs_wrong`.""",
"C25": """Oracle: positions in the image, spacing, number of rows and columns maximal; windows compared pixel by pixel with the image around the position. Sizes of the images are symbolic.""",
"C26": """Same as C25 with windows displaced by any real estimate, outside of the image included; chain of passes with symbolic displacements.""",
"C27": """Oracle: exactness on the data (smoothing 0) and on linear fields, derivative equal to the limit. The systems are solved in rational arithmetic; the logarithms are uninterpreted with laws. Outside: smoothing coefficient other than zero for nonlinear data (only linear fields are reproduced).""",
"C28": """Oracle: results without crop on the cropped image, translated. The bounds of the crop are symbolic integers written as numerals in the string given by the user.""",
"C29": """Oracle: identity. Symbolic values go through a stand-in of h5py in memory; concrete replays use real files.
Known remainder: UVmat layout: splines and smooth fields are not saved when vectors are missing or when the subdomains have different sizes.""",
"C30": """Oracle: per-point definition of each operation. Known remainder: gaussian_filter leaves vz unfiltered; the valid border after filters is checked for one iteration.""",
"C31": """Oracle: Parseval's equality as polynomial identity of the values of the signal; a wave of any amplitude and phase gives one peak at its wavenumber.""",
"C32": """Oracle: each vector at the node of its position; grid of the pixels recomputed from parameters compared with the one of the run.""",
"C33": """Oracle: definition per pixel (formula over the terms of the image), dtype-aware. Outside: tools of the OpenCV backend (C++; they may give negative intensities), equalize_hist_* and gamma (entirely in scikit-image).""",
"C34": """Oracle: list of the calls and of their parameters for every choice of enabled tools and of sequences (given as a string or a list).""",
"C35": """Oracle: composition of the two conversions is the identity, the point is on the plane; decided as rational functions (numerators expanded, then given to the solver). Outside: cameras with a coefficient of distortion (the inverse is an approximation of first order).""",
"C36": """Oracle: incidence (points on lines and planes), orthonormal bases, exactness of the fit for straight lines of sight, reconstruction of the displacement from its projections. Outside: nearly singular couples of cameras; calibration by OpenCV and reconstruction by MLOS (OpenCV, dask).""",
"C37": """Oracle: table UVmat -> fluidimage written from the documentation. Known remainder: in mode series(Dj) with letters as second index, UVmat counts from 1 and fluiddyn letters from 0 (statement restricted to numbers).""",
"C38": """Not claimed: see below.""",
}
MUTANTS = {}
