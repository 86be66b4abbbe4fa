"""Sources of the planted changes: python3 tools/seeds.py [ID ...] writes seeded/ID/."""
import json
import os
import subprocess
import sys
from pathlib import Path

SEEDS = {}


def seed(ident, prop, edits, needs, breaks, demo):
    SEEDS[ident] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


seed(
    "nan_corner", "C20",
    edits=[("calcul/correl.py", "    for idx in range(9):\n        if np.isnan(arr[idx]):", "    for idx in range(8):\n        if np.isnan(arr[idx]):")],
    needs="a missing correlation value diagonally after (below and right of) the peak, and only there",
    breaks="the peak adjacent to a missing value is accepted instead of being discarded",
    demo='''
import numpy as np
from fluidimage.calcul.correl import correlation_classes

cls = correlation_classes["scipy.ndimage"]
correl = cls((16, 16), (16, 16), particle_radius=1)
a = np.zeros((16, 16), dtype=np.float32)
a[8, 8] = 1.0
a[9, 9] = np.nan
a[4, 11] = 0.7
dx, dy, val, other = correl.compute_displacements_from_correl(a.copy())
ix, iy = correl.compute_indices_from_displacement(dx, dy)
assert (ix, iy) == (11, 4), (ix, iy)
''')

seed(
    "third_peak", "C20",
    edits=[("calcul/correl.py", """            other_peaks = []
            for _ in range(0, self.nb_peaks_to_search - 1):
                self._mask_peak(correl, ix, iy)
                try:""", """            other_peaks = []
            self._mask_peak(correl, ix, iy)
            for _ in range(0, self.nb_peaks_to_search - 1):
                try:""")],
    needs="at least three peaks to search",
    breaks="the same secondary peak is found several times",
    demo='''
import numpy as np
from fluidimage.calcul.correl import correlation_classes

cls = correlation_classes["scipy.ndimage"]
correl = cls((24, 24), (24, 24), particle_radius=2, nb_peaks_to_search=3)
a = np.zeros((24, 24), dtype=np.float32)
a[4, 4], a[12, 18], a[18, 7] = 1.0, 0.8, 0.6
dx, dy, val, other = correl.compute_displacements_from_correl(a)
inds = [correl.compute_indices_from_displacement(p[0], p[1]) for p in other]
assert inds == [(18, 12), (7, 18)], inds
''')

seed(
    "tilted_peak", "C22",
    edits=[("calcul/subpix.py", "deply = (c11 * c10 - 2 * c01 * c20) / (4 * c20 * c02 - c11**2)", "deply = (c11 * c10 - 2 * c01 * c20) / (4 * c20 * c02)")],
    needs="a correlation peak whose axes are not along the grid",
    breaks="2d_gaussian2 refinement wrong for tilted peaks",
    demo='''
import numpy as np
from fluidimage.calcul.subpix import SubPix

rng = np.random.default_rng(0)
y, x = np.mgrid[0:11, 0:11].astype(float)
for i in range(20):
    x0, y0 = 5 + rng.uniform(-0.4, 0.4, 2)
    c = rng.uniform(-1.2, 1.2)
    a = np.exp(-((x - x0)**2 + (y - y0)**2 + c * (x - x0) * (y - y0)) / 4).astype(np.float32)
    r0 = SubPix("2d_gaussian2").compute_subpix(a, 5, 5)
    r1 = SubPix("2d_gaussian2").compute_subpix(np.ascontiguousarray(a.T), 5, 5)
    # same result when the axes are exchanged
    assert abs(r0[0] - r1[1]) < 1e-2 and abs(r0[1] - r1[0]) < 1e-2, (r0, r1)
''')

seed(
    "rect_border", "C22",
    edits=[("calcul/subpix.py", "            or ix + nsubpix + 1 > nx\n", "            or ix + nsubpix + 1 > max(nx, ny)\n")],
    needs="a correlation map with more rows than columns and a peak at its right border",
    breaks="a peak at the border is not reported as an error (other exception or wrong values)",
    demo='''
import numpy as np
from fluidimage.calcul.errors import PIVError
from fluidimage.calcul.subpix import SubPix

a = np.ones((12, 8))
a[5, 7] = 2.0
for method in ("centroid", "no_subpix"):
    try:
        r = SubPix(method, 1).compute_subpix(a, 7, 5)
    except PIVError:
        pass
    else:
        raise AssertionError(r)
''')

seed(
    "neighbors_y_valid", "C23",
    edits=[("calcul/mean_neighbors.py", "            tmp_a += arr_a[i0 + idx, i1 - 1]\n            tmp_b += arr_b[i0 + idx, i1 - 1]", "            tmp_a += arr_a[i0 + idx, i1 - 1]\n            tmp_b += arr_b[i0, i1 - 1]")],
    needs="a missing vector in the last but one column",
    breaks="the number of valid neighbours is wrong",
    demo='''
import numpy as np
from fluidimage.calcul.mean_neighbors import mean_neighbors_xy

n = 4
a = np.ones((n, n), dtype="float32")
a[0, 2] = np.nan
x, y = mean_neighbors_xy(a.ravel(), a.ravel(), np.arange(n), np.arange(n))
assert np.allclose(x.reshape(n, n)[~np.isnan(a)], 1), x
''')

seed(
    "replaced_later_pass", "C24",
    edits=[("works/piv/fix.py", """                except PIVError:
                    continue
                dx += dx_input
                dy += dy_input
""", """                except PIVError:
                    continue
                dx += dx_input
                dy += dx_input
""")],
    needs="several peaks, a later pass with an estimate with different components, and a vector replaced by one of its secondary peaks",
    breaks="the y component of the replaced vector is wrong",
    demo='''
import numpy as np
from fluidimage.data_objects.piv import HeavyPIVResults
from fluidimage.works.piv.fix import WorkFIX
from fluidimage.works.piv.multipass import WorkPIV

params = WorkPIV.create_default_params()
params.piv0.shape_crop_im0 = 16
params.piv0.nb_peaks_to_search = 2
params.piv0.method_subpix = "no_subpix"
params.fix.threshold_diff_neighbour = 2.0
params.fix.correl_min = 0.2
params.multipass.number = 1
work = WorkPIV(params)
piv = work.works_piv[0]
piv._prepare_with_image(imshape=(40, 40))
n = len(piv.ixvecs_grid)
ref = n // 2
dxs = np.full(n, 5.0, dtype="float32")
dys = np.full(n, -3.0, dtype="float32")
dxs[ref], dys[ref] = 0.0, 3.0
r = HeavyPIVResults(
    dxs, dys, piv.ixvecs_grid, piv.iyvecs_grid, {}, correls_max=np.full(n, 0.9),
    correls=[np.zeros((16, 16))] * n,
    secondary_peaks=[None] * ref + [[(0, 1, 0.8)]] + [None] * (n - ref - 1),
    params=params,
)
r.deltaxs_input = np.full(n, 5)
r.deltays_input = np.full(n, -4)
r = WorkFIX(params.fix, piv).calcul(r)
assert (r.deltaxs[ref], r.deltays[ref]) == (5.0, -3.0), (r.deltaxs[ref], r.deltays[ref])
''')

seed(
    "last_row", "C25",
    edits=[("works/piv/singlepass.py", "if iyvec_max - iyvecs[-1] > stepy // 2.5:", "if iyvec_max - iyvecs[-1] > stepx // 2.5:")],
    needs="interrogation windows much wider than high, image height such that a last row should be added",
    breaks="no last row of vectors although there is place for it",
    demo='''
from fluidimage.works.piv.multipass import WorkPIV

params = WorkPIV.create_default_params()
params.piv0.shape_crop_im0 = (8, 32)
params.piv0.grid.overlap = 0.5
work = WorkPIV(params).works_piv[0]
work._prepare_with_image(imshape=(43, 128))
assert work.iyvecs[-1] == 39, work.iyvecs
''')

seed(
    "odd_negative", "C26",
    edits=[("works/piv/singlepass.py", """        ixs0 = self.ixvecs_grid - deltaxs_input // 2
        iys0 = self.iyvecs_grid - deltays_input // 2
        ixs1 = ixs0 + deltaxs_input
        iys1 = iys0 + deltays_input
""", """        ixs0 = self.ixvecs_grid - deltaxs_input // 2
        iys0 = self.iyvecs_grid - deltays_input // 2
        ixs1 = self.ixvecs_grid + np.trunc((deltaxs_input + 1) / 2).astype(int)
        iys1 = self.iyvecs_grid + np.trunc((deltays_input + 1) / 2).astype(int)
""")],
    needs="an estimated displacement which is negative and even, for example -2 pixels",
    breaks="the two windows are not separated by the input displacement",
    demo='''
import numpy as np
from fluidimage.works.piv.multipass import WorkPIV

params = WorkPIV.create_default_params()
params.piv0.shape_crop_im0 = 16
params.multipass.number = 2
work = WorkPIV(params).works_piv[1]
work._prepare_with_image(imshape=(64, 64))
work.npad = 16
n = len(work.ixvecs_grid)
for d in range(-7, 8):
    dx, dy = np.full(n, d, dtype="int32"), np.full(n, -d, dtype="int32")
    xs, ys, x0, y0, x1, y1 = work._calcul_positions_vectors_subimages(dx, dy)
    assert (x1 - x0 == dx).all() and (y1 - y0 == dy).all(), d
''')

seed(
    "overlap_subdomains", "C27",
    edits=[("calcul/interpolate/thin_plate_spline_subdom.py", "            self.norm_coefs_new_pos_domains.append(coefs)\n            self.norm_coefs_new_pos[indices_domain] += coefs", "            self.norm_coefs_new_pos_domains.append(coefs)\n            self.norm_coefs_new_pos[indices_domain] = np.maximum(\n                self.norm_coefs_new_pos[indices_domain], coefs\n            )")],
    needs="at least two subdomains and positions in their overlap",
    breaks="the interpolated values in the overlaps of the subdomains are too large",
    demo='''
import numpy as np
from fluidimage.calcul.interpolate.thin_plate_spline_subdom import (
    ThinPlateSplineSubdom,
)

y, x = (a.ravel().astype(float) for a in np.mgrid[0:80:4, 0:80:4])
tps = ThinPlateSplineSubdom(np.vstack([y, x]), 100, 0.5, percent_buffer_area=20)
values = 1 + 0.02 * x - 0.01 * y
_, weights, _ = tps.compute_tps_weights_subdom(values.copy())
tps.init_with_new_positions(np.vstack([y, x]))
assert np.allclose(tps.interpolate(weights), values, atol=1e-3)
''')

seed(
    "one_start", "C28",
    edits=[("works/with_mask.py", """            if slices[0].start is not None:
                ys = ys + slices[0].start
        return xs, ys
""", """                if slices[0].start is not None:
                    ys = ys + slices[0].start
        return xs, ys
""")],
    needs="a crop with a start for the rows and an open start for the columns",
    breaks="the y positions are not in the coordinates of the original image",
    demo='''
import numpy as np
from fluidimage.works.piv.multipass import WorkPIV

params = WorkPIV.create_default_params()
work = WorkPIV(params).works_piv[0]
for strcrop, dx, dy in (("10:, 5:", 5, 10), (":, 5:", 5, 0), ("10:100, :", 0, 10)):
    params.mask.strcrop = strcrop
    x, y = work._xyoriginalimage_from_xymasked(np.zeros(2), np.zeros(2))
    assert (x == dx).all() and (y == dy).all(), (strcrop, x, y)
''')


seed(
    "exception_file", "C03",
    edits=[("executors/base.py", 'f"exception_{work_name}_{key}.txt"', 'f"exception_{work_name}.txt"')],
    needs="two failing items with the same work",
    breaks="the file of the first failure is overwritten by the second one: the failing item is not reported",
    demo='''
import tempfile
from pathlib import Path

from fluidimage import ParamContainer
from fluidimage.topologies.base import TopologyBase

path = Path(tempfile.mkdtemp(dir="."))
topo = TopologyBase(ParamContainer("params"), path_dir_src=path, path_dir_result=path)
queue, out = topo.add_queue("queue"), topo.add_queue("out")


class Fill:
    def fill(self, input_queue, output_queue):
        for key in ("a", "b", "c"):
            output_queue[key] = key


def fail(value):
    if value != "b":
        raise ValueError(f"wrong value {value}")
    return value


topo.add_work("fill", Fill().fill, output_queue=queue, kind=("global", "one shot"))
topo.add_work("fail", fail, input_queue=queue, output_queue=out)
topo.add_work("end", lambda value: None, input_queue=out, kind="io")
topo.compute("exec_async_sequential")
texts = [p.read_text() for p in path.rglob("exception*")]
for value in "ac":
    assert any(f"wrong value {value}" in text for text in texts), texts
''')

seed(
    "step_lost", "C04",
    edits=[("topologies/splitters.py", "self.ranges = split_range(s0[0], s0[1], s0[2], self.num_processes)", "self.ranges = split_range(s0[0], s0[1], 1, self.num_processes)")],
    needs="a subset of images with a step, divided between several processes",
    breaks="the processes also compute the images that are not selected",
    demo='''
import tempfile
from pathlib import Path

import imageio.v3 as iio
import numpy as np
from fluiddyn.util.serieofarrays import SerieOfArraysFromFiles
from fluidimage.topologies.mean import TopologyMeanImage

path = Path(tempfile.mkdtemp(dir=".")) / "im"
path.mkdir()
for i in range(8):
    iio.imwrite(path / f"im_{i}.png", np.zeros((8, 8), dtype=np.uint8))
params = TopologyMeanImage.create_default_params()
params.images.path = str(path)
params.images.str_subset = "1:8:2"
names = []
for p in TopologyMeanImage.Splitter(params, 2).iter_over_new_params():
    names += SerieOfArraysFromFiles(p.images.path, p.images.str_subset).get_name_arrays()
assert sorted(names) == [f"im_{i}.png" for i in (1, 3, 5, 7)], names
''')

seed(
    "last_recomputed", "C06",
    edits=[("topologies/piv.py", "            if not (self.path_dir_result / name_piv).exists():", "            if (\n                not (self.path_dir_result / name_piv).exists()\n                or ind_serie == self.series.ind_stop - 1\n            ):")],
    needs="mode complete, the last couple of the series already computed, step of one",
    breaks="an existing result is computed again and overwritten",
    demo='''
import tempfile
from pathlib import Path

import imageio.v3 as iio
import numpy as np
from fluidimage.data_objects.piv import get_name_piv
from fluidimage.topologies.piv import TopologyPIV

path = Path(tempfile.mkdtemp(dir=".")) / "im"
path.mkdir()
for i in range(4):
    iio.imwrite(path / f"im_{i}.png", np.zeros((8, 8), dtype=np.uint8))
params = TopologyPIV.create_default_params()
params.series.path = str(path)
params.saving.how = "complete"
topo = TopologyPIV(params, logging_level=None)
expected = []
for ind, serie in topo.series.items():
    if ind != 1:
        (topo.path_dir_result / get_name_piv(serie, prefix="piv")).touch()
    else:
        expected.append(ind)
assert topo.compute_indices_to_be_computed() == expected, topo.compute_indices_to_be_computed()
''')

seed(
    "even_subset", "C08",
    edits=[("data_objects/preproc.py", "    if Ni % 2 == 0:\n        ind_middle_start -= Nj\n", "    if Ni % 4 == 0:\n        ind_middle_start -= Nj\n")],
    needs="sliding subsets with a number of images equal to 2 or 6",
    breaks="no image is taken from the intermediate subsets: images are never saved",
    demo='''
import tempfile
from pathlib import Path

from fluiddyn.util.serieofarrays import SeriesOfArrays
from fluidimage.data_objects.preproc import get_ind_middle

path = Path(tempfile.mkdtemp(dir="."))
for i in range(9):
    (path / f"im_{i}.png").touch()
for n in (1, 2, 3, 4, 5, 6, 7):
    series = SeriesOfArrays(str(path), f"i:i+{n}")
    for serie in series:
        start, stop = get_ind_middle(serie)
        assert stop - start == 1, (n, start, stop)
''')

seed(
    "sum_16bits", "C09",
    edits=[("topologies/mean.py", "(arr.astype(np.uint32), 1)", "(arr.astype(np.uint16), 1)")],
    needs="images of 16 bits, the sum of some of which is larger than 65535",
    breaks="the mean image is wrong (overflow)",
    demo='''
import tempfile
from pathlib import Path

import imageio.v3 as iio
import numpy as np
from fluidimage.topologies.mean import TopologyMeanImage

path = Path(tempfile.mkdtemp(dir=".")) / "im"
path.mkdir()
for i in range(3):
    iio.imwrite(path / f"im_{i}.png", np.full((8, 8), 40000 + i, dtype=np.uint16))
params = TopologyMeanImage.create_default_params()
params.images.path = str(path)
params.saving.how = "recompute"
topo = TopologyMeanImage(params)
topo.compute("exec_async_sequential")
assert (abs(np.asarray(topo.result).astype(float) - 40001) <= 1).all(), topo.result
''')

seed(
    "empty_errors", "C29",
    edits=[("data_objects/piv.py", "                self.__dict__[name_dict] = dictionary\n", "                if dictionary:\n                    self.__dict__[name_dict] = dictionary\n")],
    needs="results without any error",
    breaks="the loaded results have no dictionary of errors",
    demo='''
import tempfile
from pathlib import Path

import numpy as np
from fluidimage.data_objects.piv import ArrayCouple, HeavyPIVResults, MultipassPIVResults
from fluidimage.works.piv.multipass import WorkPIV

path = Path(tempfile.mkdtemp(dir="."))
params = WorkPIV.create_default_params()
couple = ArrayCouple(
    names=("im_1.png", "im_2.png"), arrays=(np.zeros((8, 8)),) * 2, paths=["/im_1.png", "/im_2.png"]
)
for errors in ({1: "message"}, {}):
    r = HeavyPIVResults(
        np.ones(2), np.ones(2), np.arange(2), np.arange(2), dict(errors), correls_max=np.ones(2),
        couple=couple, params=params,
    )
    m = MultipassPIVResults()
    m.append(r)
    m.couple, m.params = couple, params
    name = m.save(str(path / f"res{len(errors)}.h5"))
    loaded = MultipassPIVResults(str_path=str(name))
    assert getattr(loaded.piv0, "errors", None) == errors
''')

seed(
    "open_interval", "C30",
    edits=[("postproc/vector_field.py", "indy = (ret.y >= start0) & (ret.y <= stop0)", "indy = (ret.y >= start0) & (ret.y < stop0)")],
    needs="extraction in physical coordinates with a bound equal to a position of the grid",
    breaks="the last row inside the bounds is lost",
    demo='''
import numpy as np
from fluidimage.postproc.vector_field import VectorFieldOnGrid

x, y = np.arange(4.0), np.arange(5.0)
v = np.arange(20.0).reshape(5, 4)
field = VectorFieldOnGrid(x, y, 0.0, v, -v)
f = field.extract(0.5, 3.0, 1.0, 2.5, phys=True)
assert list(f.y) == [1, 2, 3] and list(f.x) == [1, 2], (f.y, f.x)
assert (f.vx == v[1:4, 1:3]).all()
''')

seed(
    "length_of_signal", "C31",
    edits=[("postproc/util.py", "    dk = 2 * np.pi / Lx\n\n    signal_fft = (", "    dk = 2 * np.pi / (Lx - dx)\n\n    signal_fft = (")],
    needs="a check of the sum of the spectrum (small error for long signals)",
    breaks="the energy of the spectrum is not the one of the signal",
    demo='''
import numpy as np
from fluidimage.postproc.util import compute_1dspectrum

for n in (6, 64, 1024):
    x = np.arange(n) * 0.25
    signal = np.cos(2 * np.pi * 2 * x / (n * 0.25)) + 0.3
    _, omega, psd = compute_1dspectrum(x, signal)
    energy = psd.sum() * (omega[1] - omega[0])
    assert abs(energy - 0.5 * np.mean(signal**2)) < 1e-6 * energy, (n, energy, np.mean(signal**2))
''')

seed(
    "window_of_series", "C33",
    edits=[("works/preproc/_toolbox_py.py", "        window_shape = (nb_imgs,) + window_shape\n", "        window_shape = (3,) + window_shape\n")],
    needs="window given as (ny, nx) and a series of more than 3 images",
    breaks="the temporal tools do not use all the images",
    demo='''
import numpy as np
from fluidimage.works.preproc._toolbox_py import temporal_minima

rng = np.random.default_rng(0)
images = rng.integers(1, 255, (7, 3, 3)).astype(float)
a = temporal_minima(images)
b = temporal_minima(images, window_shape=(1, 1))
assert np.allclose(a, b), abs(a - b).max()
''')

seed(
    "sorted_tools", "C34",
    edits=[("works/preproc/toolbox.py", "        for tool in sequence:\n", "        for tool in sorted(\n            sequence, key=list(self.params.available_tools).index\n        ):\n")],
    needs="a sequence of tools in another order than the default one",
    breaks="tools are applied in the default order",
    demo='''
import numpy as np
from fluidimage.works.preproc import WorkPreproc

params = WorkPreproc.create_default_params()
tools = params.tools
tools.sequence = ["global_threshold", "sliding_minima"]
for name in tools.sequence:
    tools[name].enable = True
tools.global_threshold.minima = 100
tools.sliding_minima.window_size = 3
from fluidimage.works.preproc.toolbox import PreprocToolsPy

img = np.arange(25.0).reshape(1, 5, 5) * 10
out = PreprocToolsPy(params).apply(img)
expected = PreprocToolsPy.sliding_minima(
    PreprocToolsPy.global_threshold(img, minima=100), window_size=3
)
assert np.allclose(out, expected)
''')

seed(
    "square_pixels", "C35",
    edits=[("calibration/calib2d_simple.py", "        displ_phys_ys = self.yphys1pixel * displys\n", "        displ_phys_ys = self.xphys1pixel * displys\n")],
    needs="pixels that are not square",
    breaks="the vertical displacements do not agree with the positions",
    demo='''
from fluidimage.calibration.calib2d_simple import Calibration2DSimple

calib = Calibration2DSimple((0, 0), (0, 10), 5.0, aspect_ratio_pixel=2.0, shape_image=(8, 8))
x, y, dx, dy = calib.displ2phys(3, 4, 1, 2)
x1, y1 = calib.pix2phys(4, 6)
assert abs(x1 - x - dx) < 1e-12 and abs(y1 - y - dy) < 1e-12, (dx, dy, x1 - x, y1 - y)
''')

seed(
    "direction_of_sight", "C36",
    edits=[("calibration/calib_direct.py", "            if direction[2] < 0:\n", "            if direction[1] < 0:\n")],
    needs="a camera that sees the planes from a side, such that y decreases with z",
    breaks="the direction of the line of sight is reversed for some pixels",
    demo='''
import numpy as np
from fluidimage.calibration.calib_direct import CalibDirect, Interpolent

calib = object.__new__(CalibDirect)
interp = calib.interp_levels = Interpolent()
for slope in (0.5, -0.5):
    interp.Z = [0.0, 1.0, 2.0]
    interp.indices_pixel2xphys = [lambda args, z=z: np.array(0.1 * z) for z in interp.Z]
    interp.indices_pixel2yphys = [lambda args, z=z: np.array(slope * z) for z in interp.Z]
    d = calib.pixel2line(3, 4)[3:]
    assert d[2] > 0, (slope, d)
''')

seed(
    "uvmat_splines", "C37",
    edits=[("uvmat.py", "            params.multipass.smoothing_coef = action_input.patch2.field_smooth\n            params.multipass.threshold_tps = action_input.patch2.max_diff\n", "            params.multipass.smoothing_coef = action_input.patch2.max_diff\n            params.multipass.threshold_tps = action_input.patch2.field_smooth\n")],
    needs="a document with Patch2 in which the smoothing is not the maximum difference",
    breaks="smoothing and threshold of the splines are exchanged",
    demo='''
from fluidimage import ParamContainer, get_path_image_samples
from fluidimage.uvmat import ActionPIVFromUvmatXML, tidy_uvmat_instructions

path = get_path_image_samples() / "Jet/Images.civ/0_XML/instructions.xml"
instructions = ParamContainer(path_file=str(path))
tidy_uvmat_instructions(instructions)
params = ActionPIVFromUvmatXML.params_from_uvmat_xml(instructions)
assert params.multipass.smoothing_coef == 2, params.multipass.smoothing_coef
assert params.multipass.threshold_tps == 1.5
''')

seed(
    "similar_names", "C38",
    edits=[("topologies/log.py", '                if work["name"] == name:\n                    times', '                if work["name"].startswith(name):\n                    times')],
    needs="two works, the name of one of which begins as the name of the other one",
    breaks="the executions of a work are also counted for another one",
    demo='''
import tempfile
from pathlib import Path

from fluidimage import ParamContainer
from fluidimage.topologies.base import TopologyBase

path = Path(tempfile.mkdtemp(dir="."))
topo = TopologyBase(ParamContainer("params"), path_dir_src=path, path_dir_result=path)
queue, out = topo.add_queue("queue"), topo.add_queue("out")


class Fill:
    def fill(self, input_queue, output_queue):
        for key in ("a", "b", "c"):
            output_queue[key] = key


topo.add_work("fill", Fill().fill, output_queue=queue, kind=("global", "one shot"))
topo.add_work("piv", lambda value: value, input_queue=queue, output_queue=out)
topo.add_work("piv save", lambda value: None, input_queue=out, kind="io")
topo.compute("exec_async_sequential")
log = topo.read_log_data()
assert len(log.durations["piv"]) == 3, log.durations
assert len(log.durations["piv_save"]) == 3
''')


def write(ident, d):
    scratch = Path("/tmp/mkseed_repo")
    if not scratch.exists():
        subprocess.run(["git", "clone", "-q", os.environ.get("VERIF_REPO", "/repo"), str(scratch)], check=True)
    subprocess.run(
        "git fetch -q origin && git checkout -q -f --detach FETCH_HEAD", shell=True,
        cwd=scratch, check=True,
    )
    for f, old, new in d["edits"]:
        p = scratch / "src/fluidimage" / f
        s = p.read_text()
        assert s.count(old) == 1, (ident, f, old, s.count(old))
        p.write_text(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=scratch, capture_output=True, text=True)
    root = Path(__file__).resolve().parents[1]
    out = next(root.glob(f"seeded*/{ident}"), root / "seeded" / ident)
    out.mkdir(parents=True, exist_ok=True)
    (out / "patch.diff").write_text(diff.stdout)
    (out / "demo.py").write_text(d["demo"].lstrip("\n"))
    (out / "demo.sh").write_text(
        """#!/bin/sh
here=$(cd "$(dirname "$0")" && pwd)
scratch=$(mktemp -d) || exit 2
cp "$here/demo.py" "$scratch/demo.py"
cd "$scratch" || exit 2
export MPLBACKEND=agg OMP_NUM_THREADS=1 HOME="$scratch"
/opt/venv/bin/python demo.py
code=$?
rm -rf "$scratch"
exit $code
"""
    )
    meta = dict(property=d["prop"], needs=d["needs"], what_it_breaks=d["breaks"])
    (out / "meta.json").write_text(json.dumps(meta, indent=2) + "\n")
    print(ident, "ok", len(diff.stdout.splitlines()), "lines")


if __name__ == "__main__":
    names = sys.argv[1:] or list(SEEDS)
    for name in names:
        write(name, SEEDS[name])
    subprocess.run(["rm", "-rf", "/tmp/mkseed_repo"])
