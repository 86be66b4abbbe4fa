"""Different couples and subsets never share a result file."""

import fluiddyn.util.serieofarrays as soa
import fluidimage.data_objects.piv
import fluidimage.data_objects.preproc
from fluiddyn.util.serieofarrays import SerieOfArraysFromFiles, SeriesOfArrays

from checks.c04 import ShimRange
from checks.subsets import images
from checks.text import Texts
from symx.core import lnot
from symx.runner import Harness

ASSUMPTIONS = [
    "the names of the files are written by the real code with symbolic indices (their digits "
    "and letters are symbolic); the files for these indices do not have to exist",
    "within one set of series only one index changes from a series to another",
]

FILES = {
    "im_{:02d}.png": ["im_00.png", "im_01.png"],
    "im{}.png": ["im0.png", "im1.png"],
    "img{:05d}.tif": ["img00000.tif", "img00001.tif"],
    "im_{:02d}ab.png": ["im_00a.png", "im_00b.png", "im_01a.png", "im_01b.png"],
    "im_{}AB.png": ["im_0A.png", "im_0B.png", "im_1A.png", "im_1B.png"],
    "im_{}_{}.png": ["im_0_0.png", "im_0_1.png", "im_1_0.png", "im_1_1.png"],
    "im_0aa.png": ["im_0aa.png", "im_0ab.png"],
    "im_{}_{}_{}.png": [f"im_{a}_{b}_{c}.png" for a in "01" for b in "01" for c in "01"],
    "im{}.1.png": ["im0.1.png", "im1.1.png"],
    "cine": ["film_00.cine", "film_01.cine"],
}

TEXTS = None


def shim_chr(code):
    return TEXTS.chr(code) if TEXTS is not None else chr(code)


def two_series(eng, files, subset, hi, names_of, ordered=True):
    """ordered=False: any two indices, subset gives the subsets for each of them"""
    global TEXTS
    TEXTS = texts = Texts(eng)
    eng.opaque_str = texts.decimal
    i = eng.int("i", 0, hi)
    j = eng.int("j", 0, hi)
    if ordered:
        eng.assume(i < j)
    subsets = (subset, subset) if ordered else subset
    old = soa.get_nb_arrays_in_file
    soa.get_nb_arrays_in_file = lambda path: 30
    try:
        with images(FILES[files]) as path:
            result = []
            for index, subset in zip((i, j), subsets):
                series = SeriesOfArrays(
                    SerieOfArraysFromFiles(str(path / "src")), subset, ind_start=0, ind_stop=1
                )
                serie = series.get_serie_from_index(index)
                result.append(names_of(serie, index))
    finally:
        TEXTS = None
        soa.get_nb_arrays_in_file = old
    return texts, result


def plain(name):
    return "/" not in name and "\\" not in name and name not in ("", ".", "..")


def piv(eng, files, subset, hi, prefix="piv"):
    """two couples (or sets of images) of the same series: two names"""
    texts, names = two_series(
        eng, files, subset, hi,
        lambda serie, index: fluidimage.data_objects.piv.get_name_piv(serie, prefix=prefix),
    )
    eng.check(lnot(texts.equal(*names)), "different files", str(names))
    eng.check(
        all(plain(n) and n.endswith(".h5") and n.startswith(prefix) for n in names),
        "valid name of file",
    )


def lengths(eng, files, subsets, hi):
    """series with the same or other first images and other numbers of images"""
    texts, names = two_series(
        eng, files, subsets, hi,
        lambda serie, index: fluidimage.data_objects.piv.get_name_piv(serie, prefix="piv"),
        ordered=False,
    )
    eng.check(lnot(texts.equal(*names)), "different files", str(names))


def bos(eng, files, subset, hi):
    """two images: two names"""

    def names_of(serie, index):
        name = fluidimage.data_objects.piv.get_name_bos(serie.get_name_arrays()[0], serie)
        return name

    texts, names = two_series(eng, files, subset, hi, names_of)
    eng.check(lnot(texts.equal(*names)), "different files", str(names))
    eng.check(
        all(plain(n) and n.endswith(".h5") and n.startswith("bos") for n in names),
        "valid name of file",
    )


def preproc(eng, files, subset, hi, out_format="img"):
    """two subsets among others: two names, of images of the subsets"""
    nb = eng.int("nb", 2, None)
    images_of = []

    def names_of(serie, index):
        eng.assume(index < nb)
        names = serie.get_name_arrays()
        images_of.append(names)
        return fluidimage.data_objects.preproc.get_name_preproc(
            serie, names, index, nb, out_format
        )

    texts, names = two_series(eng, files, subset, hi, names_of)
    eng.check(lnot(texts.equal(*names)), "different files", str(names))
    eng.check(all(plain(n) for n in names), "valid name of file")
    if out_format == "img":
        eng.check(
            all(n in im for n, im in zip(names, images_of)), "named after one of its images"
        )
    else:
        roots = [[m.replace(".png", "").replace(".cine[", "_").rstrip("]") for m in im]
                 for im in images_of]
        eng.check(
            all(n.rsplit(".", 1)[0] in r for n, r in zip(names, roots)),
            "named after one of its images", str((names, images_of)),
        )


SHIMS = dict(
    extra=[(soa.__dict__, "range", ShimRange), (soa.__dict__, "chr", shim_chr),
           (fluidimage.data_objects.preproc.__dict__, "range", ShimRange)],
)
LABELS = ["different files", "valid name of file"]

HARNESSES = [
    Harness(
        piv,
        quick=[
            dict(files="im_{:02d}.png", subset="i:i+2", hi=2000),
            dict(files="im{}.png", subset="i:i+2", hi=2000),
            dict(files="im{}.png", subset="i:i+4:2", hi=2000),
            dict(files="im{}.png", subset="i:i+1", hi=2000, prefix="opt"),
            dict(files="img{:05d}.tif", subset="3*i:3*i+2", hi=2000),
            dict(files="im_{:02d}ab.png", subset="i,0:2", hi=2000),
            dict(files="im_{:02d}ab.png", subset="i:i+2,1", hi=2000),
            dict(files="im_{}AB.png", subset="i,0:2", hi=2000),
            dict(files="im_{}AB.png", subset="1,i:i+2", hi=700),
            dict(files="im_0aa.png", subset="0,i:i+2", hi=600),
            dict(files="im_{}_{}.png", subset="i,0:2", hi=2000),
            dict(files="im_{}_{}.png", subset="1,i:i+2", hi=2000),
            dict(files="im_{}_{}.png", subset="i:i+2,1", hi=2000),
            dict(files="im_{}_{}_{}.png", subset="1,i,0:2", hi=2000),
            dict(files="im_{}_{}_{}.png", subset="0,1,i:i+2", hi=2000),
            dict(files="cine", subset="0,i:i+2", hi=2000),
            dict(files="cine", subset="i,0:2", hi=2000),
        ],
        thorough=[
            dict(files="im{}.png", subset="i:i+2", hi=99999),
            dict(files="im_{}_{}_{}.png", subset="i,12,10:12", hi=10**5),
        ],
        labels=LABELS,
        bounds="two different indices up to 2000 (99999) written with any number of digits or "
        "letters, one to three indices, couples and their steps",
        shims=SHIMS,
    ),
    Harness(
        lengths,
        quick=[
            dict(files="im{}.png", subsets=("i:i+2", "i:i+102"), hi=2000),
            dict(files="im{}.png", subsets=("i:i+2", "i:i+12"), hi=2000),
            dict(files="im_{:02d}.png", subsets=("i:i+3", "i:i+1003"), hi=2000),
            dict(files="im_{}_{}.png", subsets=("1,i:i+2", "1,i:i+12"), hi=200),
        ],
        thorough=[],
        labels=["different files"],
        bounds="two different indices up to 2000, two numbers of images",
        shims=SHIMS,
    ),
    Harness(
        bos,
        quick=[
            dict(files="im_{:02d}.png", subset="i:i+1", hi=2000),
            dict(files="im_{}AB.png", subset="i,1", hi=2000),
            dict(files="im_{}AB.png", subset="1,i", hi=700),
            dict(files="im_{}_{}_{}.png", subset="1,i,1", hi=2000),
            dict(files="im{}.1.png", subset="i", hi=2000),
            dict(files="cine", subset="0,i", hi=29),
            dict(files="cine", subset="i,5", hi=2000),
        ],
        thorough=[],
        labels=LABELS,
        bounds="two different images, indices up to 2000",
        shims=SHIMS,
    ),
    Harness(
        preproc,
        quick=[
            dict(files="im_{:02d}.png", subset="i:i+1", hi=2000),
            dict(files="im{}.png", subset="i:i+3", hi=2000),
            dict(files="im{}.png", subset="i:i+3", hi=2000, out_format="h5"),
            dict(files="im{}.png", subset="i:i+2", hi=2000, out_format="tiff"),
            dict(files="im_{:02d}ab.png", subset="i,0:2", hi=2000),
            dict(files="im_{}_{}.png", subset="i:i+2,0:2", hi=2000, out_format="hdf5"),
            dict(files="cine", subset="0,i", hi=29, out_format="h5"),
            dict(files="cine", subset="0,i", hi=29),
        ],
        thorough=[],
        labels=LABELS + ["named after one of its images"],
        bounds="two different subsets among any number of them",
        shims=SHIMS,
    ),
]
