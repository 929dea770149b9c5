"""Small dataset trees on disk, written with independent code (PIL, scipy only)."""
import os, shutil, tempfile
import numpy as np
from PIL import Image
from core import scratch


def tmpdir():
    return tempfile.mkdtemp(dir=scratch())


def put(path, arr=None, text=None):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if text is not None:
        with open(path, "w") as f:
            f.write(text)
    else:
        Image.fromarray(arr).save(path, compress_level=1)
    return path


def rgb(stack):
    """K x h x w binary -> RGB code image (bit k = class k, most significant byte in red)."""
    v = np.zeros(stack.shape[1:], np.int64)
    for k in range(stack.shape[0]):
        v |= (stack[k] != 0).astype(np.int64) << k
    return np.stack([(v >> 16) & 255, (v >> 8) & 255, v & 255], -1).astype(np.uint8)


def nearest(a, hw):
    """PIL's nearest-neighbour sampling of a 2-D array or a K x h x w stack."""
    a = np.asarray(a)
    if a.ndim == 3:
        return np.stack([nearest(x, hw) for x in a])
    dt = a.dtype
    im = Image.fromarray(a.astype(np.int32))
    return np.array(im.resize((hw[1], hw[0]), Image.Resampling.NEAREST)).astype(dt)


def scaled(shape, s):
    return int(shape[0] * s + 0.5), int(shape[1] * s + 0.5)


SBD_EDGE = {(False, False): "_raw_edge.png", (True, False): "_thin_edge.png", (False, True): "_raw_isedge.png", (True, True): "_thin_isedge.png"}
REANNO_EDGE = {k: "_reanno" + v for k, v in SBD_EDGE.items()}
CITY_EDGE = {k: "_gtProc" + v for k, v in SBD_EDGE.items()}
HALF_EDGE = {k: "_gtProc_half" + v for k, v in SBD_EDGE.items()}


def write_bsds_gt(path, maps):
    from scipy.io import savemat
    os.makedirs(os.path.dirname(path), exist_ok=True)
    cell = np.empty((1, len(maps)), dtype=object)
    for i, m in enumerate(maps):
        cell[0, i] = dict(Segmentation=np.ones(m.shape, np.uint16), Boundaries=m.astype(np.uint8))
    savemat(path, dict(groundTruth=cell))


def gray(a):
    return np.round(np.asarray(a) * 255).astype(np.uint8)
