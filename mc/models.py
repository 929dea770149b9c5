"""Small independent reference models shared by the checks."""
import itertools, math
import numpy as np
from scipy import ndimage as ndi

FOUR = ndi.generate_binary_structure(2, 1)
EIGHT = ndi.generate_binary_structure(2, 2)


def bits(i, h, w):
    """The i-th binary h x w image."""
    n = h * w
    return ((i >> np.arange(n, dtype=np.int64)) & 1).astype(bool).reshape(h, w)


def bits_many(lo, hi, h, w):
    v = np.arange(lo, hi, dtype=np.int64)
    return ((v[:, None] >> np.arange(h * w, dtype=np.int64)) & 1).astype(bool).reshape(hi - lo, h, w)


def shapes(maxpix, maxside=None):
    return [(h, w) for h in range(1, maxpix + 1) for w in range(1, maxpix + 1)
            if h * w <= maxpix and (maxside is None or max(h, w) <= maxside)]


def tile(imgs, gap=1):
    """Put n images of equal size on one canvas, separated by `gap` zero pixels."""
    n, h, w = imgs.shape
    cols = max(1, int(math.sqrt(n * h / w)))
    rows = -(-n // cols)
    pad = np.zeros((rows * cols, h + gap, w + gap), imgs.dtype)
    pad[:n, :h, :w] = imgs
    c = pad.reshape(rows, cols, h + gap, w + gap).transpose(0, 2, 1, 3).reshape(rows * (h + gap), cols * (w + gap))
    out = np.zeros((c.shape[0] + gap, c.shape[1] + gap), imgs.dtype)
    out[gap:, gap:] = c
    return out


def variants(a, kinds):
    """The same array in different dtypes / memory layouts."""
    for k in kinds:
        if k == "F":
            yield k, np.asfortranarray(a)
        elif k == "strided":
            b = np.zeros((a.shape[0] * 2, a.shape[1] * 3), a.dtype)
            b[::2, ::3] = a
            yield k, b[::2, ::3]
        elif k == "flipped":
            yield k, np.ascontiguousarray(a[::-1, ::-1])[::-1, ::-1]
        elif k == "transposed":
            yield k, np.ascontiguousarray(a.T).T
        else:
            yield k, a.astype(k)


LAYOUTS = ["C", "F", "last_axis", "strided", "flipped", "swapped", "readonly", "offset"]


def laid_out(a, k):
    """The same array (any number of axes) in another memory layout."""
    if k == "F":
        return np.asfortranarray(a)
    if k == "last_axis":                            # the first axis is the last one in memory, as of (H, W, K) data
        return np.moveaxis(np.ascontiguousarray(np.moveaxis(a, 0, -1)), -1, 0)
    if k == "strided":
        b = np.zeros(tuple(n * 2 for n in a.shape), a.dtype)
        s = tuple(slice(None, None, 2) for _ in a.shape)
        b[s] = a
        return b[s]
    if k == "flipped":
        s = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[s])[s]
    if k == "swapped":
        return np.swapaxes(np.ascontiguousarray(np.swapaxes(a, -1, -2)), -1, -2)
    if k == "offset":                               # inside of a larger array
        b = np.ones(tuple(n + 3 for n in a.shape), a.dtype)
        s = tuple(slice(1, 1 + n) for n in a.shape)
        b[s] = a
        return b[s]
    a = np.array(a, order="C")
    if k == "readonly":
        a.flags.writeable = False
    return a


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
