"""Reference counts for one image, from the definitions (used by P03, P04, P05, P18)."""
import math
import numpy as np
from p02 import cost_matrix, optimum


def tol_px(shape, md):
    return md * math.sqrt(shape[0] ** 2 + shape[1] ** 2)


def matches(p, g, md):
    """Number of matched pairs in the best pairing; None outside the complete regime."""
    pa, pb = np.argwhere(p), np.argwhere(g)
    if not len(pa) or not len(pb):
        return 0
    c, ok = cost_matrix(pa, pb, tol_px(p.shape, md))
    n1, n2 = int(ok.any(1).sum()), int(ok.any(0).sum())
    if min(n1, n2) > 6 or max(n1, n2) > 7:
        return None
    return optimum(c, ok)[0]


def kill(p, g, seg, md):
    """Definition of internal removal, pixel by pixel."""
    if not g.any():
        return p.copy()
    t = tol_px(p.shape, md)
    gy = np.argwhere(g)
    out = p.copy()
    for y, x in np.argwhere(p & seg):
        if (((gy - (y, x)) ** 2).sum(1) > t * t + 1e-9).all():
            out[y, x] = False
    return out


def counts(thresholds, pred, gt, md, thin, nms=False, nms_kwargs=None, seg=None, kill_internal=False, skip=False):
    from pyEdgeEval.preprocess import binary_thin, fast_nms
    n = len(thresholds)
    z = [np.zeros(n) for _ in range(4)]
    g = np.asarray(gt).astype(bool)
    if skip and not g.any():
        return z
    if nms:
        pred = fast_nms(img=pred, **nms_kwargs)
    for i, t in enumerate(thresholds):
        p = np.asarray(pred) >= t
        if thin:
            p = np.asarray(binary_thin(p)).astype(bool)
        if kill_internal:
            p = kill(p, g, seg, md)
        m = matches(p, g, md)
        if m is None:
            return None
        z[0][i], z[1][i], z[2][i], z[3][i] = m, g.sum(), m, p.sum()
    return z
