"""Plain numpy semantics of the TensorFlow operations, used as oracles (integers stay exact)."""
import math

import numpy as np


def out_dim(n, k, s, padding):
    return math.ceil(n / s) if padding == "SAME" else math.ceil((n - k + 1) / s)


def pads(n, k, s, padding):
    if padding == "VALID":
        return 0, 0
    t = max((math.ceil(n / s) - 1) * s + k - n, 0)
    return t // 2, t - t // 2


def patches(x, k, s, padding, fill=0):
    """x: NCHW -> [N, OH, OW, KH, KW, C]."""
    x = np.asarray(x)
    n, c, h, w = x.shape
    ph, pw = pads(h, k[0], s[0], padding), pads(w, k[1], s[1], padding)
    xp = np.pad(x, ((0, 0), (0, 0), ph, pw), constant_values=fill) if x.dtype != object else _opad(x, ph, pw, fill)
    oh, ow = out_dim(h, k[0], s[0], padding), out_dim(w, k[1], s[1], padding)
    out = np.empty((n, oh, ow, k[0], k[1], c), dtype=x.dtype)
    for i in range(oh):
        for j in range(ow):
            out[:, i, j] = xp[:, :, i * s[0]:i * s[0] + k[0], j * s[1]:j * s[1] + k[1]].transpose(0, 2, 3, 1)
    return out


def _opad(x, ph, pw, fill):
    n, c, h, w = x.shape
    o = np.full((n, c, h + sum(ph), w + sum(pw)), fill, dtype=object)
    o[:, :, ph[0]:ph[0] + h, pw[0]:pw[0] + w] = x
    return o


def conv2d(x, w, s, padding):
    """x NCHW, w HWIO -> NCHW."""
    kh, kw, ci, co = w.shape
    p = patches(x, (kh, kw), s, padding)
    n, oh, ow = p.shape[:3]
    m = p.reshape(n * oh * ow, -1)
    r = m.dot(w.reshape(-1, co))
    return r.reshape(n, oh, ow, co).transpose(0, 3, 1, 2)


def im2patches(x, k, s, padding):
    p = patches(x, k, s, padding)
    n, oh, ow = p.shape[:3]
    return p.reshape(n, oh, ow, -1).transpose(0, 3, 1, 2)


def im2col(x, k, s, padding):
    """Rows (C, KH, KW), columns (OH, OW, N)."""
    p = patches(x, k, s, padding)
    n, oh, ow, kh, kw, c = p.shape
    return p.transpose(5, 3, 4, 1, 2, 0).reshape(c * kh * kw, oh * ow * n)


def patches2im(y, k, s, padding, size):
    """Adjoint of im2patches: y [N, KH*KW*C, OH, OW] -> [N, C, H, W]."""
    h, w = size
    n, d, oh, ow = y.shape
    c = d // (k[0] * k[1])
    ph, pw = pads(h, k[0], s[0], padding), pads(w, k[1], s[1], padding)
    hp, wp = max(h + sum(ph), (oh - 1) * s[0] + k[0]), max(w + sum(pw), (ow - 1) * s[1] + k[1])
    o = np.zeros((n, c, hp, wp), dtype=y.dtype)
    q = y.transpose(0, 2, 3, 1).reshape(n, oh, ow, k[0], k[1], c)
    for i in range(oh):
        for j in range(ow):
            o[:, :, i * s[0]:i * s[0] + k[0], j * s[1]:j * s[1] + k[1]] += q[:, i, j].transpose(0, 3, 1, 2)
    return o[:, :, ph[0]:ph[0] + h, pw[0]:pw[0] + w]


def avgpool(x, k, s, padding, count_pad=False):
    p = patches(np.asarray(x, dtype=np.float64), k, s, padding)
    n, oh, ow, kh, kw, c = p.shape
    cnt = patches(np.ones_like(np.asarray(x, dtype=np.float64)), k, s, padding).sum(axis=(3, 4))
    t = p.sum(axis=(3, 4)) / (kh * kw if count_pad else cnt)
    return t.transpose(0, 3, 1, 2)


def maxpool(x, k, s, padding, fill=None):
    x = np.asarray(x)
    if fill is None:
        fill = x.min() - 1
    p = patches(x, k, s, padding, fill)
    return p.max(axis=(3, 4)).transpose(0, 3, 1, 2)
