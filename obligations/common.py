from mfsa.check import *


def smooth(name, seed, *vals):
    """bounded smooth pseudo-random scalar function"""
    ph = 6 * h01(seed, name, 'ph')
    for k, v in enumerate(vals):
        ph = ph + (0.3 + 0.7 * h01(seed, name, k)) * v
    return math.sin(ph.real if isinstance(ph, complex) else ph)


import math


def cond_dist(ev, x, tag='cd', n=24, spread=1.3):
    """pseudo-random discrete conditional distribution given x"""
    ck = (ev.seed, tag, n)
    if ck not in _CD:
        ws = np.array([0.2 + h01(ev.seed, tag, 'w', j) for j in range(n)])
        _CD[ck] = (ws / ws.sum(), np.array([2 * h01(ev.seed, tag, 'x', j) - 1 for j in range(n)]), np.array([6 * h01(ev.seed, tag, 'p', j) for j in range(n)]))
    ws, base, ph = _CD[ck]
    xs = spread * base + 0.4 * np.sin(x.real + ph)
    return ev.signed(ws, xs ** 2, 3), xs * ev.scale.get('cd', 1.0)


_CD = {}


def batch_cb(c, name, f, nin):
    """callback (x batch (...), rest) -> elementwise uninterpreted function"""
