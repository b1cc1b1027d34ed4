"""Generators of images and models for the Python package, and the core library."""
import copy, ctypes, os, sys
import numpy as np
import arcticpy
from arcticpy import (CCD, CCDPhase, ROE, ROEChargeInjection, ROETrapPumping, TrapInstantCapture, TrapSlowCapture,
                      TrapInstantCaptureContinuum, TrapSlowCaptureContinuum)
from engine import check, Fail, Discard

_core = None


def core():
    global _core
    if _core is None:
        _core = ctypes.CDLL(os.path.join(os.path.dirname(os.path.dirname(arcticpy.__file__)), "core.so"))
        _core.core_volume.restype = ctypes.c_double
        _core.core_volume.argtypes = [ctypes.c_double] * 5
    return _core


def gen_values(s, rows, cols, negative=True):
    im = np.zeros((rows, cols))
    kind = s.draw(4)
    base = s.pick([0, 0, 50, 1000])
    for i in range(rows):
        for j in range(cols):
            if kind == 0:
                v = 0 if s.draw(3) else s.pick([10, 100, 800, 2000])
            elif kind == 1:
                v = s.draw(2000)
            elif kind == 2:
                v = s.logreal(0.01, 2e4)
            else:
                v = s.real(-50, 500) if negative else s.real(0, 500)
            im[i, j] = base + v
    return im


def sizes(s, rows, cols, longest, both=False):
    """Mostly small images, and a few with long rows or columns (or both)"""
    if not s.flag(1, 40):
        return s.small(1, rows), s.small(1, cols)
    long = int(s.logreal(20, longest))
    kind = s.draw(3)
    if kind == 0:
        return s.small(1, 3), long
    if kind == 1 or not both:
        return long, s.small(1, 3)
    return long // 4 + 1, int(s.logreal(2, longest)) // 4 + 1


def quick_values(s, rows, cols):
    """As gen_values, for large images"""
    if rows * cols <= 150:
        return gen_values(s, rows, cols)
    rng = s.nprng()
    kind = s.draw(3)
    base = s.pick([0, 0, 50, 1000])
    if kind == 0:
        return base + np.where(rng.random((rows, cols)) < s.logreal(0.003, 0.3), 1, 0) * rng.choice([10.0, 100.0, 800.0, 2000.0], (rows, cols))
    if kind == 1:
        return base + rng.integers(0, 2000, (rows, cols)) * 1.0
    return base + rng.uniform(-50, 500, (rows, cols))


LAYOUTS = ["C", "F", "strided", "reversed", "transposed", "read-only", "subclass", "offset"]


def lay_out(s, im):
    """The same values in another memory layout"""
    kind = s.pick(LAYOUTS)
    if kind == "F":
        im = np.asfortranarray(im)
    elif kind == "strided":
        big = np.full((im.shape[0] * 2, im.shape[1] * 3), 7, dtype=im.dtype)
        big[::2, ::3] = im
        im = big[::2, ::3]
    elif kind == "reversed":
        im = im[::-1, ::-1].copy()[::-1, ::-1]
    elif kind == "transposed":
        im = im.T.copy().T
    elif kind == "read-only":
        im = im.copy()
        im.flags.writeable = False
    elif kind == "subclass":
        from arcticpy.cti import ndarray_plus
        im = ndarray_plus(im.copy())
    elif kind == "offset":
        big = np.full((im.shape[0] + 2, im.shape[1] + 2), -3, dtype=im.dtype)
        big[1:-1, 1:-1] = im
        im = big[1:-1, 1:-1]
    return im, kind


DTYPES = ["float64", "float64", "float32", "int64", "int32", "int16", "uint16", "uint8", "bool", ">f4", ">i2", "float16", "longdouble"]


def cast(s, im):
    t = s.pick(DTYPES)
    if t == "uint8":
        im = np.clip(im, 0, 255)
    elif t.startswith("uint"):
        im = np.clip(im, 0, 65535)
    elif t in ("int16", ">i2"):
        im = np.clip(im, -32768, 32767)
    elif t == "float16":
        im = np.clip(im, -6e4, 6e4)
    return im.astype(t), t


class Dir:
    """One direction's objects and options"""
    pass


def gen_dir(s, n, kinds=(0, 0, 0, 1, 2), continuum=True, windows=True):
    d = Dir()
    d.type = s.pick(kinds)
    d.phases = s.range(1, 3) if s.flag(1, 4) else 1
    steps = 2 * d.phases if d.type == 2 else d.phases
    dwell = [s.logreal(0.2, 3)] * steps
    if s.flag(1, 4):
        dwell = [s.logreal(0.2, 3) for _ in range(steps)]
    args = {}
    d.win0, d.win1 = 0, -1
    d.offset = s.small(0, 9) if s.flag(1, 3) else 0
    if d.type == 2:
        d.roe = ROETrapPumping(dwell_times=dwell, n_pumps=s.range(1, 5), empty_traps_for_first_transfers=s.flag(1, 3),
                               use_integer_express_matrix=s.flag(1, 3))
        d.win0 = s.draw(n)
        d.win1 = d.win0 + 1
        d.offset = 0
    else:
        args = dict(dwell_times=dwell, prescan_offset=s.small(0, 6) if s.flag(1, 3) else 0,
                    overscan_start=s.range(2, n + 3) if s.flag(1, 4) else -1,
                    empty_traps_between_columns=not s.flag(1, 3), force_release_away_from_readout=not s.flag(1, 4),
                    use_integer_express_matrix=s.flag(1, 3), prescan_length=s.draw(5), read_noise=s.draw(5))
        if d.type == 0:
            d.roe = ROE(empty_traps_for_first_transfers=s.flag(1, 3), **args)
        else:
            d.roe = ROEChargeInjection(**args)
        if windows and s.flag(1, 4):
            d.win0 = s.draw(n)
            d.win1 = s.range(d.win0 + 1, n)
    # (how much of the well no electrons fill)
    first = (lambda: s.pick([0.0, 0.001, 0.02])) if s.flag(1, 6) else lambda: 0.0
    if d.phases == 1:
        d.ccd = (CCD(full_well_depth=s.logreal(500, 1e5), well_notch_depth=s.pick([None, 0.0, 20.0]),
                     well_fill_power=s.pick([None, 1.0, 0.478, 0.8]), first_electron_fill=s.pick([None, first()]))
                 if s.flag(1, 2) else CCD([CCDPhase(s.logreal(500, 1e5), s.pick([0.0, 20.0]), s.pick([1.0, 0.478, 0.8]), first())]))
    else:
        fr = np.array([s.real(0.1, 1) for _ in range(d.phases)])
        d.ccd = CCD([CCDPhase(s.logreal(500, 1e5), s.pick([0.0, 20.0]), s.pick([1.0, 0.478, 0.8]), first()) for _ in range(d.phases)],
                    list(fr / fr.sum()))
    d.traps = []
    for _ in range(s.range(5, 9) if s.flag(1, 30) else s.range(1, 4)):
        k = s.draw(2) if not (continuum and s.flag(1, 25)) else 2 + s.draw(2)
        rho, tau, capt, sig = s.logreal(0.1, 100), s.logreal(0.3, 30), s.pick([0.0, 0.01, 0.3, 2.0]), s.real(0.05, 1)
        if k == 0:
            none = s.pick([0.0, 0.0, 0.2])
            t = TrapInstantCapture(rho, tau, none, s.pick([0.4, 0.7]) if none else 0.0)
        elif k == 1:
            t = TrapSlowCapture(rho, tau, capt)
        elif k == 2:
            t = TrapInstantCaptureContinuum(rho, tau, sig)
        else:
            t = TrapSlowCaptureContinuum(rho, tau, sig, max(capt, 0.01))
        d.traps.append(t)
    d.express = s.pick([0, 1, 2, 5, 50])
    d.prune = (1e-10, 20) if s.flag(1, 2) else s.pick([(0, 0), (1e-3, 1), (1e-6, 3)])
    return d


def show_dir(d):
    if d is None:
        return "none"
    v = lambda o: {k: (x.tolist() if isinstance(x, np.ndarray) else x) for k, x in vars(o).items()}
    return "{%s%s phases=%s frac=%s traps=%s express=%d offset=%d window=[%d,%d) prune=%s}" % (
        type(d.roe).__name__, v(d.roe), [v(p) for p in d.ccd.phases], d.ccd.fraction_of_traps_per_phase.tolist(),
        [(type(t).__name__[4:], v(t)) for t in d.traps], d.express, d.offset, d.win0, d.win1, d.prune)


def kwargs_of(par, ser, use_default_prune=True):
    k = {}
    for name, d in (("parallel", par), ("serial", ser)):
        if d is None:
            continue
        k[name + "_roe"], k[name + "_ccd"], k[name + "_traps"] = d.roe, d.ccd, d.traps
        k[name + "_express"], k[name + "_window_offset"] = d.express, d.offset
        k[name + "_window_start"], k[name + "_window_stop"] = d.win0, d.win1
        if d.prune != (1e-10, 20):
            k[name + "_prune_n_electrons"], k[name + "_prune_frequency"] = d.prune
    return k


WINDOWS = {"_window_offset": 0, "_window_start": 0, "_window_stop": -1, "_express": 0}


def lean(s, k, defaults=None):
    """Sometimes, without the arguments that are the documented defaults"""
    if not s.draw(2):
        return k
    def usual(name, v):
        if defaults is not None:
            return name in defaults and v == defaults[name]
        d = next((x for x in WINDOWS if name.endswith(x)), None)
        return d is not None and v == WINDOWS[d]
    return {n: v for n, v in k.items() if not usual(n, v)}


def spread(iterate, base, scale):
    """How far a removal's result moves when the estimates move by rounding: iterate(base, noise) with and without noise in
    each estimate. Small clouds magnify it, as a power below one of their electrons, and levels of traps that meet exactly even
    more."""
    rng = np.random.default_rng(1)
    want = iterate(base, lambda x: x)
    worst = 0.0
    for _ in range(3):
        other = iterate(base, lambda x: x + 1e-14 * scale * rng.normal(0, 1, x.shape))
        if not np.all(np.isfinite(other)):
            raise Discard()
        worst = max(worst, float(np.max(np.abs(other - want))))
    return want, worst


def spec_dir(d):
    if d is None:
        return [0]
    r = d.roe
    out = [1, d.type, len(r.dwell_times), *r.dwell_times, r.prescan_offset, r.overscan_start,
           bool(r.empty_traps_between_columns), bool(r.empty_traps_for_first_transfers),
           bool(r.force_release_away_from_readout), bool(r.use_integer_express_matrix), r.n_pumps, len(d.ccd.phases)]
    for f, p in zip(d.ccd.fraction_of_traps_per_phase, d.ccd.phases):
        out += [f, p.full_well_depth, p.well_notch_depth, p.well_fill_power, p.first_electron_fill]
    groups = [[t for t in d.traps if type(t) is c] for c in
              (TrapInstantCapture, TrapSlowCapture, TrapInstantCaptureContinuum, TrapSlowCaptureContinuum)]
    out += [len(g) for g in groups]
    for t in groups[0]:
        out += [t.density, t.release_timescale, t.fractional_volume_none_exposed, t.fractional_volume_full_exposed]
    for t in groups[1]:
        out += [t.density, t.release_timescale, t.capture_timescale, 0]
    for t in groups[2]:
        out += [t.density, t.release_timescale, t.release_timescale_sigma, 0]
    for t in groups[3]:
        out += [t.density, t.release_timescale, t.release_timescale_sigma, t.capture_timescale]
    return out + [d.express, d.offset, d.win0, d.win1, d.prune[0], d.prune[1]]


def core_cti(im, par, ser, iterations=-1, allow_negative=1, par_window=(0, -1), ser_window=(0, -1)):
    a = np.array(im, dtype=np.float64, order="C")
    spec = spec_dir(par) + spec_dir(ser)
    if par is None:
        spec += list(par_window)
    if ser is None:
        spec += list(ser_window)
    spec = np.array(spec, dtype=np.float64)
    core().core_cti(a.ctypes.data_as(ctypes.c_void_p), a.shape[0], a.shape[1], spec.ctypes.data_as(ctypes.c_void_p),
                    int(iterations), int(allow_negative))
    return a


def snapshot(*objs):
    def f(o):
        if isinstance(o, np.ndarray):
            return ("array", str(o.dtype), o.shape, o.tobytes())
        if isinstance(o, (list, tuple)):
            return (type(o).__name__, [f(x) for x in o])
        if hasattr(o, "__dict__"):
            return (type(o).__name__, id(o), {k: f(v) for k, v in vars(o).items() if k in ("_sigma",) or not k.startswith("_")})  # (what is cached privately is no parameter)
        return repr(o)
    return [f(o) for o in objs]


def close(a, b, tol, what, scale=None):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    check(a.shape == b.shape, "%s: shape %s, not %s", what, a.shape, b.shape)
    if a.size == 0:
        return 0.0
    check(np.all(np.isfinite(a) | ~np.isfinite(b)), "%s: not finite: %s", what, a.tolist())
    sc = (1 + np.max(np.abs(b))) if scale is None else scale
    d = np.abs(a - b)
    worst = float(np.max(d)) / sc
    if not worst <= tol:
        i = np.unravel_index(np.argmax(d), d.shape)
        raise Fail("%s: [%s] is %.12g, not %.12g (all: %s, not %s)" %
                   (what, ",".join(map(str, i)), a[i], b[i], a.tolist() if a.size < 60 else "...", b.tolist() if b.size < 60 else "..."))
    return worst / tol if tol else 0.0
