"""C24: pixel bounce."""
import contextlib, io
import numpy as np
from arcticpy import PixelBounce, add_cti, add_pixel_bounce, remove_cti, remove_pixel_bounce
from engine import Prop, check
from common import *


def response(pb, n):
    """The damped oscillator whose voltages in the two pixels before an impulse would have been kA - kv and kA - 2 kv"""
    x1, x2 = pb.kA - pb.kv, pb.kA - 2 * pb.kv
    g, w = pb.gamma, pb.omega
    t = np.arange(n)
    if abs(np.sin(w)) > 0.05 and g < 3:
        m = np.array([[np.cos(w), -np.sin(w)], [np.cos(2 * w), -np.sin(2 * w)]])
        a, b = np.linalg.solve(m, [x1 * np.exp(-g), x2 * np.exp(-2 * g)])
        return np.exp(-g * t) * (a * np.cos(w * t) + b * np.sin(w * t))
    h = [x2, x1]
    for _ in range(n):
        h.append(2 * np.exp(-g) * np.cos(w) * h[-1] - np.exp(-2 * g) * h[-2])
    return np.array(h[2:])


def model_bias(bounces, im, pw=(0, -1), sw=(0, -1)):
    im = np.array(im, dtype=np.float64)
    ny, nx = im.shape
    p1, s1 = ny if pw[1] == -1 else pw[1], nx if sw[1] == -1 else sw[1]
    out = np.zeros((ny, nx))
    for pb in bounces:
        h = response(pb, nx)
        for i in range(pw[0], p1):
            d = np.diff(im[i, sw[0]:s1])
            for j, v in enumerate(d):
                # each change of signal rings in its own pixel and those after it
                out[i, sw[0] + 1 + j:s1] += v * h[:s1 - sw[0] - 1 - j]
    return out


def gen_bounce(s):
    kind = s.draw(5)
    kA, kv = s.real(-0.05, 0.05), s.real(-0.05, 0.05)
    if kind == 1:
        kv = 0.0
    elif kind == 2:
        kA = 0.0
    elif kind == 3 and s.flag(1, 3):
        kA = kv = 0
    elif kind == 3 and s.flag(1, 2):
        kA, kv = s.pick([(0, 1), (1, 0), (1, 1), (0, -1), (-1, 0), (0, 0.5)])
    elif kind == 4:
        kA, kv = s.real(-0.5, 0.5), s.real(-0.5, 0.5)
    g = s.pick([0, 1.0, 0.1]) if s.flag(1, 3) else s.logreal(0.01, 5)
    w = s.pick([0, 1.0, np.pi, 2 * np.pi]) if s.flag(1, 3) else s.logreal(0.01, 8)
    if s.flag(1, 4):
        return PixelBounce(kA, kv, g, w)
    return PixelBounce(**lean(s, dict(kA=kA, kv=kv, gamma=g, omega=w), dict(kA=0, kv=0, gamma=1, omega=1)))


def c24(s, c):
    rows, cols = sizes(s, 8, 14, 2000)
    if rows * cols > 150:
        c.label("large image")
    im, dtype = cast(s, quick_values(s, rows, cols))
    im, layout = lay_out(s, im)
    bounces = [gen_bounce(s) for _ in range(s.range(1, 3))]
    pw, sw = (0, -1), (0, -1)
    if s.flag(1, 3):
        a = s.draw(rows)
        pw = (a, s.range(a + 1, rows))
    if s.flag(1, 3):
        a = s.draw(cols)
        sw = (a, s.range(a + 1, cols))
    kw = dict(parallel_window_start=pw[0], parallel_window_stop=pw[1], serial_window_start=sw[0], serial_window_stop=sw[1], verbosity=0)
    kw = lean(s, kw)
    c.describe("%s %s image %s, bounces %s windows %s %s" % (dtype, layout, np.asarray(im, float).tolist(), [vars(p) for p in bounces], pw, sw))
    before = snapshot(im, bounces)
    base = np.array(im, dtype=np.float64)
    bias = model_bias(bounces, base, pw, sw)
    scale = 1 + np.max(np.abs(base)) + np.max(np.abs(bias))
    tol = 1e-9
    got = add_pixel_bounce(im, pixel_bounce_list=bounces, **kw)
    c.metric("list", close(got, base - bias, tol, "bounced image", scale))
    check(isinstance(got, np.ndarray) and not np.shares_memory(got, im), "the image is bounced in place")
    r0, r1 = pw[0], rows if pw[1] == -1 else pw[1]
    c0, c1 = sw[0], cols if sw[1] == -1 else sw[1]
    outside = np.ones((rows, cols), bool)
    outside[r0:r1, c0 + 1:c1] = False
    check(np.array_equal(np.asarray(got)[outside], base[outside]), "pixels outside the window, or the first of each row, change")
    c.nontrivial = bool(np.max(np.abs(bias)) > 1e-9)
    c.label(dtype)
    # Each one alone, by its own methods
    pb = s.pick(bounces)
    one = model_bias([pb], base, pw, sw)
    close(pb.perturb_bias(im, **kw), one, tol, "bias", scale)
    close(pb.add_pixel_bounce(im, **kw), base - one, tol, "one bounce", scale)
    check(abs(pb.omega0 - np.hypot(pb.omega, pb.gamma)) <= 1e-12 * (1 + pb.omega0), "natural frequency %r", pb.omega0)
    if s.flag(1, 3):
        close(pb.add_pixel_bounce_slow(im), base - model_bias([pb], base), tol, "row by row", scale)
        c.label("row by row")
    if len(bounces) > 1:
        close(add_pixel_bounce(im, pixel_bounce_list=bounces[::-1], **kw), got, tol, "in another order", scale)
        c.label("several")
    # Removal
    if s.flag(1, 2):
        n = s.range(0, 4)
        many = s.flag(1, 2)
        ring = bounces if many else [pb]
        want = base.copy()
        for _ in range(n):
            want = want + base - (want - model_bias(ring, want, pw, sw))
        fixed = remove_pixel_bounce(im, n, pixel_bounce_list=ring, **kw) if many else pb.remove_pixel_bounce(im, n, **kw)
        close(fixed, want, 1e-8, "after removal by %d iterations" % n, 1 + np.max(np.abs(want)) + scale)
        # Where changes ring weakly, removal takes most of it away
        k = sum(np.sum(np.abs(response(p, cols))) for p in ring) * 2
        if k < 0.5:
            rung = base - model_bias(ring, base, pw, sw)
            f = (lambda x: remove_pixel_bounce(x, n, pixel_bounce_list=ring, **kw)) if many else (lambda x: pb.remove_pixel_bounce(x, n, **kw))
            e = np.max(np.abs(f(rung) - base))
            check(e <= k ** (n + 1) * np.max(np.abs(base)) + 1e-8 * scale, "after %d iterations the image is %g from the true one", n, e)
            c.label("recovered")
        c.label("removal")
    # As part of the CTI
    if rows * cols <= 150 and s.flag(1, 3):
        which = s.draw(3)
        par = gen_dir(s, rows, kinds=(0,), continuum=False, windows=False) if which == 1 else None
        ser = gen_dir(s, cols, kinds=(0,), continuum=False, windows=False) if which == 2 else None
        k = kwargs_of(par, ser)
        # (the same windows apply to both)
        for d, w in ((par, pw), (ser, sw)):
            if d is not None:
                d.win0, d.win1 = w
        k.update(parallel_window_start=pw[0], parallel_window_stop=pw[1], serial_window_start=sw[0], serial_window_stop=sw[1])
        k = lean(s, k)
        c.describe(c.desc + " with CTI: parallel %s serial %s" % (show_dir(par), show_dir(ser)))
        def forward(x):
            y = core_cti(x, par, ser, -1, 1, pw, sw)
            return y - model_bias(bounces, y, pw, sw)
        t = forward(base)
        sc = scale + np.max(np.abs(t))
        close(add_cti(im, pixel_bounce_list=bounces, verbosity=0, **k), t, 1e-8, "CTI then bounce", sc)
        if s.flag(1, 2):
            n = s.range(0, 2)
            def iterate(x, noise):
                y = x.copy()
                for _ in range(n):
                    y = y + x - forward(noise(y))
                return y
            want, moves = spread(iterate, base, sc)
            if moves > 1e-3 * sc:
                c.label("too steep to compare")
                return
            with contextlib.redirect_stdout(io.StringIO()):
                got = remove_cti(im, n, pixel_bounce_list=bounces, verbosity=0, **k)
            close(got, want, 1e-6, "CTI and bounce removed", sc + np.max(np.abs(want)) + 2e7 * moves)
        c.label("with CTI")
    check(snapshot(im, bounces) == before, "the arguments are changed")
    if s.flag(1, 10):
        bad = s.pick([dict(gamma=-0.1), dict(omega=-1), dict(gamma=-5, omega=-5)])
        try:
            PixelBounce(kA=1, **bad)
        except Exception:
            pass
        else:
            check(False, "an oscillator with %s is accepted", bad)
        try:
            add_pixel_bounce(im)
        except Exception:
            pass
        else:
            check(False, "no list of bounces is accepted")
        c.label("rejected")


Prop("C24", "Images of any type and layout with one to three oscillators, windows, removal, and with CTI. Non-trivial: the bias is perturbed.",
     c24, 20, 240)
