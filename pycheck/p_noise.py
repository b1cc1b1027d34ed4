"""C25: separating read noise from an image. C26: covariance matrices of images."""
import contextlib, ctypes, io
import numpy as np
from arcticpy import CovarianceMatrix, ReadNoise, remove_cti
from arcticpy import wrapper as w
from engine import Prop, check
from common import *
from p_bounce import gen_bounce, model_bias

_omp = None


def threads(n):
    global _omp
    if _omp is None:
        _omp = ctypes.CDLL("libgomp.so.1")
    _omp.omp_set_num_threads(n)


def moved(x, a, b):
    """x displaced by a rows and b columns, with zeros where nothing arrives"""
    ny, nx = x.shape
    y = np.zeros((ny + 2, nx + 2))
    y[1 + a:1 + a + ny, 1 + b:1 + b + nx] = x
    return y[1:-1, 1:-1]


def model_kernel(im, out, sigma, frac, both):
    """How much each pixel of the smooth image should change"""
    clip, s2 = sigma * frac, sigma ** 2
    d = im - out
    # The mean of the pixels there are among each one and its neighbours
    total, number = np.zeros(im.shape), np.zeros(im.shape)
    for a in (-1, 0, 1):
        for b in (-1, 0, 1):
            total += moved(d, a, b)
            number += moved(np.ones(im.shape), a, b)
    m = total / number
    res = np.clip(d, -1, 1) * d * d / (d * d + 4 * s2) + np.clip(m, -clip, clip) * m * m / (m * m + 18 * s2)
    there = np.ones(im.shape)
    for a, b in ((1, 0), (-1, 0)) + (((0, 1), (0, -1)) if both else ()):
        g = (moved(out, a, b) - out) * moved(there, a, b)
        res += np.clip(g, -clip, clip) * 4 * s2 / (g * g + 4 * s2)
    return res / (6 if both else 4)


def model_split(im, sigma, frac, scaling, both, n_iter):
    out = im.copy()
    rms, smoother, margin = 0.0, 1, 1.0
    noise = np.zeros_like(im)
    for k in range(n_iter):
        before = sigma - rms
        out = out + (1 if before > 0 else -1) * model_kernel(im, out, sigma, frac, both) * scaling / smoother
        noise = im - out
        seen = (im > 0.1) | (out > 0.1)
        rms = np.sqrt(np.mean(noise[seen] ** 2))
        left = sigma - rms
        margin = min(margin, abs(left), abs(abs(left) - 1e-4))
        if left * before < 0:
            smoother += 1
        if abs(left) < 1e-4:
            break
    return out, noise, rms, k + 1, margin


def noise_image(s, rows, cols, sigma):
    rng = s.nprng()
    kind = s.draw(5)
    sky = s.pick([1.0, 20.0, 300.0, 5000.0])
    im = np.full((rows, cols), sky) + rng.normal(0, sigma * s.pick([0.5, 1, 1, 2]), (rows, cols))
    if kind == 1:
        im += rng.poisson(sky, (rows, cols))
    elif kind == 2:
        im[s.draw(rows), s.draw(cols)] += s.logreal(10, 1e5)
    elif kind == 3:
        im += np.arange(cols) * s.real(-3, 3) + (np.arange(rows) * s.real(-3, 3))[:, None]
    elif kind == 4:
        im = np.round(im)
    im[0, 0] = max(im[0, 0], 1.0)  # (a model is only made of pixels with signal)
    return im


def split(rn, im, f=None):
    with contextlib.redirect_stdout(io.StringIO()):
        return rn.generate_SR_frames_from_image(im, f) if f is not None else rn.generate_SR_frames_from_image(im)


def c25(s, c):
    threads(s.pick([1, 1, 2, 4]))
    try:
        rows, cols = sizes(s, 14, 14, 300, True)
        large = rows * cols > 250
        if large:
            c.label("large image")
        sigma = s.logreal(0.3, 20)
        frac = 0.2 if s.flag(1, 2) else s.real(0.05, 0.8)
        scaling = 1.0 if s.flag(1, 2) else s.real(0.3, 1.0)
        both = bool(s.draw(2))
        n_iter = s.pick([1, 2, 5, 30]) if s.flag(3, 4) else 200
        im = noise_image(s, rows, cols, sigma)
        im, layout = lay_out(s, im)
        base = np.array(im)
        rn = ReadNoise(sigma, **lean(s, dict(noise_model_scaling=scaling, amplitude_scale=frac, serial=both, n_iter=n_iter),
                                     dict(noise_model_scaling=1.0, amplitude_scale=0.2, serial=True, n_iter=200)))
        c.describe("sigma=%.17g amplitude=%g scaling=%g serial=%d n_iter=%d %s image %s" % (
            sigma, frac, scaling, both, n_iter, layout, base.tolist()))
        # One step
        other = base + s.nprng().normal(0, sigma * s.pick([0.0, 0.5, 2, 20]), base.shape)
        other, _ = lay_out(s, other)
        got = w.cy_determine_read_noise_model(im, other, sigma, frac, both)
        want = model_kernel(base, np.array(other), sigma, frac, both)
        c.metric("step", close(got, want, 1e-9, "step", 1 + sigma))
        # The whole separation
        before = snapshot(im, rn)
        S, R = split(rn, im)
        S, R = np.asarray(S), np.asarray(R)
        check(snapshot(im, rn) == before, "the image, or the parameters, are changed")
        scale = 1 + np.max(np.abs(base))
        close(S + R, base, 1e-12, "S + R is not the image", scale)
        S2, R2, rms, used, margin = model_split(base, sigma, frac, scaling, both, n_iter)
        if margin > 1e-9:
            close(R, R2, 1e-7, "R", 1 + sigma)
            close(S, S2, 1e-7, "S", scale)
        seen = (base > 0.1) | (S > 0.1)
        check(abs(np.sqrt(np.mean(R[seen] ** 2)) - rms) <= 1e-6 * (1 + sigma), "the noise removed has rms %g", rms)
        if abs(rms - sigma) < 1e-4:
            c.label("rms reached")
        c.label("stopped" if used < n_iter else "all iterations")
        c.label(layout)
        c.nontrivial = bool(np.max(np.abs(R)) > 1e-3 * sigma) and rows * cols > 1
        # A part of the separation
        f = s.pick([0.0, 1.0, 0.5]) if s.flag(1, 2) else s.real(-0.5, 1.5)
        Sf, Rf = split(rn, im, f)
        close(Rf, f * R, 1e-10, "part %g of R" % f, scale)
        close(Sf, base - f * R, 1e-10, "S less part %g of R" % f, scale)
        rn.SRfrac_optimised = f
        So, Ro = split(rn, im)
        close(Ro, Rf, 1e-12, "R with an optimised part of %g" % f, scale)
        rn.SRfrac_optimised = None
        # Symmetries
        kind = s.draw(4)
        if kind == 0 and both:
            other, back = base.T, lambda x: x.T
        elif kind == 1:
            other, back = base[::-1], lambda x: x[::-1]
        elif kind == 2:
            other, back = base[:, ::-1], lambda x: x[:, ::-1]
        else:
            other = None
        if other is not None and margin > 1e-9:
            close(back(split(rn, other)[1]), R, 1e-6, "R of the image the other way round", 1 + sigma)
            c.label("turned")
        # With its usual options, it finds all of the noise it is to find in an image that has more
        if s.flag(1, 4):
            n1, n2 = s.range(10, 30), s.range(10, 30)
            k = s.real(1.5, 2.5)
            sig = s.logreal(1, 15)
            big = s.pick([300, 5000]) + s.nprng().normal(0, sig * k, (n1, n2))
            c.describe("noise of %g, %g times the %g to find, in %s" % (sig * k, k, sig, big.tolist()))
            Sb, Rb = split(ReadNoise(sig), big)
            r = np.sqrt(np.mean(np.asarray(Rb) ** 2)) / sig
            check(0.95 < r < 1.02, "the rms of the noise found is %g of the read noise", r)
            check(np.std(Sb) < 0.85 * np.std(big), "the spread of the rest is %g of the image's", np.std(Sb) / np.std(big))
            c.metric("1 - rms found", abs(1 - r) / 0.05)
            c.label("found")
        # Correcting the rest
        if not large and s.flag(1, 4):
            par = gen_dir(s, rows, kinds=(0,), continuum=False) if s.flag(2, 3) else None
            ser = gen_dir(s, cols, kinds=(0,), continuum=False) if par is None else None
            n = s.range(0, 3)
            allow = 0 if s.flag(1, 4) else 1
            rings = [gen_bounce(s)] if s.flag(1, 4) else None
            if rings:
                for d in (par, ser):
                    if d is not None:
                        d.win0, d.win1 = 0, -1
            c.describe(c.desc + " corrected by %d iterations, parallel %s serial %s bounces %s allow_negative=%d" % (
                n, show_dir(par), show_dir(ser), [vars(p) for p in rings or []], allow))
            S1, R1, _, _, margin = model_split(base, sigma, 0.2, 1.0, True, 200)
            if margin <= 1e-9:
                S1, R1 = split(ReadNoise(sigma), base)
                S1, R1 = np.asarray(S1), np.asarray(R1)
            def iterate(first, noise):
                y = np.array(first)
                for it in range(n):
                    x = core_cti(noise(y), par, ser, -1, allow)
                    if rings:
                        x = x - model_bias(rings, x)
                    y = y + (base - R1 - x)
                    if not allow and it == 0:
                        y[y < 0] = 0
                return y + R1
            want, moves = spread(iterate, S1, 1 + np.max(np.abs(base)))
            k = kwargs_of(par, ser)
            if rings:
                k["pixel_bounce_list"] = rings
                c.label("with bounce")
            if not allow:
                k["allow_negative_pixels"] = 0
                c.label("correction without negative pixels")
            with contextlib.redirect_stdout(io.StringIO()):
                got = remove_cti(im, n, remove_read_noise=sigma, verbosity=0, **k)
            if not np.all(np.isfinite(want)) or np.max(np.abs(want)) > 1e9 or moves > 1e-3 * (1 + np.max(np.abs(want))):
                raise Discard()
            close(got, want, 1e-6 if rings else 1e-7, "corrected less its read noise", 1 + np.max(np.abs(want)) + 1e8 * moves)
            check(got.covariance.shape == (2, 2, 5, 5) and np.all(got.covariance[:, :, 2, 2] == sigma) and
                  np.count_nonzero(got.covariance) == 4, "the covariance is %s", got.covariance)
            c.label("correction")
    finally:
        threads(1)


Prop("C25", "Noisy images of any layout, noise levels and options, one step and the whole separation against a naive model. Non-trivial: "
     "noise is separated from more than one pixel.", c25, 25, 300,
     ["some pixel of the image is over 0.1 electrons and the read noise is more than zero"], workers=6)


# ---- C26
def model_covariance(im, n0, n1, border):
    b0, b1, b2, b3 = border
    sub = np.asarray(im, dtype=float)[b0:im.shape[0] - b2 - 1, b1:im.shape[1] - b3 - 1]
    m0, m1 = n0 // 2, n1 // 2
    e0, e1 = max(m1, 1), max(m0, 1)
    res = np.zeros((n0, n1))
    x = sub[e0:sub.shape[0] - e0, e1:sub.shape[1] - e1]
    for i in range(-m0, m0 + 1):
        for j in range(-m1, m1 + 1):
            y = sub[e0 + j:sub.shape[0] - e0 + j, e1 + i:sub.shape[1] - e1 + i]
            res[m0 + i, m1 + j] = np.mean(x * y) - np.mean(x) * np.mean(y)
    return res


def c26(s, c):
    n0, n1 = 2 * s.draw(4) + 1, 2 * s.draw(4) + 1
    square = n0 == n1 and s.flag(1, 2)
    border = [s.draw(6) for _ in range(4)] if s.flag(1, 2) else [5, 5, 0, 0]
    default = border == [5, 5, 0, 0] and s.flag(1, 2)
    rows = border[0] + border[2] + 1 + 2 * max(n1 // 2, 1)
    cols = border[1] + border[3] + 1 + 2 * max(n0 // 2, 1)
    more = sizes(s, 20, 20, 400, True)
    rows, cols = rows + more[0], cols + more[1]
    rng = s.nprng()
    kind = s.draw(3)
    im = rng.normal(s.pick([0, 100.0]), 1 + s.draw(20), (rows, cols)) if kind else rng.integers(0, 5, (rows, cols)) * 1.0
    if kind == 2:
        im = im + 0.5 * np.roll(im, (s.range(-2, 2), s.range(-2, 2)), (0, 1))
    if s.flag(1, 4):
        im = np.round(im).astype(s.pick(["int64", "int32", "float32"]))
    im, layout = lay_out(s, im)
    c.describe("matrix %dx%d border=%s of %s %s" % (n0, n1, border, layout, np.asarray(im).tolist()))
    before = snapshot(im)
    kw = {} if default else dict(border=list(border))
    cov = CovarianceMatrix().from_image(im, matrix_size=n0 if square else (n0, n1), **kw)
    check(snapshot(im) == before, "the image is changed")
    want = model_covariance(im, n0, n1, border)
    scale = 1 + np.max(np.abs(np.asarray(im, float))) ** 2
    check(isinstance(cov, CovarianceMatrix), "the matrix is a %s", type(cov))
    c.metric("matrix", close(cov, want, 1e-5 if im.dtype == np.float32 else 1e-10, "covariance", scale))
    c.nontrivial = n0 * n1 > 1 and bool(np.ptp(want) > 0)
    c.label("%dx%d" % (n0, n1))
    # Its figures of merit
    a = np.array(cov)
    m0, m1 = n0 // 2, n1 // 2
    check(cov.middle == (m0, m1) and cov.autocorrelation == a[m0, m1], "the middle is %s", cov.middle)
    near = a[max(m0 - 1, 0):m0 + 2, max(m1 - 1, 0):m1 + 2]
    for name, part in (("column", a[:, m1]), ("row", a[m0, :]), ("box", a), ("ring", near)):
        close(getattr(cov, name), part.sum() - a[m0, m1], 1e-10, name, scale)
        close(getattr(cov, name + "abs"), np.abs(part).sum() - a[m0, m1], 1e-10, name + "abs", scale)
    # None of it depends on a constant, and it grows as the square
    k = s.pick([2.0, -3.0, 0.5])
    again = CovarianceMatrix().from_image(np.asarray(im, float) * k + 7, matrix_size=(n0, n1), **kw)
    close(again, want * k * k, 1e-9, "covariance of %g times the image and a constant" % k, scale * k * k + 100)
    # A new one has no covariance between pixels
    new = CovarianceMatrix(n0) if square else CovarianceMatrix((n0, n1))
    check(new.shape == (n0, n1) and new.autocorrelation == 1 and new.box == 0 and new.boxabs == 0, "a new matrix is %s", new)
    values = rng.normal(0, 1, (n0, n1))
    close(CovarianceMatrix(values=values), values, 0, "given values")
    if n0 == n1 == 5:
        rn = ReadNoise(1.0)
        z = a.copy()
        z[2, 2] = 0
        for method, kw2, mean in (("row", {}, z[2].sum() / 4), ("column", {}, z[:, 2].sum() / 4),
                                  ("box", dict(subgrid_size=3), z[1:4, 1:4].sum() / 8)):
            close(rn.figure_of_merit(a.copy(), fom_method=method, **kw2), mean, 1e-10, "figure of merit " + method, scale)
        c.label("figure of merit")
    if s.flag(1, 3):
        n = s.range(10, 14)
        m = n if s.flag(1, 2) else s.range(10, 14)
        size = s.pick([1, 3])
        R, C = n + s.range(1, 8), m + s.range(1, 8)
        im = rng.normal(10, 3, (R, C))
        c.describe("corners of %dx%d, matrix %d of %s" % (n, m, size, im.tolist()))
        got = ReadNoise(1.0, n_pixels_for_covar=(m, n)).covariance_matrix_in_corners_of_image(im, matrix_size=size)
        want = [model_covariance(x, size, size, [5, 5, 0, 0]) for x in
                (im[:n, -m - 1:-1], im[-n - 1:-1, -m - 1:-1], im[:n, :m], im[-n - 1:-1, :m])]
        check(len(got) == 4, "%d corners", len(got))
        for g, x in zip(got, want):
            close(g, x, 1e-10, "corner", scale + 400)
        c.label("corners")


Prop("C26", "Images, sizes of matrix and borders, against the definition of covariance. Non-trivial: a matrix of more than one value, not all "
     "the same.", c26, 12, 120)
