"""C27: the verification and validation test of trails into the overscan."""
import contextlib, io
import numpy as np
import arcticpy
from arcticpy import VVTestBench, add_cti, remove_cti
from engine import Prop, check, Discard
from common import *


def volume(p, n):
    return p.first_electron_fill + (1 - p.first_electron_fill) * min(max((n - p.well_notch_depth) / (p.full_well_depth - p.well_notch_depth), 0), 1) ** p.well_fill_power


def trail(traps, phase, n_rows, last, bias, length):
    """Electrons in each overscan pixel over the bias, for a faint trail"""
    dv = n_rows * (volume(phase, last) - volume(phase, bias))
    k = np.arange(length)
    return sum(t.density * dv * np.exp(-k / t.release_timescale) * (1 - np.exp(-1 / t.release_timescale)) for t in traps)


def ripple(s, n, size):
    """Values of mean zero that are not all the same, at most size from it"""
    rng = s.nprng()
    v = rng.uniform(-1, 1, n)
    v -= v.mean()
    v[0] += 0.3
    v[1] -= 0.3
    return v * size / max(np.max(np.abs(v)), 1e-9)


def gen_traps(s):
    traps = []
    for _ in range(s.range(1, 3)):
        rho, tau = s.logreal(0.01, 10), s.logreal(0.5, 20)
        traps.append(s.pick([TrapInstantCapture(rho, tau), TrapInstantCapture(rho, tau), TrapSlowCapture(rho, tau, 0.1)]))
    return traps


class Scene:
    """An image of sky and its overscan, in which trails of a known density and bias follow the model"""

    def __init__(self, s, density_scale, bias, guess=0.0, both=False):
        self.rows_before, self.overscan = s.range(10, 24), s.range(3, 12)
        self.x_pre = s.draw(5) if s.flag(1, 2) else 0
        self.n_good = s.range(5, 16)
        self.n_bad = s.draw(3)
        self.x_over = s.range(1, 4) if s.flag(1, 2) else 0
        self.traps = gen_traps(s)
        notch = s.pick([0.0, 0.0, 5.0])
        self.phase = CCDPhase(s.logreal(1e3, 1e5), notch, s.pick([1.0, 0.478, 0.8]), 0.0)
        self.ccd = CCD([self.phase])
        self.last = notch + s.logreal(20, 500)
        self.noise = s.real(0.05, 2)
        n_cols = self.n_good + self.n_bad
        self.bias = bias
        tr = density_scale * trail(self.traps, self.phase, self.rows_before, self.last, bias, self.overscan)
        rng = s.nprng()
        good = np.ones(n_cols, bool)
        while good.sum() > self.n_good:
            good[rng.integers(n_cols)] = False
        im = np.zeros((self.rows_before + self.overscan, n_cols))
        for i in range(self.rows_before):
            im[i, good] = self.last + ripple(s, self.n_good, self.noise)
        for k in range(self.overscan):
            im[self.rows_before + k, good] = bias + tr[k] + ripple(s, self.n_good, 0.2 + 0.1 * self.noise)
        # Columns with a star near the overscan
        for j in np.flatnonzero(~good):
            im[:, j] = self.last + rng.uniform(-1, 1, len(im)) * self.noise
            im[self.rows_before - 1 - s.draw(min(10, self.rows_before)), j] += self.noise * s.logreal(100, 1e4)
            im[self.rows_before:, j] = rng.uniform(-1e3, 1e3, self.overscan)
        self.good = good
        side = lambda n: rng.uniform(-1e4, 1e4, (len(im), n))
        self.image = np.hstack([side(self.x_pre), im, side(self.x_over)])
        self.y_roe = ROE(overscan_start=self.rows_before)
        self.x_roe = ROE(prescan_length=self.x_pre, overscan_start=self.x_pre + n_cols if self.x_over else -1) if self.x_pre or self.x_over else None
        self.total = sum(t.density for t in self.traps)

    def bench(self, swap=False, **kw):
        y, x = ("serial", "parallel") if swap else ("parallel", "serial")
        args = {y + "_ccd": self.ccd, y + "_roe": self.y_roe, y + "_traps": self.traps}
        if self.x_roe is not None:
            args[x + "_roe"] = self.x_roe
        return args, y

    def show(self):
        return "overscan from %d of %d, columns from %d to %s, CCD %s, traps %s, image %s" % (
            self.rows_before, len(self.image), self.x_pre, self.x_roe.overscan_start if self.x_roe else "the end", vars(self.phase),
            [vars(t) for t in self.traps], self.image.tolist())


def same(got, want, tol, what, scale=0.0):
    check(got is not None and abs(got - want) <= tol * (abs(want) + scale), "%s is %r, not %r", what, got, want)


def c27_fit(s, c):
    # (no bias of the other sign as large as the sky, which would leave nothing to trail)
    bias = s.pick([0.0, 0.0, 1.0]) * s.real(-2, 5)
    f = s.pick([1.0, 0.0]) if s.flag(1, 3) else s.logreal(0.05, 20)
    sc = Scene(s, f, bias)
    swap = bool(s.draw(2))
    args, y = sc.bench(swap)
    im = np.ascontiguousarray(sc.image.T) if swap else sc.image
    im, layout = lay_out(s, im)
    opts, kw = {}, {}
    if s.flag(1, 2):
        opts["sum_of_exponentials"] = True
    guess = 0.0
    if s.flag(1, 2):
        guess = kw[y + "_model_bias"] = s.real(-1, 3)
    if s.flag(1, 3):
        kw[y + "_fit_bias"] = True
    if s.flag(1, 4) and sc.phase.well_fill_power == 1.0:
        kw[y + "_iterate_bias"] = True
    if bias == guess and s.flag(1, 2):
        kw[y + "_fit_bias"] = False
        kw.pop(y + "_iterate_bias", None)
    if s.flag(1, 3):
        kw[y + "_valid_columns"] = sc.good
    if s.flag(1, 3):
        kw[y + "_pixels_pre_cti"] = np.full(sc.rows_before, sc.last)
    c.describe("%s, density %g of the model's, bias %g, options %s, %s" % (y, f, bias, {k: v if np.size(v) < 2 else "given" for k, v in kw.items()}, sc.show()))
    before = snapshot(im, sc.traps, sc.ccd, sc.y_roe)
    with contextlib.redirect_stdout(io.StringIO()):
        bench = VVTestBench(verbose=bool(s.draw(2)), **args, **opts)
        result = bench.test(im, **kw)
    check(snapshot(im, sc.traps, sc.ccd, sc.y_roe) == before, "the image or the model is changed")
    r, other = (result.serial, result.parallel) if swap else (result.parallel, result.serial)
    check(other.best_fit_trap_density is None and other.best_fit_bias is None, "there is a result of the direction without traps")
    check(np.array_equal(np.asarray(r.valid_columns, bool), sc.good), "the columns used are %s, not %s", np.asarray(r.valid_columns).tolist(), sc.good.tolist())
    tr = f * trail(sc.traps, sc.phase, sc.rows_before, sc.last, bias, sc.overscan)
    scale = 1 + abs(bias) + np.max(np.abs(tr))
    close(r.overscan, bias + tr, 1e-9, "overscan", scale)
    close(r.best_fit_overscan, bias + tr, 1e-6, "fitted overscan", scale)
    close(r.pixels_pre_cti, np.full(sc.rows_before, sc.last), 1e-9, "pixels before CTI", 1 + sc.last)
    full = sc.image[sc.rows_before:, sc.x_pre:sc.x_pre + len(sc.good)][:, sc.good]
    close(r.overscan_sigma, np.std(full, axis=1) / np.sqrt(sc.good.sum()), 1e-9, "uncertainty of the overscan", 1)
    # The conditioning of a fit of a trail and a bias
    m = trail(sc.traps, sc.phase, sc.rows_before, sc.last, guess, sc.overscan)
    cond = np.ptp(m) / (1e-300 + np.max(np.abs(m)))
    tol = 1e-7 / max(cond, 1e-6) * max(1, scale / (1e-6 + np.max(np.abs(m))))
    if tol < 1e-3 or kw.get(y + "_fit_bias") is False:
        same(r.best_fit_bias, bias, tol, "the bias", scale)
        v0, vb = volume(sc.phase, sc.last) - volume(sc.phase, guess), volume(sc.phase, sc.last) - volume(sc.phase, bias)
        # (the bias that is found is a little off, and so is the volume it fills)
        if abs(bias - sc.phase.well_notch_depth) > 1e-3 or sc.phase.well_fill_power == 1 or kw.get(y + "_fit_bias") is False:
            same(r.best_fit_trap_density, f * sc.total, tol * 100, "the trap density", sc.total)
            c.label("density %s" % ("none" if f == 0 else "found"))
            c.nontrivial = f > 0
    same(r.model_trap_density, sc.total, 1e-12, "the model's density")
    if not kw.get(y + "_iterate_bias"):
        same(r.model_bias, guess, 1e-12, "the model's bias", 1)
        close(r.model_overscan, guess + m, 1e-9, "the model's overscan", 1 + np.max(np.abs(m)) + abs(guess))
    check(str(r) == str(r.best_fit_trap_density), "printed as %s", r)
    # History
    check(bench.n_results() == 1 and bench.results == [result], "the history holds %d results", bench.n_results())
    with contextlib.redirect_stdout(io.StringIO()):
        again = bench.test(im, **kw)
    check(bench.results == [result, again], "the history holds %d results", bench.n_results())
    a = again.serial if swap else again.parallel
    check(a.best_fit_trap_density == r.best_fit_trap_density and a.best_fit_bias == r.best_fit_bias, "the second result differs")
    for k in kw:
        c.label(k.split("_", 1)[1] + ("" if np.size(kw[k]) > 1 or "model" in k else " %s" % kw[k]))
    c.label(y)


def c27_both(s, c):
    """Overscans on two sides: each direction's result is what it is alone"""
    rows, cols, p, q = s.range(10, 20), s.range(10, 20), s.range(4, 10), s.range(4, 10)
    rng = s.nprng()
    im = np.zeros((rows + p, cols + q))
    im[:rows, :cols] = s.logreal(50, 500) + rng.uniform(-1, 1, (rows, cols))
    im[rows:, :] = rng.uniform(-1, 1, (p, cols + q)) + 5 * np.exp(-np.arange(p) / 3.0)[:, None]
    im[:, cols:] += rng.uniform(-1, 1, (rows + p, q)) + 5 * np.exp(-np.arange(q) / 2.0)
    ccd = CCD(full_well_depth=s.logreal(1e3, 1e5), well_fill_power=s.pick([1.0, 0.5]))
    pt, st = gen_traps(s), gen_traps(s)
    pr, sr = ROE(overscan_start=rows), ROE(overscan_start=cols)
    c.describe("parallel %s serial %s, overscans from %d and %d of %s" % ([vars(t) for t in pt], [vars(t) for t in st], rows, cols, im.tolist()))
    both = VVTestBench(ccd, pr, pt, ccd, sr, st).test(im)
    one = VVTestBench(parallel_ccd=ccd, parallel_roe=pr, parallel_traps=pt, serial_roe=sr).test(im)
    two = VVTestBench(serial_ccd=ccd, serial_roe=sr, serial_traps=st, parallel_roe=pr).test(im)
    turned = VVTestBench(ccd, sr, st, ccd, pr, pt).test(im.T)
    for a, b, what in ((both.parallel, one.parallel, "parallel alone"), (both.serial, two.serial, "serial alone"),
                       (both.parallel, turned.serial, "turned"), (both.serial, turned.parallel, "turned")):
        for k in ("best_fit_trap_density", "best_fit_bias"):
            u, v = getattr(a, k), getattr(b, k)
            check(abs(u - v) <= 1e-9 * (1 + abs(u)) or not np.isfinite(u), "%s: %s is %r, not %r", what, k, u, v)
    # Fewer traps in a model: the density that is found is the same in proportion to it
    k = s.logreal(0.1, 10)
    scaled = [copy.copy(t) for t in pt]
    for t in scaled:
        t.density *= k
    d = VVTestBench(parallel_ccd=ccd, parallel_roe=pr, parallel_traps=scaled, serial_roe=sr).test(im).parallel
    check(abs(d.best_fit_trap_density - both.parallel.best_fit_trap_density) <= 1e-6 * (1 + abs(d.best_fit_trap_density)),
          "with a model of %g times the traps, the density is %r, not %r", k, d.best_fit_trap_density, both.parallel.best_fit_trap_density)
    c.nontrivial = True
    c.label("both directions")


def c27_arctic(s, c):
    """Images that arctic itself trails"""
    rows, over, cols = s.range(20, 60), s.range(6, 15), s.range(6, 12)
    sky = s.logreal(100, 1000)
    ccd = CCD(full_well_depth=s.logreal(2e4, 1e5), well_fill_power=s.pick([0.6, 0.8, 1.0]))
    traps = [TrapInstantCapture(s.logreal(0.3, 1) * s.pick([1, 0.3]), s.logreal(1, 5)) for _ in range(s.range(1, 2))]
    total = sum(t.density for t in traps)
    # (a faint trail)
    loss = rows * total * volume(ccd.phases[0], sky)
    if loss > 0.15 * sky or loss < 0.3:
        raise Discard()
    rng = s.nprng()
    noise = s.real(0.002, 0.012) * min(1.0, loss)
    im = np.zeros((rows + over, cols))
    im[:rows] = sky
    im += rng.uniform(-1, 1, im.shape) * noise
    roe = ROE(overscan_start=rows)
    kind = s.draw(3)
    kw = dict(parallel_roe=roe, parallel_ccd=ccd, parallel_traps=traps, parallel_express=0, verbosity=0)
    c.describe("kind %d: sky %g, rows %d, CCD %s, traps %s, noise %g" % (kind, sky, rows, vars(ccd.phases[0]), [vars(t) for t in traps], noise))
    with contextlib.redirect_stdout(io.StringIO()):
        if kind == 0:
            out = add_cti(im, vv_test=True, **kw)
            plain = add_cti(im, **kw)
            check(np.array_equal(out, plain), "the test changes the image")
            r = [x.parallel.best_fit_trap_density for x in out.vv_test.results]
            check(len(r) == 2, "%d results", len(r))
            check(abs(r[0]) < 0.25 * total, "before CTI, the density is %g of the traps'", r[0] / total)
            check(0.5 < r[1] / total < 1.5, "after CTI, the density is %g of the traps'", r[1] / total)
            c.metric("density before CTI", abs(r[0]) / total / 0.25)
            c.metric("density after CTI", abs(r[1] / total - 1) / 0.5)
            c.label("add_cti")
        elif kind == 1:
            trailed = add_cti(im, **kw)
            out = remove_cti(np.asarray(trailed), 3, vv_test=True, **kw)
            check(np.array_equal(out, remove_cti(np.asarray(trailed), 3, **kw)), "the test changes the image")
            r = [x.parallel.best_fit_trap_density for x in out.vv_test.results]
            check(len(r) == 2, "%d results", len(r))
            check(0.5 < r[0] / total < 1.5, "before correction, the density is %g of the traps'", r[0] / total)
            check(abs(r[1]) < 0.3 * total, "after correction, the density is %g of the traps'", r[1] / total)
            c.metric("density after correction", abs(r[1]) / total / 0.3)
            c.label("remove_cti")
        else:
            # With arctic's own model of the trail
            out = np.asarray(add_cti(im, **kw))
            r = VVTestBench(parallel_roe=roe, parallel_ccd=ccd, parallel_traps=traps, sum_of_exponentials=False).test(
                out, parallel_pixels_pre_cti=np.full(rows, sky)).parallel
            check(0.7 < r.best_fit_trap_density / total < 1.3, "the density is %g of the traps'", r.best_fit_trap_density / total)
            c.metric("density with arctic's model", abs(r.best_fit_trap_density / total - 1) / 0.3)
            c.label("arctic's model")
    c.nontrivial = True


def c27_reject(s, c):
    sc = Scene(s, 1.0, 0.0)
    args, y = sc.bench()
    kind = s.draw(6)
    c.describe("kind %d: %s" % (kind, sc.show()))
    im, traps = sc.image, sc.traps
    if kind == 0:
        args[y + "_roe"] = ROE()  # no overscan: nothing to do
    elif kind == 1:
        args[y + s.pick(["_ccd", "_traps", "_roe"])] = None
    elif kind == 2:
        for t in traps:
            t.density = 0.0
    elif kind == 3:
        args[y + "_traps"] = []
    elif kind == 4:
        sc.phase.well_notch_depth = 2 * sc.last
        args[y + "_ccd"] = CCD([sc.phase])
    bench = VVTestBench(ncols_min_required=1000 if kind == 5 else 4, **args)
    if kind < 2:
        r = bench.test(im)
        check(r.parallel.best_fit_trap_density is None and r.serial.best_fit_trap_density is None and bench.n_results() == 1, "there is a result")
    else:
        try:
            bench.test(im)
        except Exception:
            pass
        else:
            check(False, "there is a result")
        check(bench.n_results() == 0, "the history holds a failure")
    c.label("nothing to fit")
    c.nontrivial = True


def c27(s, c):
    [c27_fit, c27_fit, c27_fit, c27_both, c27_arctic, c27_reject][s.draw(6)](s, c)


def scene(**kw):
    rng = np.random.default_rng(3)
    im = np.zeros((20, 8))
    im[:12] = 100 + rng.uniform(-1, 1, (12, 8))
    k = np.arange(8)
    im[12:] = (12 * 1.0 * 0.1 * np.exp(-k / 2.0) * (1 - np.exp(-0.5)))[:, None] + rng.uniform(-1e-3, 1e-3, (8, 8))
    return im, dict(parallel_ccd=CCD(full_well_depth=1000), parallel_traps=[TrapInstantCapture(1.0, 2.0)], parallel_roe=ROE(overscan_start=12, **kw))


def known_prescan(c):
    im, a = scene(prescan_length=2)
    d = VVTestBench(**a).test(im).parallel.best_fit_trap_density
    check(abs(d - 1) < 0.1, "the density is %r, not 1", d)


def known_few_rows(c):
    im, a = scene()
    a["parallel_roe"].overscan_start = 5
    d = VVTestBench(**a).test(im[7:]).parallel.best_fit_trap_density
    check(abs(d - 12 / 5) < 0.3, "the density is %r, not 2.4", d)


def known_standalone(c):
    from arcticpy.vv_test import vv_test
    im, a = scene()
    d = vv_test(im, **a).parallel.best_fit_trap_density
    check(abs(d - 1) < 0.1, "the density is %r, not 1", d)


Prop("C27", "Images of sky, stars and overscans whose trails follow the model with a known density and bias, in either direction, with any "
     "of the options; images trailed and corrected by arctic; and inputs with nothing to fit. Non-trivial: a density is found.", c27, 20, 200,
     ["the overscan's pixels vary across columns (the fit divides by their spread)"],
     known=[("vv-prescan-length", known_prescan), ("vv-few-rows-before-overscan", known_few_rows), ("vv-standalone-function", known_standalone)])
