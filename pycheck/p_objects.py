"""C28: the Python package's model objects. C29: the command-line program."""
import contextlib, ctypes, io, os, re, shutil, subprocess, tempfile
import numpy as np
import arcticpy
from arcticpy import add_cti
from arcticpy.cti import ndarray_plus
from arcticpy.traps import AbstractTrap
from engine import Prop, check
from common import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(arcticpy.__file__)))


def printed(f):
    """What f() makes the libraries print"""
    libc = ctypes.CDLL(None)
    libc.fflush(None)
    with tempfile.TemporaryFile() as t:
        old = os.dup(1)
        os.dup2(t.fileno(), 1)
        try:
            f()
            libc.fflush(None)
        finally:
            os.dup2(old, 1)
            os.close(old)
        t.seek(0)
        return t.read().decode()


def held(obj, names):
    """The attributes of these names"""
    return {k: getattr(obj, k, "nothing") for k in names}


def c28_ccd(s, c):
    phases, args = [], []
    for _ in range(s.range(1, 4)):
        full = s.logreal(10, 1e6)
        a = dict(full_well_depth=full, well_notch_depth=s.pick([0.0, full * 0.01, full * 0.5]), well_fill_power=s.pick([1.0, s.real(0.1, 2)]),
                 first_electron_fill=s.pick([0.0, 0.0, s.real(0, 0.9)]))
        if s.flag(1, 4):  # what is not given
            given = {k: v for k, v in a.items() if s.draw(2) and (k != "well_notch_depth" or v < 5e3)}
            a = dict(dict(full_well_depth=1e4, well_notch_depth=0.0, well_fill_power=1.0, first_electron_fill=0.0), **given)
            phases.append(CCDPhase(**given))
        else:
            phases.append(CCDPhase(**a) if s.draw(2) else CCDPhase(*a.values()))
        check(held(phases[-1], a) == a, "a phase of %s holds %s", a, held(phases[-1], a))
        args.append(a)
    c.describe("phases %s" % args)
    fr = [s.real(0.1, 1) for _ in phases]
    ccd = CCD(phases, fr)
    check(list(ccd.phases) == phases and ccd.fraction_of_traps_per_phase.tolist() == fr, "the phases are %s", vars(ccd))
    for name, key in (("full_well_depths", "full_well_depth"), ("well_notch_depths", "well_notch_depth"),
                      ("well_fill_powers", "well_fill_power"), ("first_electron_fills", "first_electron_fill")):
        v = getattr(ccd, name)
        check(v.dtype == np.float64 and v.tolist() == [a[key] for a in args], "%s are %s", name, v)
    a, p = args[0], phases[0]
    ns = [0.0, 1.0, a["well_notch_depth"], a["full_well_depth"], 2 * a["full_well_depth"]] + [
        s.real(-0.2, 1.5) * a["full_well_depth"] for _ in range(4)] + [s.logreal(1e-3, 1) * a["full_well_depth"] for _ in range(4)]
    want = [core().core_volume(*a.values(), n) for n in ns]
    close(p.volume(np.array(ns)), want, 1e-12, "volume of %s" % ns)
    close([p.volume(n) for n in ns], want, 1e-12, "volume of %s" % ns)
    # The short form of one phase
    given = {k: a[k] for k in a if k == "full_well_depth" or s.draw(2)}
    one = CCD(phases, **given)
    full = dict(dict(well_notch_depth=0.0, well_fill_power=1.0, first_electron_fill=0.0), **given)
    check(len(one.phases) == 1 and held(one.phases[0], full) == full and one.full_well_depths.tolist() == [full["full_well_depth"]] and
          one.well_notch_depths.tolist() == [full["well_notch_depth"]] and one.well_fill_powers.tolist() == [full["well_fill_power"]] and
          one.first_electron_fills.tolist() == [full["first_electron_fill"]], "CCD(%s) is %s", given, vars(one))
    check(CCD().full_well_depths.tolist() == [1e4] and CCD().fraction_of_traps_per_phase.tolist() == [1], "the default CCD changes")
    c.label("CCD")


def c28_roe(s, c):
    a = dict(dwell_times=[s.logreal(0.1, 10) for _ in range(s.range(1, 3))], prescan_offset=s.draw(100), prescan_length=s.draw(50),
             overscan_start=s.pick([-1, s.draw(3000)]), empty_traps_between_columns=bool(s.draw(2)), empty_traps_for_first_transfers=bool(s.draw(2)),
             force_release_away_from_readout=bool(s.draw(2)), use_integer_express_matrix=bool(s.draw(2)), pixel_bounce_kA=s.real(-1, 1),
             pixel_bounce_kv=s.real(-1, 1), pixel_bounce_omega=s.real(0, 3), pixel_bounce_gamma=s.real(0, 3), read_noise=s.real(0, 9))
    a = {k: v for k, v in a.items() if s.draw(4)}
    defaults = dict(dwell_times=[1.0], prescan_offset=0, prescan_length=0, overscan_start=-1, empty_traps_between_columns=True,
                    empty_traps_for_first_transfers=False, force_release_away_from_readout=True, use_integer_express_matrix=False,
                    pixel_bounce_kA=0, pixel_bounce_kv=0, pixel_bounce_omega=1, pixel_bounce_gamma=1, read_noise=0)
    c.describe("ROE %s" % a)

    def same(roe, want, kind, pumps):
        want = dict(want, type=kind, n_pumps=pumps)
        got = {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in held(roe, want).items()}
        check(got == want, "%s is %s, not %s", type(roe).__name__, got, want)
        check(roe.dwell_times.dtype == np.float64, "dwell times of %s", roe.dwell_times.dtype)

    roe = ROE(**a)
    same(roe, dict(defaults, **a), 0, -1)
    ci = {k: v for k, v in a.items() if k != "empty_traps_for_first_transfers"}
    same(ROEChargeInjection(**ci), dict(defaults, **ci), 1, -1)
    tp = {k: v for k, v in a.items() if k not in ("empty_traps_between_columns", "force_release_away_from_readout")}
    n = s.range(1, 1000)
    tp_want = dict(dict(defaults, dwell_times=[0.5, 0.5], force_release_away_from_readout=False), **tp)
    same(ROETrapPumping(n_pumps=n, **tp), tp_want, 2, n)
    same(ROETrapPumping(**tp), tp_want, 2, 1)
    # A normal sequence as charge injection
    made = ROEChargeInjection.from_normal_roe(roe, n)
    want = dict(defaults, **a)
    want["prescan_offset"] += n
    want["empty_traps_for_first_transfers"] = False
    same(made, want, 1, -1)
    same(roe, dict(defaults, **a), 0, -1)
    made.dwell_times[0] = 77
    check(roe.dwell_times[0] != 77, "the two share their dwell times")
    c.label("ROE")


def c28_traps(s, c):
    rho, tau, x, y = s.logreal(1e-3, 1e3), s.logreal(0.05, 500), s.real(0, 0.4), s.real(0.4, 1)
    t = TrapInstantCapture(rho, tau, x, y)
    total, seed = s.range(1, 1000), s.draw(10 ** 6)
    c.describe("density %.17g tau %.17g exposed %g to %g pixels %d seed %d" % (rho, tau, x, y, total, seed))
    before = snapshot(t)
    p = t.poisson_density_from(total, seed=seed)
    check(snapshot(t) == before, "the trap is changed")
    check(type(p) is TrapInstantCapture and (p.release_timescale, p.fractional_volume_none_exposed, p.fractional_volume_full_exposed) == (tau, x, y),
          "made from it: %s", vars(p))
    n = p.density * total
    check(abs(n - round(n)) < 1e-6 * (1 + n) and n >= -1e-9, "there are %.17g traps", n)
    mean = rho * total
    check(abs(n - mean) <= 12 * np.sqrt(mean) + 30, "there are %g traps where %g are expected", n, mean)
    check(t.poisson_density_from(total, seed=seed).density == p.density, "the same seed gives another density")
    if s.flag(1, 4):
        many = np.array([t.poisson_density_from(total, seed=seed + k).density for k in range(400)]) * total
        check(abs(many.mean() - mean) <= 8 * np.sqrt(mean / 400) + 10 / 400, "the mean of 400 is %g, not %g", many.mean(), mean)
        # (the variance of a Poisson variance)
        check(abs(many.var() - mean) <= 8 * np.sqrt((mean + 2 * mean ** 2) / 400) + 30 / 400, "the variance of 400 is %g, not %g", many.var(), mean)
        several = {t.poisson_density_from(10 ** 9).density for _ in range(6)}
        check(len(several) > 1 or rho * 1e9 < 1e4, "without a seed, all are the same")
        c.label("Poisson")
    # Israel et al.'s fit of the spurious ellipticity
    lt = np.log10(tau)
    want = 4 * rho * (0.05333 - 0.03357 * np.arctan((lt - 1.628) / 0.2951) + 0.09901 * np.exp(-0.5 * ((lt - 0.4553) / 0.4132) ** 2))
    check(abs(t.delta_ellipticity - want) <= 1e-12 * rho, "the ellipticity is %.17g, not %.17g", t.delta_ellipticity, want)
    for other, third in ((TrapSlowCapture(rho, tau, x), dict(capture_timescale=x)),
                         (TrapInstantCaptureContinuum(rho, tau, x), dict(release_timescale_sigma=x)),
                         (TrapSlowCaptureContinuum(rho, tau, x, y), dict(release_timescale_sigma=x, capture_timescale=y)),
                         (AbstractTrap(rho, tau), {})):
        third.update(density=rho, release_timescale=tau)
        check(held(other, third) == third, "%s is %s", type(other).__name__, vars(other))
        try:
            e = other.delta_ellipticity
        except NotImplementedError:
            pass
        else:
            check(False, "%s has an ellipticity of %r", type(other).__name__, e)
    # What is not given
    for kind, names in ((TrapInstantCapture, ("fractional_volume_none_exposed", "fractional_volume_full_exposed")),
                        (TrapSlowCapture, ("capture_timescale",)), (TrapInstantCaptureContinuum, ("release_timescale_sigma",)),
                        (TrapSlowCaptureContinuum, ("release_timescale_sigma", "capture_timescale")), (AbstractTrap, ())):
        given = {k: v for k, v in dict(dict(density=rho, release_timescale=tau), **{n: s.real(0, 1) for n in names}).items() if s.draw(2)}
        t = kind(**given)
        want = dict(dict(density=1.0, release_timescale=1.0), **{n: 0.0 for n in names})
        want.update(given)
        check(held(t, want) == want, "%s(%s) is %s", kind.__name__, given, vars(t))
    c.label("traps")


def c28_image(s, c):
    rows, cols = s.range(2, 6), s.range(2, 6)
    a = gen_values(s, rows, cols)
    cov, vv = object(), object()
    im = ndarray_plus(a, covariance=cov, vv_test=vv)
    c.describe("image %s" % a.tolist())
    k = s.draw(8)
    new = [lambda: im + 1, lambda: im[1:], lambda: im.copy(), lambda: im.T, lambda: -im, lambda: im * im, lambda: 2 - im, lambda: np.sqrt(np.abs(im))][k]()
    check(isinstance(new, ndarray_plus) and new.covariance is cov and new.vv_test is vv, "what is made of the image loses its properties")
    plain = [a + 1, a[1:], a, a.T, -a, a * a, 2 - a, np.sqrt(np.abs(a))][k]
    check(np.array_equal(new, plain), "the values are %s", new)
    other = ndarray_plus(a.copy())
    check(other.covariance.shape == (2, 2, 5, 5) and not np.any(other.covariance), "the default covariance is %s", other.covariance)
    again = ndarray_plus(im)
    check(again.vv_test is vv, "an image of an image loses its test")
    out = add_cti(a, parallel_roe=ROE(), parallel_ccd=CCD(), parallel_traps=[TrapInstantCapture(1, 1)], verbosity=0)
    out2 = add_cti(a, parallel_roe=ROE(), parallel_ccd=CCD(), parallel_traps=[TrapInstantCapture(1, 1)], verbosity=0)
    check(isinstance(out, ndarray_plus) and out.vv_test.n_results() == 0 and out.vv_test is not out2.vv_test and
          out.covariance is not out2.covariance, "two images share their properties")
    # Printing
    big, layout = lay_out(s, a)
    def numbers(text):
        lines = [[float(v) for v in re.findall(r"[-+.\deE]+|nan|inf", l)] for l in text.strip().split("\n")]
        check(len({len(l) for l in lines}) == 1, "printed as %r", text)
        return np.array(lines)
    close(numbers(printed(lambda: arcticpy.print_array_2D(np.asarray(big)))), a, 1e-5, "printed in two dimensions, " + layout)
    close(numbers(printed(lambda: arcticpy.print_array(np.asarray(big)[:, 0])))[0], a[:, 0], 1e-5, "printed in one dimension, " + layout)
    c.label("images")


def c28(s, c):
    [c28_ccd, c28_roe, c28_traps, c28_image][s.draw(4)](s, c)
    c.nontrivial = True


Prop("C28", "CCDs, ROEs, traps and images of the Python package with any parameters. Non-trivial: every case.", c28, 12, 90)


# ---- C29
def model_options(args):
    """-> (stops with a status or None, verbosity, demo, benchmark, others, message)"""
    verbosity, demo, bench, others, only = 1, False, False, [], False
    longs = {"help": "h", "verbosity": "v", "demo": "d", "benchmark": "b"}
    args = list(args)
    while args:
        a = args.pop(0)
        if only or a == "-" or not a.startswith("-"):
            others.append(a)
            continue
        if a == "--":
            only = True
            continue
        if a.startswith("--"):
            name, eq, value = a[2:].partition("=")
            hits = [k for k in longs if k.startswith(name)]
            if len(hits) != 1:
                return 1, None, demo, bench, others, "not recognised", a
            opts = [(longs[hits[0]], value if eq else None)]
            if opts[0][0] != "v" and eq:
                return 1, None, demo, bench, others, "not recognised", a
            if opts[0][0] == "v" and not eq:
                if not args:
                    return 1, None, demo, bench, others, "requires a value", a
                opts = [("v", args.pop(0))]
        else:
            opts, rest = [], a[1:]
            while rest:
                o, rest = rest[0], rest[1:]
                if o == "v":
                    if not rest and not args:
                        opts.append((":", None))
                    else:
                        opts.append(("v", rest or args.pop(0)))
                    rest = ""
                else:
                    opts.append((o, None))
        for o, value in opts:
            if o == ":":
                return 1, None, demo, bench, others, "requires a value", "-v"
            if o not in "hvdb":
                return 1, None, demo, bench, others, "not recognised", "-" + o
            if o == "h":
                return 0, None, demo, bench, others, "help", None
            if o == "v":
                verbosity = int(re.match(r"\s*[-+]?\d+|", value).group() or 0)
            demo, bench = demo or o == "d", bench or o == "b"
    return None, verbosity, demo, bench, others, "", None


def read_image(path):
    lines = open(path).read().split("\n")
    r, n = [int(v) for v in lines[0].split()]
    a = np.array([[float(v) for v in l.split()] for l in lines[1:] if l.strip()])
    check(a.shape == (r, n), "%s holds %s values, not %d by %d", os.path.basename(path), a.shape, r, n)
    return a


def c29(s, c):
    words = ["-d", "-d", "--demo", "--de", "-b", "--benchmark", "-v0", "-v1", "-v2", "-v", "--verbosity=0", "--verbosity=1", "--verb=2",
             "--verbosity", "0", "1", "2", "-h", "--help", "-x", "--no-such", "file", "-", "--", "-dv0", "-bd", "--demo=1", "a b", "-dx", "-xd", "-v-1"]
    usual = ["-d", "--demo", "-v0", "-v1", "--verbosity=1", "-b", "file"]
    args = [s.pick(usual if s.flag(2, 3) else words) for _ in range(s.draw(5))]
    stops, verbosity, demo, bench, others, message, named = model_options(args)
    runs_bench = stops is None and bench and not demo
    have = s.draw(4) != 0  # is the benchmark's image there?
    status = s.range(0, 8)
    rows, cols = s.range(1, 6), s.range(1, 4)
    pixels = "%d %d\n" % (rows, cols) + "".join(" ".join("%d" % s.draw(1000) for _ in range(cols)) + "\n" for _ in range(rows))
    c.describe("arctic %s; image %s, download ends with %d" % (args, "there" if have else "not there", status))
    d = tempfile.mkdtemp(prefix="arctic-cli.")
    try:
        run, stub = os.path.join(d, "run"), os.path.join(d, "bin")
        os.mkdir(run)
        os.mkdir(stub)
        for w in ("wget", "curl"):
            with open(os.path.join(stub, w), "w") as f:
                # (what is downloaded goes where it is run)
                f.write("#!/bin/sh\necho asked >> %s/asked\n%sexit %d\n" % (
                    d, "" if status else "cat > benchmark_2k2k_image.txt <<'E'\n%sE\n" % pixels, status))
            os.chmod(os.path.join(stub, w), 0o755)
        if have:
            with open(os.path.join(run, "benchmark_2k2k_image.txt"), "w") as f:
                f.write(pixels)
        p = subprocess.run([os.path.join(HERE, "arctic")] + args, cwd=run, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=50,
                           env=dict(os.environ, PATH=stub + ":" + os.environ.get("PATH", "/usr/bin:/bin")))
        out, files = p.stdout.decode(), sorted(os.listdir(run))
        asked = os.path.exists(os.path.join(d, "asked"))
        check(p.returncode >= 0, "dies with signal %d", -p.returncode)
        check(asked == (runs_bench and not have), "the image is %sdownloaded", "" if asked else "not ")
        mine = ["benchmark_2k2k_image.txt"] if have else []
        if stops is not None:
            check(p.returncode == stops, "ends with %d, not %d", p.returncode, stops)
            check("--help" in out and "--verbosity" in out and "--demo" in out and "--benchmark" in out if message == "help" else message in out and "Error" in out,
                  "says %r", out[:300])
            check(files == mine, "leaves %s", files)
            if named:
                m = re.search(r"Option (.*?) (?:not recognised|requires a value)", out)
                # (a short option may be named with its group)
                check(m and (m.group(1) == named or named[:2] != "--" and m.group(1) in args and m.group(1)[:1] == "-" and
                             m.group(1)[1:2] != "-" and named[1] in m.group(1)), "%s is refused as %r", named, m and m.group(1))
            c.label(message)
            c.nontrivial = True
            return
        for o in others:
            check("Unparsed parameter: %s" % o in out, "does not say that %r is not used: %r", o, out[:300])
        if runs_bench and not have and not status:
            mine = ["benchmark_2k2k_image.txt"]
            c.label("download")
        elif runs_bench and not have:
            check(p.returncode != 0, "a failed download (%d) ends with 0", status)
            c.label("no download")
            c.nontrivial = True
            return
        check(p.returncode == 0, "ends with %d", p.returncode)
        loud = [l for l in out.split("\n") if "# Running" in l]
        check(bool(loud) == (verbosity >= 1 and (demo or bench)), "at verbosity %d it says %s", verbosity, loud)
        if demo:
            check(files == sorted(mine + ["image_test_cti_removed.txt", "image_test_pre_cti.txt"]), "leaves %s", files)
            first, last = [read_image(os.path.join(run, "image_test_%s.txt" % f)) for f in ("pre_cti", "cti_removed")]
            want = np.zeros((6, 4))
            want[1, 0] = want[2, 1] = want[3, 2] = 200
            close(first, want, 0, "the demonstration's image")
            r = Dir()
            r.type, r.roe, r.ccd = 0, ROE(empty_traps_for_first_transfers=True), CCD(full_well_depth=1e3)
            r.traps, r.express, r.offset, r.win0, r.win1, r.prune = [TrapInstantCapture(10, -1 / np.log(0.5))], 0, 0, 0, -1, (0, 0)
            trailed = core_cti(want, r, r)
            close(last, core_cti(trailed, r, r, 5), 1e-6, "the corrected image", 1.0)
            # The printed images
            blocks = re.findall(r"\[\[.*?\]\]", out, re.S)
            check(len(blocks) == 3, "%d images are printed", len(blocks))
            for b, w in zip(blocks, (want, trailed, last)):
                v = np.array([[float(x) for x in l.strip(" []").split(",")] for l in b.split("\n")])
                close(v, w, 1e-5, "a printed image", 200)
            c.label("demonstration")
            c.nontrivial = True
        else:
            check(files == mine, "leaves %s", files)
            c.label("benchmark" if bench else "nothing to do")
            c.nontrivial = bench
    finally:
        shutil.rmtree(d, ignore_errors=True)


Prop("C29", "Command lines of the program arctic, run in a scratch directory, with a stand-in for the download. Non-trivial: it does, or says, "
     "something.", c29, 12, 60)
