"""C22: the Python functions do what the core library does. C23: the model of HST ACS."""
import copy, io, sys
import numpy as np
import arcticpy
from arcticpy import add_cti, remove_cti, CTI_model_for_HST_ACS
from engine import Prop, check, Discard
from common import *


class Header(dict):
    def set(self, key, value, comment=None):
        self[key] = (value, comment)


class Weird(TrapInstantCapture):
    pass


def c22(s, c):
    rows, cols = s.small(1, 12), s.small(1, 8)
    if s.flag(1, 60):
        # a larger image, of few draws
        rows, cols = s.range(13, 90), s.range(9, 60)
        rng = np.random.default_rng(s.draw(1 << 30))
        values = rng.uniform(0, s.pick([5, 300]), (rows, cols)) + (rng.random((rows, cols)) < 0.03) * s.pick([500, 2e4])
        c.label("larger image")
    else:
        values = gen_values(s, rows, cols)
    im, dtype = cast(s, values)
    im, layout = lay_out(s, im)
    as_list = s.flag(1, 12)
    big = im.size > 100
    which = s.draw(4)
    par = gen_dir(s, rows) if which != 1 else None
    ser = gen_dir(s, cols) if which in (1, 3) else None
    if par is not None and ser is not None:
        # trap pumping's one row is also the only row of the other direction
        if par.type == 2 or ser.type == 2:
            if s.draw(2):
                par = None
            else:
                ser = None
        elif rows == cols and s.flag(1, 8):
            ser = copy.copy(par)  # the same objects in both directions
    if big:
        for d in (par, ser):
            if d is not None:
                d.express = s.pick([1, 2])
                d.roe.empty_traps_between_columns = True
                if d.type != 2:
                    d.roe.empty_traps_for_first_transfers = False
    allow = 0 if s.flag(1, 3) else 1
    k = kwargs_of(par, ser)
    pw, sw = (0, -1), (0, -1)
    # A window of the direction without traps selects lines
    if par is None and s.flag(1, 4):
        a = s.draw(rows)
        pw = (a, s.range(a + 1, rows))
        k["parallel_window_start"], k["parallel_window_stop"] = pw
    if ser is None and s.flag(1, 4):
        a = s.draw(cols)
        sw = (a, s.range(a + 1, cols))
        k["serial_window_start"], k["serial_window_stop"] = sw
    verbosity = s.pick([0, 0, 0, 1, 2 if not big else 0])
    n_it = (s.draw(4) if not s.flag(1, 10) else s.range(4, 9)) if s.flag(1, 3) else None
    if not allow or s.flag(1, 2):
        k["allow_negative_pixels"] = allow
    # objects of a direction without traps are not used
    if par is None and s.flag(1, 4):
        k["parallel_roe"], k["parallel_ccd"] = ROE(dwell_times=[0.3, 0.7]), CCD(full_well_depth=10)
    k = lean(s, k)
    header = Header() if s.flag(1, 4) else None
    if header is not None:
        k["header"] = header
    given = im.tolist() if as_list else im
    c.describe("%s of %s %s %s, parallel %s serial %s windows %s %s allow_negative=%d verbosity=%d" % (
        "addition to" if n_it is None else "removal of %d from" % n_it, dtype, "list" if as_list else layout,
        np.asarray(im, float).tolist() if im.size < 400 else im.shape, show_dir(par), show_dir(ser), pw, sw, allow, verbosity))
    before = snapshot(im, par, ser, *[k[x] for x in k if x != "header"])
    base = np.array(im, dtype=np.float64)
    run = lambda x: core_cti(x, par, ser, -1, allow, pw, sw)
    if n_it is None:
        want = run(base)
        if not np.all(np.isfinite(want)):
            raise Discard()
        got = add_cti(given, verbosity=verbosity, **k)
    else:
        def iterate(x, noise):
            y = x.copy()
            for it in range(n_it):
                y = y + (x - run(noise(y)))
                if not allow and it == 0:
                    y[y < 0] = 0
            return y
        want, moves = spread(iterate, base, 1 + np.max(np.abs(base)))
        if not np.all(np.isfinite(want)) or moves > 1e-3 * (1 + np.max(np.abs(want))):
            raise Discard()
        got = remove_cti(given, n_it, verbosity=verbosity, **k)
        if allow:
            close(core_cti(base, par, ser, n_it, 1, pw, sw), want, 1e-10, "the core's removal is not its definition",
                  1 + np.max(np.abs(want)) + 1e12 * moves)
        c.label("removal")
    check(snapshot(im, par, ser, *[k[x] for x in k if x != "header"]) == before, "the arguments are changed")
    check(isinstance(got, np.ndarray) and got.dtype == np.float64, "the result is a %s of %s", type(got), got.dtype)
    check(not np.shares_memory(got, im), "the result shares the memory of the given image")
    # (the rounding of numbers of other types is done by numpy before anything else)
    c.metric("core", close(got, want, 1e-10, "Python, not the core", 1 + np.max(np.abs(want)) + (1e12 * moves if n_it is not None else 0)))
    if header is not None:
        for key in ("cticor", "ctipar"):
            check(key in header, "the header has no %s", key)
            check("ArCTIc" in header[key][1] and ("correction" if n_it is not None else "addition") in header[key][1],
                  "the header says %s", header[key])
        c.label("header")
    c.nontrivial = np.max(np.abs(want - base)) > 1e-6
    c.label(dtype)
    c.label("list" if as_list else layout)
    for d in (par, ser):
        if d is not None:
            c.label(type(d.roe).__name__)
            for t in d.traps:
                c.label(type(t).__name__)
    if par is not None and ser is not None:
        c.label("both directions")
    # The order of the species does not matter
    if n_it is None and par is not None and len(par.traps) > 1 and s.flag(1, 4):
        t = list(par.traps)
        i = s.range(1, len(t) - 1)
        k2 = dict(k, parallel_traps=t[i:] + t[:i])
        close(add_cti(given, verbosity=0, **k2), want, 1e-9, "species in another order")
        c.label("species reordered")
    # What is not a trap is not ignored
    if n_it is None and s.flag(1, 20):
        name = "parallel_traps" if par is not None else "serial_traps"
        bad = s.pick([Weird(10, 1), arcticpy.traps.AbstractTrap(10, 1), 5.0, None])
        try:
            add_cti(given, verbosity=0, **dict(k, **{name: list(k[name]) + [bad]}))
        except Exception:
            pass
        else:
            check(False, "%r is accepted as a trap species", bad)
        c.label("not a trap")


Prop("C22", "Images of any type and memory layout, with any model, against the core library called directly. Non-trivial: the CTI "
     "changed the image.", c22, 25, 300,
     ["the core library (same sources, called without the Python package's interface) is decided by the other properties"])


# ---- C23
LAUNCH, COOL, SM4 = 2452334.5, 2453920.0, 2454968.0


def c23(s, c):
    kind = s.draw(4)
    if kind == 0:
        date = s.pick([LAUNCH, COOL, SM4]) + s.pick([0, 1e-6, -1e-6, 1, -1, 0.5, 100])
    elif kind == 1:
        date = LAUNCH - s.logreal(1e-3, 1e5)
    else:
        date = LAUNCH + s.real(0, 9000)
    if s.flag(1, 3):
        date = int(date)
    c.describe("date %r" % date)
    try:
        model = CTI_model_for_HST_ACS(date)
    except AssertionError:
        check(date < LAUNCH, "a date after the launch is rejected")
        c.label("before launch")
        c.nontrivial = True
        return
    check(date >= LAUNCH, "a date before the launch is accepted")
    proe, pccd, ptraps, sroe, sccd, straps = model
    # Massey et al.: three species whose total density grows linearly
    days = date - LAUNCH
    total = 0.017845 + 3.5488e-4 * days if date < SM4 else 1.011 * (-0.246591 + 0.000558980 * days)
    times = [0.48, 4.86, 20.6] if date < COOL else [0.74, 7.70, 37.0]
    check(straps is None, "there are serial traps")
    check(len(ptraps) == 3 and all(type(t) is TrapInstantCapture for t in ptraps), "the species are %s", ptraps)
    for t, f, tau in zip(ptraps, [0.17, 0.45, 0.38], times):
        check(abs(t.density - f * total) <= 1e-12 * total and t.density > 0, "density %.17g, not %.17g", t.density, f * total)
        check(t.release_timescale == tau, "release timescale %g, not %g", t.release_timescale, tau)
        check(t.fractional_volume_none_exposed == 0 and t.fractional_volume_full_exposed == 0, "surface traps")
    for ccd in (pccd, sccd):
        p = ccd.phases
        check(len(p) == 1 and ccd.full_well_depths.tolist() == [84700] and ccd.well_notch_depths.tolist() == [0]
              and ccd.well_fill_powers.tolist() == [0.478] and ccd.first_electron_fills.tolist() == [0]
              and ccd.fraction_of_traps_per_phase.tolist() == [1] and p[0].full_well_depth == 84700, "the CCD is %s", vars(ccd))
    check(proe.type == 0 and proe.dwell_times.tolist() == [1] and proe.prescan_offset == 0 and proe.overscan_start == 2048 and
          proe.empty_traps_between_columns and not proe.empty_traps_for_first_transfers and
          proe.force_release_away_from_readout and not proe.use_integer_express_matrix, "the parallel ROE is %s", vars(proe))
    check(sroe.prescan_length == 24 and sroe.read_noise == 4 and sroe.overscan_start == -1 and
          sroe.type == 0 and sroe.dwell_times.tolist() == [1] and sroe.prescan_offset == 0 and sroe.empty_traps_between_columns and
          not sroe.empty_traps_for_first_transfers and sroe.force_release_away_from_readout and
          not sroe.use_integer_express_matrix, "the serial ROE is %s", vars(sroe))
    c.label("before cooling" if date < COOL else "before SM4" if date < SM4 else "after SM4")
    # Later dates are never better within an era, and the eras join
    d2 = date + s.logreal(0.1, 1000)
    t2 = sum(t.density for t in CTI_model_for_HST_ACS(d2)[2])
    check(t2 > total * 0.99, "the density falls from %g at %s to %g at %s", total, date, t2, d2)
    c.nontrivial = True
    if s.flag(1, 3):
        # The model's objects are ready to use
        rows = s.range(2, 12)
        im = gen_values(s, rows, 2, negative=False) + s.pick([1, 500, 5000])
        off = s.pick([0, 10, 100]) if s.flag(1, 2) else s.range(0, 2000)
        k = dict(parallel_roe=proe, parallel_ccd=pccd, parallel_traps=ptraps, serial_roe=sroe, serial_ccd=sccd,
                 serial_traps=straps, parallel_express=s.pick([1, 2, 5]), parallel_window_offset=off, verbosity=0)
        d = Dir()
        d.type, d.roe, d.ccd, d.express, d.offset = 0, ROE(overscan_start=2048), CCD([CCDPhase(84700, 0, 0.478)]), k["parallel_express"], off
        d.traps = [TrapInstantCapture(f * total, tau) for f, tau in zip([0.17, 0.45, 0.38], times)]
        d.win0, d.win1, d.prune = 0, -1, (1e-10, 20)
        c.describe("date %r, image %s, express=%d offset=%d" % (date, im.tolist(), d.express, off))
        out = add_cti(im, **k)
        close(out, core_cti(im, d, None), 1e-9, "the image")
        rec = remove_cti(out, 3, **k)
        e0, e3 = np.max(np.abs(out - im)), np.max(np.abs(rec - im))
        if e0 < 0.1 * im.min():
            # (when the trails are as large as the signal, the iterations need not converge)
            check(e3 <= 0.5 * e0 + 1e-9, "correcting the image takes the error from %g to %g", e0, e3)
            c.label("image, corrected")
        c.label("image")


Prop("C23", "Julian dates before, at and after each change of the instrument, and images trailed with the model. Non-trivial: every date.",
     c23, 12, 90)
