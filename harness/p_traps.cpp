// Physics of the traps and of the pixel wells, against their definitions
#include <math.h>

#include <algorithm>
#include <limits>

#include "model.hpp"

namespace {

const double HUGE_T = std::numeric_limits<double>::max();

void p_exponential(Src& s, Ctx& c) {
    double tau = s.logreal(1e-3, 1e5), t = s.flag(1, 6) ? 0.0 : s.logreal(1e-4, 1e4);
    double capt = s.flag(1, 4) ? 0.0 : s.logreal(1e-3, 100), dens = s.logreal(1e-3, 1e5);
    c.describe(strf("exponential: density %g tau %.17g capture %.17g t %.17g", dens, tau, capt, t));
    TrapInstantCapture a(dens, tau);
    TrapSlowCapture b(dens, tau, capt);
    double want = exp(-t / tau);
    for (double v : {a.fill_fraction_from_time_elapsed(t), b.fill_fraction_from_time_elapsed(t)})
        CHECK(fabs(v - want) <= 1e-12 * want, "a fraction %.17g remains, want %.17g", v, want);
    CHECK(a.density == dens && b.density == dens, "density %.17g", a.density);
    CHECK(fabs(b.release_rate * tau - 1) < 1e-12, "release rate %.17g", b.release_rate);
    if (capt > 0) CHECK(fabs(b.capture_rate * capt - 1) < 1e-12, "capture rate %.17g", b.capture_rate);

    // Slow capture of a single transfer from empty and from full traps
    double dwell = s.logreal(0.01, 10), n = 10000, full = 1e5;
    double V = n / full;
    CCDPhase phase(full, 0, 1);
    TrapManagerSlowCapture m(std::valarray<TrapSlowCapture>{TrapSlowCapture(1.0, tau, capt)}, 10, phase, dwell);
    m.setup();
    double got = -m.n_electrons_released_and_captured(n);
    double rr = 1 / tau, rc = capt > 0 ? 1 / capt : 0;
    double fe = capt > 0 ? rc / (rr + rc) * (1 - exp(-(rr + rc) * dwell)) : 1;
    CHECK(fabs(got - V * fe) < 1e-12, "empty traps capture %.17g, want %.17g", got, V * fe);
    double ff = capt > 0 ? 1 - rr / (rr + rc) * (1 - exp(-(rr + rc) * dwell)) : 1;
    double f2 = fe * ff + (1 - fe) * fe;
    got = -m.n_electrons_released_and_captured(n);
    CHECK(fabs(got - V * (f2 - fe)) < 1e-12, "then %.17g, want %.17g", got, V * (f2 - fe));
    // and with no electrons, only release
    got = m.n_electrons_released_and_captured(0);
    double rel = V * f2 * (1 - exp(-dwell / tau));
    double recap = std::min(rel, 1.0) > 0 ? rel / full : 0;  // the volume that those reach
    CHECK(fabs(got - rel) <= 2 * recap + 1e-12, "then %.17g are released, want %.17g", got, rel);
    c.nontrivial = t > 0;
    c.label("exponential");
}

void p_surface(Src& s, Ctx& c) {
    double a = s.flag(1, 4) ? 0 : s.real(0, 0.9), b = s.flag(1, 4) ? a : std::min(1.0, a + s.real(0, 1));
    if (b == 0) b = 0.5;
    double lo = s.pick<double>({0, a, b, s.unit()}), hi = s.pick<double>({1, a, b, s.unit()});
    if (lo > hi) std::swap(lo, hi);
    double dens = s.logreal(0.1, 1e4);
    c.describe(strf("surface: none %.17g full %.17g from %.17g to %.17g density %g", a, b, lo, hi, dens));
    TrapInstantCapture t(dens, 1.0, a, b);
    auto f = [&](double v) { return v >= b ? 1.0 : v <= a ? 0.0 : (v - a) / (b - a); };
    auto cum = [&](double v) {
        if (v <= a) return 0.0;
        if (v >= b) return 0.5 * (b - a) + (v - b);
        return 0.5 * (v - a) * (v - a) / (b - a);
    };
    double got = t.fraction_traps_exposed_per_fractional_volume(lo, hi);
    if (hi - lo > 1e-6) {
        double want = (cum(hi) - cum(lo)) / (hi - lo);
        CHECK(fabs(got - want) <= 1e-9 / std::max(hi - lo, 1e-3) / std::max(b - a, 1e-3), "fraction exposed %.17g, want %.17g", got, want);
    } else if (hi == lo && !(a == b && lo == a)) {
        CHECK(fabs(got - f(lo)) < 1e-9, "fraction exposed at one volume %.17g, want %.17g", got, f(lo));
    }
    CHECK(got >= -1e-9 && got <= 1 + 1e-9, "fraction exposed %.17g", got);
    // The number of traps in a pixel is as given, wherever they are
    if (a + b < 1.98) {
        double all = t.density * t.fraction_traps_exposed_per_fractional_volume(0, 1);
        CHECK(fabs(all - dens) <= 1e-9 * dens, "%.17g traps in a pixel, want %.17g", all, dens);
    }
    TrapInstantCapture u(dens, 1.0);
    CHECK(u.density == dens && u.fraction_traps_exposed_per_fractional_volume(lo, hi) == 1, "uniform traps are exposed by %g",
          u.fraction_traps_exposed_per_fractional_volume(lo, hi));
    c.nontrivial = hi > lo && lo < b && hi > a;
    c.label("surface");
}

// The integration takes its own error for smaller than it is across a transition
// that is sharp against a wide distribution
double quadrature(double sigma) { return sigma >= 1.5 ? 1e-3 : sigma > 0.8 ? 5e-5 : 1e-5; }

template <class T>
void continuum_direct(Src& s, Ctx& c, T& t, const Continuum& ref, double tau, double sigma) {
    double x = tau * s.logreal(1e-4, 300), y = tau * s.logreal(1e-4, 300);
    if (x > y) std::swap(x, y);
    double fx = t.fill_fraction_from_time_elapsed(x), fy = t.fill_fraction_from_time_elapsed(y);
    double want = ref.fill_direct(x);
    double rel = quadrature(sigma);
    c.metric("continuum fraction: difference/tolerance", fabs(fx - want) / (rel * want + 1e-12));
    CHECK(fabs(fx - want) <= rel * want + 1e-12, "a fraction %.17g remains after %.17g, want %.17g", fx, x, want);
    CHECK(fy <= fx * (1 + 2 * rel) && fx <= 1 + rel && fy >= 0, "%.17g remain after %.17g, %.17g after %.17g", fx, x, fy, y);
    CHECK(t.fill_fraction_from_time_elapsed(0) == 1, "full traps");
    CHECK(t.fill_fraction_from_time_elapsed(HUGE_T) == 0, "empty traps");
    // The inverse
    if (want > 1e-8 && want < 1 - 1e-4) {
        double tmax = x * s.logreal(1.5, 1000);
        double back = t.time_elapsed_from_fill_fraction(fx, tmax);
        double f = ref.fill_direct(back);
        CHECK(fabs(f - fx) <= 3 * rel * fx, "the time from a fraction %.17g is %.17g, when it is %.17g", fx, back, f);
    }
    CHECK(t.time_elapsed_from_fill_fraction(1, 10 * tau) == 0 && t.time_elapsed_from_fill_fraction(0, 10 * tau) == HUGE_T,
          "times of full and empty traps");
    // One workspace for many calls is the same
    gsl_integration_workspace* w = gsl_integration_workspace_alloc(100);
    double fw = t.fill_fraction_from_time_elapsed(x, w);
    gsl_integration_workspace_free(w);
    CHECK(fw == fx, "with a workspace %.17g, without %.17g", fw, fx);
    c.nontrivial = want > 1e-6 && want < 1 - 1e-6;
}

template <class T>
void continuum_table(Src& s, Ctx& c, T& t, const Continuum& ref, double sigma, double dwell, double tmin, double tmax, int n) {
    double dl = log(tmax / tmin) / (n - 1);
    double tol = 0.3 * dl * dl + 1e-5 + quadrature(sigma);
    for (int i = 0; i < 12; i++) {
        double x = i == 0 ? tmin : i == 1 ? tmax : exp(s.real(log(tmin), log(tmax)));
        double f = t.fill_fraction_from_time_elapsed_table(x), want = ref.fill_direct(x);
        c.metric("table fraction: difference/tolerance", fabs(f - want) / tol);
        CHECK(fabs(f - want) <= tol, "tabulated fraction after %.17g: %.17g, want %.17g", x, f, want);
        double x2 = std::min(x * exp(s.real(0, 1)), tmax), f2 = t.fill_fraction_from_time_elapsed_table(x2);
        CHECK(f2 <= f + 0.3 * quadrature(sigma), "tabulated fraction rises from %.17g after %.17g to %.17g after %.17g", f, x, f2, x2);
    }
    double f0 = ref.fill_direct(tmax), f1 = ref.fill_direct(tmin);
    for (int i = 0; i < 12; i++) {
        double f = f0 + (f1 - f0) * s.unit();
        if (f < 1e-6 || f1 - f0 < 1e-3) continue;
        double x = t.time_elapsed_from_fill_fraction_table(f);
        double back = t.fill_fraction_from_time_elapsed_table(x);
        CHECK(fabs(back - f) <= 1e-7, "fraction %.17g has the time %.17g, when it is %.17g", f, x, back);
        CHECK(fabs(ref.fill_direct(x) - f) <= tol, "fraction %.17g has the tabulated time %.17g, when it is %.17g", f, x,
              ref.fill_direct(x));
    }
    // Outside the table, in order and within bounds
    double far = tmax * s.logreal(1, 100), near = tmin / s.logreal(1, 100);
    double a = t.fill_fraction_from_time_elapsed_table(far), b = t.fill_fraction_from_time_elapsed_table(near);
    CHECK(a >= 0 && a <= f0 + tol, "the fraction after %.17g is %.17g, after %.17g only %.17g", far, a, tmax, f0);
    CHECK(b <= 1 && b >= f1 - tol, "the fraction after %.17g is %.17g, after %.17g it is %.17g", near, b, tmin, f1);
    double tn = t.time_elapsed_from_fill_fraction_table(std::min(1.0, f1 + (1 - f1) * s.unit()));
    CHECK(tn >= 0 && tn <= tmin * (1 + 10 * dl), "the time of a fuller fraction than any in the table is %.17g", tn);
    CHECK(t.fill_fraction_from_time_elapsed_table(0) == 1 && t.fill_fraction_from_time_elapsed_table(HUGE_T) == 0 &&
              t.time_elapsed_from_fill_fraction_table(1) == 0 && t.time_elapsed_from_fill_fraction_table(0) == HUGE_T,
          "full or empty traps");
    c.nontrivial = f1 - f0 > 1e-3;
}

void p_continuum(Src& s, Ctx& c) {
    bool slow = s.flag(1, 2), table = s.flag(1, 3);
    double tau = s.logreal(1e-3, 1e4), sigma = s.flag(1, 4) ? s.pick<double>({0.01, 0.05, 2, 3}) : s.real(0.1, 1.2);
    double capt = s.flag(1, 6) ? s.pick<double>({0, 1e-3, 100}) : s.logreal(0.01, 5), dwell = s.pick<double>({1, 0.5, 0.1, 3});
    double dens = s.logreal(0.1, 1e4);
    if (table) tau = dwell * s.logreal(0.05, 100);
    double tmin = slow ? dwell / 30 : dwell, tmax = dwell * s.small(2, 300);
    int n = s.pick<int>({1000, 300, 100});
    c.describe(strf("%s continuum %s: tau %.17g sigma %.17g capture %.17g dwell %g times %g to %g, %d", slow ? "slow" : "instant",
                    table ? "tables" : "functions", tau, sigma, capt, dwell, tmin, tmax, n));
    Continuum ref(tau, sigma, capt > 0 ? 1 / capt : 0, dwell);
    if (!slow) {
        TrapInstantCaptureContinuum t(dens, tau, sigma);
        if (table) {
            t.prep_fill_fraction_and_time_elapsed_tables(tmin, tmax, n);
            continuum_table(s, c, t, ref, sigma, dwell, tmin, tmax, n);
        } else
            continuum_direct(s, c, t, ref, tau, sigma);
    } else {
        TrapSlowCaptureContinuum t(dens, tau, sigma, capt);
        auto want_after = [&](double x) { return capt > 0 ? ref.fill_after_capture(x) : 1.0; };
        if (table) {
            t.prep_fill_fraction_and_time_elapsed_tables(tmin, tmax, n);
            continuum_table(s, c, t, ref, sigma, dwell, tmin, tmax, n);
            bool nt = c.nontrivial;
            t.prep_fill_fraction_after_slow_capture_tables(dwell, tmin, tmax, n);
            double dl = log(tmax / tmin) / (n - 1), tol = 0.3 * dl * dl + 2e-5 + quadrature(sigma);
            for (int i = 0; i < 12; i++) {
                double x = i == 0 ? tmin : i == 1 ? tmax : exp(s.real(log(tmin), log(tmax)));
                double f = t.fill_fraction_after_slow_capture_table(x), w = want_after(x);
                c.metric("capture table: difference/tolerance", fabs(f - w) / tol);
                CHECK(fabs(f - w) <= tol, "tabulated fraction after capture from %.17g: %.17g, want %.17g", x, f, w);
            }
            double e = t.fill_fraction_after_slow_capture_table(HUGE_T), w = want_after(1e305);
            CHECK(fabs(e - w) <= tol, "empty traps are filled by %.17g, want %.17g", e, w);
            // (traps fuller than the table are as those at its start)
            double f = t.fill_fraction_after_slow_capture_table(0);
            CHECK(f <= want_after(0) + tol && f >= want_after(tmin) - tol, "full traps are left %.17g full, want %.17g", f,
                  want_after(0));
            // The same table of release, whichever was prepared last
            continuum_table(s, c, t, ref, sigma, dwell, tmin, tmax, n);
            c.nontrivial = nt;
        } else {
            continuum_direct(s, c, t, ref, tau, sigma);
            double x = s.flag(1, 4) ? 0.0 : tau * s.logreal(1e-4, 300);
            double f = t.fill_fraction_after_slow_capture(x, dwell), w = want_after(x);
            CHECK(fabs(f - w) <= 2e-5 * w + 1e-12, "fraction after capture from %.17g: %.17g, want %.17g", x, f, w);
            f = t.fill_fraction_after_slow_capture(HUGE_T, dwell);
            w = want_after(1e305);
            CHECK(fabs(f - w) <= 2e-5 * w + 1e-12, "fraction after capture from empty: %.17g, want %.17g", f, w);
        }
    }
    c.label(strf("%s continuum %s", slow ? "slow" : "instant", table ? "tables" : "functions"));
}

Reg r14({"C14",
         "Trap functions and tables against their definitions, evaluated independently. Non-trivial: the occupancy is neither "
         "full nor empty.",
         [](Src& s, Ctx& c) {
             switch (s.draw(4)) {
                 case 0: p_exponential(s, c); break;
                 case 1: p_surface(s, c); break;
                 default: p_continuum(s, c); break;
             }
         },
         20, 300, {"tables of between 100 and 1000 values, tested to their own resolution"}, {}, {}});

// ---- C15: volume of the charge cloud
void p_volume(Src& s, Ctx& c) {
    PhaseSpec p;
    p.full = s.logreal(10, 1e6);
    p.notch = s.flag(1, 3) ? 0 : p.full * s.pick<double>({0.5, 0.01, 0.99, s.unit()}) * 0.999;
    p.power = s.flag(1, 5) ? 1.0 : s.real(0.05, 3);
    p.fef = s.flag(1, 3) ? s.pick<double>({0.01, 1, 0.3, 1e-6}) : 0;
    double x = s.pick<double>({0.0, -1.0, p.notch, p.full, -s.logreal(1e-3, 1e5), 2 * p.full, s.logreal(1e-6, 1e6),
                               p.notch + (p.full - p.notch) * s.unit(), p.notch * s.unit()});
    double y = x + (s.flag(1, 4) ? 0 : s.logreal(1e-6, 1e5));
    c.describe(strf("full %.17g notch %.17g power %.17g first %.17g electrons %.17g and %.17g", p.full, p.notch, p.power, p.fef, x, y));
    CCDPhase q(p.full, p.notch, p.power, p.fef);
    double vx = q.cloud_fractional_volume_from_electrons(x), vy = q.cloud_fractional_volume_from_electrons(y);
    double want = p.cloud(x);
    CHECK(fabs(vx - want) <= 1e-12 + 1e-9 * want, "volume %.17g, want %.17g", vx, want);
    CHECK(vx >= 0 && vx <= 1, "volume %.17g", vx);
    CHECK(vy >= vx - 1e-15, "%.17g electrons fill %.17g, %.17g fill %.17g", x, vx, y, vy);
    if (x <= p.notch) CHECK(vx == p.fef, "electrons within the notch fill %.17g", vx);
    if (x >= p.full) CHECK(vx == 1, "a full well is filled by %.17g", vx);
    // The default for the first electron, a CCD of one phase, and one of many
    CCDPhase r(p.full, p.notch, p.power);
    PhaseSpec p0 = p;
    p0.fef = 0;
    CHECK(fabs(r.cloud_fractional_volume_from_electrons(x) - p0.cloud(x)) <= 1e-12 + 1e-9 * p0.cloud(x), "volume by default");
    CCD one(q);
    CHECK(one.n_phases == 1 && one.phases.size() == 1 && one.fraction_of_traps_per_phase.size() == 1 &&
              one.fraction_of_traps_per_phase[0] == 1 && one.phases[0].cloud_fractional_volume_from_electrons(x) == vx,
          "CCD of one phase");
    int n = s.range(1, 5);
    std::valarray<CCDPhase> ph(q, n);
    std::valarray<double> fr(1.0 / n, n);
    ph[n - 1] = r;
    CCD many(ph, fr);
    CHECK((int)many.n_phases == n, "%u phases", many.n_phases);
    for (int i = 0; i < n; i++)
        CHECK(many.fraction_of_traps_per_phase[i] == fr[i] && many.phases[i].cloud_fractional_volume_from_electrons(x) ==
                                                                  ph[i].cloud_fractional_volume_from_electrons(x),
              "phase %d", i);
    c.nontrivial = vx > 0 && vx < 1;
    if (x < 0) c.label("negative");
    if (x > 0 && x < p.notch) c.label("within the notch");
    if (x > p.full) c.label("over the full well");

    // In an image: electrons within the notch are not captured, and neither
    // are any by a species of no traps; a full well fills every trap
    if (s.flag(1, 2)) {
        CaseSpec k;
        k.par.phases[0] = p0;
        TrapSpec t;
        t.type = s.pick<int>({IC, SC});
        t.density = s.logreal(0.1, 0.1 * p.full);
        t.tau = s.logreal(0.1, 10);
        if (t.type == SC) t.capt = s.logreal(0.01, 1);
        k.par.traps = {t};
        int rows = s.range(1, 6);
        k.image = make_img(rows, 1);
        bool notch = p.notch > 0 && s.flag(1, 2);
        for (int i = 0; i < rows; i++) k.image[i][0] = notch ? p.notch * s.unit() : p.full * s.real(1.2, 1.5);
        c.describe(c.desc + " image " + str(k));
        Img out = run_add(k);
        if (notch) {
            CHECK(max_diff(out, k.image) == 0, "electrons within the notch are captured: %s", str(out).c_str());
            c.label("image within the notch");
        } else if (t.type == IC) {
            // The first row fills the traps in each of the pixels that it passes,
            // the others find them partly emptied, and that is all
            CaseSpec z = k;
            for (int i = 0; i < rows; i++) z.image[i] *= 2.0;
            Img o2 = run_add(z);
            Img d1 = out - k.image, d2 = o2 - z.image;
            CHECK(max_diff(d1, d2) <= 1e-8 * p.full, "fuller pixels over the full well lose other numbers of electrons: %s, %s",
                  str(d1).c_str(), str(d2).c_str());
            c.label("image over the full well");
        }
    }
}
Reg r15({"C15",
         "The volume of a charge cloud against its definition, and images within the notch or over the full well. Non-trivial: "
         "a cloud that fills a part of the well.",
         p_volume, 15, 200, {}, {}, {}});
}  // namespace
