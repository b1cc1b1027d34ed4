#include <omp.h>

#include "model.hpp"

#include <math.h>

#include <algorithm>

std::string str(const TrapSpec& t) {
    static const char* nm[] = {"ic", "sc", "ic_co", "sc_co"};
    std::string s = strf("%s(density=%.17g,tau=%.17g", nm[t.type], t.density, t.tau);
    if (t.type == SC || t.type == SCC) s += strf(",capture=%.17g", t.capt);
    if (t.type == ICC || t.type == SCC) s += strf(",sigma=%.17g", t.sigma);
    if (t.full != 0) s += strf(",none_exposed=%.17g,full_exposed=%.17g", t.none, t.full);
    return s + ")";
}
std::string str(const RoeSpec& r) {
    static const char* nm[] = {"standard", "charge_injection", "trap_pumping"};
    std::string s = std::string(nm[r.type]) + "(dwell=[";
    for (double d : r.dwell) s += strf("%.17g ", d);
    s += strf("],prescan=%d,overscan=%d,empty_cols=%d,empty_first=%d,force=%d,integer=%d", r.prescan, r.overscan,
              r.empty_cols, r.empty_first, r.force, r.integer);
    if (r.type == TP) s += strf(",n_pumps=%d", r.n_pumps);
    return s + ")";
}
std::string str(const DirSpec& d) {
    std::string s = "{roe=" + str(d.roe) + " ccd=[";
    for (size_t i = 0; i < d.phases.size(); i++)
        s += strf("(full=%.17g,notch=%.17g,power=%.17g,first=%.17g,traps=%.17g)", d.phases[i].full, d.phases[i].notch,
                  d.phases[i].power, d.phases[i].fef, d.frac[i]);
    s += "] traps=[";
    for (auto& t : d.traps) s += str(t) + " ";
    s += strf("] express=%d offset=%d window=[%d,%d) prune_n=%g prune_freq=%d}", d.express, d.offset, d.win0, d.win1,
              d.prune_n, d.prune_freq);
    return s;
}
std::string str(const Img& im) {
    std::string s = "[";
    for (size_t i = 0; i < im.size(); i++) {
        s += i ? ",[" : "[";
        for (size_t j = 0; j < im[i].size(); j++) s += strf(j ? ",%.17g" : "%.17g", im[i][j]);
        s += "]";
    }
    return s + "]";
}
std::string str(const CaseSpec& c) {
    std::string s = strf("%dx%d ", c.rows(), c.cols());
    if (c.has_par) s += "parallel=" + str(c.par) + " ";
    if (c.has_ser) s += "serial=" + str(c.ser) + " ";
    if (c.threads > 1) s += strf("threads=%d ", c.threads);
    s += strf("allow_negative=%d image=", c.allow_neg) + str(c.image);
    return s;
}

Built::Built(const DirSpec& d) : null_empty(d.null_empty) {
    dwell.resize(d.roe.dwell.size());
    std::copy(d.roe.dwell.begin(), d.roe.dwell.end(), std::begin(dwell));
    frac.resize(d.frac.size());
    std::copy(d.frac.begin(), d.frac.end(), std::begin(frac));
    phases.resize(d.phases.size());
    for (size_t i = 0; i < d.phases.size(); i++)
        phases[i] = CCDPhase(d.phases[i].full, d.phases[i].notch, d.phases[i].power, d.phases[i].fef);
    const RoeSpec& r = d.roe;
    if (r.type == STD)
        roe.reset(new ROE(dwell, r.prescan, r.overscan, r.empty_cols, r.empty_first, r.force, r.integer));
    else if (r.type == CI)
        roe.reset(new ROEChargeInjection(dwell, r.prescan, r.overscan, r.empty_cols, r.force, r.integer));
    else
        roe.reset(new ROETrapPumping(dwell, r.n_pumps, r.empty_first, r.integer));
    ccd.reset(new CCD(phases, frac));
    int n[4] = {0, 0, 0, 0};
    for (auto& t : d.traps) n[t.type]++;
    ic.resize(n[IC], TrapInstantCapture(1, 1));
    sc.resize(n[SC], TrapSlowCapture(1, 1, 1));
    icc.resize(n[ICC], TrapInstantCaptureContinuum(1, 1, 1));
    scc.resize(n[SCC], TrapSlowCaptureContinuum(1, 1, 1, 1));
    int k[4] = {0, 0, 0, 0};
    for (auto& t : d.traps) {
        int i = k[t.type]++;
        if (t.type == IC) ic[i] = TrapInstantCapture(t.density, t.tau, t.none, t.full);
        if (t.type == SC) sc[i] = TrapSlowCapture(t.density, t.tau, t.capt);
        if (t.type == ICC) icc[i] = TrapInstantCaptureContinuum(t.density, t.tau, t.sigma);
        if (t.type == SCC) scc[i] = TrapSlowCaptureContinuum(t.density, t.tau, t.sigma, t.capt);
    }
}

namespace {
struct CaseThreads {
    bool set;
    explicit CaseThreads(const CaseSpec& c) : set(c.threads > 1) {
        if (set) omp_set_num_threads(c.threads);
    }
    ~CaseThreads() {
        if (set) omp_set_num_threads(1);
    }
};
}  // namespace
Img run_add(const CaseSpec& c) {
    CaseThreads threads(c);
    Built p(c.par), s(c.ser);
    Img im = c.image;
    bool hp = c.has_par, hs = c.has_ser;
    return add_cti(im, hp ? p.roe.get() : nullptr, hp ? p.ccd.get() : nullptr, hp ? p.p_ic() : nullptr,
                   hp ? p.p_sc() : nullptr, hp ? p.p_icc() : nullptr, hp ? p.p_scc() : nullptr, c.par.express,
                   c.par.offset, c.par.win0, c.par.win1, 0, -1, c.par.prune_n, c.par.prune_freq,
                   hs ? s.roe.get() : nullptr, hs ? s.ccd.get() : nullptr, hs ? s.p_ic() : nullptr,
                   hs ? s.p_sc() : nullptr, hs ? s.p_icc() : nullptr, hs ? s.p_scc() : nullptr, c.ser.express,
                   c.ser.offset, c.ser.win0, c.ser.win1, 0, -1, c.ser.prune_n, c.ser.prune_freq, c.allow_neg);
}
Img run_remove(const CaseSpec& c, int n_iterations) {
    CaseThreads threads(c);
    Built p(c.par), s(c.ser);
    Img im = c.image;
    bool hp = c.has_par, hs = c.has_ser;
    return remove_cti(im, n_iterations, hp ? p.roe.get() : nullptr, hp ? p.ccd.get() : nullptr,
                      hp ? p.p_ic() : nullptr, hp ? p.p_sc() : nullptr, hp ? p.p_icc() : nullptr,
                      hp ? p.p_scc() : nullptr, c.par.express, c.par.offset, c.par.win0, c.par.win1, 0, -1,
                      c.par.prune_n, c.par.prune_freq, hs ? s.roe.get() : nullptr, hs ? s.ccd.get() : nullptr,
                      hs ? s.p_ic() : nullptr, hs ? s.p_sc() : nullptr, hs ? s.p_icc() : nullptr,
                      hs ? s.p_scc() : nullptr, c.ser.express, c.ser.offset, c.ser.win0, c.ser.win1, 0, -1,
                      c.ser.prune_n, c.ser.prune_freq, c.allow_neg);
}
Img run_clock(const Img& im0, const DirSpec& d, int col0, int col1, int allow_neg) {
    Built b(d);
    Img im = im0;
    return clock_charge_in_one_direction(im, b.roe.get(), b.ccd.get(), b.p_ic(), b.p_sc(), b.p_icc(), b.p_scc(),
                                         d.express, d.offset, d.win0, d.win1, col0, col1, 0, -1, d.prune_n,
                                         d.prune_freq, allow_neg, 0);
}

Img make_img(int rows, int cols, double v) { return Img(std::valarray<double>(v, cols), rows); }
double img_scale(const Img& a) {
    double m = 0;
    for (auto& r : a)
        for (double v : r) m = std::max(m, fabs(v));
    return m;
}
double img_sum(const Img& a) {
    double s = 0;
    for (auto& r : a)
        for (double v : r) s += v;
    return s;
}
bool all_finite(const Img& a) {
    for (auto& r : a)
        for (double v : r)
            if (!std::isfinite(v)) return false;
    return true;
}
double max_diff(const Img& a, const Img& b) {
    double m = 0;
    if (a.size() != b.size()) return INFINITY;
    for (size_t i = 0; i < a.size(); i++) {
        if (a[i].size() != b[i].size()) return INFINITY;
        for (size_t j = 0; j < a[i].size(); j++) {
            double d = fabs(a[i][j] - b[i][j]);
            if (!(d <= m)) m = std::isnan(d) ? INFINITY : d;
        }
    }
    return m;
}

// ---- Generators
Img gen_image(Src& s, int rows, int cols, bool neg) {
    Img im = make_img(rows, cols);
    int kind = (int)s.draw(7);
    double level = s.pick<double>({100, 1000, 10, 20000, 1});
    if (s.flag(1, 30)) level = s.pick<double>({7e4, 3e5, 1e7});
    double bg = s.pick<double>({0, 5, 100, 0.1});
    switch (kind) {
        case 0: {  // isolated pixels
            for (int k = s.range(1, 3); k > 0; k--) im[s.draw(rows)][s.draw(cols)] = level;
            break;
        }
        case 1:  // uniform
            im = make_img(rows, cols, level);
            break;
        case 2:  // isolated pixels over a background
            im = make_img(rows, cols, bg);
            for (int k = s.range(1, 5); k > 0; k--) im[s.draw(rows)][s.draw(cols)] += s.logreal(1, 30000);
            break;
        case 3:  // every pixel different, over several orders of magnitude
            for (int i = 0; i < rows; i++)
                for (int j = 0; j < cols; j++) im[i][j] = s.logreal(0.01, 50000);
            break;
        case 4: {  // few repeated levels, so that clouds reach equal heights
            double lv[3] = {0, level, s.pick<double>({50, 500, 5000, 30000})};
            for (int i = 0; i < rows; i++)
                for (int j = 0; j < cols; j++) im[i][j] = lv[s.draw(3)];
            break;
        }
        case 5: {  // bright bar then empty rows
            int a = (int)s.draw(rows), b = std::min(rows, a + s.range(1, 4));
            for (int i = a; i < b; i++)
                for (int j = 0; j < cols; j++) im[i][j] = level;
            break;
        }
        case 6: {  // noise about a background, negative where allowed
            double sig = s.pick<double>({3, 30, 1});
            for (int i = 0; i < rows; i++)
                for (int j = 0; j < cols; j++) im[i][j] = bg + s.real(-2, 2) * sig;
            if (s.flag(1, 2)) im[s.draw(rows)][s.draw(cols)] += level;
            break;
        }
    }
    for (int i = 0; i < rows; i++)
        for (int j = 0; j < cols; j++)
            if (!neg && im[i][j] < 0) im[i][j] = 0;
    return im;
}
PhaseSpec gen_phase(Src& s, bool fef) {
    PhaseSpec p;
    p.full = s.pick<double>({1e4, 84700, 1e3, 200, 5e4});
    p.notch = s.pick<double>({0, 0, 1, 10, 96.5});
    p.power = s.pick<double>({1, 0.478, 0.8, 0.58, 1.3, 2});
    if (fef && s.flag(1, 3)) p.fef = s.pick<double>({0.01, 0.1, 1e-4, 0.5});
    return p;
}
TrapSpec gen_trap(Src& s, int type, bool surface) {
    TrapSpec t;
    t.type = type;
    t.density = s.flag(1, 8) ? s.pick<double>({0, 1e-3, 1e4}) : s.logreal(0.1, 500);
    t.tau = s.flag(1, 8) ? s.pick<double>({1e-2, 1e3, 1e-3, 1e5}) : s.logreal(0.2, 50);
    if (type == SC || type == SCC) t.capt = s.flag(1, 8) ? s.pick<double>({1e-3, 10, 100}) : s.logreal(0.01, 5);
    if (type == ICC || type == SCC) t.sigma = s.flag(1, 6) ? s.pick<double>({0.05, 2}) : s.real(0.1, 1.2);
    if (type == IC && surface && s.flag(1, 2)) {
        t.none = s.pick<double>({0, 0.2, 0.5, 0.01});
        t.full = std::min(1.0, t.none + s.pick<double>({0.3, 0.1, 1.0, 0}));
        if (t.full == 0) t.full = 0.1;
        if (t.none + t.full >= 2) t.none = 0.9;
    }
    return t;
}
RoeSpec gen_roe(Src& s, const GenOpt& o, int rows) {
    RoeSpec r;
    r.type = s.pick(o.roes);
    int np = o.max_phases > 1 ? s.range(1, o.max_phases) : 1;
    double dw = s.pick<double>({1.0, 0.5, 2.0, 0.1});
    r.dwell.assign(r.type == TP ? 2 * np : np, dw / np);
    // (each phase has the dwell time listed for it)
    if (r.type != TP && np > 1 && s.flag(1, 4))
        for (double& w : r.dwell) w *= s.pick<double>({1, 0.3, 2.5});
    r.empty_first = r.type != CI && s.flag(1, 3);
    r.integer = s.flag(1, 4);
    if (r.type == TP) {
        r.force = false;
        r.n_pumps = s.flag(1, 40) ? s.range(13, 150) : s.small(1, 12);
        return r;
    }
    r.force = !s.flag(1, 3);
    if (o.carry_over) r.empty_cols = !s.flag(1, 4);
    if (s.flag(1, 4)) r.prescan = s.flag(1, 40) ? s.range(7, 60) : s.small(1, 6);
    if (o.overscan && s.flag(1, 4)) r.overscan = s.range(1, rows + 4);
    if (r.type == CI && r.overscan >= 0 && r.prescan + r.overscan < 2) r.prescan = 1;
    return r;
}
DirSpec gen_dir(Src& s, const GenOpt& o, int rows, int cols) {
    DirSpec d;
    d.roe = gen_roe(s, o, rows);
    int np = d.roe.n_phases();
    d.phases.clear();
    d.frac.clear();
    double left = 1;
    for (int p = 0; p < np; p++) {
        d.phases.push_back(p == 0 || s.flag(1, 3) ? gen_phase(s, o.fef) : d.phases[0]);
        double f = p == np - 1 ? left : s.flag(1, 5) ? 0.0 : 1.0 / np;
        d.frac.push_back(f);
        left -= f;
    }
    int nt = s.flag(1, 60) ? s.range(o.max_traps + 1, 10) : s.range(1, o.max_traps);
    for (int i = 0; i < nt; i++) d.traps.push_back(gen_trap(s, s.pick(o.types), o.surface));
    switch (s.draw(4)) {
        case 0: d.express = 0; break;
        case 1: d.express = s.range(1, 3); break;
        case 2: d.express = s.range(1, rows + 2); break;
        case 3: d.express = std::max(1, rows - (int)s.draw(3)); break;
    }
    if (d.roe.type != TP && s.flag(1, 4)) d.offset = s.flag(1, 40) ? s.range(21, 300) : s.small(1, 20);
    if (d.roe.type == TP) {
        d.win0 = (int)s.draw(rows);
        d.win1 = d.win0 + 1;
    } else if (o.windows && s.flag(1, 4)) {
        d.win0 = (int)s.draw(rows);
        d.win1 = s.range(d.win0 + 1, rows);
    }
    d.null_empty = !s.flag(1, 4);
    if (!o.prune)
        d.prune_freq = 0;
    else if (s.flag(1, 3))
        d.prune_freq = s.pick<int>({0, 1, 2, 5});
    return d;
}
// Many pixels out of few draws
static Img gen_big_image(Src& s, int rows, int cols) {
    Img im = make_img(rows, cols);
    Rng r(1 + s.draw(1u << 30));
    double bg = s.pick<double>({0, 5, 100, 0.1}), noise = s.pick<double>({0, 1, 3}), top = s.pick<double>({1000, 50, 5e4});
    int every = s.pick<int>({50, 7, 200});
    for (auto& row : im)
        for (double& v : row) {
            v = std::max(0.0, bg + noise * ((double)(r.next() % 2001) / 1000 - 1));
            if (r.next() % every == 0) v += top * (double)(r.next() % 1000 + 1) / 1000;
        }
    return im;
}
void limit_cost(CaseSpec& c, bool keep_cols) {
    const double most = 2e7;
    for (auto* d : {&c.par, &c.ser}) {
        if (d == &c.par ? !c.has_par : !c.has_ser) continue;
        // (levels that are kept add up over the columns)
        int n = d == &c.par ? c.rows() : c.cols(), lines = d == &c.par ? c.cols() : c.rows();
        if (n < 60 && lines < 60) continue;
        auto cost = [&] {
            double passes = d->roe.empty_first ? n + d->offset + d->express : d->express;
            double levels = (d->roe.empty_cols ? n : (double)n * lines) * (double)d->roe.dwell.size();
            return passes * n * lines * std::min(levels, 5000.0) * (double)d->roe.dwell.size() * d->roe.n_phases() *
                   d->traps.size();
        };
        if (cost() > most && !keep_cols) d->roe.empty_cols = 1;
        if (cost() > most) d->roe.empty_first = 0;
        if (cost() > most) d->express = 1;
    }
}
CaseSpec gen_case(Src& s, const GenOpt& o) {
    CaseSpec c;
    int rows = s.flag(1, 4) ? s.range(1, o.max_rows) : s.small(1, o.max_rows / 3 + 1);
    int cols = s.small(1, o.max_cols);
    // Now and then an image about as long, or as wide, as real ones
    bool big = o.big && s.flag(getenv("PBT_BIG") ? 300 : 1, 300);
    if (big) {
        bool wide = s.flag(1, 2);
        rows = wide ? s.range(1, 3) : s.range(100, 600);
        cols = wide ? s.range(60, 300) : s.range(1, 2);
    }
    bool serial = o.serial && s.flag(1, 3);
    c.has_par = !serial || s.flag(1, 2);
    c.has_ser = serial;
    if (c.has_par) c.par = gen_dir(s, o, rows, cols);
    if (c.has_ser) c.ser = gen_dir(s, o, cols, rows);
    if (o.negative && s.flag(1, 5)) c.allow_neg = 0;
    if (big)
        for (auto* d : {&c.par, &c.ser})
            if (d->express == 0 || d->express > 4) d->express = s.range(1, 4);
    if (big && s.flag(3, 4))
        c.image = gen_big_image(s, rows, cols);
    else
        c.image = gen_image(s, rows, cols, o.negative);
    if (big) limit_cost(c, false);
    if (s.flag(1, 30)) c.threads = s.range(2, 4);
    return c;
}

// got must equal want, up to what rounding-sized changes of the image do to the
// reference's own output
void expect_close(Ctx& c, const CaseSpec& k, const Img& got, const Img& want, double tol_rel, const char* what) {
    CHECK(all_finite(got), "%s: output is not finite: %s", what, str(got).c_str());
    double scale = 1 + std::max(img_scale(k.image), img_scale(want));
    double tol = tol_rel * scale;
    // Each pruning moves a few times prune_n electrons, out of the levels that came
    // about since the last, which count for as many transfers as there are in a pass
    for (auto* d : {k.has_par ? &k.par : nullptr, k.has_ser ? &k.ser : nullptr})
        if (d && d->prune_freq > 0)
            tol += (10 + 5 * std::min(d->prune_freq, d == &k.par ? k.rows() : k.cols())) * d->prune_n *
                   ((d == &k.par ? k.rows() : k.cols()) + d->offset + d->roe.prescan + d->roe.n_pumps);
    if (max_diff(got, want) > 0.1 * tol) {
        double sens = 100 * ref_sensitivity(k, ref_add(k), 2e-10 + 1e-13 * scale);
        if (sens > tol) c.label("ill-conditioned");
        if (sens > 1e-3 * scale) throw Discard();
        tol += sens;
    }
    double d = max_diff(got, want);
    c.metric(std::string(what) + ": difference/tolerance", d / tol);
    CHECK(d <= tol, "%s: differs by %.6g (tolerance %.3g): got %s want %s", what, d, tol, str(got).c_str(),
          str(want).c_str());
}

void label_case(Ctx& c, const CaseSpec& k) {
    if (ref_facts.not_enough) c.label("fewer electrons than traps");
    if (ref_facts.negative) c.label("negative pixels");
    if (ref_facts.outside) c.label("charge moved outside the image");
    if (k.has_par) c.label(strf("parallel roe type %d phases %d", k.par.roe.type, k.par.roe.n_phases()));
    if (k.has_ser) c.label("serial");
    if (k.has_par && k.has_ser) c.label("parallel and serial");
    if (k.has_par && k.par.roe.empty_first) c.label("empty first transfers");
    if (k.has_par && !k.par.roe.empty_cols) c.label("traps kept between columns");
    if (k.rows() >= 20) c.label("20 rows or more");
    if (k.threads > 1) c.label("several threads");
    if (k.rows() >= 100 || k.cols() >= 60) c.label("100 rows or 60 columns or more");
    if (ref_facts.max_segments > 3) c.label("over 3 occupancy levels");
}

// Printing is on by default
static const bool quiet = (set_verbosity(0), true);
