// Histories of the trap managers: conservation of charge, bounds on the trap
// states, storing and restoring them, and the pruning of small levels
#include <math.h>

#include <algorithm>

#include "model.hpp"

namespace {
// (where the trap managers' members are not those known here, their histories are left to the images)
#ifndef VERIF_IMAGES_ONLY

// What only reports on the states is worked out from them where the code no
// longer has a function for it
double sum_level(TrapManagerBase& b, int i) {
    double f = 0;
    for (int t = 0; t < b.n_traps; t++) f += b.watermark_fills[i * b.n_traps + t];
    return f * b.watermark_volumes[i];
}
template <class B>
auto level_in(B& b, int i, int) -> decltype((double)b.n_trapped_electrons_in_watermark(i)) {
    return b.n_trapped_electrons_in_watermark(i);
}
template <class B>
double level_in(B& b, int i, long) {
    return sum_level(b, i);
}
template <class B>
auto total_in(B& b, int) -> decltype((double)b.n_trapped_electrons_total()) {
    return b.n_trapped_electrons_total();
}
template <class B>
double total_in(B& b, long) {
    double v = 0;
    for (int i = b.i_first_active_wmk; i < b.i_first_active_wmk + b.n_active_watermarks; i++) v += sum_level(b, i);
    return v;
}
template <class B>
auto levels_in(B& b, int) -> decltype(std::valarray<double>(b.n_trapped_electrons_per_watermark())) {
    return b.n_trapped_electrons_per_watermark();
}
template <class B>
std::valarray<double> levels_in(B& b, long) {
    std::valarray<double> v(0.0, b.watermark_volumes.size());
    for (int i = b.i_first_active_wmk; i < b.i_first_active_wmk + b.n_active_watermarks; i++) v[i] = sum_level(b, i);
    return v;
}
template <class M>
auto release_of(M& m, int i, int) -> decltype((double)m.n_electrons_released_from_wmk_above_cloud(i)) {
    return m.n_electrons_released_from_wmk_above_cloud(i);
}
template <class M>
double release_of(M&, int, long) {
    throw Discard();
}

struct Mgr {
    int type, phase;
    TrapManagerBase* b;
    RefManager ref;
    int used = 0, stored_used = 0;
    double dens = 0, v_max = 0, stored_v_max = 0;
    bool surface = false, uniform = true;
    PhaseSpec ph;
    double step(TrapManagerManager& m, double n) const {
        switch (type) {
            case IC: return m.trap_managers_ic[phase].n_electrons_released_and_captured(n);
            case SC: return m.trap_managers_sc[phase].n_electrons_released_and_captured(n);
            case ICC: return m.trap_managers_ic_co[phase].n_electrons_released_and_captured(n);
            default: return m.trap_managers_sc_co[phase].n_electrons_released_and_captured(n);
        }
    }
    double releases(TrapManagerManager& m, int i) const {
        switch (type) {
            case IC: return release_of(m.trap_managers_ic[phase], i, 0);
            case SC: return release_of(m.trap_managers_sc[phase], i, 0);
            case ICC: return release_of(m.trap_managers_ic_co[phase], i, 0);
            default: return release_of(m.trap_managers_sc_co[phase], i, 0);
        }
    }
    // (tables extrapolated far beyond their times magnify it)
    double rounding() const { return type == IC || type == SC ? 1e-11 : 1e-8; }
};
const char* type_name(int t) {
    static const char* n[] = {"instant", "slow", "instant continuum", "slow continuum"};
    return n[t];
}

struct Rig {
    DirSpec d;
    std::unique_ptr<Built> b;
    std::unique_ptr<TrapManagerManager> m;
    std::vector<Mgr> g;
    int max_n = 0;

    void build() {
        b.reset(new Built(d));
        m.reset(new TrapManagerManager(b->ic, b->sc, b->icc, b->scc, max_n, *b->ccd, b->dwell));
        for (int p = 0; p < (int)d.phases.size(); p++)
            for (int t = IC; t <= SCC; t++) {
                if (!d.has(t)) continue;
                Mgr x;
                x.type = t;
                x.phase = p;
                x.ph = d.phases[p];
                x.b = t == IC    ? (TrapManagerBase*)&m->trap_managers_ic[p]
                      : t == SC  ? (TrapManagerBase*)&m->trap_managers_sc[p]
                      : t == ICC ? (TrapManagerBase*)&m->trap_managers_ic_co[p]
                                 : (TrapManagerBase*)&m->trap_managers_sc_co[p];
                x.ref.setup(t, d.traps, d.frac[p], d.phases[p], d.roe.dwell[p], max_n * (int)d.phases.size(), false);
                for (size_t i = 0; i < x.ref.traps.size(); i++) {
                    x.dens += x.ref.dens[i];
                    if (x.ref.traps[i].full > 0) x.surface = true;
                }
                g.push_back(std::move(x));
            }
    }
    // How many histories to run: preparing the tables of continua takes far longer than one
    int histories(Src& s) const { return d.has(ICC) || d.has(SCC) ? s.range(1, 12) : 1; }
    // Bounds on the state of one manager
    void bounds(Mgr& x, const char* when) {
        if (x.dens == 0) return;
        double total = total_in(*x.b, 0);
        double tol = 1e-9 * (x.dens + 1e-9);
        CHECK(std::isfinite(total), "%s traps hold %g electrons %s", type_name(x.type), total, when);
        CHECK(total >= -tol, "%s traps hold %.17g electrons %s", type_name(x.type), total, when);
        CHECK(total <= x.dens + tol, "%s traps hold %.17g electrons %s, there are %.17g of them", type_name(x.type), total,
              when, x.dens);
        std::valarray<double> per = levels_in(*x.b, 0);
        for (double v : per) CHECK(v >= -tol && v <= x.dens + tol, "a level holds %.17g electrons %s", v, when);
        double sum = 0;
        for (int i = x.b->i_first_active_wmk; i < x.b->i_first_active_wmk + x.b->n_active_watermarks; i++) {
            double v = x.b->watermark_volumes[i];
            CHECK(v >= -1e-12 && std::isfinite(v), "%s traps have a level of volume %.17g %s", type_name(x.type), v, when);
            sum += v;
        }
        CHECK(sum <= x.v_max + 1e-9, "the levels of %s traps reach a volume of %.17g %s, no cloud was over %.17g",
              type_name(x.type), sum, when, x.v_max);
    }
};

double gen_n(Src& s, const Mgr& x, double last, int faint = 0) {
    double full = x.ph.full, n;
    // Clouds that could not fill their traps, with larger ones, and time to empty, between
    if (faint) {
        int q = s.draw(faint == 2 ? 8 : 16);
        if (q == 0) return 0;
        if (q == 8 || q == 9) return x.ph.notch + (full - x.ph.notch) * pow(s.real(0, 1), 1 / std::max(0.05, x.ph.power));
        if (q > 9) return q == 10 && last >= 0 ? last : -s.logreal(1, 1e4);
        return s.logreal(1e-4, 1) * std::max(1e-3, std::min(x.dens, full));
    }
    switch (s.draw(10)) {
        case 8: n = x.ph.notch + (full - x.ph.notch) * pow(s.real(0, 1), 1 / std::max(0.05, x.ph.power)); break;
        case 9: n = x.ph.notch + s.logreal(1e-9, 1); break;
        case 0: n = s.flag(1, 2) ? 0 : -s.logreal(1e-3, 1e3); break;
        case 1: n = x.dens * s.real(0, 2); break;
        case 2: n = s.logreal(1e-3, 1e5); break;
        case 3: n = x.ph.notch + s.real(0, 1) * (full - x.ph.notch); break;
        case 4: n = last; break;
        case 5: n = s.pick<double>({1, 10, 100, 1000}); break;
        case 6: n = full * s.real(0.9, 1.5); break;
        default: n = last * s.real(0, 1.5); break;
    }
    return n;
}

void gen_rig(Src& s, Rig& r, bool multi) {
    GenOpt o;
    o.types = s.pick<std::vector<int>>({{IC}, {SC}, {IC, SC}, {IC}, {SC}, {IC, SC}, {IC}, {SC}, {IC, SC}, {ICC}, {SCC}, {IC, SC, ICC, SCC}});
    o.surface = s.flag(1, 3);
    o.fef = s.flag(1, 4);
    int np = multi ? s.range(1, 3) : 1;
    r.d.roe.dwell.assign(np, s.pick<double>({1.0, 0.5, 2.0, 0.1}) / np);
    if (np > 1 && s.flag(1, 4))
        for (double& w : r.d.roe.dwell) w *= s.pick<double>({1, 0.3, 2.5});
    r.d.phases.clear();
    r.d.frac.clear();
    double left = 1;
    for (int p = 0; p < np; p++) {
        r.d.phases.push_back(p == 0 || s.flag(1, 3) ? gen_phase(s, o.fef) : r.d.phases[0]);
        double f = p == np - 1 ? left : s.pick<double>({0.3, 0.5, 0});
        r.d.frac.push_back(f);
        left -= f;
    }
    for (int i = s.range(1, 3); i > 0; i--) r.d.traps.push_back(gen_trap(s, s.pick(o.types), o.surface));
    r.max_n = s.small(3, 60);
    r.build();
}

void p_history(Src& s, Ctx& c) {
    Rig r;
    gen_rig(s, r, true);
    std::string h = str(r.d) + strf(" max transfers %d:", r.max_n);
    std::vector<double> last(r.g.size(), 100.0);
    bool restored = false, cap = false;
    int steps = 0;
    // (a history without resets has more levels)
    int kinds = 10, faint = 0;
    auto step = [&](size_t i, double n) {
        Mgr& x = r.g[i];
        if (x.used >= r.max_n) return;
        x.used++;
        steps++;
        last[i] = n;
        h += strf(" %s%d(%.17g)", type_name(x.type), x.phase, n);
        c.describe(h);
        double before = total_in(*x.b, 0);
        double got = x.step(*r.m, n);
        double after = total_in(*x.b, 0);
        double want = x.ref.step(n);
        double scale = 1e-3 + fabs(n) + x.dens;
        CHECK(std::isfinite(got), "%s traps return %g", type_name(x.type), got);
        if (!x.surface)
            CHECK(fabs(before - after - got) <= 1e-11 * scale,
                  "%s traps with %.17g free electrons: %.17g are returned, but the number trapped goes from %.17g to %.17g",
                  type_name(x.type), n, got, before, after);
        if (n >= 0)
            CHECK(n + got >= -x.rounding() * scale, "%s traps take %.17g of %.17g electrons", type_name(x.type), -got, n);
        CHECK(got <= before + x.rounding() * scale, "%s traps release %.17g of the %.17g that they hold", type_name(x.type), got,
              before);
        x.v_max = std::max(x.v_max, x.ph.cloud(n + std::max(0.0, before)));
        r.bounds(x, "after a transfer");
        // Heights are rounded, and powers of small heights magnify that
        double tol = (x.type == IC || x.type == SC ? 1e-10 : 1e-7) * scale;
        c.metric("returned electrons: difference/tolerance", fabs(got - want) / tol);
        CHECK(fabs(got - want) <= tol, "%s traps with %.17g free electrons return %.17g, the reference %.17g",
              type_name(x.type), n, got, want);
        double t = x.ref.trapped();
        if (!x.surface)
            CHECK(fabs(after - t) <= tol, "%s traps hold %.17g electrons, the reference %.17g", type_name(x.type), after, t);
        if (got < 0) cap = true;
    };
    auto reset = [&] {
        h += " reset";
        r.m->reset_trap_states();
        for (auto& x : r.g) x.ref.st.clear(), x.used = 0, x.v_max = 0;
    };
    int n_ops = 0, more = r.histories(s);
    for (int k = 0; k < n_ops || more > 0; k++) {
        if (k >= n_ops) {
            if (k > 0) reset();
            more--;
            k = -1;
            n_ops = s.small(1, 60);
            kinds = s.pick<int>({10, 9, 7});
            faint = s.pick<int>({0, 0, 1, 2});
            continue;
        }
        switch (s.draw(kinds)) {
            default: {
                size_t i = s.draw(r.g.size());
                step(i, gen_n(s, r.g[i], last[i], faint));
                break;
            }
            case 5:
            case 6: {  // the same in every manager
                double n = gen_n(s, r.g[0], last[0], faint);
                for (size_t i = 0; i < r.g.size(); i++) step(i, n);
                break;
            }
            case 7:
                h += " store";
                r.m->store_trap_states();
                for (auto& x : r.g) x.ref.stored = x.ref.st, x.stored_used = x.used, x.stored_v_max = x.v_max;
                break;
            case 8:
                h += " restore";
                r.m->restore_trap_states();
                for (auto& x : r.g) {
                    x.ref.st = x.ref.stored, x.used = x.stored_used, x.v_max = x.stored_v_max;
                    restored = true;
                }
                break;
            case 9: reset(); break;
        }
        // No operation changes any other manager
        c.describe(h);
        for (auto& x : r.g)
            if (!x.surface) {
                double a = total_in(*x.b, 0), t = x.ref.trapped();
                double tol = (x.type == IC || x.type == SC ? 1e-10 : 1e-7) * (1e-3 + fabs(last[&x - &r.g[0]]) + x.dens);
                CHECK(fabs(a - t) <= tol, "%s traps of phase %d hold %.17g electrons, the reference %.17g",
                      type_name(x.type), x.phase, a, t);
            }
    }
    c.nontrivial = cap && steps > 1;
    for (auto& x : r.g) {
        c.label(std::string("history of ") + type_name(x.type) + (x.surface ? " surface" : "") + " traps");
        if (x.used == r.max_n) c.label("history of as many transfers as allowed");
    }
    if (restored) c.label("history with restored states");
}

#endif
void p_image_conservation(Src& s, Ctx& c) {
    GenOpt o;
    o.types = s.pick<std::vector<int>>({{IC}, {SC}, {IC, SC}, {IC}, {SC}, {IC, SC}, {ICC}, {SCC}, {IC, SC, ICC, SCC}});
    o.negative = false;
    o.windows = false;
    o.overscan = false;
    o.carry_over = false;
    o.serial = true;
    o.max_rows = 25;
    o.surface = s.flag(1, 3);
    CaseSpec k = gen_case(s, o);
    k.allow_neg = 1;
    for (auto* d : {&k.par, &k.ser}) d->express = s.flag(1, 3) ? 1000 : 0;
    if (s.flag(1, 2)) {
        // Nothing but losses of what is still trapped at the end
        c.describe(str(k));
        Img out = run_add(k);
        double in = img_sum(k.image), sum = img_sum(out), scale = 1 + in;
        for (auto& row : out)
            for (double v : row) CHECK(v >= -1e-10 * scale, "a pixel of %.17g electrons from none that are negative", v);
        double lost = 0;
        if (k.has_par) lost += k.par.total_density() * (k.rows() + k.par.offset + k.par.roe.prescan) * k.cols();
        if (k.has_ser) lost += k.ser.total_density() * (k.cols() + k.ser.offset + k.ser.roe.prescan) * k.rows();
        // With empty traps for each first transfer, there is nothing to gain
        bool first = (!k.has_par || k.par.roe.empty_first) && (!k.has_ser || k.ser.roe.empty_first);
        if (first) c.label("nothing to gain");
        CHECK(sum <= in * (1 + 1e-11) + 1e-9 + (first ? 0 : o.surface ? 4 * lost : lost), "%.17g electrons become %.17g", in, sum);
        // (the number of traps of a surface species is that of the exposed ones)
        if (!o.surface) CHECK(in - sum <= lost * (1 + 1e-9) + 1e-9 * scale, "%.17g electrons are lost, to %.17g traps", in - sum, lost);
        c.nontrivial = in - sum > 1e-6;
        c.label("loss to the traps");
        return;
    }
    // Given time, everything is released
    int extra = 80;
    k.has_par = true, k.has_ser = false;
    k.par.phases[0].fef = 0;
    for (auto& t : k.par.traps) {
        if (t.type == ICC || t.type == SCC) t.sigma = std::min(t.sigma, 0.3);
        t.tau = std::min(t.tau, (t.type == ICC || t.type == SCC ? 0.5 : 1.5) * k.par.roe.dwell[0]);
        t.density = std::min(t.density, 50.0);
        t.none = t.full = 0;
    }
    if (k.par.traps.empty()) throw Discard();
    k.par.roe.empty_first = true;
    int n = k.rows() + extra;
    double bound = k.par.total_density() * (n + k.par.offset + k.par.roe.prescan);
    k.par.phases[0].notch = bound;
    k.par.phases[0].full = bound + s.pick<double>({1e4, 1e3, 1e5});
    Img im = make_img(n, k.cols());
    for (int i = 0; i < k.rows(); i++)
        for (int j = 0; j < k.cols(); j++) im[i][j] = k.image[i][j] > 0 ? k.image[i][j] + bound : 0.0;
    k.image = im;
    c.describe(strf("%d empty rows, ", extra) + str(k.par) + " image " + str(k.image));
    Img out = run_add(k);
    double in = img_sum(im), sum = img_sum(out);
    CHECK(fabs(in - sum) <= 1e-8 * (1 + in) + 1e-3 * (k.par.has(ICC) || k.par.has(SCC)),
          "%.17g electrons are %.17g when all of the traps have emptied", in, sum);
    c.nontrivial = max_diff(im, out) > 1e-6;
    c.label("everything released");
}

void p04(Src& s, Ctx& c) {
#ifndef VERIF_IMAGES_ONLY
    if (!s.flag(1, 4)) return p_history(s, c);
#endif
    p_image_conservation(s, c);
}
Reg r04({"C04",
         "Histories of transfers of the trap managers, with trap states stored, restored and reset, with every step checked "
         "for conservation and against the reference; and images clocked without express. Non-trivial: a history in which "
         "electrons are captured, or an image that CTI changes.",
         p04, 25, 400,
         {"at most as many transfers between resets as the manager was made for"}, {}, {}});

// ---- C17: pruning
#ifndef VERIF_IMAGES_ONLY
void p_prune_history(Src& s, Ctx& c) {
    Rig r;
    gen_rig(s, r, false);
    std::string h = str(r.d) + strf(" max transfers %d:", r.max_n);
    std::vector<double> last(r.g.size(), 100.0);
    int n_ops = 0, more = r.histories(s), pruned = 0;
    for (int k = 0; k < n_ops || more > 0; k++) {
        if (k >= n_ops) {
            if (k > 0) {
                h += " reset";
                r.m->reset_trap_states();
                for (auto& x : r.g) x.used = 0, x.v_max = 0;
            }
            more--;
            k = -1;
            n_ops = s.small(2, 60);
            continue;
        }
        if (s.draw(4) == 3) {
            double thr = s.pick<double>({1e-10, 1e-3, 1, 1e-6, 20, -1e-10, -1e-3, -1});
            h += strf(" prune(%g)", thr);
            c.describe(h);
            std::vector<double> before, n_before, n_over, n_must;
            for (auto& x : r.g) {
                before.push_back(total_in(*x.b, 0)), n_before.push_back(x.b->n_active_watermarks);
                int over = 0;
                for (int j = x.b->i_first_active_wmk + 1; j < x.b->i_first_active_wmk + x.b->n_active_watermarks; j++)
                    over += (thr > 0 ? level_in(*x.b, j, 0) : x.releases(*r.m, j)) > fabs(thr) * (1 + 1e-9);
                n_over.push_back(over);
                // (an emptier level than the one below, with too little)
                int must = 0, f0 = x.b->i_first_active_wmk;
                if (level_in(*x.b, f0, 0) > 0)
                    for (int j = f0 + 1; j < f0 + x.b->n_active_watermarks; j++) {
                        double v = thr > 0 ? level_in(*x.b, j, 0) : x.releases(*r.m, j);
                        double vol = x.b->watermark_volumes[j], vol_below = x.b->watermark_volumes[j - 1];
                        must += v < fabs(thr) * (1 - 1e-9) && vol > 1e-12 && vol_below > 1e-12 && level_in(*x.b, j - 1, 0) > 1e-200 &&
                                level_in(*x.b, j, 0) * vol_below <= level_in(*x.b, j - 1, 0) * vol * (1 - 1e-9);
                    }
                n_must.push_back(must);
                if (x.surface || x.dens == 0) continue;
                // What each level would release, from its own fills
                for (int j = x.b->i_first_active_wmk; j < x.b->i_first_active_wmk + x.b->n_active_watermarks; j++) {
                    double want = 0, scale = 0;
                    for (size_t t = 0; t < x.ref.traps.size(); t++) {
                        double d = x.ref.dens[t], f = x.b->watermark_fills[j * x.ref.traps.size() + t], after = 0;
                        if (d == 0) continue;
                        switch (x.type) {
                            case ICC:
                                after = d * x.ref.icc[t]->fill_fraction_from_time_elapsed_table(
                                                x.ref.icc[t]->time_elapsed_from_fill_fraction_table(f / d) + x.ref.dwell);
                                break;
                            case SCC:
                                after = d * x.ref.scc[t]->fill_fraction_from_time_elapsed_table(
                                                x.ref.scc[t]->time_elapsed_from_fill_fraction_table(f / d) + x.ref.dwell);
                                break;
                            default: after = f * exp(-x.ref.dwell / x.ref.traps[t].tau);
                        }
                        want += f - after;
                        scale += d;
                    }
                    want *= x.b->watermark_volumes[j];
                    double got = x.releases(*r.m, j);
                    CHECK(fabs(got - want) <= (x.type == IC || x.type == SC ? 1e-11 : 1e-7) * scale,
                          "level %d of %s traps would release %.17g electrons, not %.17g", j, type_name(x.type), got, want);
                }
            }
            r.m->prune_watermarks(thr);
            for (size_t i = 0; i < r.g.size(); i++) {
                Mgr& x = r.g[i];
                double after = total_in(*x.b, 0);
                // (a level that fills the one below to rounding joins it whole)
                CHECK(fabs(after - before[i]) <= 1e-9 * (1e-3 + x.dens), "pruning %s traps takes the number trapped from %.17g to %.17g",
                      type_name(x.type), before[i], after);
                CHECK(x.b->n_active_watermarks <= n_before[i], "pruning leaves %d levels of %g", x.b->n_active_watermarks,
                      n_before[i]);
                // (what is pruned adds to the level below; sharing its volume
                // slows the release from the one above for continua)
                if (n_over[i] > 0 && (thr > 0 || x.type == IC || x.type == SC))
                    CHECK(x.b->n_active_watermarks > n_over[i], "%g of the levels over the lowest of %s traps %s more than %g electrons, but %d levels remain",
                          n_over[i], type_name(x.type), thr > 0 ? "hold" : "would release", fabs(thr), x.b->n_active_watermarks);
                if (n_must[i] > 0)
                    CHECK(x.b->n_active_watermarks < n_before[i], "%g of the levels of %s traps %s less than %g electrons, above a fuller one, but all %g remain",
                          n_must[i], type_name(x.type), thr > 0 ? "hold" : "would release", fabs(thr), n_before[i]);
                if (x.b->n_active_watermarks < n_before[i]) {
                    pruned++;
                    c.label(std::string("pruned ") + type_name(x.type) + (x.surface ? " surface" : "") + " traps");
                }
                r.bounds(x, "after pruning");
                if (x.type == IC || x.type == ICC) {
                    // The levels that remain are all over the threshold
                    int f = x.b->i_first_active_wmk;
                    if (level_in(*x.b, f, 0) > 0)
                        for (int j = f + 1; j < f + x.b->n_active_watermarks; j++) {
                            double v = thr > 0 ? level_in(*x.b, j, 0) : x.releases(*r.m, j);
                            // (unless the one below is emptier for its volume)
                            double in_here = level_in(*x.b, j, 0), below = level_in(*x.b, j - 1, 0);
                            bool emptier = below * x.b->watermark_volumes[j] < in_here * x.b->watermark_volumes[j - 1] * (1 - 1e-11);
                            CHECK(v >= fabs(thr) * (1 - 1e-9) || n_before[i] <= 1 || emptier, "level %d of %s traps %s %.17g electrons after pruning", j - f,
                                  type_name(x.type), thr > 0 ? "holds" : "would release", v);
                        }
                }
            }
            continue;
        }
        size_t i = s.draw(r.g.size());
        Mgr& x = r.g[i];
        if (x.used >= r.max_n) continue;
        x.used++;
        double n = last[i] = gen_n(s, x, last[i]);
        h += strf(" %s(%.17g)", type_name(x.type), n);
        c.describe(h);
        double before = total_in(*x.b, 0);
        double got = x.step(*r.m, n);
        double after = total_in(*x.b, 0);
        double scale = 1e-3 + fabs(n) + x.dens;
        if (!x.surface)
            CHECK(fabs(before - after - got) <= 1e-11 * scale,
                  "%s traps with %.17g free electrons: %.17g are returned, but the number trapped goes from %.17g to %.17g",
                  type_name(x.type), n, got, before, after);
        if (n >= 0)
            CHECK(n + got >= -x.rounding() * scale, "%s traps take %.17g of %.17g electrons", type_name(x.type), -got, n);
        x.v_max = std::max(x.v_max, x.ph.cloud(n + std::max(0.0, before)));
        r.bounds(x, "after a transfer");
    }
    c.nontrivial = pruned > 0;
}

#endif
void p_prune_image(Src& s, Ctx& c) {
    GenOpt o;
    o.types = s.pick<std::vector<int>>({{IC}, {SC}, {IC, SC}, {IC}, {SC}, {IC, SC}, {ICC}, {SCC}});
    o.max_rows = 40;
    o.max_cols = 2;
    o.negative = false;
    o.serial = false;
    o.carry_over = false;
    o.surface = s.flag(1, 4);
    CaseSpec k = gen_case(s, o);
    if (s.flag(1, 2))
        for (auto& t : k.par.traps) t.tau = s.real(0.05, 0.6) * k.par.roe.dwell[0];
    k.par.prune_freq = s.pick<int>({1, 2, 5, 20});
    k.par.prune_n = s.pick<double>({1e-10, 1e-6, 1e-3, 0.1});
    c.describe(str(k));
    Img a = run_add(k);
    CaseSpec q = k;
    q.par.prune_freq = 0;
    q.par.prune_n = s.pick<double>({0, 1, 100});
    Img b = run_add(q);
    q.par.prune_n = 1e-10;
    CHECK(max_diff(run_add(q), b) == 0, "the pruning threshold matters although there is no pruning");
    double scale = 1 + img_scale(k.image);
    if (s.flag(1, 3)) {
        // (each pass and column clocks fewer pixels than that)
        q.par.prune_freq = k.rows() + s.range(1, 30);
        q.par.prune_n = s.pick<double>({1e-3, 1, 100});
        double d_never = max_diff(run_add(q), b);
        CHECK(d_never <= 1e-12 * scale, "levels are pruned after fewer pixels than asked for, every %d", q.par.prune_freq);
        c.label("never pruned");
        q.par.prune_freq = 0;
        q.par.prune_n = 1e-10;
    }
    double n = k.rows() + k.par.offset + k.par.roe.prescan;
    double tol = 1e-8 * scale + k.par.prune_n * n * n;
    double d = max_diff(a, b);
    // (traps that take up more than is added to a pixel, being dense in a small
    // well, make more of any difference with each pixel)
    if (d > 0.1 * tol) tol += 100 * ref_sensitivity(q, ref_add(q), k.par.prune_n);
    c.metric("image: difference/tolerance", d / tol);
    CHECK(all_finite(a), "not finite: %s", str(a).c_str());
    CHECK(d <= tol, "pruning levels of under %g electrons changes the image by %.6g: %s, without %s", k.par.prune_n, d,
          str(a).c_str(), str(b).c_str());
    c.nontrivial = d > 0;
    c.label(strf("image, every %d transfers", k.par.prune_freq));
}
Reg r17({"C17",
         "Histories of transfers and prunings of the trap managers, and images with and without pruning. Non-trivial: a "
         "level was pruned, or the image is not exactly the same.",
         [](Src& s, Ctx& c) {
#ifndef VERIF_IMAGES_ONLY
             if (!s.flag(1, 3)) return p_prune_history(s, c);
#endif
             p_prune_image(s, c);
         },
         20, 300, {}, {}, {}});
}  // namespace
