// Reference model of CTI: trap occupancy as a piecewise constant function of
// the height in the pixel's well, kept as an explicit list of segments (no
// pruning, no index window), clocked by directly written loops.
#include <math.h>

#include <algorithm>

#include "model.hpp"

bool ref_exact_continuum = false;
RefFacts ref_facts;
// For ref_sensitivity: a nudge to what each step moves
static Rng* nudge = nullptr;
static double nudge_by = 0, nudge_fill = 0;
static double signed_unit(Rng& r) {
    double u = (double)(r.next() >> 11) / 9007199254740992.0 - 0.5;
    return u < 0 ? u - 0.5 : u + 0.5;
}

double PhaseSpec::cloud(double n) const {
    if (n <= 0) return fef;
    double x = (n - notch) / (full - notch);
    x = x < 0 ? 0 : x > 1 ? 1 : x;
    return fef + (1 - fef) * pow(x, power);
}

// ---- Continuum of release times: log-normal with median mu and width sigma
Continuum::Continuum(double mu, double sigma, double capture_rate, double dwell)
    : mu(mu), sigma(sigma), capture_rate(capture_rate), dwell(dwell) {
    const int n = 240;
    double z0 = -8.5, z1 = 8.5, dz = (z1 - z0) / n;
    double sum = 0;
    for (int i = 0; i <= n; i++) {
        double z = z0 + i * dz;
        double w = exp(-0.5 * z * z) * dz / sqrt(2 * M_PI);
        tau_.push_back(mu * exp(sigma * z));
        w_.push_back(w);
        sum += w;
    }
    for (auto& w : w_) w /= sum;
    // Monotone table in log t with exact slopes, for the inverse
    lmin_ = log(std::min(dwell * 1e-9, mu * 1e-9));
    lmax_ = log(std::max(dwell * 1e3, mu * 1e4 * exp(3 * sigma)));
    int m = 1500;
    dl_ = (lmax_ - lmin_) / m;
    for (int i = 0; i <= m; i++) {
        double t = exp(lmin_ + i * dl_);
        double f = 0, d = 0;
        for (size_t k = 0; k < tau_.size(); k++) {
            double x = t / tau_[k];
            double e = w_[k] * exp(-x);
            f += e;
            d -= e * x;  // df / dlog t
        }
        f_.push_back(f);
        d_.push_back(d);
    }
}
double Continuum::fill_direct(double t) const {
    double f = 0;
    for (size_t k = 0; k < tau_.size(); k++) f += w_[k] * exp(-t / tau_[k]);
    return f;
}
static double hermite(double u, double h, double f0, double f1, double d0, double d1) {
    double u2 = u * u, u3 = u2 * u;
    return (2 * u3 - 3 * u2 + 1) * f0 + (u3 - 2 * u2 + u) * h * d0 + (-2 * u3 + 3 * u2) * f1 + (u3 - u2) * h * d1;
}
double Continuum::fill(double t) const {
    if (t <= 0) return 1;
    if (!(t < 1e300)) return 0;
    double x = (log(t) - lmin_) / dl_;
    if (x < 0) return fill_direct(t);
    int i = (int)floor(x);
    if (i >= (int)f_.size() - 1) return fill_direct(t);
    return hermite(x - i, dl_, f_[i], f_[i + 1], d_[i], d_[i + 1]);
}
double Continuum::time(double f) const {
    if (f >= 1) return 0;
    if (f <= 0) return 1e301;
    if (f > f_[0]) {
        // linear at the very start
        double t0 = exp(lmin_);
        return t0 * (1 - f) / (1 - f_[0]);
    }
    if (f <= f_.back()) return exp(lmax_);
    int lo = 0, hi = (int)f_.size() - 1;
    while (hi - lo > 1) {
        int mid = (lo + hi) / 2;
        if (f_[mid] > f)
            lo = mid;
        else
            hi = mid;
    }
    double a = 0, b = 1;
    for (int it = 0; it < 60; it++) {
        double u = 0.5 * (a + b);
        if (hermite(u, dl_, f_[lo], f_[hi], d_[lo], d_[hi]) > f)
            a = u;
        else
            b = u;
    }
    return exp(lmin_ + (lo + 0.5 * (a + b)) * dl_);
}
double Continuum::fill_after_capture(double t) const {
    double r = 0;
    for (size_t k = 0; k < tau_.size(); k++) {
        double f0 = t >= 1e300 ? 0 : exp(-t / tau_[k]);
        double rr = 1 / tau_[k], tot = capture_rate + rr;
        // Eventual occupancy, approached exponentially
        double eq = capture_rate / tot;
        double e = exp(-tot * dwell);
        r += w_[k] * (eq + (f0 - eq) * e);
    }
    return r;
}

// ---- Trap state
void RefManager::setup(int ty, const std::vector<TrapSpec>& all, double frac, const PhaseSpec& p, double dw,
                       int max_transfers, bool exact_continuum) {
    type = ty;
    ph = p;
    dwell = dw;
    time_min = ty == SCC ? dwell / 30 : dwell;
    time_max = max_transfers * dwell;
    for (auto& t : all) {
        if (t.type != ty) continue;
        traps.push_back(t);
        double d = t.density * frac;
        if (ty == IC && t.full > 0) d /= 1 - 0.5 * (t.none + t.full);
        dens.push_back(d);
        if (ty == ICC) {
            if (exact_continuum)
                exact.push_back(std::make_shared<Continuum>(t.tau, t.sigma, 0.0, dwell));
            else {
                auto x = std::make_shared<TrapInstantCaptureContinuum>(t.density, t.tau, t.sigma);
                x->prep_fill_fraction_and_time_elapsed_tables(dwell, max_transfers * dwell, 1000);
                icc.push_back(x);
            }
        }
        if (ty == SCC) {
            if (exact_continuum)
                exact.push_back(std::make_shared<Continuum>(t.tau, t.sigma, 1 / t.capt, dwell));
            else {
                auto x = std::make_shared<TrapSlowCaptureContinuum>(t.density, t.tau, t.sigma, t.capt);
                x->prep_fill_fraction_and_time_elapsed_tables(dwell / 30, max_transfers * dwell, 1000);
                x->prep_fill_fraction_after_slow_capture_tables(dwell, dwell / 30, max_transfers * dwell, 1000);
                scc.push_back(x);
            }
        }
    }
}

// Integral over the heights [a, b] of the fraction of the traps exposed
double RefManager::exposed(int t, double a, double b) const {
    if (b <= a) return 0;
    const TrapSpec& x = traps[t];
    if (type != IC || x.full == 0) return b - a;
    auto cum = [&](double v) {
        if (v <= x.none) return 0.0;
        if (x.full == x.none) return v - x.none;
        double w = x.full - x.none;
        if (v <= x.full) return 0.5 * (v - x.none) * (v - x.none) / w;
        return 0.5 * w + (v - x.full);
    };
    return cum(b) - cum(a);
}

double RefManager::trapped() const {
    double s = 0, v = 0;
    for (auto& g : st) {
        for (size_t t = 0; t < traps.size(); t++) s += g.fill[t] * exposed((int)t, v, v + g.vol);
        v += g.vol;
    }
    return s;
}

// Make v a boundary between segments; returns the number of segments below it
size_t RefManager::split(double v) {
    double b = 0;
    for (size_t i = 0; i < st.size(); i++) {
        if (v <= b) return i;
        if (v < b + st[i].vol) {
            Seg up = st[i];
            up.vol = b + st[i].vol - v;
            st[i].vol = v - b;
            st.insert(st.begin() + i + 1, up);
            return i + 1;
        }
        b += st[i].vol;
    }
    if (v > b) {
        Seg g;
        g.vol = v - b;
        g.fill.assign(traps.size(), 0.0);
        st.push_back(g);
    }
    return st.size();
}

// The effective time since the traps were full, noting whether it is within the
// range that the code tabulates
double RefManager::table_time(int t, double f, double then) const {
    double x = exact[t]->time(f);
    if (f > 0 && f < 1) {
        // (to what remains after the last time in the table, the code extrapolates)
        if (x + then > time_max * (1 + 1e-6) && f > 1e-4) ref_facts.beyond_table = std::max(ref_facts.beyond_table, (x + then) / time_max);
        if (x > time_max) ref_facts.beyond_table = std::max(ref_facts.beyond_table, x / time_max);
        if (x < time_min) ref_facts.before_table = std::max(ref_facts.before_table, time_min / x);
    }
    return x;
}
double RefManager::release_fill(int t, double fill) const {
    double f = release_fill_of(t, fill);
    // (some of what is released stays)
    return nudge_fill ? f + nudge_fill * signed_unit(*nudge) * (fill - f) : f;
}
double RefManager::slow_fill(int t, double fill) const {
    double f = slow_fill_of(t, fill);
    return nudge_fill ? f + nudge_fill * signed_unit(*nudge) * dens[t] : f;
}
double RefManager::release_fill_of(int t, double fill) const {
    if (type == IC || type == SC) return fill * exp(-dwell / traps[t].tau);
    double d = dens[t];
    if (d == 0) return 0;
    if (!exact.empty()) return d * exact[t]->fill(table_time(t, fill / d, dwell) + dwell);
    if (type == ICC)
        return d * icc[t]->fill_fraction_from_time_elapsed_table(
                       icc[t]->time_elapsed_from_fill_fraction_table(fill / d) + dwell);
    return d * scc[t]->fill_fraction_from_time_elapsed_table(
                   scc[t]->time_elapsed_from_fill_fraction_table(fill / d) + dwell);
}
double RefManager::slow_fill_of(int t, double fill) const {
    double d = dens[t];
    if (type == SC) {
        double rr = 1 / traps[t].tau;
        if (traps[t].capt == 0) return d;
        double rc = 1 / traps[t].capt, tot = rr + rc, e = exp(-tot * dwell);
        double eq = d * rc / tot;
        return eq + (fill - eq) * e;
    }
    if (d == 0) return 0;
    if (!exact.empty()) return d * exact[t]->fill_after_capture(table_time(t, fill / d, 0));
    return d * scc[t]->fill_fraction_after_slow_capture_table(scc[t]->time_elapsed_from_fill_fraction_table(fill / d));
}

// Levels that have come to hold the same, or nothing to speak of, are one
void RefManager::merge() {
    if (st.size() <= 30) return;
    size_t k = 0;
    for (size_t i = 1; i < st.size(); i++) {
        bool same = true;
        for (size_t t = 0; same && t < traps.size(); t++)
            same = fabs(st[i].fill[t] - st[k].fill[t]) <= 1e-19 * fabs(dens[t]);
        if (same)
            st[k].vol += st[i].vol;
        else if (++k != i)
            st[k] = st[i];
    }
    st.resize(k + 1);
}

double RefManager::step(double n_free) {
    merge();
    int nt = (int)traps.size();
    if (type == IC || type == ICC) {
        double rel = 0, v = 0;
        for (auto& g : st) {
            for (int t = 0; t < nt; t++) {
                double nf = release_fill(t, g.fill[t]);
                rel += (g.fill[t] - nf) * exposed(t, v, v + g.vol);
                g.fill[t] = nf;
            }
            v += g.vol;
        }
        double n = n_free + rel;
        double V = ph.cloud(n);
        if (rel > 0) ref_facts.released = true;
        if (V == 0) return rel;
        size_t k = split(V);
        double want = 0;
        v = 0;
        for (size_t i = 0; i < k; i++) {
            for (int t = 0; t < nt; t++) want += (dens[t] - st[i].fill[t]) * exposed(t, v, v + st[i].vol);
            v += st[i].vol;
        }
        double enough = want != 0 ? fabs(std::max(n, 0.0) / want) : 1.0;
        if (want > 0) ref_facts.captured = true;
        if (enough >= 1) {
            Seg g;
            g.vol = V;
            g.fill = dens;
            st.erase(st.begin(), st.begin() + k);
            st.insert(st.begin(), g);
        } else {
            ref_facts.not_enough = true;
            for (size_t i = 0; i < k; i++)
                for (int t = 0; t < nt; t++) st[i].fill[t] += enough * (dens[t] - st[i].fill[t]);
            want *= enough;
        }
        return rel - want;
    }
    // Slow capture: release only, above the initial cloud
    double V = ph.cloud(n_free);
    size_t k = V > 0 ? split(V) : 0;
    double rel = 0;
    for (size_t i = k; i < st.size(); i++)
        for (int t = 0; t < nt; t++) {
            double nf = release_fill(t, st[i].fill[t]);
            rel += (st[i].fill[t] - nf) * st[i].vol;
            st[i].fill[t] = nf;
        }
    double n = n_free + rel;
    if (rel > 0) ref_facts.released = true;
    V = ph.cloud(n);
    if (V == 0) return rel;
    // then both release and capture within the cloud
    k = split(V);
    double net = 0;
    for (size_t i = 0; i < k; i++)
        for (int t = 0; t < nt; t++) net += (st[i].fill[t] - slow_fill(t, st[i].fill[t])) * st[i].vol;
    double enough = net < 0 ? std::min(1.0, fabs(std::max(n, 0.0) / net)) : 1.0;
    if (net < 0) ref_facts.captured = true;
    if (enough < 1) ref_facts.not_enough = true;
    for (size_t i = 0; i < k; i++)
        for (int t = 0; t < nt; t++) {
            double f = st[i].fill[t];
            st[i].fill[t] = f + enough * (slow_fill(t, f) - f);
        }
    return rel + enough * net;
}

// ---- Readout electronics
static std::vector<std::vector<double>> passes(int n, int express, double mult) {
    std::vector<std::vector<double>> m(express, std::vector<double>(n));
    for (int e = 0; e < express; e++)
        for (int j = 0; j < n; j++) m[e][j] = std::min(std::max(j + 1 - e * mult, 0.0), mult);
    return m;
}
static std::vector<std::vector<double>> standard(const RoeSpec& r, int n_rows, int express, int window_offset,
                                                 int prescan, int overscan) {
    int offset = window_offset + prescan;
    int n = n_rows + offset;
    express = express == 0 ? n : std::min(express, n);
    auto mult = [&](int k) {
        double x = (double)k / express;
        return r.integer ? ceil(x) : x;
    };
    std::vector<std::vector<double>> m;
    int width = n;
    if (!r.empty_first)
        m = passes(n, express, mult(n));
    else if (express >= n) {
        m = passes(n, express, mult(n));
        std::reverse(m.begin(), m.end());
    } else {
        // Every first transfer on its own, then the rest with express
        int rest = express < n_rows ? n - 1 : n;
        width = rest + 1;
        m.assign(width, std::vector<double>(width, 0.0));
        for (int e = 0; e < width; e++) m[e][width - 1 - e] = 1;
        for (auto& p : passes(rest, express, mult(rest))) {
            int k = 0;
            for (double x : p) k += x > 0;
            for (int i = 0; i < rest; i++) m[k][1 + i] += p[i];
        }
    }
    for (auto& p : m) p = std::vector<double>(p.begin() + offset, p.begin() + offset + n_rows);
    if (overscan >= 0) {
        // Rows in the virtual overscan cross only the physical pixels: drop the
        // surplus from the last passes
        for (int row = 0; row < n_rows; row++) {
            double surplus = row + 1 + window_offset - (overscan - 1);
            for (int e = (int)m.size() - 1; e >= 0 && surplus > 0; e--) {
                double cut = std::min(surplus, m[e][row]);
                m[e][row] -= cut;
                surplus -= cut;
            }
        }
    }
    return m;
}
std::vector<std::vector<double>> ref_express(const RoeSpec& r, int n_rows, int express, int offset) {
    if (r.type == STD) return standard(r, n_rows, express, offset, r.prescan, r.overscan);
    if (r.type == CI) {
        int n = r.overscan >= 0 ? r.prescan + r.overscan - 1 : r.prescan + offset + n_rows;
        express = express == 0 ? n : std::min(express, n);
        std::vector<std::vector<double>> m;
        double x = (double)n / express;
        if (r.integer) x = ceil(x);
        double left = n;
        for (int e = 0; e < express; e++) {
            double k = r.integer ? std::min(x, std::max(left, 0.0)) : x;
            left -= x;
            m.push_back(std::vector<double>(n_rows, k));
        }
        return m;
    }
    express = express == 0 ? r.n_pumps : std::min(express, r.n_pumps);
    auto a = standard(r, r.n_pumps, express, offset, 0, -1);
    std::vector<double> col;
    for (auto& p : a) col.push_back(p[r.n_pumps - 1]);
    if (r.empty_first && express < r.n_pumps) {
        std::vector<double> nz;
        for (double c : col)
            if (c != 0) nz.push_back(c);
        nz.resize(express + 1, 0.0);
        col = nz;
    }
    std::vector<std::vector<double>> m;
    for (double c : col) m.push_back(std::vector<double>(n_rows, c));
    return m;
}
std::vector<std::vector<char>> ref_store(const RoeSpec& r, const std::vector<std::vector<double>>& m) {
    std::vector<std::vector<char>> s(m.size(), std::vector<char>(m[0].size(), 0));
    if (r.type == CI) return s;
    if (r.type == TP) {
        for (size_t e = 0; e + 1 < m.size(); e++)
            for (size_t j = 0; j < m[e].size(); j++) s[e][j] = m[e][j] != 0;
        return s;
    }
    if (r.empty_first) return s;
    for (size_t e = 0; e + 1 < m.size(); e++) {
        if (m[e + 1][0] > 0) continue;  // starts over on the first row
        size_t j = 0;
        while (j + 1 < m[e].size() && !(m[e + 1][j + 1] > 0)) j++;
        s[e][j] = 1;
    }
    return s;
}
std::vector<std::vector<RefStep>> ref_sequence(const RoeSpec& r) {
    int steps = (int)r.dwell.size(), np = r.n_phases();
    std::vector<std::vector<RefStep>> seq;
    for (int i = 0; i < steps; i++) {
        // Trap pumping runs through the phases and back again
        int j = r.type == TP && i > np ? steps - i : i;
        bool next_pixel = j == np;  // phase 0 of the pixel before
        int high = next_pixel ? 0 : j;
        std::vector<RefStep> row;
        for (int p = 0; p < np; p++) {
            RefStep s;
            s.high = p == high;
            int d = p - high;
            int shift = next_pixel ? 1 : 0;
            if (s.high) s.cap = {shift};
            if (np % 2 == 0 && 2 * abs(d) == np) {
                // Equally far from two high phases
                if (d < 0)
                    s.rel = {0, 1};
                else
                    s.rel = {-1, 0};
                s.frac = {0.5, 0.5};
            } else {
                int to = 0;
                if (!s.high && 2 * d < -np) to = 1;
                if (!s.high && 2 * d > np) to = -1;
                s.rel = {to};
                s.frac = {1.0};
            }
            for (int& x : s.rel) x += shift;
            if (r.force && r.type != TP && p > high) {
                for (int& x : s.cap) x++;
                for (int& x : s.rel) x++;
            }
            row.push_back(s);
        }
        seq.push_back(row);
    }
    return seq;
}

Img ref_clock(const Img& im, const DirSpec& d, int col0, int col1, int allow_neg) {
    Img out = im;
    int rows = (int)im.size(), cols = (int)im[0].size();
    int r0 = d.win0, r1 = d.win1 == -1 ? rows : d.win1;
    if (col1 == -1) col1 = cols;
    auto m = ref_express(d.roe, rows, d.express, d.offset);
    // Take over the rounding of the code's own multipliers: whether one is 0 or
    // 1e-16 decides where a pass begins
    {
        Built b(d);
        b.roe->set_express_matrix_from_rows_and_express(rows, d.express, d.offset);
        auto& x = b.roe->express_matrix;
        bool same = b.roe->n_express_passes == (int)m.size() && x.size() == m.size() * rows;
        for (size_t e = 0; same && e < m.size(); e++)
            for (int j = 0; j < rows; j++) same = same && fabs(x[e * rows + j] - m[e][j]) < 1e-9;
        for (size_t e = 0; same && e < m.size(); e++)
            for (int j = 0; j < rows; j++) m[e][j] = x[e * rows + j];
    }
    auto store = ref_store(d.roe, m);
    auto seq = ref_sequence(d.roe);
    int np = d.roe.n_phases();
    int max_transfers = r1 - r0 + d.offset;
    if (d.roe.type == TP) max_transfers *= (int)m.size();
    if (!d.roe.empty_cols) max_transfers *= cols;
    max_transfers *= (int)d.roe.dwell.size();
    std::vector<std::vector<RefManager>> mgr;  // [type][phase]
    for (int type : {IC, SC, ICC, SCC}) {
        if (!d.has(type)) continue;
        mgr.emplace_back(np);
        for (int p = 0; p < np; p++)
            mgr.back()[p].setup(type, d.traps, d.frac[p], d.phases[p], d.roe.dwell[p], max_transfers,
                                ref_exact_continuum);
    }
    auto each = [&](auto f) {
        for (auto& a : mgr)
            for (auto& b : a) f(b);
    };
    for (int col = col0; col < col1; col++) {
        for (size_t e = 0; e < m.size(); e++) {
            each([](RefManager& b) { b.st = b.stored; });
            for (int row = r0; row < r1; row++) {
                double mult = m[e][row];
                if (mult == 0) continue;
                for (auto& step : seq)
                    for (int p = 0; p < np; p++) {
                        double n = 0;
                        for (int c : step[p].cap)
                            if (row + c >= 0 && row + c < rows) n += out[row + c][col];
                        if (n < 0) ref_facts.negative = true;
                        double dn = 0;
                        for (auto& a : mgr) dn += a[p].step(n + dn);
                        if (nudge && dn != 0) dn += signed_unit(*nudge) * (nudge_by + (d.prune_freq > 0 ? d.prune_n : 0));
                        for (size_t i = 0; i < step[p].rel.size(); i++) {
                            int w = row + step[p].rel[i];
                            if (w < 0 || w >= rows) {
                                ref_facts.outside = true;
                                continue;
                            }
                            out[w][col] += dn * mult * step[p].frac[i];
                            if (!allow_neg && out[w][col] < 0) out[w][col] = 0;
                        }
                    }
                if (store[e][row]) each([](RefManager& b) { b.stored = b.st; });
            }
        }
        each([&](RefManager& b) {
            ref_facts.max_trapped = std::max(ref_facts.max_trapped, b.trapped());
            ref_facts.max_segments = std::max(ref_facts.max_segments, (int)b.st.size());
            if (d.roe.empty_cols) b.st.clear();
            b.stored = b.st;
        });
    }
    return out;
}

Img transposed(const Img& a) {
    Img b(std::valarray<double>(0.0, a.size()), a[0].size());
    for (size_t i = 0; i < a.size(); i++)
        for (size_t j = 0; j < a[0].size(); j++) b[j][i] = a[i][j];
    return b;
}

Img ref_add(const CaseSpec& c) {
    ref_facts = RefFacts();
    Img im = c.image;
    // The parallel window is a range of rows, the serial one a range of columns
    if (c.has_par) im = ref_clock(im, c.par, c.ser.win0, c.ser.win1, c.allow_neg);
    if (c.has_ser) im = transposed(ref_clock(transposed(im), c.ser, c.par.win0, c.par.win1, c.allow_neg));
    return im;
}

RefNudge::RefNudge(uint64_t seed, double noise) : r(seed) {
    nudge = &r;
    nudge_by = noise * 1e-4;
}
RefNudge::~RefNudge() { nudge = nullptr; }
double RefNudge::unit() { return signed_unit(r); }

// How far the reference's own output moves when every pixel is changed by
// rounding-sized amounts, and what every step moves by as much, or by the electrons
// that a pruning may have moved
double ref_sensitivity(const CaseSpec& c, const Img& want, double noise) {
    RefFacts keep = ref_facts;
    double d = 0;
    for (int k = 0; k < 2; k++) {
        RefNudge r(77 + k, noise);
        CaseSpec p = c;
        for (auto& row : p.image)
            for (double& v : row) v += r.unit() * noise;
        d = std::max(d, max_diff(ref_add(p), want));
    }
    // (what rounding leaves in a pixel that was emptied can matter more than the same
    // nudge to a larger one, so also by the least amounts)
    for (int k = 0; k < 12; k++) {
        double by = pow(10, k / 3 - 17) * (1 + img_scale(c.image));
        RefNudge r(770 + k, 1e4 * by);
        CaseSpec p = c;
        for (auto& row : p.image)
            for (double& v : row) v += r.unit() * by;
        d = std::max(d, max_diff(ref_add(p), want));
    }
    ref_facts = keep;
    return d;
}

// The same for the traps' occupancies: by so much of what tables look up
double ref_fill_sensitivity(const CaseSpec& c, const Img& want, double by) {
    RefFacts keep = ref_facts;
    double d = 0;
    for (int k = 0; k < 2; k++) {
        Rng r(177 + k);
        nudge = &r;
        nudge_by = 0;
        nudge_fill = by;
        d = std::max(d, max_diff(ref_add(c), want));
        nudge = nullptr;
        nudge_fill = 0;
    }
    ref_facts = keep;
    return d;
}
