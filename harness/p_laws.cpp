// Algebraic and metamorphic laws of adding and removing CTI
#include <math.h>

#include <algorithm>

#include "model.hpp"

static Img sub(const Img& a, int r0, int r1, int c0, int c1) {
    Img o = make_img(r1 - r0, c1 - c0);
    for (int i = r0; i < r1; i++)
        for (int j = c0; j < c1; j++) o[i - r0][j - c0] = a[i][j];
    return o;
}
static bool same(const Img& a, const Img& b, double tol) { return max_diff(a, b) <= tol; }
static GenOpt all_types(Src& s, bool continuum) {
    GenOpt o;
    static const std::vector<std::vector<int>> t = {{IC}, {SC}, {IC, SC}, {IC, SC, ICC}, {SCC, IC}};
    o.types = t[s.draw(continuum && s.flag(1, 40) ? 5 : 3)];
    if (s.flag(1, 4)) o.surface = true;
    o.fef = s.flag(1, 6);
    o.big = true;
    if (o.types.size() > 2 || o.types[0] == SCC) o.max_rows = 12, o.big = false;
    return o;
}
static void only_one_direction(Src& s, CaseSpec& k) {
    if (k.has_par && k.has_ser) {
        if (s.flag(1, 2))
            k.has_par = false;
        else
            k.has_ser = false;
    }
}

// ---- C05: what can affect what
static void p_causal(Src& s, Ctx& c) {
    GenOpt o = all_types(s, true);
    o.roes = {STD, STD, CI};
    o.max_cols = 4;
    bool both = s.flag(1, 6);
    if (s.flag(1, 3)) o.max_phases = 4, o.prune = false;
    CaseSpec k = gen_case(s, o);
    if (both) {
        // Clocked in both directions, with a window in each
        if (k.has_par != k.has_ser) {
            CaseSpec q = gen_case(s, o);
            if (!k.has_par) k.par = q.has_par ? q.par : q.ser;
            if (!k.has_ser) k.ser = q.has_ser ? q.ser : q.par;
            k.has_par = k.has_ser = true;
        }
        int w[2][2];
        for (int i = 0; i < 2; i++) {
            DirSpec& d = i ? k.ser : k.par;
            int n = i ? k.cols() : k.rows();
            d.roe.force = true;
            w[i][0] = s.flag(1, 3) ? 0 : (int)s.draw(n);
            w[i][1] = s.flag(1, 3) ? n : s.range(w[i][0] + 1, n);
            d.win0 = w[i][0];
            d.win1 = w[i][1] == n && s.flag(1, 2) ? -1 : w[i][1];
        }
        c.describe("both directions " + str(k));
        Img out = run_add(k);
        c.nontrivial = max_diff(out, k.image) > 1e-6;
        // (with several phases, charge can move on to the next pixel, and then
        // sideways)
        int r1 = w[0][1] + (k.par.roe.n_phases() > 1), c1 = w[1][1] + (k.ser.roe.n_phases() > 1);
        for (int i = 0; i < k.rows(); i++)
            for (int j = 0; j < k.cols(); j++)
                if (i < w[0][0] || i >= r1 || j < w[1][0] || j >= c1)
                    CHECK(out[i][j] == k.image[i][j], "pixel [%d][%d], outside the windows, changes from %.17g to %.17g", i, j,
                          k.image[i][j], out[i][j]);
        // The same as one direction after the other
        CaseSpec p = k, q = k;
        p.has_ser = q.has_par = false;
        q.image = run_add(p);
        Img out2 = run_add(q);
        CHECK(max_diff(out, out2) <= 1e-9 * (1 + img_scale(k.image)), "both directions at once differ from one after the other");
        c.label("both directions with windows");
        return;
    }
    only_one_direction(s, k);
    DirSpec& d = k.has_par ? k.par : k.ser;
    int np = d.roe.n_phases();
    if (np > 1) d.roe.force = true;
    // The other direction's window selects the lines that are clocked
    int n = k.has_par ? k.rows() : k.cols(), m = k.has_par ? k.cols() : k.rows();
    DirSpec& other = k.has_par ? k.ser : k.par;
    if (s.flag(1, 3)) {
        other.win0 = (int)s.draw(m);
        other.win1 = s.range(other.win0 + 1, m);
    } else {
        other.win0 = 0;
        other.win1 = -1;
    }
    // at(): line (independent columns when parallel), then position along it
    auto at = [&](Img& im, int line, int pos) -> double& { return k.has_par ? im[pos][line] : im[line][pos]; };
    c.describe(str(k) + strf(" lines window [%d,%d)", other.win0, other.win1));
    Img out = run_add(k);
    double tol = 1e-10 * (1 + img_scale(k.image));
    c.nontrivial = max_diff(out, k.image) > 1e-6;
    int w0 = d.win0, w1 = d.win1 < 0 ? n : d.win1, l0 = other.win0, l1 = other.win1 < 0 ? m : other.win1;
    // Nothing outside the window changes (with several phases, charge can move
    // on to the next pixel)
    for (int l = 0; l < m; l++)
        for (int p = 0; p < n; p++) {
            bool in = l >= l0 && l < l1 && p >= w0 && p < w1 + (np > 1);
            if (!in)
                CHECK(at(out, l, p) == at(k.image, l, p), "pixel %d of line %d, outside the window, changes from %.17g to %.17g",
                      p, l, at(k.image, l, p), at(out, l, p));
        }
    if (l0 > 0 || l1 < m) c.label("window of lines");
    if (w0 > 0 || w1 < n) c.label("window along the lines");
    // Charge that arrives later cannot change what was read out before it
    if (n > 1 && (d.roe.empty_cols || m == 1)) {
        int r = s.range(1, n - 1);
        CaseSpec k2 = k;
        int kind = (int)s.draw(3);
        for (int l = 0; l < m; l++)
            for (int p = r; p < n; p++) {
                double& v = at(k2.image, l, p);
                v = kind == 0 ? v + 1000 : kind == 1 ? 0 : v * 2 + l;
            }
        Img out2 = run_add(k2);
        for (int l = 0; l < m; l++)
            for (int p = 0; p < r; p++)
                CHECK(fabs(at(out2, l, p) - at(out, l, p)) <= tol,
                      "pixel %d of line %d changes from %.17g to %.17g with the pixels from %d on", p, l,
                      at(out, l, p), at(out2, l, p), r);
        c.label("later pixels changed");
    }
    if (d.roe.empty_cols) {
        // Each line is as if it were alone
        int l = s.range(l0, l1 - 1);
        CaseSpec k1 = k;
        DirSpec& o1 = k1.has_par ? k1.ser : k1.par;
        o1.win0 = 0;
        o1.win1 = -1;
        k1.image = k.has_par ? make_img(n, 1) : make_img(1, n);
        for (int p = 0; p < n; p++) at(k1.image, 0, p) = at(k.image, l, p);
        Img out1 = run_add(k1);
        for (int p = 0; p < n; p++)
            CHECK(fabs(at(out1, 0, p) - at(out, l, p)) <= tol, "pixel %d of line %d: %.17g, but %.17g on its own", p, l,
                  at(out, l, p), at(out1, 0, p));
        if (m > 1) c.label("one of several lines alone");
        // and so the lines may be in any order
        if (m > 1 && l0 == 0 && l1 == m) {
            std::vector<int> order(m);
            for (int i = 0; i < m; i++) order[i] = i;
            for (int i = m - 1; i > 0; i--) std::swap(order[i], order[s.draw(i + 1)]);
            CaseSpec k3 = k;
            for (int i = 0; i < m; i++)
                for (int p = 0; p < n; p++) at(k3.image, i, p) = at(k.image, order[i], p);
            Img out3 = run_add(k3);
            for (int i = 0; i < m; i++)
                for (int p = 0; p < n; p++)
                    CHECK(fabs(at(out3, i, p) - at(out, order[i], p)) <= tol,
                          "line %d differs when it is moved to be line %d", order[i], i);
            c.label("lines reordered");
        }
    }
}
static Reg r05({"C05",
                "Lines of pixels clocked with later pixels, other lines, or everything outside the window changed. "
                "Non-trivial: the CTI changed the image.",
                p_causal, 20, 300, {"several phases only with release forced away from readout, as otherwise charge moves both ways"},
                {}});

// ---- C06: express
static void p_express(Src& s, Ctx& c) {
    GenOpt o;
    o.roes = {STD, STD, STD, CI, TP};
    o.max_rows = 40;
    o.serial = false;
    int mode = (int)s.draw(4);
    int rows = s.small(1, s.flag(1, 10) ? 120 : 40);
    if (mode < 2) {
        // The matrices themselves
        RoeSpec r = gen_roe(s, o, rows);
        if (r.type == TP) r.n_pumps = s.small(1, 60);
        int n_try = r.type == TP ? r.n_pumps : rows;
        if (s.flag(1, 60)) rows = s.range(121, 2500), n_try = 20;
        int express = s.flag(1, 3) ? s.small(0, 5) : s.range(0, n_try + 8);
        if (rows > 400 && express == 0) express = 1;
        int offset = r.type == TP ? 0 : s.flag(1, 2) ? 0 : s.small(0, 40);
        c.describe(str(r) + strf(" rows=%d express=%d offset=%d", rows, express, offset));
        DirSpec d;
        d.roe = r;
        d.phases.resize(r.n_phases());
        d.frac.assign(r.n_phases(), 1.0 / r.n_phases());
        Built b(d);
        b.roe->set_express_matrix_from_rows_and_express(rows, express, offset);
        b.roe->set_store_trap_states_matrix();
        auto& x = b.roe->express_matrix;
        int ne = b.roe->n_express_passes;
        CHECK((int)x.size() == ne * rows, "%d passes but %zu multipliers", ne, x.size());
        int n = r.type == TP                        ? r.n_pumps
                : r.type == CI && r.overscan >= 0 ? r.prescan + r.overscan - 1
                                                  : rows + r.prescan + offset;
        int ex = express == 0 ? n : std::min(express, n);
        double most = (double)n / ex;
        if (r.integer) most = ceil(most);
        // With each first transfer on its own, every pass of another row comes
        // on top of the one for this row's first
        if (r.empty_first) most += 1;
        double tol = 1e-9 * (n + 1);
        for (int j = 0; j < rows; j++) {
            double sum = 0, want = r.type == STD ? j + 1 + offset + r.prescan : n;
            if (r.type == STD && r.overscan >= 0) want = std::min(want, (double)r.overscan - 1 + r.prescan);
            for (int e = 0; e < ne; e++) {
                double v = x[e * rows + j];
                CHECK(v >= 0 && v <= most + tol, "multiplier [%d][%d] is %.17g", e, j, v);
                if (r.integer) CHECK(fabs(v - round(v)) < tol, "multiplier [%d][%d] %.17g is not an integer", e, j, v);
                sum += v;
            }
            CHECK(fabs(sum - want) <= tol, "the multipliers of row %d add up to %.17g transfers, not %g", j, sum, want);
        }
        auto m = ref_express(r, rows, express, offset);
        CHECK((int)m.size() == ne, "%d passes, want %zu", ne, m.size());
        std::vector<std::vector<double>> own(ne, std::vector<double>(rows));
        for (int e = 0; e < ne; e++)
            for (int j = 0; j < rows; j++) {
                own[e][j] = x[e * rows + j];
                CHECK(fabs(own[e][j] - m[e][j]) <= tol, "multiplier [%d][%d] is %.17g, want %.17g", e, j, own[e][j],
                      m[e][j]);
            }
        auto st = ref_store(r, own);
        CHECK(b.roe->store_trap_states_matrix.size() == x.size(), "store matrix of %zu",
              b.roe->store_trap_states_matrix.size());
        for (int e = 0; e < ne; e++)
            for (int j = 0; j < rows; j++)
                CHECK((bool)b.roe->store_trap_states_matrix[e * rows + j] == (bool)st[e][j],
                      "trap states %s after row %d of pass %d",
                      st[e][j] ? "are not stored" : "are stored", j, e);
        c.nontrivial = ne > 1 && rows > 1;
        c.label(strf("matrix of roe type %d%s%s", r.type, r.empty_first ? ", first transfers" : "",
                     r.integer ? ", integers" : ""));
        if (r.overscan >= 0) c.label("overscan");
        if (ex < n) c.label("fewer passes than transfers");
        return;
    }
    if (mode == 2) {
        // No express, or at least as many passes as there are transfers, are
        // the same; and any express agrees with the reference
        o.types = s.pick<std::vector<int>>({{IC}, {SC}, {IC, SC}});
        CaseSpec k = gen_case(s, o);
        DirSpec& d = k.par;
        int n = d.roe.type == TP                              ? d.roe.n_pumps
                : d.roe.type == CI && d.roe.overscan >= 0 ? d.roe.prescan + d.roe.overscan - 1
                                                          : k.rows() + d.offset + d.roe.prescan;
        c.describe(str(k));
        Img want = ref_add(k);
        c.nontrivial = ref_facts.captured && ref_facts.released && k.rows() > 1;
        expect_close(c, k, run_add(k), want, 1e-8, "any express");
        d.express = 0;
        c.describe(str(k));
        Img a = run_add(k);
        d.express = n + (s.flag(1, 2) ? 0 : s.small(0, 5));
        CHECK(max_diff(a, run_add(k)) <= 1e-9 * (1 + img_scale(k.image)), "express=%d differs from none", d.express);
        c.label("image");
        return;
    }
    // With so few traps that each transfer's effect is independent of the
    // others', the express algorithm is exact, whatever the number of passes
    o.roes = {STD, STD, CI};
    o.types = s.pick<std::vector<int>>({{IC}, {SC}, {IC, SC}});
    o.prune = false;
    o.carry_over = false;
    o.windows = false;
    o.max_rows = 25;
    CaseSpec k = gen_case(s, o);
    DirSpec& d = k.par;
    d.roe.empty_first = false;
    d.prune_freq = 0;
    d.phases[0].notch = 0;
    k.allow_neg = 1;
    double eps = 1e-7, cap = 0;
    for (auto& t : d.traps) {
        t.density = std::max(t.density, 1.0);
        cap += t.density;
        t.density *= eps;
    }
    for (auto& row : k.image)
        for (double& v : row) v = std::max(fabs(v), 1.0) + 5;
    int n = k.rows() + d.offset + d.roe.prescan;
    d.express = 0;
    c.describe(str(k));
    Img a = run_add(k);
    d.express = s.range(1, n);
    c.describe(str(k));
    Img b = run_add(k);
    double worst = 0;
    for (int i = 0; i < k.rows(); i++)
        for (int j = 0; j < k.cols(); j++) {
            double da = (a[i][j] - k.image[i][j]) / eps, db = (b[i][j] - k.image[i][j]) / eps;
            worst = std::max(worst, fabs(da - db) / (cap * n));
        }
    double tol = 1e-3 + 1e-13 * img_scale(k.image) / eps / cap;
    c.metric("first order: difference/tolerance", worst / tol);
    CHECK(worst <= tol, "the first-order effect with express=%d differs by %.3g of the number of traps", d.express, worst);
    c.nontrivial = max_diff(a, k.image) > 0 && n > 1 && d.express < n;
    c.label("dilute traps");
}
static Reg r06({"C06",
                "Express matrices against their definition, and images with different numbers of express passes. "
                "Non-trivial: more than one pass and row, and (for images) charge captured.",
                p_express, 20, 300, {}, {}});

// ---- C07: where the image sits on the detector
static void p_geometry(Src& s, Ctx& c) {
    GenOpt o = all_types(s, false);
    o.serial = false;
    o.windows = false;
    o.prune = false;
    o.overscan = false;
    o.max_rows = 20;
    CaseSpec k = gen_case(s, o);
    DirSpec& d = k.par;
    d.prune_freq = 0;
    d.offset = 0;
    d.roe.prescan = 0;
    int rows = k.rows(), cols = k.cols();
    int kind = (int)s.draw(6);
    double tol_rel = 1e-8;
    ref_add(k);
    c.nontrivial = ref_facts.captured && ref_facts.released;
    static const char* names[] = {"offset as empty rows", "prescan as offset", "overscan beyond the image",
                                  "overscan", "window", "whole window"};
    c.label(names[kind]);
    if (kind == 0) {
        // An offset is as many empty rows between the image and the readout
        int off = s.small(1, 15);
        d.offset = off;
        // (traps kept from the previous column would release into those rows)
        d.roe.empty_cols = true;
        // (with each first transfer on its own, the definition of a complete
        // number of passes differs)
        if (d.roe.empty_first && d.express >= rows) d.express = 0;
        c.describe(str(k));
        Img a = run_add(k);
        CaseSpec p = k;
        p.par.offset = 0;
        p.image = make_img(rows + off, cols);
        for (int i = 0; i < rows; i++) p.image[i + off] = k.image[i];
        Img b = sub(run_add(p), off, rows + off, 0, cols);
        expect_close(c, k, a, b, tol_rel, names[kind]);
    } else if (kind == 1) {
        // Prescan pixels and an offset of the image are the same to the charge
        int a = s.small(0, 15), b = s.small(0, 15);
        d.roe.prescan = a;
        d.offset = b;
        c.describe(str(k));
        Img x = run_add(k);
        std::swap(d.roe.prescan, d.offset);
        Img y = run_add(k);
        d.roe.prescan = 0;
        d.offset = a + b;
        Img z = run_add(k);
        expect_close(c, k, x, y, tol_rel, names[kind]);
        expect_close(c, k, x, z, tol_rel, names[kind]);
    } else if (kind == 2) {
        // An overscan that begins after the image has no effect on it
        int off = s.flag(1, 2) ? 0 : s.small(1, 10);
        d.offset = off;
        c.describe(str(k));
        Img a = run_add(k);
        d.roe.overscan = rows + off + 1 + s.small(0, 10);
        c.describe(str(k));
        expect_close(c, k, run_add(k), a, tol_rel, names[kind]);
    } else if (kind == 3) {
        // Pixels in the virtual overscan are transferred no more times than
        // the last physical one
        d.roe.overscan = s.range(1, rows + 2);
        d.roe.prescan = s.flag(1, 2) ? 0 : s.small(1, 5);
        d.offset = s.flag(1, 2) ? 0 : s.small(1, 5);
        c.describe(str(k));
        Built b(d);
        b.roe->set_express_matrix_from_rows_and_express(rows, d.express, d.offset);
        for (int j = 0; j < rows; j++) {
            double sum = 0,
                   want = std::min(j + 1 + d.offset + d.roe.prescan, d.roe.overscan - 1 + d.roe.prescan);
            for (int e = 0; e < b.roe->n_express_passes; e++) sum += b.roe->express_matrix[e * rows + j];
            CHECK(fabs(sum - want) < 1e-9 * (1 + want), "row %d is transferred %g times, not %g", j, sum, want);
        }
        Img want = ref_add(k);
        expect_close(c, k, run_add(k), want, tol_rel, names[kind]);
    } else {
        // A window is the full image, but for the traps being empty at its start
        int w0 = (int)s.draw(rows), w1 = s.range(w0 + 1, rows);
        int c0 = (int)s.draw(cols), c1 = s.range(c0 + 1, cols);
        if (kind == 5) w0 = c0 = 0, w1 = rows, c1 = cols;
        d.offset = s.flag(1, 2) ? 0 : s.small(1, 10);
        if (kind == 4) d.roe.empty_cols = true;
        CaseSpec f = k;
        for (int i = 0; i < w0; i++) f.image[i] = 0.0;
        d.win0 = w0;
        d.win1 = w1;
        k.ser.win0 = c0;
        k.ser.win1 = c1;
        c.describe(str(k) + strf(" columns [%d,%d)", c0, c1));
        Img a = sub(run_add(k), w0, w1, c0, c1);
        Img b = sub(run_add(f), w0, w1, c0, c1);
        expect_close(c, f, a, b, tol_rel, names[kind]);
    }
}
static Reg r07({"C07",
                "The same image described in two equivalent ways (offset, empty rows, prescan, overscan, windows). "
                "Non-trivial: electrons were captured and released.",
                p_geometry, 20, 300, {}, {}});

// ---- C08: parallel and serial
static void p_serial(Src& s, Ctx& c) {
    GenOpt o = all_types(s, true);
    o.max_cols = 12;
    o.max_rows = 14;
    o.serial = true;
    if (s.flag(1, 4)) {
        o.roes = {STD, CI};
        o.max_phases = 3;
        o.prune = false;
    }
    CaseSpec k = gen_case(s, o);
    int mode = (int)s.draw(3);
    // Pruning in each direction as that direction asks, enough to see
    bool strong = o.prune && mode < 2 && s.flag(1, 5);
    auto prune = [&](DirSpec& d) {
        d.prune_freq = s.pick<int>({1, 2, 3, 7, 100});
        d.prune_n = s.pick<double>({1e-3, 0.1, 1, 10});
    };
    if (strong) prune(k.par), prune(k.ser), c.label("strong pruning");
    bool rem = s.flag(1, 4);
    int it = s.range(1, 3);
    auto f = [&](const CaseSpec& x) { return rem ? run_remove(x, it) : run_add(x); };
    double tol = 1e-9 * (1 + img_scale(k.image));
    if (mode == 0) {
        // Serial clocking is parallel clocking of the transposed image
        if (!k.has_ser) std::swap(k.par, k.ser), std::swap(k.has_par, k.has_ser);
        k.has_par = false;
        int n = k.cols();
        if (k.ser.win1 > n) k.ser.win0 = 0, k.ser.win1 = -1;
        if (k.par.win1 > k.rows()) k.par.win0 = 0, k.par.win1 = -1;
        CaseSpec t = k;
        t.image = transposed(k.image);
        std::swap(t.par, t.ser);
        t.has_par = true;
        t.has_ser = false;
        c.describe(strf("%s of ", rem ? "removal" : "addition") + str(k));
        Img a = f(k), b = transposed(f(t));
        c.nontrivial = max_diff(a, k.image) > 1e-6;
        CHECK(same(a, b, tol), "serial %s, transposed parallel %s", str(a).c_str(), str(b).c_str());
        c.label("transposed");
    } else if (mode == 1) {
        // Both directions are the parallel one and then the serial one
        if (!(k.has_par && k.has_ser)) {
            CaseSpec q = gen_case(s, o);
            if (!k.has_par) k.par = q.par;
            if (!k.has_ser) k.ser = q.has_ser ? q.ser : q.par;
            k.has_par = k.has_ser = true;
            k.par.win0 = k.ser.win0 = 0;
            k.par.win1 = k.ser.win1 = -1;
            if (strong) prune(k.par), prune(k.ser);
        }
        c.describe("addition of " + str(k));
        Img a = run_add(k);
        CaseSpec p = k;
        p.has_ser = false;
        Img b = run_add(p);
        CaseSpec q = k;
        q.has_par = false;
        q.image = b;
        Img d = run_add(q);
        c.nontrivial = max_diff(b, k.image) > 1e-6 && max_diff(d, b) > 1e-6;
        CHECK(same(a, d, tol), "both %s, one after the other %s", str(a).c_str(), str(d).c_str());
        c.label("parallel then serial");
    } else {
        c.describe(str(k));
        Img want = ref_add(k);
        c.nontrivial = ref_facts.captured && ref_facts.released;
        bool cont = false;
        for (auto* d : {&k.par, &k.ser}) cont = cont || d->has(ICC) || d->has(SCC);
        expect_close(c, k, run_add(k), want, cont ? 1e-7 : 1e-8, "reference model");
        c.label("reference");
        if (k.has_ser && k.has_par) c.label("reference, both directions");
    }
}
static Reg r08({"C08",
                "Serial against transposed parallel clocking, and both directions against one after the other. "
                "Non-trivial: each direction changed the image.",
                p_serial, 20, 300, {}, {}});

// ---- C09: removal
static void p_remove(Src& s, Ctx& c) {
    GenOpt o = all_types(s, true);
    o.max_rows = 20;
    o.max_cols = 4;
    int mode = (int)s.draw(3);
    if (mode < 2) {
        // The definition of the iterations
        CaseSpec k = gen_case(s, o);
        int n = s.flag(1, 40) && k.rows() * k.cols() < 100 ? s.range(7, 25) : s.small(0, 6);
        c.describe(strf("%d iterations of ", n) + str(k));
        Img got = run_remove(k, n);
        auto iterate = [&](RefNudge* by, double noise) {
            Img est = k.image;
            for (int i = 0; i < n; i++) {
                CaseSpec q = k;
                if (by)
                    for (auto& row : est)
                        for (double& v : row) v += by->unit() * noise;
                q.image = est;
                Img add = mode == 0 ? run_add(q) : ref_add(q);
                est += k.image - add;
                if (!k.allow_neg)
                    for (auto& row : est)
                        for (double& v : row)
                            if (v < 0) v = 0;
            }
            return est;
        };
        Img est = iterate(nullptr, 0);
        c.nontrivial = n > 0 && max_diff(got, k.image) > 1e-6;
        CHECK(all_finite(got), "not finite: %s", str(got).c_str());
        if (n == 0) CHECK(max_diff(got, k.image) == 0, "no iterations change the image");
        if (!k.allow_neg && n > 0)
            for (auto& row : got)
                for (double v : row) CHECK(v >= 0, "negative pixel %g", v);
        double scale = 1 + std::max(img_scale(k.image), img_scale(est));
        if (mode == 0)
            CHECK(same(got, est, 1e-9 * scale), "got %s want %s", str(got).c_str(), str(est).c_str());
        else {
            // The reference model all the way, unless ill-conditioned
            double tol = 1e-7 * scale, d = max_diff(got, est);
            if (d > 0.1 * tol) {
                double sens = 0;
                double noise = 2e-10 + 1e-13 * scale;
                for (int j = 0; j < 2; j++) {
                    RefNudge by(77 + j, noise);
                    sens = std::max(sens, max_diff(iterate(&by, noise), est));
                }
                tol += 300 * sens;
                if (tol > 1e-3 * scale) throw Discard();
            }
            c.metric("iterations of the reference: difference/tolerance", d / tol);
            CHECK(d <= tol, "differs from the reference's by %g: got %s want %s", d, str(got).c_str(), str(est).c_str());
        }
        c.label(mode == 0 ? "iterations of addition" : "iterations of the reference");
        if (k.has_par && k.has_ser) c.label("parallel and serial");
        return;
    }
    // Convergence: a weak enough effect is a contraction
    o.surface = false;
    o.negative = s.flag(1, 2);
    o.carry_over = s.flag(1, 4);
    CaseSpec k = gen_case(s, o);
    k.allow_neg = 1;
    for (auto* d : {&k.par, &k.ser}) {
        d->phases[0].power = 1;
        d->phases[0].notch = 0;
        d->phases[0].fef = 0;  // (a first electron meets traps however few there are)
        d->win0 = 0;
        d->win1 = -1;
        d->offset = std::min(d->offset, 5);
        // The number of electrons captured per transfer is at most
        // density / full well of those in the pixel
        int n = (d == &k.par ? k.rows() : k.cols()) + d->offset + d->roe.prescan;
        double total = 0, want = 0.05 * d->phases[0].full / n;
        for (auto& t : d->traps) total += t.density;
        if (total > want)
            for (auto& t : d->traps) t.density *= want / total;
    }
    for (auto& row : k.image)
        for (double& v : row) v = std::min(v, 5e4);
    Img truth = k.image;
    CaseSpec q = k;
    q.image = run_add(k);
    c.describe("recovery from " + str(k));
    double e0 = max_diff(q.image, truth), scale = 1 + img_scale(truth);
    c.nontrivial = e0 > 1e-3;
    int n = s.range(3, 10);
    Img r1 = run_remove(q, n);
    double e = max_diff(r1, truth);
    double tol = e0 * pow(0.6, n) + 1e-8 * scale;
    c.metric("error/bound", e / tol);
    CHECK(e <= tol, "%d iterations leave an error of %g of the original %g: %s", n, e, e0, str(r1).c_str());
    // Adding to the corrected image gives back the one it was from
    CaseSpec back = k;
    back.image = r1;
    double eb = max_diff(run_add(back), q.image);
    CHECK(eb <= 2 * tol, "adding CTI to the corrected image misses the original by %g", eb);
    c.label("recovery");
}
static Reg r09({"C09",
                "Removal against its definition by iterated addition (the code's and the reference's), and recovery of the "
                "original image. Non-trivial: the correction changed the image.",
                p_remove, 25, 300,
                {"convergence only for traps that capture under about 5% of each pixel's electrons over the readout and a linear well"},
                {}});

// ---- C13: symmetries
static void p_scaling(Src& s, Ctx& c) {
    GenOpt o = all_types(s, true);
    o.roes = {STD, STD, CI};
    o.max_rows = 20;
    if (s.flag(1, 4)) o.max_phases = 3, o.prune = false;
    CaseSpec k = gen_case(s, o);
    int kind = (int)s.draw(7);
    static const char* names[] = {"units of time", "units of charge", "species split in two", "species reordered",
                                  "species without traps added", "no traps at all", "empty image"};
    c.label(names[kind]);
    c.describe(std::string(names[kind]) + " " + str(k));
    CaseSpec q = k;
    Img a = run_add(k);
    c.nontrivial = max_diff(a, k.image) > 1e-6;
    bool cont = false;
    for (auto* d : {&k.par, &k.ser}) cont = cont || d->has(ICC) || d->has(SCC);
    double tol = cont ? 1e-6 : 1e-8;
    auto dirs = {&q.par, &q.ser};
    if (kind == 0) {
        double f = s.pick<double>({2, 0.5, 1000, 1e-6, 3.7});
        for (auto* d : dirs) {
            for (double& w : d->roe.dwell) w *= f;
            for (auto& t : d->traps) t.tau *= f, t.capt *= f;
        }
    } else if (kind == 1) {
        double f = s.pick<double>({2, 0.5, 64, 1e-3, 3.3});
        for (auto& row : q.image) row *= f;
        for (auto* d : dirs) {
            d->prune_n *= f;
            for (auto& p : d->phases) p.full *= f, p.notch *= f;
            for (auto& t : d->traps) t.density *= f;
        }
        Img b = run_add(q);
        for (auto& row : b) row /= f;
        expect_close(c, k, b, a, tol, names[kind]);
        return;
    } else if (kind == 2) {
        for (auto* d : dirs) {
            if (d->traps.empty()) continue;
            TrapSpec t = d->traps[s.draw(d->traps.size())];
            TrapSpec u = t;
            double x = s.pick<double>({0.5, 0.1, 0.99});
            for (auto& v : d->traps)
                if (v.density == t.density && v.tau == t.tau && v.type == t.type) {
                    v.density *= x;
                    break;
                }
            u.density = t.density - t.density * x;
            d->traps.push_back(u);
        }
    } else if (kind == 3) {
        for (auto* d : dirs) {
            auto& t = d->traps;
            for (int i = (int)t.size() - 1; i > 0; i--) std::swap(t[i], t[s.draw(i + 1)]);
        }
    } else if (kind == 4) {
        for (auto* d : dirs) {
            TrapSpec t = gen_trap(s, s.pick(o.types), false);
            t.density = 0;
            t.none = t.full = 0;
            d->traps.insert(d->traps.begin() + s.draw(d->traps.size() + 1), t);
        }
    } else if (kind == 5) {
        for (auto* d : dirs)
            for (auto& t : d->traps) t.density = 0;
        Img b = run_add(q);
        double scale = img_scale(k.image);
        if (!q.allow_neg) return;
        CHECK(max_diff(b, k.image) <= 1e-12 * scale, "traps of no density change the image: %s", str(b).c_str());
        return;
    } else {
        for (auto& row : q.image) row = 0.0;
        Img b = run_add(q);
        CHECK(img_scale(b) == 0, "an empty image becomes %s", str(b).c_str());
        return;
    }
    expect_close(c, k, run_add(q), a, tol, names[kind]);
}
static Reg r13({"C13",
                "The same readout in other units of time or charge, or with its trap species split, reordered or joined by empty "
                "ones. Non-trivial: the CTI changed the image.",
                p_scaling, 20, 300, {}, {}});

// ---- C19: negative pixels
static void p_negative(Src& s, Ctx& c) {
    GenOpt o = all_types(s, false);
    o.max_rows = 20;
    o.roes = {STD, STD, CI};
    if (s.flag(1, 4)) o.roes = {TP, TP, STD};
    if (s.flag(1, 4)) o.max_phases = 4;
    CaseSpec k = gen_case(s, o);
    if (s.flag(1, 2))
        for (auto& row : k.image)
            for (double& v : row) v = s.flag(1, 3) ? -s.logreal(0.01, 300) : v;
    // Too large an express multiplier can take more electrons than there are
    if (s.flag(1, 2)) k.par.express = k.ser.express = 1;
    k.allow_neg = 0;
    c.describe(str(k));
    Img want = ref_add(k);
    bool cap = ref_facts.captured && ref_facts.released;
    bool neg = ref_facts.negative;
    Img a = run_add(k);
    for (int i = 0; i < k.rows(); i++)
        for (int j = 0; j < k.cols(); j++) {
            // A pixel that is not transferred is not changed
            bool touched = a[i][j] != k.image[i][j];
            CHECK(a[i][j] >= 0 || !touched, "pixel [%d][%d] becomes negative: %.17g", i, j, a[i][j]);
        }
    expect_close(c, k, a, want, 1e-8, "reference model, none allowed");
    CaseSpec q = k;
    q.allow_neg = 1;
    Img want1 = ref_add(q);
    Img b = run_add(q);
    expect_close(c, q, b, want1, 1e-8, "reference model, allowed");
    bool below = false, none = true, one = true;
    for (auto& row : b)
        for (double v : row) below = below || v < 0;
    // With a pass for every transfer, nothing takes more than there is
    for (auto& row : k.image)
        for (double v : row) none = none && v >= 0;
    double slack = 0;
    for (auto* d : {k.has_par ? &k.par : nullptr, k.has_ser ? &k.ser : nullptr})
        if (d) {
            one = one && d->express == 0 && d->roe.dwell.size() == 1;
            if (d->prune_freq > 0) slack += 100 * d->prune_n;
        }
    if (none && one) {
        for (auto& row : b)
            for (double v : row)
                CHECK(v >= -slack - 1e-9 * (1 + img_scale(k.image)), "a pixel becomes negative, %g, with one transfer at a time", v);
        c.label("one transfer at a time");
    }
    c.nontrivial = cap && (neg || below || ref_facts.negative);
    if (below) c.label("negative where allowed");
    if (s.flag(1, 3)) {
        int n = s.range(1, 3);
        Img r = run_remove(k, n);
        for (auto& row : r)
            for (double v : row) CHECK(v >= 0, "the removal leaves a negative pixel %.17g", v);
        c.label("removal");
        // With no negative pixel on the way, the option makes no difference
        Img est = q.image;
        bool ever = false;
        for (int i = 0; i <= n; i++) {
            for (auto& row : est)
                for (double v : row) ever = ever || v < 1e-6;
            CaseSpec x = q;
            x.image = est;
            Img y = run_add(x), z;
            x.allow_neg = 0;
            z = run_add(x);
            ever = ever || max_diff(y, z) > 0;
            est += k.image - y;
        }
        if (!ever) {
            Img t = run_remove(q, n);
            CHECK(max_diff(r, t) <= 1e-9 * (1 + img_scale(q.image)), "the option changes an image that is always positive");
            c.label("removal, always positive");
        }
    }
}
static Reg r19({"C19",
                "Images with negative pixels, or express passes that take out more electrons than there are, with and without "
                "negative pixels being allowed. Non-trivial: traps captured and released, and a negative pixel occurs.",
                p_negative, 20, 300, {}, {}});
