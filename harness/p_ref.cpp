// Differential properties against the reference model
#include <math.h>

#include "model.hpp"

static void ref_prop(Src& s, Ctx& c, const GenOpt& o, double tol_rel) {
    CaseSpec k = gen_case(s, o);
    c.describe(str(k));
    Img want = ref_add(k);
    c.nontrivial = ref_facts.captured && ref_facts.released;
    label_case(c, k);
    Img got = run_add(k);
    expect_close(c, k, got, want, tol_rel, "reference model");
}

static const char* RULE =
    "Generated image, readout mode, pixel well and trap species; the output is compared with the reference model's. "
    "Non-trivial: traps both captured and released electrons during the clocking.";
static const std::vector<std::string> ASSUME = {
    "each phase has one dwell time for all of the clocking steps (as the code documents)",
    "0.01 <= trap timescales / dwell time <= 1e5, sigma of log timescales in [0.05, 2], wells between 200 and 84700 electrons",
    "cases whose reference output moves by over 1e-5 of the image scale under rounding-sized changes are discarded and counted"};

static Reg r01({"C01", RULE,
                [](Src& s, Ctx& c) {
                    GenOpt o;
                    o.types = {IC};
                    o.big = true;
                    int kind = (int)s.draw(4);
                    if (kind == 1) o.surface = true;
                    if (kind == 2) o.fef = true;
                    if (kind == 3) o.max_rows = 60, o.max_traps = 5, o.surface = s.flag(1, 2);
                    ref_prop(s, c, o, 1e-8);
                },
                25, 400, ASSUME, {}});
static Reg r02({"C02", RULE,
                [](Src& s, Ctx& c) {
                    GenOpt o;
                    o.types = {SC};
                    o.big = true;
                    int kind = (int)s.draw(4);
                    if (kind == 1) o.types = {SC, IC};
                    if (kind == 2) o.fef = true;
                    if (kind == 3) o.max_rows = 60, o.max_traps = 5;
                    ref_prop(s, c, o, 1e-8);
                },
                25, 400, ASSUME, {}});
// Traps with a release timescale far longer than the whole readout, partly
// filled by slow capture: the effective time since they were full is far outside
// the code's tables, so nearly all of them empty within a transfer
static void c03_known(Ctx& c) {
    CaseSpec k;
    k.image = make_img(2, 1);
    k.image[0][0] = 100;
    TrapSpec t;
    t.type = SCC;
    t.density = 10000;
    t.tau = 1e5;
    t.capt = 10;
    t.sigma = 0.1;
    k.par.traps = {t};
    c.describe(str(k));
    ref_exact_continuum = true;
    Img want = ref_add(k);
    ref_exact_continuum = false;
    Img got = run_add(k);
    CHECK(max_diff(got, want) < 0.5, "got %s want %s", str(got).c_str(), str(want).c_str());
}
static Reg r03({"C03", RULE,
                [](Src& s, Ctx& c) {
                    GenOpt o;
                    o.max_rows = 24;
                    o.types = s.pick<std::vector<int>>({{ICC}, {SCC}, {ICC, SCC}, {IC, ICC}, {SC, SCC}});
                    // Either the occupancies of the code's own tables, which
                    // have their own property, or those of the definition
                    ref_exact_continuum = s.flag(1, 2);
                    if (s.flag(1, 4)) o.max_phases = 3, o.prune = false;
                    o.fef = s.flag(1, 5);
                    c.label(ref_exact_continuum ? "against the definition" : "against the code's tables");
                    struct Off {
                        ~Off() { ref_exact_continuum = false; }
                    } off;
                    if (!ref_exact_continuum) {
                        ref_prop(s, c, o, 1e-7);
                        return;
                    }
                    o.negative = false;
                    o.max_rows = 18;
                    CaseSpec k = gen_case(s, o);
                    k.allow_neg = 0;
                    c.describe(str(k));
                    Img want = ref_add(k);
                    if (ref_facts.beyond_table > 1 || ref_facts.before_table > 2) {
                        c.label("excluded: effective times outside the code's tables");
                        return;
                    }
                    c.nontrivial = ref_facts.captured && ref_facts.released;
                    label_case(c, k);
                    Img got = run_add(k);
                    CHECK(all_finite(got), "output is not finite: %s", str(got).c_str());
                    double tol = 5e-3 * (1 + img_scale(k.image)), d = max_diff(got, want);
                    if (d > 0.3 * tol && 10 * ref_fill_sensitivity(k, want, 1e-4) > tol) {
                        c.label("excluded: ill-conditioned");
                        return;
                    }
                    c.metric("definition: difference/tolerance", d / tol);
                    CHECK(d <= tol, "differs from the definition by %.6g (tolerance %.3g): got %s want %s", d, tol,
                          str(got).c_str(), str(want).c_str());
                },
                40, 500, ASSUME, {}, {{"long-timescale-slow-capture-continuum", c03_known}}});

// ---- Multiple phases
static std::vector<int> to_vec(const std::valarray<int>& v) { return std::vector<int>(std::begin(v), std::end(v)); }

static void check_sequence(const DirSpec& d) {
    Built b(d);
    b.roe->set_clock_sequence();
    auto want = ref_sequence(d.roe);
    auto& got = b.roe->clock_sequence;
    CHECK(got.size() == want.size(), "%zu clocking steps, want %zu", got.size(), want.size());
    for (size_t i = 0; i < want.size(); i++) {
        CHECK(got[i].size() == want[i].size(), "step %zu has %zu phases", i, got[i].size());
        for (size_t p = 0; p < want[i].size(); p++) {
            auto& g = got[i][p];
            auto& w = want[i][p];
            CHECK(g.is_high == w.high, "step %zu phase %zu high: %d", i, p, g.is_high);
            CHECK(g.n_capture_pixels == (int)w.cap.size() && to_vec(g.capture_from_which_pixels) == w.cap,
                  "step %zu phase %zu captures from the wrong pixels", i, p);
            CHECK(g.n_release_pixels == (int)w.rel.size(), "step %zu phase %zu releases to %d pixels", i, p,
                  g.n_release_pixels);
            double sum = 0;
            for (size_t k = 0; k < w.rel.size(); k++) {
                // as a set: the order of the pixels has no effect
                bool found = false;
                for (size_t j = 0; j < w.rel.size(); j++)
                    found = found || (g.release_to_which_pixels[j] == w.rel[k] &&
                                      g.release_fraction_to_pixels[j] == w.frac[k]);
                CHECK(found, "step %zu phase %zu does not release to pixel %+d", i, p, w.rel[k]);
                sum += g.release_fraction_to_pixels[k];
            }
            CHECK(sum == 1, "step %zu phase %zu releases a fraction %g of its electrons", i, p, sum);
        }
    }
}

static Reg r11({"C11", RULE,
                [](Src& s, Ctx& c) {
                    GenOpt o;
                    o.types = s.pick<std::vector<int>>({{IC}, {SC}, {IC, SC}});
                    o.max_phases = 6;
                    o.fef = s.flag(1, 5);
                    o.big = true;
                    o.prune = false;
                    o.max_rows = 20;
                    CaseSpec k = gen_case(s, o);
                    c.describe(str(k));
                    if (k.has_par) check_sequence(k.par);
                    if (k.has_ser) check_sequence(k.ser);
                    Img want = ref_add(k);
                    label_case(c, k);
                    bool multi = (k.has_par && k.par.roe.n_phases() > 1) || (k.has_ser && k.ser.roe.n_phases() > 1);
                    c.nontrivial = ref_facts.captured && ref_facts.released && multi;
                    expect_close(c, k, run_add(k), want, 1e-8, "reference model");
                },
                25, 400, ASSUME, {}});
static Reg r12({"C12", RULE,
                [](Src& s, Ctx& c) {
                    GenOpt o;
                    o.types = s.pick<std::vector<int>>({{IC}, {SC}, {IC, SC}});
                    o.max_phases = 4;
                    o.fef = s.flag(1, 5);
                    o.big = true;
                    o.prune = false;
                    o.max_rows = 20;
                    o.roes = {CI, TP};
                    CaseSpec k = gen_case(s, o);
                    c.describe(str(k));
                    for (auto* d : {k.has_par ? &k.par : nullptr, k.has_ser ? &k.ser : nullptr})
                        if (d) {
                            check_sequence(*d);
                            // Everything moves through the same number of
                            // pixels, or is pumped the given number of times
                            int n = d == &k.par ? k.rows() : k.cols();
                            Built b(*d);
                            b.roe->set_express_matrix_from_rows_and_express(n, d->express, d->offset);
                            double want = d->roe.type == TP             ? d->roe.n_pumps
                                          : d->roe.overscan >= 0 ? d->roe.prescan + d->roe.overscan - 1
                                                                 : d->roe.prescan + d->offset + n;
                            for (int j = 0; j < n; j++) {
                                double sum = 0;
                                for (int e = 0; e < b.roe->n_express_passes; e++) {
                                    double m = b.roe->express_matrix[e * n + j];
                                    CHECK(m >= 0, "negative multiplier %g", m);
                                    if (d->roe.integer) CHECK(m == floor(m), "multiplier %g is not an integer", m);
                                    sum += m;
                                }
                                CHECK(fabs(sum - want) < 1e-9 * (1 + want), "row %d is transferred %g times, not %g", j,
                                      sum, want);
                            }
                        }
                    Img want = ref_add(k);
                    label_case(c, k);
                    c.nontrivial = ref_facts.captured && ref_facts.released;
                    expect_close(c, k, run_add(k), want, 1e-8, "reference model");
                },
                25, 400, ASSUME, {}});

// ---- Traps shared by successive columns
static Reg r18({"C18", "Several columns clocked in turn through the same traps, against the reference model and against "
                       "the same columns with later ones changed. Non-trivial: electrons were captured and released and there "
                       "is more than one column.",
                [](Src& s, Ctx& c) {
                    GenOpt o;
                    o.types = s.pick<std::vector<int>>({{IC}, {SC}, {IC, SC}});
                    o.max_cols = 6;
                    o.max_rows = 15;
                    o.fef = s.flag(1, 5);
                    if (s.flag(1, 8)) {
                        o.max_cols = s.flag(1, 2) ? 40 : 6;
                        o.max_rows = o.max_cols == 40 ? 4 : 40;
                    }
                    o.big = true;
                    o.prune = !s.flag(1, 2);
                    CaseSpec k = gen_case(s, o);
                    if (s.flag(1, 4)) k.threads = s.pick<int>({2, 3, 8});
                    k.par.roe.empty_cols = false;
                    k.ser.roe.empty_cols = false;
                    limit_cost(k, true);
                    c.describe(str(k));
                    Img want = ref_add(k);
                    label_case(c, k);
                    int lines = k.has_ser ? k.rows() : k.cols();
                    c.nontrivial = ref_facts.captured && ref_facts.released && lines > 1;
                    Img got = run_add(k);
                    expect_close(c, k, got, want, 1e-8, "reference model");
                    if (k.has_par != k.has_ser && lines > 1) {
                        // Later columns cannot change earlier ones
                        int j = s.range(1, lines - 1);
                        CaseSpec k2 = k;
                        double add = s.logreal(1, 1e4);
                        for (int a = 0; a < k.rows(); a++)
                            for (int b = 0; b < k.cols(); b++)
                                if ((k.has_ser ? a : b) >= j) k2.image[a][b] += add;
                        Img got2 = run_add(k2);
                        for (int a = 0; a < k.rows(); a++)
                            for (int b = 0; b < k.cols(); b++)
                                if ((k.has_ser ? a : b) < j)
                                    CHECK(fabs(got2[a][b] - got[a][b]) <= 1e-9 * (1 + fabs(got[a][b])),
                                          "pixel [%d][%d] changes from %.17g to %.17g with later columns", a, b,
                                          got[a][b], got2[a][b]);
                    }
                },
                20, 300, ASSUME, {}});
