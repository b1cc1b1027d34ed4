// Memory safety, undefined behaviour and leaks: any valid input, under the
// sanitizers
#include <math.h>
#include <unistd.h>

#include "model.hpp"

#if defined(__SANITIZE_ADDRESS__)
#define WITH_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define WITH_ASAN 1
#endif
#endif
#ifdef WITH_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t heap() { return __sanitizer_get_current_allocated_bytes(); }
#else
#include <malloc.h>
static size_t heap() { return mallinfo2().uordblks; }
#endif

namespace {

TrapSpec gen_wild_trap(Src& s, int type) {
    TrapSpec t = gen_trap(s, type, true);
    if (s.flag(1, 3)) {
        t.tau = s.logreal(1e-6, 1e8);
        if (t.type == SC || t.type == SCC) t.capt = s.flag(1, 4) ? 0 : s.logreal(1e-6, 1e6);
        t.density = s.flag(1, 4) ? 0 : s.logreal(1e-9, 1e8);
        if (t.sigma > 0) t.sigma = s.logreal(1e-3, 4);
    }
    return t;
}

// The functions of the continua by themselves, and image files
void p_functions(Src& s, Ctx& c) {
    double tau = s.logreal(0.01, 100), sigma = s.logreal(0.05, 2), capt = s.flag(1, 4) ? 0 : s.logreal(0.01, 10);
    double x = tau * s.logreal(1e-2, 20), by = s.logreal(1.5, 100), dwell = s.logreal(0.1, 10);
    int n = s.range(2, 60), rows = s.range(1, 12), cols = s.range(1, 12);
    bool wild = s.flag(1, 3);
    double at = wild ? s.logreal(1e-300, 1e300) : x * s.logreal(1e-3, 1e3);
    c.describe(strf("functions of continua with tau=%g sigma=%g capture=%g at %g and %g, dwell %g, %d in the table; image file of %dx%d",
                    tau, sigma, capt, x, at, dwell, n, rows, cols));
    const char* dir = getenv("TMPDIR");
    std::string path = strf("%s/arctic_verif_mem_%d.txt", dir ? dir : "/tmp", (int)getpid());
    auto run = [&] {
        double sum = 0;
        TrapInstantCaptureContinuum t(10, tau, sigma);
        TrapSlowCaptureContinuum u(10, tau, sigma, capt);
        double f = t.fill_fraction_from_time_elapsed(x);
        if (f > 1e-8 && f < 1 - 1e-4) sum += t.time_elapsed_from_fill_fraction(f, x * by);
        f = u.fill_fraction_from_time_elapsed(x);
        if (f > 1e-8 && f < 1 - 1e-4) sum += u.time_elapsed_from_fill_fraction(f, x * by);
        t.prep_fill_fraction_and_time_elapsed_tables(x, x * by, n);
        u.prep_fill_fraction_and_time_elapsed_tables(x, x * by, n);
        if (capt > 0) {
            sum += u.fill_fraction_after_slow_capture(x, dwell);
            u.prep_fill_fraction_after_slow_capture_tables(dwell, x, x * by, n);
            sum += u.fill_fraction_after_slow_capture_table(at);
        }
        for (double v : {0.0, f, 1.0, 0.5, 1e-300, 1 - 1e-16}) {
            double a = t.time_elapsed_from_fill_fraction_table(v), b = u.time_elapsed_from_fill_fraction_table(v);
            CHECK(a >= 0 && b >= 0, "the time of a fraction %g is %g or %g", v, a, b);
        }
        double a = t.fill_fraction_from_time_elapsed_table(at), b = u.fill_fraction_from_time_elapsed_table(at);
        CHECK(a >= 0 && a <= 1 && b >= 0 && b <= 1, "the fraction at %g is %g or %g", at, a, b);
        CHECK(std::isfinite(sum), "not finite");
        Img im = make_img(rows, cols, tau);
        save_image_to_txt(path.c_str(), im);
        Img back = load_image_from_txt(path.c_str());
        unlink(path.c_str());
        CHECK((int)back.size() == rows && (int)back[0].size() == cols, "the file has another size");
    };
    run();
    size_t before = heap();
    run();
    size_t after = heap();
    CHECK(after <= before, "%zu bytes are not freed", after - before);
    c.nontrivial = true;
    c.label("functions and files");
}

void p_memory(Src& s, Ctx& c) {
    if (s.flag(1, 12)) return p_functions(s, c);
    GenOpt o;
    o.types = s.pick<std::vector<int>>({{IC}, {SC}, {IC, SC}});
    if (s.flag(1, 12)) o.types = s.pick<std::vector<int>>({{ICC}, {SCC}, {IC, SC, ICC, SCC}});
    o.surface = true;
    o.roes = {STD, STD, CI, TP};
    if (s.flag(1, 3)) o.max_phases = 6;
    o.max_rows = 24;
    o.max_cols = 6;
    o.fef = s.flag(1, 4);
    CaseSpec k = gen_case(s, o);
    k.threads = 1;  // (for the heap to be comparable)
    k.allow_neg = s.flag(1, 3) ? 0 : 1;
    bool wild = s.flag(1, 2);
    if (wild) {
        for (auto* d : {&k.par, &k.ser}) {
            for (auto& t : d->traps) t = gen_wild_trap(s, t.type);
            if (s.flag(1, 4)) d->traps.clear();
            if (s.flag(1, 4))
                for (auto& p : d->phases) p.full = s.logreal(1, 1e7), p.notch = p.full * 0.9 * s.unit(), p.power = s.real(0.05, 4);
            if (s.flag(1, 4)) d->prune_n = s.pick<double>({0, 1, 1e6, -1e-3}), d->prune_freq = s.range(0, 3);
            if (s.flag(1, 6)) d->express = s.range(0, 100);
            if (s.flag(1, 6) && d->roe.type != TP) d->offset = s.range(0, 100);
        }
        if (s.flag(1, 3))
            for (auto& row : k.image)
                for (double& v : row) v = s.flag(1, 3) ? v * s.logreal(1e-8, 1e4) : s.flag(1, 4) ? -s.logreal(1e-9, 1e6) : v;
    }
    int mode = (int)s.draw(4);
    int it = s.range(1, 2);
    int c0 = (int)s.draw(k.cols()), c1 = s.range(c0 + 1, k.cols());
    std::string what = mode == 3 ? strf("columns [%d,%d) of ", c0, c1) : mode == 2 ? strf("removal of %d from ", it) : "addition to ";
    c.describe(what + str(k));
    auto run = [&]() -> Img {
        if (mode == 3 && k.has_par) return run_clock(k.image, k.par, c0, c1, k.allow_neg);
        if (mode == 2) return run_remove(k, it);
        return run_add(k);
    };
    Img a = run();
    CHECK(a.size() == k.image.size(), "%zu rows are returned", a.size());
    for (auto& row : a) CHECK(row.size() == k.image[0].size(), "%zu columns are returned", row.size());
    CHECK(all_finite(a), "not finite: %s", str(a).c_str());
    // Whatever is allocated is freed
    size_t before = heap();
    { Img b = run(); }
    size_t after = heap();
    CHECK(after <= before, "%zu bytes are not freed", after - before);
    c.nontrivial = max_diff(a, k.image) > 0;
    if (wild) c.label("extreme parameters");
    if (k.has_par) c.label(strf("roe type %d", k.par.roe.type));
    if (k.has_par && k.par.roe.n_phases() > 1) c.label("several phases");
    if (k.has_par && !k.par.roe.empty_cols) c.label("traps kept between columns");
}
Reg r16({"C16",
         "Any valid images, readouts and traps, with the code compiled with address and undefined-behaviour sanitizers, and "
         "with the heap in use compared before and after; and the functions of the continua and image files by themselves. Non-trivial: the CTI changes the image.",
         p_memory, 40, 500,
         {"a sanitizer's report, an exit, a value that is not finite or memory not freed is a violation"}, {}, {}});
}  // namespace
