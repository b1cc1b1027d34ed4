// Determinism: threads, repetition, verbosity, and the reuse of objects
#include <fcntl.h>
#include <math.h>
#include <omp.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>

#include "model.hpp"

namespace {

struct Quiet {
    int saved;
    Quiet() {
        fflush(stdout);
        saved = dup(1);
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        close(n);
    }
    ~Quiet() {
        fflush(stdout);
        dup2(saved, 1);
        close(saved);
    }
};
struct Threads {
    explicit Threads(int n) { omp_set_num_threads(n); }
    ~Threads() { omp_set_num_threads(1); }
};
struct Verbosity {
    explicit Verbosity(int v) { set_verbosity(v); }
    ~Verbosity() { set_verbosity(0); }
};

// The same as run_add or run_remove, with objects that already exist
Img call(const CaseSpec& c, Built& p, Built& s, Img& im, int iterations, int verb) {
    bool hp = c.has_par, hs = c.has_ser;
    ROE *pr = hp ? p.roe.get() : nullptr, *sr = hs ? s.roe.get() : nullptr;
    CCD *pc = hp ? p.ccd.get() : nullptr, *sc = hs ? s.ccd.get() : nullptr;
    if (iterations == 0)
        return add_cti(im, pr, pc, hp ? p.p_ic() : nullptr, hp ? p.p_sc() : nullptr, hp ? p.p_icc() : nullptr,
                       hp ? p.p_scc() : nullptr, c.par.express, c.par.offset, c.par.win0, c.par.win1, 0, -1,
                       c.par.prune_n, c.par.prune_freq, sr, sc, hs ? s.p_ic() : nullptr, hs ? s.p_sc() : nullptr,
                       hs ? s.p_icc() : nullptr, hs ? s.p_scc() : nullptr, c.ser.express, c.ser.offset, c.ser.win0,
                       c.ser.win1, 0, -1, c.ser.prune_n, c.ser.prune_freq, c.allow_neg, verb);
    return remove_cti(im, iterations, pr, pc, hp ? p.p_ic() : nullptr, hp ? p.p_sc() : nullptr,
                      hp ? p.p_icc() : nullptr, hp ? p.p_scc() : nullptr, c.par.express, c.par.offset, c.par.win0,
                      c.par.win1, 0, -1, c.par.prune_n, c.par.prune_freq, sr, sc, hs ? s.p_ic() : nullptr,
                      hs ? s.p_sc() : nullptr, hs ? s.p_icc() : nullptr, hs ? s.p_scc() : nullptr, c.ser.express,
                      c.ser.offset, c.ser.win0, c.ser.win1, 0, -1, c.ser.prune_n, c.ser.prune_freq, c.allow_neg);
}

void unchanged(const DirSpec& d, Built& b) {
    const RoeSpec& r = d.roe;
    CHECK(b.dwell.size() == r.dwell.size() && b.roe->dwell_times.size() == r.dwell.size(), "the dwell times are changed");
    for (size_t i = 0; i < r.dwell.size(); i++)
        CHECK(b.dwell[i] == r.dwell[i] && b.roe->dwell_times[i] == r.dwell[i], "the dwell times are changed");
    CHECK(b.roe->prescan_offset == (r.type == TP ? 0 : r.prescan) && b.roe->overscan_start == (r.type == TP ? -1 : r.overscan),
          "the prescan or overscan is changed: %d %d", b.roe->prescan_offset, b.roe->overscan_start);
    CHECK(b.roe->use_integer_express_matrix == r.integer, "the ROE's options are changed");
    if (r.type != TP)
        CHECK(b.roe->empty_traps_between_columns == r.empty_cols && b.roe->force_release_away_from_readout == r.force,
              "the ROE's options are changed");
    if (r.type == STD) CHECK(b.roe->empty_traps_for_first_transfers == r.empty_first, "the ROE's options are changed");
    if (r.type == TP) CHECK(b.roe->n_pumps == r.n_pumps, "the number of pumps is changed");
    CHECK(b.ccd->n_phases == d.phases.size(), "the CCD is changed");
    for (size_t i = 0; i < d.phases.size(); i++) {
        auto& p = b.ccd->phases[i];
        auto& q = d.phases[i];
        CHECK(p.full_well_depth == q.full && p.well_notch_depth == q.notch && p.well_fill_power == q.power &&
                  p.first_electron_fill == q.fef && b.ccd->fraction_of_traps_per_phase[i] == d.frac[i],
              "phase %zu of the CCD is changed", i);
    }
    Built f(d);
    for (size_t i = 0; i < f.ic.size(); i++)
        CHECK(b.ic[i].density == f.ic[i].density && b.ic[i].release_timescale == f.ic[i].release_timescale &&
                  b.ic[i].fractional_volume_none_exposed == f.ic[i].fractional_volume_none_exposed &&
                  b.ic[i].fractional_volume_full_exposed == f.ic[i].fractional_volume_full_exposed,
              "trap %zu is changed", i);
    for (size_t i = 0; i < f.sc.size(); i++)
        CHECK(b.sc[i].density == f.sc[i].density && b.sc[i].release_timescale == f.sc[i].release_timescale &&
                  b.sc[i].capture_timescale == f.sc[i].capture_timescale,
              "trap %zu is changed", i);
    for (size_t i = 0; i < f.icc.size(); i++)
        CHECK(b.icc[i].density == f.icc[i].density && b.icc[i].release_timescale == f.icc[i].release_timescale &&
                  b.icc[i].release_timescale_sigma == f.icc[i].release_timescale_sigma,
              "trap %zu is changed", i);
    for (size_t i = 0; i < f.scc.size(); i++)
        CHECK(b.scc[i].density == f.scc[i].density && b.scc[i].release_timescale == f.scc[i].release_timescale &&
                  b.scc[i].release_timescale_sigma == f.scc[i].release_timescale_sigma &&
                  b.scc[i].capture_timescale == f.scc[i].capture_timescale,
              "trap %zu is changed", i);
}

GenOpt options(Src& s, bool often) {
    GenOpt o;
    o.types = s.pick<std::vector<int>>({{IC}, {SC}, {IC, SC}});
    if (s.flag(1, often ? 60 : 20)) o.types = s.pick<std::vector<int>>({{ICC}, {SCC}, {IC, SC, ICC, SCC}});
    o.surface = s.flag(1, 4);
    o.max_rows = 16;
    o.max_cols = 12;
    o.roes = {STD, STD, CI, TP};
    if (s.flag(1, 4)) o.max_phases = 4;
    return o;
}
void same(const CaseSpec& k, const Img& a, const Img& b, const char* what) {
    double d = max_diff(a, b), tol = 1e-12 * (1 + img_scale(k.image));
    CHECK(d <= tol, "%s: differs by %g: %s, not %s", what, d, str(a).c_str(), str(b).c_str());
}

// Results from processes in which nothing was clocked before: a copy of this
// process, made before its first case, that forks once more for every request
struct Pristine {
    int to = -1, from = -1;
    static void put(int fd, const void* p, size_t n) {
        for (const char* q = (const char*)p; n > 0;) {
            ssize_t k = write(fd, q, n);
            if (k <= 0) _exit(0);
            q += k, n -= k;
        }
    }
    static bool get(int fd, void* p, size_t n) {
        for (char* q = (char*)p; n > 0;) {
            ssize_t k = read(fd, q, n);
            if (k <= 0) return false;
            q += k, n -= k;
        }
        return true;
    }
    template <class F>
    explicit Pristine(F answer) {
        int a[2], b[2];
        if (pipe(a) || pipe(b)) return;
        signal(SIGPIPE, SIG_IGN);
        if (fork() == 0) {
            close(a[1]);
            close(b[0]);
            uint64_t n;
            while (get(a[0], &n, sizeof n)) {
                std::vector<uint64_t> ch(n);
                get(a[0], ch.data(), n * sizeof(uint64_t));
                pid_t pid = fork();
                if (pid == 0) {
                    Img im = answer(ch);
                    std::vector<double> flat;
                    for (auto& row : im) flat.insert(flat.end(), std::begin(row), std::end(row));
                    n = flat.size();
                    put(b[1], &n, sizeof n);
                    put(b[1], flat.data(), n * sizeof(double));
                    _exit(0);
                }
                int st;
                waitpid(pid, &st, 0);
                if (!WIFEXITED(st) || WEXITSTATUS(st)) {
                    n = 0;
                    put(b[1], &n, sizeof n);
                }
            }
            _exit(0);
        }
        close(a[0]);
        close(b[1]);
        to = a[1];
        from = b[0];
    }
    Img ask(const std::vector<uint64_t>& choices, int rows, int cols) {
        uint64_t n = choices.size();
        put(to, &n, sizeof n);
        put(to, choices.data(), n * sizeof(uint64_t));
        CHECK(get(from, &n, sizeof n) && (int)n == rows * cols, "there is no result in a new process");
        Img im = make_img(rows, cols);
        for (auto& row : im)
            if (!get(from, &row[0], cols * sizeof(double))) throw Discard();
        return im;
    }
};

struct Gen {
    int mode, it;
    GenOpt o;
    CaseSpec k;
    explicit Gen(Src& s) {
        mode = (int)s.draw(6);
        o = options(s, mode == 0);
        if (mode == 5) {
            if (s.flag(1, 4)) o.types = s.pick<std::vector<int>>({{ICC}, {SCC}, {IC, SC, ICC, SCC}});
            o.max_rows = 8;
            o.max_cols = 3;
        } else if (mode == 0 && s.flag(1, 8)) {
            o.types = {IC};
            o.max_rows = 4;
            o.max_cols = 100;
        }
        k = gen_case(s, o);
        k.threads = 1;
        it = s.flag(1, 3) ? s.range(1, 3) : 0;
    }
    Img run() const { return it ? run_remove(k, it) : run_add(k); }
};

// The case with one parameter changed
CaseSpec nearly(Src& s, const CaseSpec& k, std::string& text) {
    CaseSpec x = k;
    bool ser = k.has_ser && (!k.has_par || s.flag(1, 2));
    DirSpec& d = ser ? x.ser : x.par;
    text = ser ? "serial " : "parallel ";
    TrapSpec* t = d.traps.empty() ? nullptr : &d.traps[s.draw(d.traps.size())];
    PhaseSpec& p = d.phases[s.draw(d.phases.size())];
    double by = s.pick<double>({0.5, 2, 3.7, 10});
    int rows = k.rows(), cols = k.cols();
    switch (s.draw(16)) {
        case 0:
        case 1: {
            // More or fewer rows or columns
            bool wide = s.flag(1, 2);
            int r = wide ? rows : s.flag(1, 8) ? s.range(20, 60) : s.small(1, 20), q = wide ? s.small(1, 10) : cols;
            if (x.has_par && x.par.roe.type == TP && r < rows) r = rows;
            if (x.has_ser && x.ser.roe.type == TP && q < cols) q = cols;
            x.image = make_img(r, q);
            for (int i = 0; i < r; i++)
                for (int j = 0; j < q; j++) x.image[i][j] = k.image[i % rows][j % cols];
            for (auto* e : {&x.par, &x.ser})
                if (e->roe.type != TP) e->win0 = 0, e->win1 = -1;
            text += strf("an image of %dx%d", r, q);
            break;
        }
        case 2:
            for (auto& v : d.roe.dwell) v *= by;
            text += strf("%g times the dwell times", by);
            break;
        case 3:
            if (t) t->density *= by;
            text += strf("%g times a density", by);
            break;
        case 4:
            if (t) t->tau *= by;
            text += strf("%g times a release timescale", by);
            break;
        case 5:
            if (t) t->capt *= by;
            text += strf("%g times a capture timescale", by);
            break;
        case 6:
            if (t && t->sigma > 0) t->sigma = t->sigma > 0.7 ? t->sigma / 2 : t->sigma * 2;
            text += "another width of the continuum";
            break;
        case 7:
            p.full *= by < 1 ? 1.5 : by;
            text += "a larger full well";
            break;
        case 8:
            p.power *= by < 1 ? 0.5 : 1.3;
            text += "another power";
            break;
        case 9:
            p.notch = p.notch > 0 ? p.notch / 2 : p.full / 100;
            text += "another notch";
            break;
        case 10:
            if (d.roe.type == STD) d.offset += s.range(1, 9);
            text += "another offset";
            break;
        case 11:
            if (d.roe.type == STD) d.roe.prescan += s.range(1, 9);
            if (d.roe.type == TP) d.roe.n_pumps += s.range(1, 3);
            text += "another prescan or number of pumps";
            break;
        case 12:
            d.express = d.express == 1 ? 2 : 1;
            text += "another express";
            break;
        case 13:
            if (d.roe.type == STD) d.roe.empty_first = !d.roe.empty_first;
            text += "other first transfers";
            break;
        case 14:
            d.roe.integer = !d.roe.integer;
            text += "the other integer option";
            break;
        default:
            x.image[s.draw(rows)][s.draw(cols)] += s.logreal(1, 1e4);
            text += "another pixel";
    }
    return x;
}

void p_det(Src& s, Ctx& c) {
    static Pristine pristine([](const std::vector<uint64_t>& ch) {
        Src t(ch);
        return Gen(t).run();
    });
    Gen gen(s);
    std::vector<uint64_t> choices = s.out;
    int mode = gen.mode, it = gen.it;
    GenOpt& o = gen.o;
    CaseSpec& k = gen.k;
    static const char* names[] = {"number of threads", "repeated", "verbosity", "sequence of images through the same objects",
                                  "the same objects for both directions", "after calls with one parameter changed"};
    c.label(names[mode]);
    std::string what = strf("%s, %s, ", names[mode], it ? strf("%d iterations of removal", it).c_str() : "addition");
    c.describe(what + str(k));
    auto fresh = [&](const CaseSpec& x, int n) { return n ? run_remove(x, n) : run_add(x); };
    if (mode == 5) {
        // Anything kept from one call to the next for parameters that seem to
        // be the same
        for (int r = s.range(1, 3); r > 0; r--) {
            std::string text;
            CaseSpec x = nearly(s, k, text);
            c.describe(c.desc + " after the same with " + text);
            fresh(x, it);
        }
    }
    Img want = fresh(k, it);
    c.nontrivial = max_diff(want, k.image) > 1e-6;
    if (mode == 5 || s.flag(1, 4)) {
        same(k, want, pristine.ask(choices, k.rows(), k.cols()), "after other cases in this process, rather than in a new one");
        c.label("against a new process");
    }
    if (mode == 0) {
        for (int n : {2, 3, 8}) {
            Threads t(n);
            // (more than once, for the interleaving to differ)
            for (int r = 0; r < 3; r++) same(k, fresh(k, it), want, strf("with %d threads", n).c_str());
        }
        c.nontrivial = c.nontrivial && (k.has_ser ? k.rows() : k.cols()) > 1;
    } else if (mode == 1) {
        Built p(k.par), q(k.ser);
        Img im = k.image;
        for (int r = 0; r < 3; r++) {
            same(k, call(k, p, q, im, it, 0), want, strf("repetition %d", r).c_str());
            CHECK(max_diff(im, k.image) == 0, "the input image is changed to %s", str(im).c_str());
            unchanged(k.par, p);
            unchanged(k.ser, q);
        }
    } else if (mode == 2) {
        for (int v : {1, 2, 3}) {
            if (v > 1 && k.rows() * k.cols() > 60) continue;
            Img got;
            {
                Quiet quiet;
                Verbosity vv(v);
                Built p(k.par), q(k.ser);
                Img im = k.image;
                got = call(k, p, q, im, it, v);
            }
            same(k, got, want, strf("with verbosity %d", v).c_str());
        }
    } else if (mode == 5) {
    } else if (mode == 3) {
        // The same readout for images of other sizes, offsets and express
        Built p(k.par), q(k.ser);
        for (int r = s.range(2, 4); r > 0; r--) {
            CaseSpec x = k;
            int rows = s.small(1, 16), cols = s.small(1, 6);
            x.image = gen_image(s, rows, cols, o.negative);
            for (auto* d : {&x.par, &x.ser}) {
                int n = d == &x.par ? rows : cols;
                d->express = s.flag(1, 2) ? 0 : s.range(0, n + 1);
                if (d->roe.type == TP) {
                    d->win0 = (int)s.draw(n);
                    d->win1 = d->win0 + 1;
                } else {
                    d->offset = s.flag(1, 3) ? s.small(0, 10) : 0;
                    d->win0 = 0;
                    d->win1 = -1;
                }
            }
            int n = s.flag(1, 3) ? s.range(1, 2) : 0;
            c.describe(c.desc + strf(" then %s ", n ? "removal from" : "addition to") + str(x));
            Img im = x.image;
            same(x, call(x, p, q, im, n, 0), fresh(x, n), "objects used before");
        }
        Img im = k.image;
        same(k, call(k, p, q, im, it, 0), want, "objects used in between");
        unchanged(k.par, p);
        unchanged(k.ser, q);
    } else {
        if (!k.has_par) std::swap(k.par, k.ser), k.has_par = true;
        if (k.par.roe.type == TP) throw Discard();
        k.has_ser = true;
        k.par.win0 = 0;
        k.par.win1 = -1;
        k.ser = k.par;
        if (k.par.roe.overscan >= 0 && k.par.roe.type == CI && k.par.roe.prescan + k.par.roe.overscan < 2) throw Discard();
        c.describe(what + str(k));
        want = fresh(k, it);
        c.nontrivial = max_diff(want, k.image) > 1e-6;
        Built p(k.par);
        Img im = k.image;
        same(k, call(k, p, p, im, it, 0), want, "shared objects");
        unchanged(k.par, p);
    }
}
Reg r10({"C10",
         "The same input again, with other numbers of threads, verbosities and earlier calls with the same objects. "
         "Non-trivial: the CTI changed the image (and, for threads, there are columns to share between them).",
         p_det, 25, 400, {"OpenMP's own scheduling decides the interleaving; each number of threads is run three times"}, {}, {}});
}  // namespace
