// Text files, array utilities, and the rejection of invalid input
#include <fcntl.h>
#include <math.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>

#include "model.hpp"

namespace {

// A file of this process, removed at the end of the case
struct TmpFile {
    std::string path;
    TmpFile() {
        const char* dir = getenv("TMPDIR");
        path = strf("%s/arctic_verif_%d_%p.txt", dir ? dir : "/tmp", (int)getpid(), (void*)this);
    }
    ~TmpFile() { unlink(path.c_str()); }
    std::string read() const {
        std::string s;
        FILE* f = fopen(path.c_str(), "r");
        if (!f) return s;
        char b[4096];
        size_t n;
        while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n);
        fclose(f);
        return s;
    }
    void write(const std::string& s) const {
        FILE* f = fopen(path.c_str(), "w");
        fwrite(s.data(), 1, s.size(), f);
        fclose(f);
    }
};

// What f prints on stdout
std::string printed(const std::function<void()>& f) {
    TmpFile t;
    fflush(stdout);
    int saved = dup(1), n = open(t.path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(n, 1);
    close(n);
    f();
    fflush(stdout);
    dup2(saved, 1);
    close(saved);
    return t.read();
}
std::vector<std::vector<double>> parse_printed(const std::string& s) {
    std::vector<std::vector<double>> r;
    std::vector<double> row;
    const char* p = s.c_str();
    while (*p) {
        if (isdigit(*p) || *p == '-' || *p == '.') {
            char* e;
            row.push_back(strtod(p, &e));
            p = e;
        } else {
            if (*p == '\n' && row.size()) {
                r.push_back(row);
                row.clear();
            }
            p++;
        }
    }
    if (row.size()) r.push_back(row);
    return r;
}

double gen_value(Src& s) {
    switch (s.draw(6)) {
        case 0: return s.range(0, 100);
        case 1: return -s.logreal(1e-6, 1e6);
        case 2: return s.logreal(1e-6, 1e12);
        case 3: return 0.0;
        case 4: return s.range(-1000000, 1000000) / 64.0;
        default: return s.real(-1e5, 1e5);
    }
}
Img gen_any(Src& s, int max_r, int max_c) {
    int r = s.small(1, max_r), n = s.small(1, max_c);
    Img im = make_img(r, n);
    for (auto& row : im)
        for (double& v : row) v = gen_value(s);
    return im;
}

void p_text(Src& s, Ctx& c) {
    Img im;
    bool big = s.flag(1, 50);
    if (big) {
        // Long lines, or many
        int few = s.range(1, 4), many = s.small(1, 6000);
        bool wide = s.flag(1, 2);
        Rng r(s.draw(1 << 30));
        im = make_img(wide ? few : many, wide ? many : few);
        for (auto& row : im)
            for (double& v : row) v = (double)(r.next() % 2000001) / 64 - 5000;
        c.describe(strf("save and load an image of %zux%zu", im.size(), im[0].size()));
        c.label("large image");
    } else {
        im = gen_any(s, 40, 40);
        c.describe("save and load " + str(im));
    }
    TmpFile t;
    save_image_to_txt(t.path.c_str(), im);
    Img got = load_image_from_txt(t.path.c_str());
    CHECK(got.size() == im.size() && got[0].size() == im[0].size(), "%zux%zu image loaded", got.size(), got[0].size());
    for (size_t i = 0; i < im.size(); i++)
        for (size_t j = 0; j < im[i].size(); j++)
            CHECK(fabs(got[i][j] - im[i][j]) <= 5.1e-7 + 1e-15 * fabs(im[i][j]), "pixel [%zu][%zu] %.17g is loaded as %.17g", i, j,
                  im[i][j], got[i][j]);
    // What is saved again is the same
    TmpFile u;
    save_image_to_txt(u.path.c_str(), got);
    CHECK(t.read() == u.read(), "saving the loaded image gives another file");
    // The documented format: n_rows n_columns, then one line for each row
    std::string text = t.read();
    size_t lines = std::count(text.begin(), text.end(), '\n');
    CHECK(lines == im.size() + 1, "%zu lines", lines);
    int r = 0, n = 0;
    CHECK(sscanf(text.c_str(), "%d %d", &r, &n) == 2 && r == (int)im.size() && n == (int)im[0].size(), "header %d %d", r, n);
    // The input is not changed, and any layout of the same numbers is the same
    std::string other = strf("%zu\t%zu\n", im.size(), im[0].size());
    for (auto& row : im)
        for (double v : row) {
            size_t k = big ? other.size() / 7 % 8 : s.draw(8);
            other += strf(k % 2 ? "%.17e" : "%.17g", v);
            other += std::vector<std::string>{" ", "\n", "\t", "  \r\n"}[k / 2];
        }
    t.write(other);
    got = load_image_from_txt(t.path.c_str());
    CHECK(got.size() == im.size() && max_diff(got, im) == 0, "another layout of the numbers is loaded as %s", str(got).c_str());
    c.nontrivial = im.size() * im[0].size() > 1;
    c.label("text file");
}

void p_arrays(Src& s, Ctx& c) {
    Img im = gen_any(s, 12, 12);
    c.describe("arrays of " + str(im));
    int R = (int)im.size(), C = (int)im[0].size();
    Img copy = im, t = transpose(im);
    CHECK((int)t.size() == C && (int)t[0].size() == R, "transposed to %zux%zu", t.size(), t[0].size());
    for (int i = 0; i < R; i++)
        for (int j = 0; j < C; j++) CHECK(t[j][i] == im[i][j], "transposed [%d][%d]", j, i);
    CHECK(max_diff(transpose(t), im) == 0 && max_diff(copy, im) == 0, "transposed twice");
    std::vector<double> f = flatten(im);
    CHECK((int)f.size() == R * C, "%zu values", f.size());
    for (int i = 0; i < R; i++)
        for (int j = 0; j < C; j++) CHECK(f[i * C + j] == im[i][j], "flattened [%d][%d]", i, j);
    std::valarray<double> flat(f.data(), f.size());
    // Printing
    auto check = [&](const std::vector<std::vector<double>>& got, int rows, int cols, const char* what) {
        CHECK((int)got.size() == rows, "%s prints %zu rows of %d", what, got.size(), rows);
        for (int i = 0; i < rows; i++) {
            CHECK((int)got[i].size() == cols, "%s prints %zu columns of %d", what, got[i].size(), cols);
            for (int j = 0; j < cols; j++)
                CHECK(fabs(got[i][j] - f[i * cols + j]) <= 1e-5 * fabs(f[i * cols + j]), "%s prints %.17g for %.17g", what,
                      got[i][j], f[i * cols + j]);
        }
    };
    // Brackets close each row, and the whole array only at its end
    auto text = [&](const std::function<void()>& print, int most, const char* what) {
        std::string t = printed(print);
        int depth = 0, deepest = 0;
        bool closed = false;
        for (char ch : t) {
            if (ch == '[') depth++;
            CHECK(isspace(ch) || !closed, "%s goes on after its last bracket: %s", what, t.c_str());
            if (ch == ']') depth--, closed = depth == 0;
            deepest = std::max(deepest, depth);
        }
        CHECK(closed && deepest == most, "%s has %d levels of brackets, of which it leaves %d open: %s", what, deepest, depth,
              t.c_str());
        return parse_printed(t);
    };
    if (s.flag(1, 4)) {
        check(text([&] { print_array(flat); }, 1, "print_array"), 1, R * C, "print_array");
        check(text([&] { print_array_2D(flat, C); }, 2, "print_array_2D of one dimension"), R, C, "print_array_2D of one dimension");
        check(text([&] { print_array_2D(im); }, 2, "print_array_2D"), R, C, "print_array_2D");
        c.label("printed");
    }
    c.nontrivial = R > 1 && C > 1;
    c.label("arrays");
}

void p_numbers(Src& s, Ctx& c) {
    double start = s.range(-64, 64) / 8.0, step = s.range(1, 64) / 16.0;
    double stop = start + s.range(-16, 2000) / 32.0;
    if (s.flag(1, 3)) step = s.real(0.01, 3), stop = start + s.real(-1, 100);
    c.describe(strf("arange(%.17g, %.17g, %.17g)", start, stop, step));
    std::valarray<double> a = step == 1 ? arange(start, stop) : arange(start, stop, step);
    double exact = (stop - start) / step;
    long want = stop > start ? (long)ceil(exact) : 0;
    bool near = fabs(exact - round(exact)) < 1e-9 && (step * 16 != floor(step * 16));
    CHECK((long)a.size() == want || (near && labs((long)a.size() - want) <= 1), "%zu values, want %ld", a.size(), want);
    for (size_t i = 0; i < a.size(); i++) {
        CHECK(fabs(a[i] - (start + i * step)) <= 1e-10 * (fabs(start) + fabs(stop) + 1), "value %zu is %.17g", i, a[i]);
        CHECK(a[i] < stop, "value %zu is %.17g", i, a[i]);
    }
    double v = gen_value(s), lo = gen_value(s), hi = lo + fabs(gen_value(s));
    c.describe(c.desc + strf(" clamp(%.17g, %.17g, %.17g)", v, lo, hi));
    double k = clamp(v, lo, hi);
    CHECK(k == (v < lo ? lo : v > hi ? hi : v), "clamped to %.17g", k);
    struct timeval t0, t1;
    t0.tv_sec = s.range(0, 2000000000);
    t0.tv_usec = s.range(0, 999999);
    long long us = s.flag(1, 2) ? s.range(0, 3000000) : (long long)s.draw(100000000000ull);
    long long end = t0.tv_sec * 1000000ll + t0.tv_usec + us;
    t1.tv_sec = end / 1000000;
    t1.tv_usec = end % 1000000;
    c.describe(c.desc + strf(" time from %ld.%06ld to %ld.%06ld", (long)t0.tv_sec, (long)t0.tv_usec, (long)t1.tv_sec, (long)t1.tv_usec));
    double e = gettimelapsed(t0, t1);
    // (the clock's unit is the microsecond)
    CHECK(fabs(e - us * 1e-6) <= 4.9e-7 + 1e-12 * us, "%.17g s elapsed, want %.17g", e, us * 1e-6);
    c.nontrivial = a.size() > 1;
    c.label("numbers");
}
Reg r20({"C20",
         "Images saved and loaded as text, and the array and time utilities, against direct definitions. Non-trivial: more than "
         "one pixel (text), row and column (arrays), or value (numbers).",
         [](Src& s, Ctx& c) {
             switch (s.draw(3)) {
                 case 0: p_numbers(s, c); break;
                 case 1: p_arrays(s, c); break;
                 default: p_text(s, c); break;
             }
         },
         15, 150, {"pixel values between 1e-6 and 1e12 in size; the file keeps six decimal places"}, {}, {}});

// ---- C21: rejection of invalid input
struct Outcome {
    int status;      // exit status, or -signal
    std::string err;  // what it printed on stderr
};
Outcome in_child(const std::function<bool()>& f) {
    TmpFile t;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        int n = open(t.path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(n, 2);
        int z = open("/dev/null", O_WRONLY);
        dup2(z, 1);
        alarm(30);
        try {
            bool ok = f();
            fflush(nullptr);
            _exit(ok ? 0 : 77);
        } catch (const std::exception& e) {
            fprintf(stderr, "exception: %s\n", e.what());
            fflush(nullptr);
            _exit(1);
        }
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o;
    o.status = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    o.err = t.read();
    return o;
}

void p_invalid(Src& s, Ctx& c) {
    int kind = (int)s.draw(5);
    bool valid = s.flag(1, 3);
    std::string what;
    std::function<bool()> f;
    TmpFile file;
    if (kind == 0) {
        int np = s.range(1, 5), nf = valid ? np : s.range(0, 6);
        if (!valid && nf == np) nf = np + 1;
        what = strf("CCD of %d phases with %d fractions of traps", np, nf);
        f = [=] {
            std::valarray<CCDPhase> p(CCDPhase(1e4, 0, 1), np);
            std::valarray<double> fr(1.0 / (nf ? nf : 1), nf);
            CCD ccd(p, fr);
            return (int)ccd.n_phases == np;
        };
    } else if (kind == 1 || kind == 2) {
        // Phases of the ROE and CCD, or rows for trap pumping
        GenOpt o;
        o.types = {IC, SC};
        o.roes = kind == 2 ? std::vector<int>{TP} : std::vector<int>{STD, CI, TP};
        o.max_phases = 4;
        o.negative = false;
        o.serial = true;
        o.max_rows = 12;
        o.max_cols = 6;
        o.prune = false;
        CaseSpec k = gen_case(s, o);
        bool rem = s.flag(1, 3);
        DirSpec& d = k.has_ser && (!k.has_par || s.flag(1, 2)) ? k.ser : k.par;
        if (kind == 1 && !valid) {
            int n = d.roe.n_phases(), m = s.range(1, 6);
            if (m == n) m = n + 1;
            d.phases.assign(m, d.phases[0]);
            d.frac.assign(m, 1.0 / m);
            what = strf("ROE of %d phases and CCD of %d: ", n, m);
        }
        if (kind == 2 && !valid) {
            int n = &d == &k.ser ? k.cols() : k.rows();
            if (n == 1) {
                Img im = make_img(k.rows() + 1, k.cols() + 1, 10);
                k.image = im;
                n++;
            }
            // Any number of rows but one
            d.win0 = (int)s.draw(n - 1);
            d.win1 = s.range(d.win0 + 2, n);
            if (s.flag(1, 2)) d.win0 = 0, d.win1 = -1;
            what = "pumping of more than one row: ";
        }
        what += str(k);
        if (valid) {
            Img want = ref_add(k);
            f = [=] {
                Img got = rem ? run_remove(k, 1) : run_add(k);
                return all_finite(got) && got.size() == want.size();
            };
        } else
            f = [=] {
                rem ? run_remove(k, 1) : run_add(k);
                return true;
            };
    } else if (kind == 3) {
        int n = valid ? 2 * s.range(1, 4) : 2 * s.range(0, 4) + 1;
        int rows = s.range(1, 5), how = (int)s.draw(2);
        what = strf("trap pumping with %d steps", n);
        f = [=] {
            std::valarray<double> dwell(1.0 / n, n);
            ROETrapPumping roe(dwell, 2);
            if (how == 0) {
                roe.set_clock_sequence();
                return (int)roe.clock_sequence.size() == n;
            }
            std::valarray<CCDPhase> p(CCDPhase(1e4, 0, 1), std::max(1, n / 2));
            std::valarray<double> fr(1.0 / std::max(1, n / 2), std::max(1, n / 2));
            CCD ccd(p, fr);
            std::valarray<TrapInstantCapture> t{TrapInstantCapture(10, 1)};
            Img im = make_img(rows, 1, 100);
            Img out = add_cti(im, &roe, &ccd, &t, nullptr, nullptr, nullptr, 0, 0, 0, 1);
            return all_finite(out);
        };
    } else {
        Img im = gen_any(s, 5, 5);
        std::string text = strf("%zu %zu\n", im.size(), im[0].size());
        int n = (int)(im.size() * im[0].size()), i = 0;
        int drop = (int)s.draw(n), how = valid ? -1 : (int)s.draw(6);
        static const char* names[] = {"too few values", "a value that is not a number", "no header",
                                      "an empty file",  "no such file",                 "saving to no such directory"};
        for (auto& row : im)
            for (double v : row) {
                if (how == 0 && i == drop) goto done;
                text += how == 1 && i == drop ? "x1 " : strf("%.17g ", v);
                i++;
            }
    done:
        if (how == 2) text = s.pick<std::string>({"rows 2", "3", "3 x 4 5 6"});
        if (how == 3) text = s.pick<std::string>({"", "\n", "  "});
        std::string path = file.path;
        if (how == 4) path += ".missing";
        if (how == 5) path += ".missing/image.txt";
        if (how < 4) file.write(text);
        what = strf("file: %s: %s", how < 0 ? "valid" : names[how], text.c_str());
        f = [=] {
            if (how == 5) {
                save_image_to_txt(path.c_str(), im);
                return true;
            }
            Img got = load_image_from_txt(path.c_str());
            return how < 0 ? max_diff(got, im) == 0 : true;
        };
    }
    c.describe(std::string(valid ? "valid " : "invalid ") + what);
    Outcome o = in_child(f);
    if (valid) {
        CHECK(o.status == 0, "valid input ends with status %d: %s", o.status, o.err.c_str());
    } else {
        CHECK(o.status == 1, "invalid input ends with status %d, not with an error: %s", o.status, o.err.c_str());
        CHECK(o.err.size() > 0, "invalid input is rejected without an error message");
    }
    static const char* names[] = {"fractions of traps", "numbers of phases", "rows for trap pumping", "steps for trap pumping", "files"};
    c.label(std::string(names[kind]) + (valid ? ", valid" : ", invalid"));
    c.nontrivial = !valid;
}
Reg r21({"C21",
         "Invalid configurations and files, each run in a process of its own, that have to end in an error, and valid ones that "
         "must not. Non-trivial: the input is invalid.",
         p_invalid, 15, 150, {}, {}, {}});
}  // namespace
