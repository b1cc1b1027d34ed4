#include "engine.hpp"

#include <errno.h>
#include <fcntl.h>
#include <math.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#ifdef _OPENMP
#include <omp.h>
#endif

#include <algorithm>
#include <fstream>
#include <map>
#include <set>

std::vector<Prop>& registry() {
    static std::vector<Prop> r;
    return r;
}

double Src::logreal(double lo, double hi) { return lo * pow(hi / lo, unit()); }

std::string vstrf(const char* fmt, va_list ap) {
    char buf[4096];
    vsnprintf(buf, sizeof buf, fmt, ap);
    return buf;
}
std::string strf(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    std::string s = vstrf(fmt, ap);
    va_end(ap);
    return s;
}
void failf(const char* fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    std::string s = vstrf(fmt, ap);
    va_end(ap);
    throw Fail(s);
}

static double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + 1e-9 * t.tv_nsec;
}

static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c == '\n')
            o += "\\n";
        else if (c < 32 || c > 126)
            o += strf("\\u%04x", c);
        else
            o += c;
    }
    return o + "\"";
}

#ifdef ENGINE_LIBFUZZER
// libFuzzer entry: the property is chosen by the environment
static const Prop* fuzz_prop() {
    static const Prop* p = nullptr;
    if (!p) {
        const char* id = getenv("FUZZ_PROP");
        for (auto& q : registry())
            if (id && q.id == id) p = &q;
        if (!p) {
            fprintf(stderr, "FUZZ_PROP not set\n");
            _exit(2);
        }
    }
    return p;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
    const Prop* p = fuzz_prop();
    Src s(data, size);
    Ctx c;
    try {
        p->run(s, c);
    } catch (const Discard&) {
        return -1;
    } catch (const Fail& f) {
        fprintf(stderr, "PROPERTY FAILED: %s\ncase: %s\n", f.what(), c.desc.c_str());
        if (const char* path = getenv("FUZZ_CHOICES")) {
            FILE* o = fopen(path, "w");
            if (o) {
                for (auto v : s.out) fprintf(o, "%llu ", (unsigned long long)v);
                fclose(o);
            }
        }
        abort();
    }
    return 0;
}
#else

static const int MAXCH = 1 << 16;
struct Shm {
    volatile uint64_t index;      // case being run
    volatile uint64_t started;    // cases started
    volatile uint64_t n;          // cases decided
    volatile uint64_t nontrivial;
    volatile uint64_t discarded;
    volatile int done;
    volatile int failed;          // 1: Fail thrown
    volatile uint64_t n_choices;
    uint64_t choices[MAXCH];
    char msg[8192];
    char desc[65536];
};

static Shm* new_shm() {
    void* p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(2);
    }
    memset(p, 0, sizeof(Shm));
    return (Shm*)p;
}

static void record(Src& s, Shm* sh) {
    sh->n_choices = 0;
    s.recorder = [sh](uint64_t v) {
        uint64_t k = sh->n_choices;
        if (k < (uint64_t)MAXCH) {
            sh->choices[k] = v;
            sh->n_choices = k + 1;
        }
    };
}

static void copy_str(char* dst, size_t n, const std::string& s) {
    size_t k = std::min(n - 1, s.size());
    memcpy(dst, s.data(), k);
    dst[k] = 0;
}

static std::string read_tail(const std::string& path, size_t n) {
    std::ifstream f(path);
    std::stringstream ss;
    ss << f.rdbuf();
    std::string s = ss.str();
    return s.size() > n ? s.substr(0, n) : s;
}

static std::string tmpdir;

struct Outcome {
    bool bad = false;
    bool hang = false;
    bool discarded = false;
    std::string msg, desc;
    std::vector<uint64_t> choices;
};

// A case that does not end: CPU time (a loaded machine proves nothing), or
// nearly ever so long without using any
static const double CASE_TIMEOUT = 40.0;
static double cpu_of(pid_t pid) {
    std::ifstream f(strf("/proc/%d/stat", (int)pid));
    std::string line;
    std::getline(f, line);
    size_t at = line.rfind(')');
    if (at == std::string::npos) return 0;
    std::istringstream in(line.substr(at + 1));
    std::string skip;
    for (int i = 0; i < 11; i++) in >> skip;
    double u = 0, t = 0;
    in >> u >> t;
    return (u + t) / sysconf(_SC_CLK_TCK);
}
static bool too_long(double wall, double cpu, double timeout) {
    return cpu > timeout || (wall > 4 * timeout && cpu < 0.1 * wall);
}

// Run one body in a forked child
static Outcome run_forked(const std::function<void(Shm*)>& body, double timeout) {
    static Shm* sh = new_shm();
    sh->done = sh->failed = 0;
    sh->n_choices = 0;
    sh->msg[0] = sh->desc[0] = 0;
    std::string err = tmpdir + "/child.err";
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 2);
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        body(sh);
        sh->done = 1;
        _exit(0);
    }
    double t0 = now();
    int st = 0;
    Outcome o;
    while (true) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() - t0 > 0.9 * timeout / 4 && too_long(now() - t0, cpu_of(pid), timeout)) {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            o.bad = o.hang = true;
            o.msg = strf("no result within %.0f s of CPU time", timeout);
            o.desc = sh->desc;
            o.choices.assign(sh->choices, sh->choices + sh->n_choices);
            return o;
        }
        usleep(now() - t0 < 0.05 ? 200 : 2000);
    }
    o.desc = sh->desc;
    o.choices.assign(sh->choices, sh->choices + sh->n_choices);
    if (sh->done && !sh->failed) {
        o.discarded = sh->failed == 0 && sh->msg[0] == 'D' && sh->msg[1] == 0;
        return o;
    }
    o.bad = true;
    if (sh->failed)
        o.msg = sh->msg;
    else {
        o.msg = WIFSIGNALED(st) ? strf("process killed by signal %d", WTERMSIG(st))
                                : strf("process exited with status %d", WEXITSTATUS(st));
        o.msg += ": " + read_tail(err, 1500);
    }
    return o;
}

static void run_case(const Prop& p, const std::string& tier, Src& s, Shm* sh, Ctx& c) {
    c.tier = tier;
    sh->desc[0] = 0;
    c.on_desc = [sh](const std::string& d) { copy_str(sh->desc, sizeof sh->desc, d); };
#ifdef _OPENMP
    omp_set_num_threads(1);
#endif
    try {
        p.run(s, c);
    } catch (const Discard&) {
        copy_str(sh->msg, sizeof sh->msg, "D");
    } catch (const Fail& f) {
        copy_str(sh->msg, sizeof sh->msg, f.what());
        sh->failed = 1;
    } catch (const std::exception& e) {
        copy_str(sh->msg, sizeof sh->msg, std::string("unexpected exception: ") + e.what());
        sh->failed = 1;
    }
    copy_str(sh->desc, sizeof sh->desc, c.desc);
}

static Outcome try_choices(const Prop& p, const std::string& tier,
                           const std::vector<uint64_t>& ch, double timeout = CASE_TIMEOUT) {
    return run_forked(
        [&](Shm* sh) {
            Src s(ch);
            record(s, sh);
            Ctx c;
            run_case(p, tier, s, sh, c);
        },
        timeout);
}

static Outcome run_fixed(const Prop& p, const std::string& name, const std::string& tier) {
    for (auto* list : {&p.fixed, &p.known})
        for (auto& fx : *list)
            if (fx.first == name)
                return run_forked(
                    [&](Shm* sh) {
                        Ctx c;
                        Prop q;
                        q.run = [&](Src&, Ctx& cc) { fx.second(cc); };
                        Src s(std::vector<uint64_t>{});
                        run_case(q, tier, s, sh, c);
                    },
                    CASE_TIMEOUT);
    return Outcome();
}

// "finding: property=<id> key=<key> <text>" lines
static std::string known_finding(const std::string& file, const std::string& id, const std::string& key) {
    std::ifstream f(file);
    std::string line, want = "finding: property=" + id + " key=" + key + " ";
    while (std::getline(f, line))
        if (line.rfind(want, 0) == 0) return line.substr(want.size());
    return "";
}

static Outcome shrink(const Prop& p, const std::string& tier, Outcome best, double budget) {
    double t0 = now();
    auto left = [&] { return now() - t0 < budget; };
    auto attempt = [&](const std::vector<uint64_t>& ch) {
        if (!left()) return false;
        Outcome o = try_choices(p, tier, ch, best.hang ? CASE_TIMEOUT : 10.0);
        if (!o.bad || o.hang != best.hang) return false;
        // Accept only if not more complex
        std::vector<uint64_t> a = o.choices.size() ? o.choices : ch;
        while (!a.empty() && a.back() == 0) a.pop_back();
        std::vector<uint64_t> b = best.choices;
        while (!b.empty() && b.back() == 0) b.pop_back();
        if (a.size() > b.size() || (a.size() == b.size() && !(a < b))) return false;
        o.choices = a;
        best = o;
        return true;
    };
    bool progress = true;
    while (progress && left()) {
        progress = false;
        // delete chunks
        for (size_t len : {64, 32, 16, 8, 4, 2, 1}) {
            for (size_t i = 0; i + len <= best.choices.size() && left();) {
                std::vector<uint64_t> c = best.choices;
                c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c))
                    progress = true;
                else
                    i += len;
            }
        }
        // zero chunks
        for (size_t len : {32, 8, 2, 1}) {
            for (size_t i = 0; i < best.choices.size() && left(); i += len) {
                std::vector<uint64_t> c = best.choices;
                bool any = false;
                for (size_t k = i; k < std::min(i + len, c.size()); k++) {
                    any |= c[k] != 0;
                    c[k] = 0;
                }
                if (any && attempt(c)) progress = true;
            }
        }
        // lower single values
        for (size_t i = 0; i < best.choices.size() && left(); i++) {
            uint64_t lo = 0, hi = best.choices[i];
            while (lo + 1 < hi && left()) {
                uint64_t mid = lo + (hi - lo) / 2;
                std::vector<uint64_t> c = best.choices;
                if (i >= c.size()) break;
                c[i] = mid;
                if (attempt(c)) {
                    progress = true;
                    hi = mid;
                } else
                    lo = mid;
            }
        }
    }
    return best;
}

static std::string choices_str(const std::vector<uint64_t>& ch) {
    std::string s;
    for (auto v : ch) s += strf("%llu ", (unsigned long long)v);
    return s;
}

static uint64_t case_seed(const Prop& p, uint64_t seed, uint64_t i) {
    uint64_t idseed = 1469598103934665603ull;
    for (char ch : p.id) idseed = (idseed ^ (unsigned char)ch) * 1099511628211ull;
    Rng r(seed * 0x9E3779B97F4A7C15ull + idseed);
    uint64_t a = r.next();
    Rng q(a ^ (i * 0xD1342543DE82EF95ull + 0x63D83595ull));
    return q.next();
}

int main(int argc, char** argv) {
    // Read by OpenMP when it is loaded: many more threads than cores are run
    if (!getenv("OMP_WAIT_POLICY")) {
        setenv("OMP_WAIT_POLICY", "passive", 1);
        execv("/proc/self/exe", argv);
    }
    std::string id, tier = "quick", replay, evidence, replay_dir = ".", known_file, bytes;
    double budget = -1;
    long max_cases = -1;
    uint64_t seed = 1;
    int workers = 8;
    bool list = false, verbose = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") id = val();
        else if (a == "--tier") tier = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--replay") replay = val();
        else if (a == "--evidence") evidence = val();
        else if (a == "--replay-dir") replay_dir = val();
        else if (a == "--known") known_file = val();
        else if (a == "--bytes") bytes = val();  // an input found by libFuzzer
        else if (a == "--budget") budget = atof(val().c_str());
        else if (a == "--cases") max_cases = atol(val().c_str());
        else if (a == "--workers") workers = atoi(val().c_str());
        else if (a == "--list") list = true;
        else if (a == "-v") verbose = true;
        else {
            fprintf(stderr, "unknown argument %s\n", a.c_str());
            return 2;
        }
    }
    if (list) {
        for (auto& p : registry()) printf("%s\n", p.id.c_str());
        return 0;
    }
    const Prop* prop = nullptr;
    for (auto& p : registry())
        if (p.id == id) prop = &p;
    if (!prop) {
        fprintf(stderr, "no property %s\n", id.c_str());
        return 2;
    }
    char tmpl[] = "/tmp/arctic-pbt.XXXXXX";
    tmpdir = mkdtemp(tmpl);
    auto cleanup = [&] {
        std::string cmd = "rm -rf '" + tmpdir + "'";
        if (system(cmd.c_str())) {
        }
    };

    if (!replay.empty()) {
        std::ifstream f(replay);
        std::string line, kind;
        std::vector<uint64_t> ch;
        std::string fixed;
        uint64_t h_seed = 0, h_index = 0, h_workers = 0;
        while (std::getline(f, line)) {
            if (line.rfind("choices:", 0) == 0) {
                std::stringstream ss(line.substr(8));
                uint64_t v;
                while (ss >> v) ch.push_back(v);
            }
            if (line.rfind("fixed:", 0) == 0) fixed = line.substr(6);
            if (line.rfind("tier:", 0) == 0) tier = line.substr(5);
            if (line.rfind("history:", 0) == 0) {
                std::stringstream ss(line.substr(8));
                ss >> h_seed >> h_index >> h_workers;
            }
        }
        Outcome o;
        if (!fixed.empty()) {
            o = run_fixed(*prop, fixed, tier);
        } else
            o = try_choices(*prop, tier, ch);
        // A failure that needs the cases before it in the same process
        if (!o.bad && fixed.empty() && h_workers > 0)
            o = run_forked(
                [&](Shm* sh) {
                    for (uint64_t i = h_index % h_workers; i <= h_index && !sh->failed; i += h_workers) {
                        Src s(case_seed(*prop, h_seed, i));
                        record(s, sh);
                        Ctx c;
                        sh->msg[0] = 0;
                        run_case(*prop, tier, s, sh, c);
                    }
                },
                900);
        cleanup();
        printf("case: %s\n", o.desc.c_str());
        if (o.bad) {
            printf("FAILS: %s\n", o.msg.c_str());
            printf("VIOLATION property=%s replay=%s\n", id.c_str(), replay.c_str());
            return 1;
        }
        printf("holds\n");
        return 0;
    }

    double t_start = now();
    if (budget < 0) budget = tier == "thorough" ? prop->thorough_s : prop->quick_s;

    Outcome first;
    std::string first_fixed;
    bool found = false;
    uint64_t first_index = 0;
    bool generated = false;
    bool by_oracle = false;  // reported by the oracle, not by a crash or a timeout

    // Fixed inputs
    for (auto& fx : prop->fixed) {
        Outcome o = run_fixed(*prop, fx.first, tier);
        if (o.bad) {
            first = o;
            first_fixed = fx.first;
            found = true;
            break;
        }
    }

    if (!bytes.empty()) {
        std::ifstream f(bytes, std::ios::binary);
        std::stringstream ss;
        ss << f.rdbuf();
        std::string data = ss.str();
        first = run_forked(
            [&](Shm* sh) {
                Src s((const uint8_t*)data.data(), data.size());
                record(s, sh);
                Ctx c;
                run_case(*prop, tier, s, sh, c);
            },
            CASE_TIMEOUT);
        found = first.bad;
        if (!found) printf("NOTE: %s: holds\n", bytes.c_str());
    }

    // Known findings
    for (size_t k = 0; k < prop->known.size() && !found; k++) {
        auto& fx = prop->known[k];
        Outcome o = run_fixed(*prop, fx.first, tier);
        if (!o.bad) continue;
        std::string text = known_finding(known_file, id, fx.first);
        if (text.empty()) {
            first = o;
            first_fixed = fx.first;
            found = true;
        } else
            printf("KNOWN-FINDING: property=%s %s\n", id.c_str(), text.c_str());
    }

    std::vector<Shm*> shs;
    std::vector<pid_t> pids;
    double t_gen = now();
    double gen_wall = 0;
    if (!found) {
        for (int w = 0; w < workers; w++) shs.push_back(new_shm());
        for (int w = 0; w < workers; w++) {
            fflush(stdout);
            pid_t pid = fork();
            if (pid == 0) {
                std::string err = tmpdir + strf("/w%d.err", w);
                int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
                dup2(fd, 2);
                int nul = open("/dev/null", O_WRONLY);
                dup2(nul, 1);
                Shm* sh = shs[w];
                std::set<uint64_t> hashes;
                std::map<std::string, uint64_t> labels;
                std::map<std::string, double> metrics;
                std::string samples;
                int n_samples = 0;
                for (uint64_t i = w; now() - t_gen < budget; i += workers) {
                    if (max_cases >= 0 && (long)i >= max_cases) break;
                    sh->index = i;
                    sh->started = sh->started + 1;
                    Src s(case_seed(*prop, seed, i));
                    record(s, sh);
                    Ctx c;
                    sh->msg[0] = 0;
                    run_case(*prop, tier, s, sh, c);
                    if (sh->failed) break;
                    if (sh->msg[0] == 'D') {
                        sh->discarded = sh->discarded + 1;
                        continue;
                    }
                    sh->n = sh->n + 1;
                    for (auto& l : c.labels) labels[l]++;
                    for (auto& m : c.metrics) {
                        auto it = metrics.find(m.first);
                        if (it == metrics.end())
                            metrics[m.first] = m.second;
                        else if (m.second > it->second)
                            it->second = m.second;
                    }
                    if (c.nontrivial) {
                        uint64_t h = 1469598103934665603ull;
                        for (auto v : s.out) h = (h ^ v) * 1099511628211ull;
                        if (hashes.size() < 4000000) hashes.insert(h);
                        if (n_samples < 1) {
                            samples += c.desc + "\n";
                            n_samples++;
                        }
                    }
                }
                std::ofstream f(tmpdir + strf("/w%d.out", w));
                f << "H " << hashes.size() << "\n";
                for (auto h : hashes) f << h << "\n";
                f << "L " << labels.size() << "\n";
                for (auto& l : labels) f << l.second << " " << l.first << "\n";
                f << "M " << metrics.size() << "\n";
                f.precision(6);
                for (auto& m : metrics) f << m.second << " " << m.first << "\n";
                f << "S\n" << samples;
                f.close();
                sh->done = 1;
                _exit(0);
            }
            pids.push_back(pid);
        }
        // Monitor: stop all on the first failure, crash or hang
        std::vector<bool> alive(workers, true);
        std::vector<uint64_t> last(workers, (uint64_t)-1);
        std::vector<double> last_t(workers, now()), last_cpu(workers, 0.0);
        int n_alive = workers;
        int bad_w = -1;
        bool hang = false;
        int bad_st = 0;
        while (n_alive > 0 && bad_w < 0) {
            for (int w = 0; w < workers; w++) {
                if (!alive[w]) continue;
                int st;
                pid_t r = waitpid(pids[w], &st, WNOHANG);
                if (r == pids[w]) {
                    alive[w] = false;
                    n_alive--;
                    if (!shs[w]->done || shs[w]->failed) {
                        bad_w = w;
                        bad_st = st;
                    }
                } else if (shs[w]->started != last[w]) {
                    last[w] = shs[w]->started;
                    last_t[w] = now();
                    last_cpu[w] = cpu_of(pids[w]);
                } else if (now() - last_t[w] > CASE_TIMEOUT / 4 &&
                           too_long(now() - last_t[w], cpu_of(pids[w]) - last_cpu[w], CASE_TIMEOUT)) {
                    bad_w = w;
                    hang = true;
                }
            }
            usleep(10000);
        }
        gen_wall = now() - t_gen;
        if (bad_w >= 0) {
            for (int w = 0; w < workers; w++)
                if (alive[w]) {
                    kill(pids[w], SIGKILL);
                    waitpid(pids[w], nullptr, 0);
                }
            Shm* sh = shs[bad_w];
            first.bad = true;
            first.choices.assign(sh->choices, sh->choices + sh->n_choices);
            first.desc = sh->desc;
            first_index = sh->index;
            generated = true;
            by_oracle = sh->failed;
            if (sh->failed)
                first.msg = sh->msg;
            else if (hang)
                first.msg = strf("no result within %.0f s of CPU time", CASE_TIMEOUT), first.hang = true;
            else
                first.msg = (WIFSIGNALED(bad_st) ? strf("process killed by signal %d", WTERMSIG(bad_st))
                                                 : strf("process exited with status %d", WEXITSTATUS(bad_st))) +
                            ": " + read_tail(tmpdir + strf("/w%d.err", bad_w), 1500);
            // A sanitizer's report may depend on what was in memory before
            if (first.msg.find("runtime error: ") != std::string::npos ||
                (first.msg.find("ERROR: AddressSanitizer: ") != std::string::npos &&
                 first.msg.find("out of memory") == std::string::npos && first.msg.find("out-of-memory") == std::string::npos))
                by_oracle = true;
            found = true;
        }
    }

    // Merge worker output
    std::set<uint64_t> hashes;
    std::map<std::string, uint64_t> labels;
    std::map<std::string, double> metrics;
    std::vector<std::string> samples;
    uint64_t n = 0, discarded = 0;
    for (size_t w = 0; w < shs.size(); w++) {
        n += shs[w]->n;
        discarded += shs[w]->discarded;
        std::ifstream f(tmpdir + strf("/w%zu.out", w));
        std::string tag, line;
        size_t k;
        if (!(f >> tag >> k)) continue;
        for (size_t i = 0; i < k; i++) {
            uint64_t h;
            f >> h;
            hashes.insert(h);
        }
        f >> tag >> k;
        for (size_t i = 0; i < k; i++) {
            uint64_t c;
            f >> c;
            f.get();
            std::getline(f, line);
            labels[line] += c;
        }
        f >> tag >> k;
        for (size_t i = 0; i < k; i++) {
            double c;
            f >> c;
            f.get();
            std::getline(f, line);
            if (!metrics.count(line) || metrics[line] < c) metrics[line] = c;
        }
        f >> tag;
        f.get();
        while (std::getline(f, line))
            if (samples.size() < 6 && !line.empty()) samples.push_back(line.substr(0, 1500));
    }

    int rc = 0;
    int reproduced = 0;
    std::string violation_path;
    if (found) {
        // A report has to reproduce: three runs of the same case
        Outcome again;
        for (int k = 0; k < 3; k++) {
            if (!first_fixed.empty()) {
                again = run_fixed(*prop, first_fixed, tier);
            } else
                again = try_choices(*prop, tier, first.choices);
            if (again.bad) {
                reproduced++;
                if (first.choices.empty() || again.choices.size()) {
                    first.hang = again.hang;
                    first.msg = again.msg;
                    first.desc = again.desc;
                }
            }
        }
        // A schedule-dependent failure need not repeat every time: one that the
        // oracle saw is reported even so. A crash or timeout that never repeats
        // may come from the sandbox (memory, load) and is not.
        if (reproduced == 0 && !by_oracle && first_fixed.empty()) {
            printf("NOTE: not reproducible, not reported: %s\n", first.msg.substr(0, 500).c_str());
            found = false;
        }
    }
    if (found) {
        Outcome best = first;
        if (first_fixed.empty() && reproduced == 3) best = shrink(*prop, tier, first, tier == "thorough" ? 90 : 30);
        mkdir(replay_dir.c_str(), 0755);
        violation_path = replay_dir + "/" + id + strf("-seed%llu.txt", (unsigned long long)seed);
        std::ofstream f(violation_path);
        f << "property:" << id << "\n";
        f << "tier:" << tier << "\n";
        if (!first_fixed.empty())
            f << "fixed:" << first_fixed << "\n";
        else
            f << "choices:" << choices_str(best.choices) << "\n";
        // (seed, case and number of workers, whose earlier cases may matter)
        if (reproduced == 0 && generated)
            f << "history:" << seed << " " << first_index << " " << workers << "\n";
        f << "reproduced:" << reproduced << "/3\n";
        f << "message:" << best.msg << "\n";
        f << "case:" << best.desc << "\n";
        f << "first message:" << first.msg << "\n";
        f << "first case:" << first.desc << "\n";
        f.close();
        printf("case: %s\n", best.desc.substr(0, 3000).c_str());
        printf("fails: %s\n", best.msg.c_str());
        printf("reproduced %d/3 before shrinking\n", reproduced);
        printf("VIOLATION property=%s replay=%s\n", id.c_str(), violation_path.c_str());
        rc = 1;
    }

    printf("%s %s seed=%llu: %llu cases, %zu distinct non-trivial, %llu discarded, %.1f s\n", id.c_str(), tier.c_str(),
           (unsigned long long)seed, (unsigned long long)n, hashes.size(), (unsigned long long)discarded, gen_wall);
    if (verbose || getenv("PBT_VERBOSE")) {
        for (auto& l : labels) printf("  label %-40s %llu\n", l.first.c_str(), (unsigned long long)l.second);
        for (auto& m : metrics) printf("  max %-40s %g\n", m.first.c_str(), m.second);
    }
    if (!evidence.empty()) {
        std::ofstream f(evidence);
        f << "{\n \"property\": " << jstr(id) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed
          << ",\n \"level\": \"exploration\",\n";
        f << " \"coverage\": {\n  \"evaluations\": " << n + prop->fixed.size()
          << ",\n  \"distinct_nontrivial\": " << hashes.size() << ",\n  \"discarded\": " << discarded
          << ",\n  \"fixed_cases\": " << prop->fixed.size() << ",\n  \"rule\": " << jstr(prop->rule) << ",\n  \"labels\": {";
        bool firstl = true;
        for (auto& l : labels) {
            f << (firstl ? "" : ", ") << jstr(l.first) << ": " << l.second;
            firstl = false;
        }
        f << "},\n  \"max_deviation_over_tolerance\": {";
        firstl = true;
        for (auto& m : metrics) {
            f << (firstl ? "" : ", ") << jstr(m.first) << ": " << (std::isfinite(m.second) ? m.second : 1e300);
            firstl = false;
        }
        f << "},\n  \"samples\": [";
        for (size_t i = 0; i < samples.size(); i++) f << (i ? ",\n   " : "\n   ") << jstr(samples[i]);
        f << "]\n },\n \"assumptions\": [";
        for (size_t i = 0; i < prop->assumptions.size(); i++) f << (i ? ", " : "") << jstr(prop->assumptions[i]);
        f << "],\n \"wall_s\": " << now() - t_start << ",\n \"violations\": " << (rc ? 1 : 0) << "\n}\n";
    }
    cleanup();
    return rc;
}
#endif
