// Property-based testing engine: choice-sequence generation, forked workers,
// integrated shrinking, replay files and evidence.
#pragma once
#include <cstdint>
#include <cstdio>
#include <functional>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
};

// A source of choices. Every generated value is made of draws from [0, n); 0 is
// always the simplest alternative, so that shrinking the sequence of draws
// shrinks the case.
class Src {
   public:
    std::vector<uint64_t> out;

    explicit Src(uint64_t seed) : rng_(seed), mode_(0) {}
    explicit Src(const std::vector<uint64_t>& in) : in_(in), mode_(1) {}
    Src(const uint8_t* data, size_t size) : data_(data), size_(size), mode_(2) {}

    uint64_t draw(uint64_t n) {
        if (n <= 1) return 0;
        uint64_t v = 0;
        if (mode_ == 0) {
            v = rng_.next() % n;
        } else if (mode_ == 1) {
            v = pos_ < in_.size() ? in_[pos_] : 0;
            if (v >= n) v = n - 1;
            pos_++;
        } else {
            int nb = n <= 256 ? 1 : n <= 65536 ? 2 : 4;
            for (int i = 0; i < nb; i++) {
                v = (v << 8) | (pos_ < size_ ? data_[pos_] : 0);
                pos_++;
            }
            v %= n;
        }
        out.push_back(v);
        if (recorder) recorder(v);
        return v;
    }
    int range(int lo, int hi) { return lo + (int)draw((uint64_t)(hi - lo) + 1); }
    // Biased towards lo
    int small(int lo, int hi) {
        if (draw(2) == 0) return range(lo, hi < lo + 3 ? hi : lo + 3);
        return range(lo, hi);
    }
    // True with probability num/den
    bool flag(int num, int den) { return (int)draw(den) >= den - num; }
    double unit() { return (double)draw(1u << 24) / (double)(1u << 24); }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    double logreal(double lo, double hi);
    template <class T>
    T pick(const std::vector<T>& v) {
        return v[draw(v.size())];
    }
    std::function<void(uint64_t)> recorder;

   private:
    Rng rng_{1};
    std::vector<uint64_t> in_;
    const uint8_t* data_ = nullptr;
    size_t size_ = 0;
    size_t pos_ = 0;
    int mode_;
};

struct Fail : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct Discard {};

struct Ctx {
    std::string tier = "quick";
    bool nontrivial = false;
    std::string desc;
    std::vector<std::string> labels;
    std::vector<std::pair<std::string, double>> metrics;
    std::function<void(const std::string&)> on_desc;
    void describe(const std::string& s) {
        desc = s;
        if (on_desc) on_desc(s);
    }
    void label(const std::string& s) { labels.push_back(s); }
    // A measured deviation / tolerance ratio, kept as a maximum in the evidence
    void metric(const std::string& s, double v) { metrics.emplace_back(s, v); }
};

[[noreturn]] void failf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
std::string strf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

#define CHECK(cond, ...)            \
    do {                            \
        if (!(cond)) failf(__VA_ARGS__); \
    } while (0)

struct Prop {
    std::string id;
    std::string rule;   // when a case counts as non-trivial
    std::function<void(Src&, Ctx&)> run;
    double quick_s;     // generation budget in seconds
    double thorough_s;
    std::vector<std::string> assumptions;
    // Fixed inputs (regressions) run before the generated ones
    std::vector<std::pair<std::string, std::function<void(Ctx&)>>> fixed;
    // Inputs that are known to fail, if they are listed in the known-findings
    // file; a violation like any other if not
    std::vector<std::pair<std::string, std::function<void(Ctx&)>>> known;
};

std::vector<Prop>& registry();
struct Reg {
    explicit Reg(Prop p) { registry().push_back(std::move(p)); }
};
