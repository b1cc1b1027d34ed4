// Case specifications for the CTI model, their generators, and the calls into
// the code under test.
#pragma once
#include <memory>
#include <string>
#include <valarray>
#include <vector>

#include "ccd.hpp"
#include "cti.hpp"
#include "engine.hpp"
#include "roe.hpp"
#include "trap_managers.hpp"
#include "traps.hpp"
#include "util.hpp"
#undef error

typedef std::valarray<std::valarray<double>> Img;

enum { IC = 0, SC = 1, ICC = 2, SCC = 3 };
enum { STD = 0, CI = 1, TP = 2 };

struct PhaseSpec {
    double full = 1e4, notch = 0, power = 1, fef = 0;
    double cloud(double n) const;
};
struct TrapSpec {
    int type = IC;
    double density = 10, tau = 1, capt = 0, sigma = 0, none = 0, full = 0;
};
struct RoeSpec {
    int type = STD;
    std::vector<double> dwell{1.0};
    int prescan = 0, overscan = -1;
    bool empty_cols = true, empty_first = false, force = true, integer = false;
    int n_pumps = 1;
    int n_phases() const { return type == TP ? (int)dwell.size() / 2 : (int)dwell.size(); }
};
struct DirSpec {
    RoeSpec roe;
    std::vector<PhaseSpec> phases{PhaseSpec()};
    std::vector<double> frac{1.0};
    std::vector<TrapSpec> traps;
    int express = 0, offset = 0, win0 = 0, win1 = -1;
    double prune_n = 1e-10;
    int prune_freq = 20;
    bool null_empty = true;  // pass nullptr rather than an empty list
    bool has(int type) const {
        for (auto& t : traps)
            if (t.type == type) return true;
        return false;
    }
    double total_density() const {
        double s = 0;
        for (auto& t : traps) s += t.density;
        return s;
    }
};
struct CaseSpec {
    Img image;
    bool has_par = true, has_ser = false;
    DirSpec par, ser;
    int allow_neg = 1;
    int threads = 1;
    int rows() const { return (int)image.size(); }
    int cols() const { return (int)image[0].size(); }
};

std::string str(const TrapSpec&);
std::string str(const RoeSpec&);
std::string str(const DirSpec&);
std::string str(const Img&);
std::string str(const CaseSpec&);

// Objects of the code under test for one direction
struct Built {
    std::valarray<double> dwell, frac;
    std::valarray<CCDPhase> phases;
    std::unique_ptr<ROE> roe;
    std::unique_ptr<CCD> ccd;
    std::valarray<TrapInstantCapture> ic;
    std::valarray<TrapSlowCapture> sc;
    std::valarray<TrapInstantCaptureContinuum> icc;
    std::valarray<TrapSlowCaptureContinuum> scc;
    bool null_empty;
    explicit Built(const DirSpec& d);
    std::valarray<TrapInstantCapture>* p_ic() { return ic.size() || !null_empty ? &ic : nullptr; }
    std::valarray<TrapSlowCapture>* p_sc() { return sc.size() || !null_empty ? &sc : nullptr; }
    std::valarray<TrapInstantCaptureContinuum>* p_icc() { return icc.size() || !null_empty ? &icc : nullptr; }
    std::valarray<TrapSlowCaptureContinuum>* p_scc() { return scc.size() || !null_empty ? &scc : nullptr; }
};

Img run_add(const CaseSpec& c);
Img run_remove(const CaseSpec& c, int n_iterations);
Img run_clock(const Img& im, const DirSpec& d, int col0, int col1, int allow_neg);

// Reference model
std::vector<std::vector<double>> ref_express(const RoeSpec& r, int n_rows, int express, int offset);
std::vector<std::vector<char>> ref_store(const RoeSpec& r, const std::vector<std::vector<double>>& m);
struct RefStep {
    bool high;
    std::vector<int> cap, rel;
    std::vector<double> frac;
};
std::vector<std::vector<RefStep>> ref_sequence(const RoeSpec& r);
Img ref_clock(const Img& im, const DirSpec& d, int col0, int col1, int allow_neg);
Img ref_add(const CaseSpec& c);
// While one lives, the reference's steps are nudged as in ref_sensitivity
struct RefNudge {
    Rng r;
    RefNudge(uint64_t seed, double noise);
    ~RefNudge();
    double unit();
};
double ref_fill_sensitivity(const CaseSpec& c, const Img& want, double by);
double ref_sensitivity(const CaseSpec& c, const Img& want, double noise);

// The continuum of release times, from its definition
struct Continuum {
    double mu, sigma, capture_rate, dwell;
    Continuum(double mu, double sigma, double capture_rate = 0, double dwell = 1);
    double fill(double t) const;           // after release for a time t from full
    double time(double f) const;           // inverse
    double fill_after_capture(double t) const;
    double fill_direct(double t) const;

   private:
    std::vector<double> tau_, w_;
    double lmin_, lmax_, dl_;
    std::vector<double> f_, d_;
};

struct RefManager {
    struct Seg {
        double vol;
        std::vector<double> fill;
    };
    int type = IC;
    std::vector<TrapSpec> traps;
    std::vector<double> dens;
    PhaseSpec ph;
    double dwell = 1;
    std::vector<Seg> st, stored;
    // Continuum tables: taken from the code under test (they have their own
    // property), or from the definition
    std::vector<std::shared_ptr<TrapInstantCaptureContinuum>> icc;
    std::vector<std::shared_ptr<TrapSlowCaptureContinuum>> scc;
    std::vector<std::shared_ptr<Continuum>> exact;
    double time_min = 0, time_max = 0;

    void setup(int type, const std::vector<TrapSpec>& traps, double frac, const PhaseSpec& ph, double dwell,
               int max_transfers, bool exact_continuum);
    double step(double n_free);
    double trapped() const;
    double exposed(int t, double a, double b) const;  // integral of the exposed fraction
    size_t split(double v);
    void merge();

   private:
    double table_time(int t, double f, double then) const;
    double release_fill(int t, double fill) const;
    double release_fill_of(int t, double fill) const;
    double slow_fill_of(int t, double fill) const;
    double slow_fill(int t, double fill) const;
};
extern bool ref_exact_continuum;
// Facts about the last reference run
struct RefFacts {
    bool captured, not_enough, released, negative, outside;
    double max_trapped;
    int max_segments;
    double beyond_table, before_table;  // furthest effective times outside the code's tables
};
extern RefFacts ref_facts;

// Generators
Img gen_image(Src& s, int rows, int cols, bool allow_negative);
PhaseSpec gen_phase(Src& s, bool fef);
TrapSpec gen_trap(Src& s, int type, bool surface);
struct GenOpt {
    int max_rows = 30, max_cols = 3, max_traps = 3;
    bool big = false;
    std::vector<int> types{IC, SC};
    std::vector<int> roes{STD};
    int max_phases = 1;
    bool surface = false, fef = false, negative = true, windows = true, serial = true;
    bool overscan = true, carry_over = true, prune = true;
};
RoeSpec gen_roe(Src& s, const GenOpt& o, int rows);
DirSpec gen_dir(Src& s, const GenOpt& o, int rows, int cols);
CaseSpec gen_case(Src& s, const GenOpt& o);
// Keep the reference's time on a big image within seconds
void limit_cost(CaseSpec& c, bool keep_cols);

double img_scale(const Img&);
double img_sum(const Img&);
double max_diff(const Img& a, const Img& b);
bool all_finite(const Img&);
Img make_img(int rows, int cols, double v = 0);

// Comparisons
void expect_close(Ctx& c, const CaseSpec& k, const Img& got, const Img& want, double tol_rel, const char* what);
void label_case(Ctx& c, const CaseSpec& k);
Img transposed(const Img& a);
