// The core library's add_cti() and remove_cti() from flat arrays of doubles,
// without the Python package's own interface.
#include <memory>
#include <valarray>

#include "cti.hpp"
#include "util.hpp"

namespace {
struct Reader {
    const double* p;
    double d() { return *p++; }
    int i() { return (int)*p++; }
};
struct Dir {
    bool on;
    std::valarray<double> dwell;  // the ROE refers to it
    std::unique_ptr<ROE> roe;
    std::unique_ptr<CCD> ccd;
    std::valarray<TrapInstantCapture> ic;
    std::valarray<TrapSlowCapture> sc;
    std::valarray<TrapInstantCaptureContinuum> icc;
    std::valarray<TrapSlowCaptureContinuum> scc;
    int express, offset, win0, win1, prune_freq;
    double prune_n;
    explicit Dir(Reader& r) {
        on = r.i();
        if (!on) return;
        int type = r.i();
        dwell.resize(r.i());
        for (double& v : dwell) v = r.d();
        int prescan = r.i(), overscan = r.i();
        bool empty_cols = r.i(), empty_first = r.i(), force = r.i(), integer = r.i();
        int pumps = r.i();
        if (type == 0)
            roe.reset(new ROE(dwell, prescan, overscan, empty_cols, empty_first, force, integer));
        else if (type == 1)
            roe.reset(new ROEChargeInjection(dwell, prescan, overscan, empty_cols, force, integer));
        else
            roe.reset(new ROETrapPumping(dwell, pumps, empty_first, integer));
        int n = r.i();
        std::valarray<CCDPhase> phases(CCDPhase(1, 0, 1), n);
        std::valarray<double> frac(0.0, n);
        for (int k = 0; k < n; k++) {
            frac[k] = r.d();
            double full = r.d(), notch = r.d(), power = r.d(), fef = r.d();
            phases[k] = CCDPhase(full, notch, power, fef);
        }
        ccd.reset(new CCD(phases, frac));
        int a = r.i(), b = r.i(), c = r.i(), d = r.i();
        ic = std::valarray<TrapInstantCapture>(TrapInstantCapture(0, 1), a);
        sc = std::valarray<TrapSlowCapture>(TrapSlowCapture(0, 1, 0), b);
        icc = std::valarray<TrapInstantCaptureContinuum>(TrapInstantCaptureContinuum(0, 1, 1), c);
        scc = std::valarray<TrapSlowCaptureContinuum>(TrapSlowCaptureContinuum(0, 1, 1, 0), d);
        double q[4];
        auto next = [&] {
            for (double& v : q) v = r.d();
        };
        for (auto& t : ic) next(), t = TrapInstantCapture(q[0], q[1], q[2], q[3]);
        for (auto& t : sc) next(), t = TrapSlowCapture(q[0], q[1], q[2]);
        for (auto& t : icc) next(), t = TrapInstantCaptureContinuum(q[0], q[1], q[2]);
        for (auto& t : scc) next(), t = TrapSlowCaptureContinuum(q[0], q[1], q[2], q[3]);
        express = r.i();
        offset = r.i();
        win0 = r.i();
        win1 = r.i();
        prune_n = r.d();
        prune_freq = r.i();
    }
};
template <class T>
std::valarray<T>* get(std::valarray<T>& v) {
    return v.size() ? &v : nullptr;
}
}  // namespace

extern "C" double core_volume(double full, double notch, double power, double fef, double n) {
    CCDPhase p(full, notch, power, fef);
    return p.cloud_fractional_volume_from_electrons(n);
}

// iterations < 0: addition
extern "C" void core_cti(double* image, int rows, int cols, const double* spec, int iterations, int allow_negative) {
    set_verbosity(0);
    Reader r{spec};
    Dir p(r), s(r);
    std::valarray<std::valarray<double>> im(std::valarray<double>(0.0, cols), rows);
    for (int i = 0; i < rows; i++)
        for (int j = 0; j < cols; j++) im[i][j] = image[i * cols + j];
    // With windows of the other direction too
    int p0 = p.on ? p.win0 : r.i(), p1 = p.on ? p.win1 : r.i();
    int s0 = s.on ? s.win0 : r.i(), s1 = s.on ? s.win1 : r.i();
    auto out = iterations < 0
                   ? add_cti(im, p.roe.get(), p.ccd.get(), get(p.ic), get(p.sc), get(p.icc), get(p.scc),
                             p.on ? p.express : 0, p.on ? p.offset : 0, p0, p1, 0, -1, p.on ? p.prune_n : 0,
                             p.on ? p.prune_freq : 0, s.roe.get(), s.ccd.get(), get(s.ic), get(s.sc), get(s.icc),
                             get(s.scc), s.on ? s.express : 0, s.on ? s.offset : 0, s0, s1, 0, -1,
                             s.on ? s.prune_n : 0, s.on ? s.prune_freq : 0, allow_negative, 0)
                   : remove_cti(im, iterations, p.roe.get(), p.ccd.get(), get(p.ic), get(p.sc), get(p.icc),
                                get(p.scc), p.on ? p.express : 0, p.on ? p.offset : 0, p0, p1, 0, -1,
                                p.on ? p.prune_n : 0, p.on ? p.prune_freq : 0, s.roe.get(), s.ccd.get(), get(s.ic),
                                get(s.sc), get(s.icc), get(s.scc), s.on ? s.express : 0, s.on ? s.offset : 0, s0, s1,
                                0, -1, s.on ? s.prune_n : 0, s.on ? s.prune_freq : 0, allow_negative);
    for (int i = 0; i < rows; i++)
        for (int j = 0; j < cols; j++) image[i * cols + j] = out[i][j];
}
