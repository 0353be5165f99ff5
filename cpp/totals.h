// All estimators and histograms of a run, read through what it exports.
#ifndef VERIF_TOTALS_H
#define VERIF_TOTALS_H
#include "inv.h"
#include "pyhelp.h"
[[maybe_unused]] static double absval(double x) { return std::fabs(x); }
[[maybe_unused]] static double absval(cd x) { return std::abs(x); }
static double num(double x) { return x; }
static cd num(const Complex& x) { return C(x); }
template <typename T> struct Num { typedef double type; };
template <> struct Num<Complex> { typedef cd type; };
template <typename T> static bool near(T a, T b) { return absval(a - b) <= 1e-11 * (1e-290 + absval(a) + absval(b)) + 1e-300; }
struct Hist { std::vector<cd> a; double norm, factor; };
static Hist read_hist(const Dictionary& d)
{
    Hist h;
    auto a = d.Get<Python::ArrayObject>("WeightAccu");
    Complex* p = a.Data<Complex>();
    for (uint i = 0; i < a.Size(); i++) h.a.push_back(C(p[i]));
    h.norm = d.Get<double>("NormAccu");
    h.factor = d.Get<double>("Norm");
    return h;
}
struct Totals { std::map<std::string, double> value, norm; std::map<std::string, Hist> h; };
static Totals totals(World& w)
{
    Totals t;
    auto put = [&](const std::string& n, Estimator<double>& e) { t.value[n] = e.Value(); t.norm[n] = e.Norm(); };
    for (int i = 0; i <= w.c.order; i++) {
        put("worm" + ToString(i), w.mon.WormEstimator[i]);
        put("physical" + ToString(i), w.mon.PhyEstimator[i]);
    }
    put("sigma", w.mon.SigmaEstimator);
    put("polar", w.mon.PolarEstimator);
    t.h["Sigma"] = read_hist(w.weight.Sigma->ToDict().Get<Dictionary>("Histogram").Get<Dictionary>("SmoothT"));
    t.h["Polar"] = read_hist(w.weight.Polar->ToDict().Get<Dictionary>("Histogram").Get<Dictionary>("SmoothT"));
    if (w.c.gamma3) {
        put("gammag", w.mon.GammaGEstimator);
        put("gammaw", w.mon.GammaWEstimator);
        t.h["GammaG"] = read_hist(w.weight.GammaG->StatisToDict());
        t.h["GammaW"] = read_hist(w.weight.GammaW->StatisToDict());
    }
    return t;
}
#endif
