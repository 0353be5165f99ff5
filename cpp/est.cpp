// M07 estimators, M15 export and import, M17 automatic reweighting.
#include "inv.h"
#include "pyhelp.h"
#include "totals.h"
#include "estimator/estimator.h"
#include "module/weight/weight_estimator.h"
using namespace diag;
static double gen_value(Src& s)
{
    switch (s.below(6)) {
    case 0: return 0;
    case 1: return 1;
    case 2: return s.range(-5, 5);
    case 3: return s.real(-1, 1) * std::pow(10.0, s.range(-12, 12));
    default: return s.real(-2, 2);
    }
}
static void draw(Src& s, double& v) { v = gen_value(s); }
static void draw(Src& s, Complex& v) { double a = gen_value(s), b = gen_value(s); v = Complex(a, b); }
// ---------------------------------------------------------------- the reference estimator
template <typename T> struct Model {
    typedef typename Num<T>::type N;
    N accu = 0;
    double norm = 1;
    std::vector<N> h;
    uint64_t interval = 1, counter = 0;
    double scale = 0; // largest partial sum, for rounding
    void measure(T t) { accu += num(t); norm += 1; scale = std::max(scale, absval(accu)); }
    void stat()
    {
        if (h.size() == SIZE) {
            std::vector<N> k;
            for (size_t i = 0; i < h.size(); i += 2) k.push_back(h[i]);
            h.swap(k);
            interval *= 2;
        }
        else if (++counter >= interval) {
            h.push_back(accu / norm);
            counter = 0;
        }
    }
    void clear() { *this = Model(); }
    void squeeze(double f) { accu /= f; norm /= f; scale /= f; }
    static double part(double x, int) { return x; }
    static double part(cd x, int i) { return i ? x.imag() : x.real(); }
    double error(int i) const
    {
        if (h.empty()) return 0;
        double lo = INFINITY, hi = -INFINITY;
        for (size_t k = h.size() / 3; k < h.size(); k++) { lo = std::min(lo, part(h[k], i)); hi = std::max(hi, part(h[k], i)); }
        return (hi - lo) / 2;
    }
};
static double part(double x, int) { return x; }
static double part(Complex x, int i) { return i ? x.Im : x.Re; }
template <typename T> static void compare(Estimator<T>& e, const Model<T>& m, const std::string& log)
{
    typedef typename Num<T>::type N;
    double tol = 1e-12 * (1e-200 + m.scale);
    CHECK(absval(num(e.Value()) - m.accu) <= tol, "sum", "sum is " << num(e.Value()) << " instead of " << m.accu << " after " << log);
    CHECK(near(e.Norm(), m.norm), "norm", "norm is " << e.Norm() << " instead of " << m.norm << " after " << log);
    auto est = e.Estimate();
    N mean = m.accu / m.norm;
    CHECK(absval(num(est.Mean) - mean) <= tol / m.norm + 1e-12 * absval(mean), "mean", "mean is " << num(est.Mean) << " instead of " << mean << " after " << log);
    double hs = 0;
    for (auto& x : m.h) hs = std::max(hs, absval(x));
    for (int i = 0; i < (int)(sizeof(T) / sizeof(double)); i++)
        CHECK(std::fabs(part(est.Error, i) - m.error(i)) <= 1e-11 * hs, "error", "error is " << part(est.Error, i) << " instead of " << m.error(i) << " after " << log);
    Dictionary d = e.ToDict();
    auto a = d.template Get<Python::ArrayObject>("History");
    CHECK(a.Dim() == 1 && a.Size() == m.h.size(), "history_size", "history holds " << a.Size() << " instead of " << m.h.size() << " entries after " << log);
    T* p = a.template Data<T>();
    for (size_t i = 0; i < m.h.size(); i++) CHECK(absval(num(p[i]) - m.h[i]) <= 1e-11 * hs, "history", "history entry " << i << " is " << num(p[i]) << " instead of " << m.h[i] << " after " << log);
}
template <typename T> static void one_estimator(Src& s)
{
    std::unique_ptr<Estimator<T>> e(s.flip() ? new Estimator<T>() : new Estimator<T>("name"));
    Model<T> m;
    std::ostringstream log;
    int n = s.range(1, 14);
    bool big = s.below(6) == 0;
    long hist = 0;
    for (int k = 0; k < n; k++) {
        int op = s.below(9);
        if (op < 5) {
            int measures = s.range(0, 4), stats = s.range(0, 3), rep = big && s.flip() ? s.range(1, 9000) : s.range(1, 12);
            std::vector<T> v(measures);
            for (auto& x : v) draw(s, x);
            log << " " << rep << "*(" << measures << " measures," << stats << " samples)";
            for (int r = 0; r < rep; r++) {
                for (auto& x : v) { e->Measure(x); m.measure(x); }
                for (int j = 0; j < stats; j++) { e->AddStatistics(); m.stat(); hist++; }
            }
        }
        else if (op < 7) {
            static const double F[] = {1, 2, 0.5, 10, 1e-3, 1e5};
            double f = s.below(4) ? F[s.below(6)] : s.real(0.01, 30);
            log << " squeeze " << f;
            auto before = e->Estimate();
            e->SqueezeStatistics(f);
            m.squeeze(f);
            auto after = e->Estimate();
            CHECK(absval(num(before.Mean) - num(after.Mean)) <= 1e-13 * absval(num(before.Mean)), "squeeze_mean", "squeezing changed the mean");
            s.nontrivial(log.str());
        }
        else if (op == 7) {
            static const double F[] = {0, -1, -0.5, -0.0, -1e-9};
            double f = F[s.below(5)];
            log << " squeeze " << f << " refused";
            CHECK(refuses([&] { e->SqueezeStatistics(f); }), "squeeze_refused", "squeezing by " << f << " was accepted");
        }
        else if (s.flip()) {
            log << " clear";
            e->ClearStatistics();
            m.clear();
        }
        compare(*e, m, log.str());
    }
    if (hist > 1) s.nontrivial(log.str());
    if (m.interval > 1) s.tag("halved");
    if (s.flip()) { // a copy is independent
        std::unique_ptr<Estimator<T>> c(new Estimator<T>(*e));
        T v;
        draw(s, v);
        e->Measure(v);
        e->AddStatistics();
        compare(*c, m, log.str() + " (copy)");
    }
}
template <typename T> static void bundle(Src& s)
{
    EstimatorBundle<T> b;
    std::vector<Model<T>> m;
    std::vector<std::string> names;
    std::ostringstream log;
    int n = s.range(1, 14);
    for (int k = 0; k < n; k++) {
        int op = s.below(10);
        if (op < 3 || m.empty()) {
            std::string name = "Order" + ToString((int)s.below(6));
            bool dup = std::find(names.begin(), names.end(), name) != names.end();
            log << " add " << name;
            if (s.flip()) {
                Model<T> x;
                std::unique_ptr<Estimator<T>> e(new Estimator<T>(name));
                T v;
                draw(s, v);
                if (s.flip()) { e->Measure(v); x.measure(v); e->AddStatistics(); x.stat(); }
                bool no = refuses([&] { b.AddEstimator(*e); });
                CHECK(no == dup, "bundle_add", "adding " << name << (no ? " refused" : " accepted") << " after " << log.str());
                if (!dup) { m.push_back(x); names.push_back(name); }
            }
            else {
                bool no = refuses([&] { b.AddEstimator(name); });
                CHECK(no == dup, "bundle_add", "adding " << name << (no ? " refused" : " accepted") << " after " << log.str());
                if (!dup) { m.push_back(Model<T>()); names.push_back(name); }
            }
        }
        else if (op < 7) {
            int i = s.below(m.size());
            T v;
            draw(s, v);
            log << " measure " << names[i];
            if (s.flip()) b[i].Measure(v);
            else b[names[i]].Measure(v);
            m[i].measure(v);
        }
        else if (op == 7) { log << " sample"; b.AddStatistics(); for (auto& x : m) x.stat(); }
        else if (op == 8) {
            double f = s.real(0.1, 9);
            log << " squeeze";
            b.SqueezeStatistics(f);
            for (auto& x : m) x.squeeze(f);
        }
        else if (s.flip()) { log << " clear"; b.ClearStatistics(); for (auto& x : m) x.clear(); }
        CHECK(b.HowMany() == (int)m.size(), "bundle_size", "size");
        for (size_t i = 0; i < m.size(); i++) {
            compare(b[(int)i], m[i], log.str() + " [" + names[i] + "]");
            CHECK(&b[(int)i] == &b[names[i]], "bundle_name", "name and number disagree");
        }
    }
    if (m.size() > 1) s.nontrivial("bundle" + log.str());
}
static void same_shape_of(const Hist& a, const Hist& b, const char* key, const std::string& log) // equal normalised histograms
{
    for (size_t i = 0; i < a.a.size(); i++) {
        cd x = a.a[i] * (a.factor / a.norm), y = b.a[i] * (b.factor / b.norm);
        CHECK(std::abs(x - y) <= 1e-11 * (std::abs(x) + std::abs(y)), key, "normalised entry " << i << " changes from " << x << " to " << y << " after " << log);
    }
}
static void histogram(Src& s)
{
    int size[2] = {s.range(1, 3), s.range(1, 3)};
    Lattice lat{Vec<int>(size), s.range(1, 2)};
    int T = s.range(1, 5), order = s.below(4) ? s.range(1, 3) : s.range(4, MAX_ORDER);
    double beta = s.real(0.2, 5), factor = s.real(0.5, 20);
    bool four = s.flip();
    weight::IndexMapSPIN2 m2(beta, T, lat, weight::TauAntiSymmetric);
    weight::IndexMapSPIN4 m4(beta, T, lat, weight::TauSymmetric);
    weight::WeightEstimator e;
    e.Allocate(four ? (const weight::IndexMap&)m4 : m2, order, factor);
    size_t N = (size_t)(four ? 16 : 4) * lat.SublatVol * lat.SublatVol * lat.Vol * T;
    std::vector<cd> a(N * order, 0);
    double norm = 0;
    std::ostringstream log;
    int n = s.range(1, 20);
    bool filled = false;
    for (int k = 0; k < n; k++) {
        int op = s.below(9);
        if (op < 2) { double w = s.real(0.01, 4); log << " norm " << w; e.MeasureNorm(w); norm += w; }
        else if (op < 5) {
            uint i = s.below(N);
            int o = s.range(1, order);
            Complex v;
            draw(s, v);
            log << " add to " << i << "," << o;
            e.Measure(i, o, v);
            a[(o - 1) * N + i] += C(v);
            filled = true;
        }
        else if (op == 5) {
            double f = s.real(0.05, 20);
            log << " squeeze " << f;
            Dictionary d = frozen(e.ToDict());
            e.SqueezeStatistics(f);
            if (norm > 0) same_shape_of(read_hist(d), read_hist(e.ToDict()), "hist_squeeze", log.str());
            for (auto& x : a) x /= f;
            norm /= f;
            if (filled) s.nontrivial(log.str());
        }
        else if (op == 6) {
            static const double F[] = {0, -1, -0.5, -0.0};
            double f = F[s.below(4)];
            CHECK(refuses([&] { e.SqueezeStatistics(f); }), "hist_squeeze_refused", "squeezing by " << f << " was accepted");
        }
        else if (op == 7) {
            double b = s.real(0.2, 5);
            log << " temperature 1/" << b;
            Hist h = read_hist(frozen(e.ToDict()));
            e.Anneal(b);
            Hist g = read_hist(e.ToDict());
            if (norm > 0) same_shape_of(h, g, "hist_anneal", log.str());
            norm = g.norm;
            for (size_t i = 0; i < a.size(); i++) a[i] = g.a[i];
            beta = b;
            if (filled) s.nontrivial(log.str());
        }
        else if (s.flip()) { log << " clear"; e.ClearStatistics(); a.assign(a.size(), 0); norm = 0; filled = false; }
        Hist h = read_hist(e.ToDict());
        CHECK(h.a.size() == a.size(), "hist_size", "size " << h.a.size());
        for (size_t i = 0; i < a.size(); i++) CHECK(std::abs(h.a[i] - a[i]) <= 1e-11 * (std::abs(a[i])) + 1e-9 * 1e-3, "hist_entry", "entry " << i << " is " << h.a[i] << " instead of " << a[i] << " after " << log.str());
        CHECK(std::fabs(h.norm - norm) <= 1e-11 * norm, "hist_norm", "normalisation is " << h.norm << " instead of " << norm << " after " << log.str());
        double f = factor * T / beta / beta / lat.Vol;
        CHECK(std::fabs(h.factor - f) <= 1e-12 * f, "hist_factor", "factor is " << h.factor << " instead of " << f << " after " << log.str());
    }
}
// the whole set of estimators and histograms of a run is squeezed together
static void monitor_squeeze(Src& s)
{
    CfgOpt o;
    o.maxL = 3; o.maxT = 4; o.maxOrder = 3; o.gamma3 = 2;
    World w(gen_cfg(s, o));
    int n = s.range(1, 150);
    for (int i = 0; i < n; i++) { w.mk.Hop(1 + (int)s.below(3)); w.mon.Measure(); }
    double f = s.real(0.1, 12);
    Totals a = totals(w);
    if (s.below(4) == 0) {
        CHECK(refuses([&] { w.mon.SqueezeStatistics(-f); }), "run_squeeze_refused", "squeezing by " << -f << " was accepted");
        CHECK(refuses([&] { w.mon.SqueezeStatistics(0.0); }), "run_squeeze_refused", "squeezing by 0 was accepted");
    }
    w.mon.SqueezeStatistics(f);
    Totals b = totals(w);
    s.nontrivial("run squeezed by " + ToString(f) + "; " + w.c.str());
    for (auto& x : a.value) {
        CHECK(near(x.second / f, b.value[x.first]), "run_value", x.first << " " << x.second << " squeezed by " << f << " is " << b.value[x.first]);
        CHECK(near(a.norm[x.first] / f, b.norm[x.first]), "run_norm", x.first << " norm " << a.norm[x.first] << " squeezed by " << f << " is " << b.norm[x.first]);
    }
    for (auto& x : a.h) {
        Hist& g = b.h[x.first];
        CHECK(near(x.second.norm / f, g.norm) && near(x.second.factor, g.factor), "run_hist_norm", x.first << " normalisation");
        for (size_t i = 0; i < g.a.size(); i++) CHECK(near(x.second.a[i] / f, g.a[i]), "run_hist", x.first << " entry " << i << " " << x.second.a[i] << " squeezed by " << f << " is " << g.a[i]);
    }
}
PROP(M07, "a history with samples recorded, statistics squeezed or annealed, or several estimators in a bundle")
{
    switch (s.below(8)) {
    case 0: case 1: one_estimator<double>(s); break;
    case 2: one_estimator<Complex>(s); break;
    case 3: bundle<double>(s); break;
    case 4: bundle<Complex>(s); break;
    case 5: case 6: histogram(s); break;
    default: monitor_squeeze(s);
    }
}
// ---------------------------------------------------------------- M17
struct Factors {
    std::vector<double> order;
    double worm, polar, gg, gw;
    bool operator==(const Factors& o) const { return order == o.order && worm == o.worm && polar == o.polar && gg == o.gg && gw == o.gw; }
};
static Factors factors(const para::ParaMC& p) { return Factors{p.OrderReWeight, p.WormSpaceReweight, p.PolarReweight, p.GammaGReweight, p.GammaWReweight}; }
static std::string show(const Factors& f)
{
    std::ostringstream o;
    for (double x : f.order) o << x << ",";
    o << " worm " << f.worm << " polar " << f.polar << " gg " << f.gg << " gw " << f.gw;
    return o.str();
}
PROP(M17, "an adjustment that changes the factors, or is refused although some counts suffice")
{
    static std::map<int, std::unique_ptr<World>> worlds; // the parameters, not the tables, matter here
    CfgOpt o;
    o.maxL = 2; o.maxT = 1; o.maxSub = 1; o.maxOrder = 4; o.gamma3 = 2; o.zeros = false;
    Cfg c = gen_cfg(s, o);
    if (c.order > 4) c.order = 4;
    int id = c.order * 2 + c.gamma3;
    c.Lx = 2; c.Ly = 1; c.beta = 1; c.tseed = 1; c.T = c.TT = 1;
    if (!worlds[id]) worlds[id].reset(new World(c));
    World& w = *worlds[id];
    w.c = c;
    fill_para(w.para, c);
    for (int i = 0; i <= c.order; i++) w.para.OrderReWeight[i] = s.real(0.01, 5);
    w.mk.Reset(w.para, w.diag, w.weight);
    w.mon.Reset(w.para, w.diag, w.weight);
    w.mon.WormEstimator.ClearStatistics();
    w.mon.PhyEstimator.ClearStatistics();
    w.mon.SigmaEstimator.ClearStatistics();
    w.mon.PolarEstimator.ClearStatistics();
    w.mon.GammaGEstimator.ClearStatistics();
    w.mon.GammaWEstimator.ClearStatistics();
    std::vector<Estimator<double>*> all;
    for (int i = 0; i <= c.order; i++) { all.push_back(&w.mon.PhyEstimator[i]); all.push_back(&w.mon.WormEstimator[i]); }
    all.push_back(&w.mon.SigmaEstimator);
    all.push_back(&w.mon.PolarEstimator);
    if (c.gamma3) { all.push_back(&w.mon.GammaGEstimator); all.push_back(&w.mon.GammaWEstimator); }
    std::ostringstream log;
    auto fill = [&](Estimator<double>& e, int n) { for (int i = 0; i < n; i++) e.Measure(1.0); };
    bool enough = s.below(4) != 0;
    int odd = s.below(3) == 0 ? (int)s.below(all.size()) : -1;
    for (size_t i = 0; i < all.size(); i++) {
        int n;
        if ((int)i == odd) { static const int E[] = {0, 1, 10, 997, 998, 999, 1000, 1001}; n = E[s.below(8)]; }
        else if (enough) n = s.below(3) ? s.range(1000, 5000) : s.range(1000, 40000);
        else { static const int E[] = {0, 3, 998, 999, 1000, 2000, 10000}; n = E[s.below(7)]; }
        fill(*all[i], n);
        log << " " << n;
    }
    log << " (physical,worm by order; sigma, polar, vertices)";
    int steps = s.range(1, 4);
    for (int k = 0; k < steps; k++) {
        int op = s.below(6);
        Factors before = factors(w.para);
        if (op == 0) {
            log << " print";
            Dictionary d = frozen(w.mon.ToDict());
            w.mon.PrintOrderReWeight();
            CHECK(factors(w.para) == before, "print_factors", "printing changed the factors from " << show(before) << " to " << show(factors(w.para)) << " after" << log.str());
            std::string df = dict_diff(d, w.mon.ToDict());
            CHECK(df.empty(), "print_statistics", "printing changed the statistics at " << df);
            continue;
        }
        if (op == 1) {
            static const double F[] = {2, 10, 0.5, 1e-3, 1e3, 1e-7};
            double f = F[s.below(6)];
            log << " squeeze " << f;
            for (auto e : all) e->SqueezeStatistics(f);
            continue;
        }
        if (op == 2) {
            int i = s.below(all.size()), n = s.range(1, 3000);
            log << " measure " << i << " " << n << " times";
            fill(*all[i], n);
            continue;
        }
        auto V = [](Estimator<double>& e) { return e.Value(); };
        bool visited = true, edge = false, some = false;
        auto need = [&](Estimator<double>& e) {
            if (std::fabs(e.Norm() - 1000) < 1e-6 && e.Norm() != 1000) edge = true;
            if (e.Norm() < 1000) visited = false;
            else some = true;
        };
        auto positive = [&](double x) {
            if (x > 0 && x < 1e-6) edge = true;
            if (!(x > 1e-9)) visited = false;
        };
        double worm = 0, phys = 0, w0 = V(w.mon.PhyEstimator[0]) + V(w.mon.WormEstimator[0]);
        for (int i = 0; i <= c.order; i++) {
            need(w.mon.PhyEstimator[i]);
            if (i) { worm += V(w.mon.WormEstimator[i]); phys += V(w.mon.PhyEstimator[i]); }
        }
        need(w.mon.PolarEstimator);
        positive(V(w.mon.PolarEstimator));
        positive(V(w.mon.SigmaEstimator));
        if (c.gamma3) {
            need(w.mon.GammaGEstimator);
            need(w.mon.GammaWEstimator);
            positive(V(w.mon.GammaGEstimator));
            positive(V(w.mon.GammaWEstimator));
        }
        positive(w0);
        positive(worm);
        positive(phys);
        if (edge) throw pbt::Discard();
        Factors want = before;
        if (visited) {
            for (int i = 1; i <= c.order; i++) {
                double n = V(w.mon.PhyEstimator[i]) + V(w.mon.WormEstimator[i]);
                if (n > 0 && n < 1e-6) throw pbt::Discard();
                if (n > 1e-9) want.order[i] *= c.timeRatio[i] * w0 / n;
            }
            want.order[0] = 1;
            want.worm *= phys / worm;
            want.polar *= V(w.mon.SigmaEstimator) / V(w.mon.PolarEstimator);
            if (c.gamma3) {
                want.gg *= V(w.mon.SigmaEstimator) / V(w.mon.GammaGEstimator);
                want.gw *= V(w.mon.PolarEstimator) / V(w.mon.GammaWEstimator);
            }
        }
        Dictionary d = frozen(w.mon.ToDict());
        bool done = w.mon.AdjustOrderReWeight();
        log << (done ? " adjust" : " no adjustment");
        Factors after = factors(w.para);
        CHECK(done == visited, "adjust_when", "adjusted " << done << " instead of " << visited << " after" << log.str() << "; " << c.str());
        if (!visited) CHECK(after == before, "adjust_none", "a refused adjustment changed the factors from " << show(before) << " to " << show(after) << " after" << log.str());
        auto same = [](double a, double b) { return std::fabs(a - b) <= 1e-12 * std::fabs(b); };
        bool ok = same(after.worm, want.worm) && same(after.polar, want.polar) && same(after.gg, want.gg) && same(after.gw, want.gw) && after.order.size() == want.order.size();
        for (size_t i = 0; ok && i < want.order.size(); i++) ok = same(after.order[i], want.order[i]);
        CHECK(ok, "adjust_value", "factors are " << show(after) << " instead of " << show(want) << " after" << log.str() << "; " << c.str());
        std::vector<double> f = after.order;
        for (double x : {after.worm, after.polar, after.gg, after.gw}) f.push_back(x);
        for (double x : f) CHECK(x > 0 && std::isfinite(x), "adjust_positive", "factors " << show(after) << " after" << log.str());
        std::string df = dict_diff(d, w.mon.ToDict());
        CHECK(df.empty(), "adjust_statistics", "adjusting changed the statistics at " << df);
        if (done || some) s.nontrivial(log.str());
        s.tag(done ? "adjusted" : "refused");
    }
}
// ---------------------------------------------------------------- M15
// how a dictionary gets from the exporting object to the importing one
static Dictionary carry(Src& s, const Dictionary& d, bool arrays, std::string& how)
{
    Dictionary r;
    switch (s.below(6)) {
    case 0: how = "dictionary"; return d;
    case 1: how = "copy"; r = d; return frozen(r);
    case 2: how = "python"; r.FromPy(d.ToPy()); return r;
    case 3: { how = "nested"; Dictionary o; o["x"] = d; return o.Get<Dictionary>("x"); }
    case 4: { how = "merged"; Dictionary o("{'zzz': 1}"); r = frozen(o); r.Update(d); return r; }
    default:
        if (arrays) {
            how = "data file";
            Dictionary(d).BigSave("carried");
            r.BigLoad("carried");
        }
        else {
            how = "text file";
            Dictionary(d).Save("carried", "w");
            r.Load("carried");
        }
        return r;
    }
}
typedef std::vector<std::string> Path;
static std::string join(const Path& p) { std::string r; for (auto& x : p) r += "/" + x; return r; }
template <typename F> static void damage(Src& s, const Dictionary& d, const std::vector<Path>& scalars, const std::vector<Path>& arrays, const std::vector<std::string>& shapes, F import)
{
    if (s.flip()) return;
    bool arr = !arrays.empty() && (scalars.empty() || s.flip());
    Path p = arr ? arrays[s.below(arrays.size())] : scalars[s.below(scalars.size())];
    static const std::vector<std::string> plain = {"missing", "text", "none", "listed"};
    std::vector<std::string> kinds = plain;
    if (arr) { kinds = shapes; kinds.push_back("missing"); kinds.push_back("text"); kinds.push_back("none"); kinds.push_back("single"); kinds.push_back("whole"); kinds.push_back("other"); }
    std::string how = kinds[s.below(kinds.size())];
    Dictionary bad = damaged(d, p, how, s.below(8));
    bool no = refuses([&] { import(bad); });
    CHECK(no, "damaged_accepted", "importing with entry " << join(p) << " damaged (" << how << ") was accepted: " << py_repr(bad.ToPy()));
    CHECK(!PyErr_Occurred(), "python_error_pending", "a Python error is left pending");
    s.tag("damaged " + how);
}
template <typename T> static void fill(Src& s, Estimator<T>& e)
{
    int n = s.below(40);
    for (int i = 0; i < n; i++) {
        T v;
        draw(s, v);
        e.Measure(v);
        int k = s.below(4);
        while (k--) e.AddStatistics();
        if (s.below(20) == 0) e.SqueezeStatistics(s.real(0.1, 9));
    }
    if (s.below(12) == 0) for (int i = SIZE + s.below(300) * 50; i > 0; i--) { e.Measure(T(i * 0.37)); e.AddStatistics(); }
}
static void agree(const Dictionary& a, const Dictionary& b, const char* key, const std::string& how)
{
    std::string d = dict_diff(a, b);
    CHECK(d.empty(), key, "exporting again after import (" << how << ") differs at " << d);
}
template <typename T> static void io_estimator(Src& s)
{
    std::unique_ptr<Estimator<T>> a(new Estimator<T>("a")), b(new Estimator<T>("b"));
    fill(s, *a);
    if (s.flip()) fill(s, *b); // the importing object may hold something
    Dictionary d = frozen(a->ToDict());
    std::string how;
    b->FromDict(carry(s, d, true, how));
    s.nontrivial("estimator with " + ToString(d.Get<Python::ArrayObject>("History").Size()) + " entries by " + how);
    agree(d, b->ToDict(), "estimator_export", how);
    CHECK(num(b->Value()) == num(a->Value()) && b->Norm() == a->Norm(), "estimator_value", "value " << num(b->Value()) << " instead of " << num(a->Value()));
    auto ea = a->Estimate(), eb = b->Estimate();
    CHECK(num(ea.Mean) == num(eb.Mean) && num(ea.Error) == num(eb.Error), "estimator_estimate", "estimate differs after import by " << how);
    for (int i = s.below(30); i > 0; i--) { // and it continues in the same way
        T v;
        draw(s, v);
        a->Measure(v);
        b->Measure(v);
        for (int k = s.below(3); k > 0; k--) { a->AddStatistics(); b->AddStatistics(); }
    }
    agree(frozen(a->ToDict()), b->ToDict(), "estimator_continued", how);
    damage(s, d, {{"Norm"}, {"Accu"}}, {{"History"}}, {"deeper"}, [&](const Dictionary& x) { b->FromDict(x); });
    if (s.below(10) == 0) {
        std::vector<T> v(SIZE + 1 + s.below(500), T(1.0));
        Dictionary x = frozen(d);
        x["History"] = Python::ArrayObject(v.data(), std::vector<uint>{(uint)v.size()}, 1);
        CHECK(refuses([&] { b->FromDict(x); }), "estimator_long", "a history longer than the memory was accepted");
    }
}
template <typename T> static void io_bundle(Src& s)
{
    EstimatorBundle<T> a, b;
    int n = s.range(1, 4), extra = s.below(3);
    for (int i = 0; i < n; i++) a.AddEstimator("Order" + ToString(i));
    for (int i = 0; i < n + extra; i++) b.AddEstimator("Order" + ToString(i));
    for (int i = 0; i < n; i++) fill(s, a[i]);
    Dictionary d = frozen(a.ToDict());
    std::string how;
    Dictionary c = carry(s, d, true, how);
    bool missing = extra > 0;
    if (missing) CHECK(refuses([&] { b.FromDict(c); }), "bundle_missing", "a missing estimator was accepted");
    CHECK(b.FromDict(c, true), "bundle_import", "import failed");
    for (int i = 0; i < n; i++) agree(d.Get<Dictionary>("Order" + ToString(i)), b[i].ToDict(), "bundle_export", how);
    for (int i = n; i < n + extra; i++) CHECK(num(b[i].Value()) == 0.0 && b[i].Norm() == 1, "bundle_extra", "an estimator that was not imported is not empty");
    if (!missing) agree(d, b.ToDict(), "bundle_export", how);
    s.nontrivial("bundle of " + ToString(n) + " by " + how);
}
static std::vector<std::string> all_shapes{"longer", "shorter", "flat", "deeper"};
static void io_histogram(Src& s)
{
    int size[2] = {s.range(1, 3), s.range(1, 3)};
    Lattice lat{Vec<int>(size), s.range(1, 2)};
    int top = s.below(4) ? 4 : MAX_ORDER;
    int T = s.range(1, 4), oa = s.range(1, top), ob = s.range(1, top);
    double beta = s.real(0.2, 5), factor = s.real(0.5, 20);
    weight::IndexMapSPIN2 m(beta, T, lat, weight::TauAntiSymmetric);
    weight::WeightEstimator a, b;
    a.Allocate(m, oa, factor);
    b.Allocate(m, ob, factor);
    uint N = 4 * lat.SublatVol * lat.SublatVol * lat.Vol * T;
    for (int i = s.range(1, 30); i > 0; i--) {
        Complex v;
        draw(s, v);
        a.Measure(s.below(N), s.range(1, oa), v);
        if (s.flip()) b.Measure(s.below(N), s.range(1, ob), v);
        a.MeasureNorm(s.real(0.1, 2));
    }
    Dictionary d = frozen(a.ToDict());
    std::string how;
    Dictionary c = carry(s, d, true, how);
    std::ostringstream ctx;
    ctx << "histogram of " << oa << " orders into " << ob << " by " << how;
    s.nontrivial(ctx.str());
    bool no = refuses([&] { b.FromDict(c); });
    CHECK(no == (oa > ob), "hist_orders", ctx.str() << (no ? " refused" : " accepted"));
    if (no) return;
    Hist h = read_hist(d), g = read_hist(b.ToDict());
    CHECK(g.norm == h.norm && g.factor == h.factor, "hist_norm", "normalisation " << g.norm << " instead of " << h.norm);
    for (size_t i = 0; i < g.a.size(); i++) CHECK(g.a[i] == (i < h.a.size() ? h.a[i] : cd(0)), "hist_import", "entry " << i << " is " << g.a[i] << " after " << ctx.str());
    if (oa == ob) agree(d, b.ToDict(), "hist_export", how);
    Path w{"WeightAccu"};
    std::string lay = "strided";
    b.FromDict(damaged(d, w, lay, s.below(2)));
    g = read_hist(b.ToDict());
    for (size_t i = 0; i < h.a.size(); i++) CHECK(g.a[i] == h.a[i], "hist_layout", "entry " << i << " is " << g.a[i] << " when the array is not contiguous");
    if (s.flip()) {
        Dictionary bad = damaged(d, w, s.flip() ? "longer" : "shorter", 1 + (int)s.below(6));
        auto arr = bad.Get<Python::ArrayObject>("WeightAccu");
        CHECK(refuses([&] { b.FromDict(bad); }), "damaged_accepted", "an array of the wrong shape was accepted");
    }
    damage(s, d, {{"Norm"}, {"NormAccu"}}, {{"WeightAccu"}}, {"flat", "deeper"}, [&](const Dictionary& x) { b.FromDict(x); });
}
static void io_world(Src& s)
{
    CfgOpt o;
    o.maxL = 3; o.maxT = 3; o.maxOrder = 3; o.gamma3 = 2;
    World w(gen_cfg(s, o));
    int n = s.below(120);
    for (int i = 0; i < n; i++) { w.mk.Hop(1 + (int)s.below(3)); w.mon.Measure(); }
    using namespace weight;
    int all = GW | SigmaPolar | (w.c.gamma3 ? GammaGW | GammaGWStatis : 0);
    Dictionary d = frozen(w.weight.ToDict(all)), m = frozen(w.mon.ToDict());
    int more = s.below(3);
    para::ParaMC p = w.para;
    p.Order += more;
    for (int i = 0; i < more; i++) { p.OrderReWeight.push_back(1); p.OrderTimeRatio.push_back(1); }
    std::string how;
    Dictionary c = carry(s, d, true, how);
    weight::Weight v(false);
    if (s.flip() || !w.c.gamma3) CHECK(v.FromDict(c, all, p), "weight_import", "import failed");
    else { // in steps, as the programme does
        v.FromDict(c, GW, p);
        v.FromDict(c, SigmaPolar, p);
        v.FromDict(c, GammaGW, p);
        v.FromDict(c, GammaGWStatis, p);
    }
    s.nontrivial("weights and statistics by " + how + " into " + ToString(more) + " more orders; " + w.c.str());
    Dictionary e = frozen(v.ToDict(all));
    if (more == 0) agree(d, e, "weight_export", how);
    else {
        for (auto k : {"Sigma", "Polar"}) {
            Hist a = read_hist(d.Get<Dictionary>(k).Get<Dictionary>("Histogram").Get<Dictionary>("SmoothT")), b = read_hist(e.Get<Dictionary>(k).Get<Dictionary>("Histogram").Get<Dictionary>("SmoothT"));
            CHECK(a.norm == b.norm && b.a.size() == a.a.size() / w.c.order * (w.c.order + more), "weight_orders", k << " with more orders");
            for (size_t i = 0; i < b.a.size(); i++) CHECK(b.a[i] == (i < a.a.size() ? a.a[i] : cd(0)), "weight_orders", k << " entry " << i << " is " << b.a[i] << " in a run with " << more << " more orders");
        }
        for (auto k : {"G", "W", "GGGammaG", "WWGammaW", "GammaGStatis", "GammaWStatis"})
            if (d.HasKey(k)) { // under its key: the comparison knows which table has single precision
                Dictionary x, y;
                x[k] = d.Get<Dictionary>(k);
                y[k] = e.Get<Dictionary>(k);
                agree(x, y, "weight_export", std::string(k) + " by " + how);
            }
    }
    Dictionary mc = carry(s, m, true, how);
    mc::MarkovMonitor mon;
    diag::Diagram dg;
    CHECK(mon.FromDict(mc, p, dg, v), "monitor_import", "import failed");
    Dictionary me = frozen(mon.ToDict());
    if (more == 0) agree(m, me, "monitor_export", how);
    for (auto k : {"WormEstimator", "PhyEstimator"})
        for (int i = 0; i <= p.Order; i++) {
            std::string key = "Order" + ToString(i);
            Dictionary x = me.Get<Dictionary>(k).Get<Dictionary>(key);
            if (i <= w.c.order) agree(m.Get<Dictionary>(k).Get<Dictionary>(key), x, "monitor_export", how);
            else CHECK(x.Get<double>("Accu") == 0 && x.Get<double>("Norm") == 1, "monitor_orders", k << " of a new order is not empty");
        }
    for (auto k : {"SigmaEstimator", "PolarEstimator", "GammaGEstimator", "GammaWEstimator"})
        if (m.HasKey(k)) agree(m.Get<Dictionary>(k), me.Get<Dictionary>(k), "monitor_export", how);
    std::vector<Path> arr = {{"G", "SmoothT"}, {"W", "SmoothT"}, {"W", "DeltaT"}}, sc;
    if (w.c.gamma3) {
        arr.push_back({"GGGammaG", "SmoothT"});
        arr.push_back({"WWGammaW", "SmoothT"});
        arr.push_back({"GammaGStatis", "WeightAccu"});
        arr.push_back({"GammaWStatis", "WeightAccu"});
        for (auto k : {"RSqueeze", "RSymFactor", "TauSqueeze", "TauSymFactor", "TauFlag", "RSize", "TauSize"}) sc.push_back({"WWGammaW", k});
        for (auto k : {"Norm", "NormAccu"}) { sc.push_back({"GammaGStatis", k}); sc.push_back({"GammaWStatis", k}); }
    }
    for (auto q : {"Sigma", "Polar"}) {
        sc.push_back({q, "Histogram"});
        sc.push_back({q, "Histogram", "SmoothT"});
        sc.push_back({q, "Histogram", "SmoothT", "Norm"});
        sc.push_back({q, "Histogram", "SmoothT", "NormAccu"});
    }
    for (int i = 0; i < 3; i++) {
        bool flatok = false;
        Path q = s.flip() ? arr[s.below(arr.size())] : sc[s.below(sc.size())];
        bool isarr = std::find(arr.begin(), arr.end(), q) != arr.end();
        static const std::vector<std::string> ak = {"missing", "text", "none", "single", "other", "whole", "flat", "deeper", "longer", "shorter"}, skd = {"missing", "text", "none", "listed"};
        std::string kind = isarr ? ak[s.below(ak.size())] : skd[s.below(skd.size())];
        if (kind == "missing" && q == Path{"WWGammaW", "SmoothT"}) flatok = true; // optional
        weight::Weight x(false);
        Dictionary bad = damaged(d, q, kind, s.below(6));
        bool no = refuses([&] { x.FromDict(bad, all, p); });
        CHECK(no || flatok, "damaged_accepted", "importing weights with " << join(q) << " damaged (" << kind << ") was accepted; " << w.c.str());
        s.tag("damaged " + kind);
    }
    set_basis(w.c.beta);
}
static void io_para(Src& s)
{
    Cfg c = gen_cfg(s);
    para::ParaMC a, b;
    fill_para(a, c);
    fill_para(b, Cfg(gen_cfg(s)));
    int size[2] = {c.Lx, c.Ly};
    a.Version = s.range(0, 1000);
    a.Beta = s.real(0.01, 50);
    a.Toss = s.range(0, 100000);
    a.Sweep = s.range(1, 1000);
    a.WormSpaceReweight = s.real(0, 3);
    a.PolarReweight = s.real(0, 3);
    a.GammaGReweight = s.real(0, 3);
    a.GammaWReweight = s.real(0, 3);
    a.Counter = s.below(4) ? (long long)s.below(1000000000) : (long long)s.below(1LL << 62);
    for (auto& x : a.OrderReWeight) x = s.real(0, 9);
    for (auto& x : a.OrderTimeRatio) x = s.real(0, 9);
    a.PrinterTimer = s.range(0, 9999);
    a.DiskWriterTimer = s.range(0, 9999);
    a.MessageTimer = s.range(0, 9999);
    a.ReweightTimer = s.range(0, 9999);
    a.RNG.Reset(s.word());
    for (int i = s.below(2000); i > 0; i--) a.RNG.urn();
    Dictionary d = frozen(a.ToDict()), lt0;
    lt0["L"] = Vec<int>(size);
    lt0["NSublat"] = c.NSub;
    d["Lattice"] = lt0;
    para::ParaMC a0;
    a0.FromDict(d);
    agree(d, frozen(a0.ToDict()), "para_first", "dictionary");
    std::string how;
    CHECK(b.FromDict(carry(s, d, false, how)), "para_import", "import failed");
    s.nontrivial("parameters by " + how + "; " + c.str());
    agree(d, b.ToDict(), "para_export", how);
#define F(x) CHECK(b.x == a.x, "para_field", #x << " is " << b.x << " instead of " << a.x << " after import by " << how)
    F(Version); F(Beta); F(MaxTauBin); F(MaxTauBinTiny); F(NSublat); F(Toss); F(Sweep); F(WormSpaceReweight); F(PolarReweight); F(runGamma3); F(GammaGReweight); F(GammaWReweight); F(Order); F(Counter);
    F(PrinterTimer); F(DiskWriterTimer); F(MessageTimer); F(ReweightTimer);
#undef F
    CHECK(b.OrderReWeight == a.OrderReWeight && b.OrderTimeRatio == a.OrderTimeRatio, "para_field", "a list differs");
    CHECK(b.Lat.Size == Vec<int>(size) && b.Lat.SublatVol == a.NSublat && b.Lat.Vol == c.Vol(), "para_lattice", "lattice");
    CHECK(std::fabs(b.T * b.Beta - 1) < 1e-15 * 4, "para_temperature", "temperature");
    for (int i = 0; i < 20; i++) CHECK(a.RNG.urn() == b.RNG.urn(), "para_stream", "the random stream differs after import by " << how);
    std::vector<Path> sc = {{"Tau"}, {"Lattice"}, {"Markov"}, {"Markov", "Timer"}, {"Tau", "Beta"}, {"Tau", "MaxTauBin"}, {"Tau", "MaxTauBinTiny"}, {"Lattice", "NSublat"}, {"Lattice", "L"}};
    for (auto k : {"Toss", "Sweep", "WormSpaceReweight", "PolarReweight", "runGamma3", "GammaGReweight", "GammaWReweight", "OrderReWeight", "OrderTimeRatio", "Order"}) sc.push_back({"Markov", k});
    for (auto k : {"PrinterTimer", "DiskWriterTimer", "MessageTimer", "ReweightTimer"}) sc.push_back({"Markov", "Timer", k});
    damage(s, d, sc, {}, {}, [&](const Dictionary& x) { b.FromDict(x); });
    if (s.below(3) == 0) { // values that do not fit together
        Dictionary x = frozen(d), mk = frozen(d).Get<Dictionary>("Markov"), lt = d.Get<Dictionary>("Lattice");
        switch (s.below(5)) {
        case 0: mk["Order"] = (int)(10 + s.below(5)); break;
        case 1: mk["OrderReWeight"] = std::vector<double>(s.below(c.order + 1), 1.0); break;
        case 2: mk["OrderTimeRatio"] = std::vector<double>(s.below(c.order + 1), 1.0); break;
        case 3: lt["L"] = std::vector<int>(s.flip() ? 1 : 3, 2); break;
        default: mk["RNG"] = std::string("not a generator");
        }
        x["Markov"] = mk;
        x["Lattice"] = lt;
        CHECK(refuses([&] { b.FromDict(x); }), "para_mismatch", "parameters that do not fit together were accepted: " << py_repr(x.ToPy()));
    }
}
static void io_message(Src& s)
{
    para::Message a, b;
    a.Version = s.range(0, 100000);
    a.Beta = s.real(0.01, 90);
    a.SqueezeFactor = s.real(0.5, 100);
    b.Version = b.Beta = b.SqueezeFactor = 7;
    a.Save("carried_message");
    CHECK(b.Load("carried_message"), "message_load", "a saved message cannot be loaded");
    CHECK(a.Version == b.Version && a.Beta == b.Beta && a.SqueezeFactor == b.SqueezeFactor, "message", "message " << a.PrettyString() << " is read as " << b.PrettyString());
    s.nontrivial("message " + a.PrettyString());
    para::Message k = b;
    CHECK(!b.Load("no_such_message"), "message_missing", "a missing message was loaded");
    CHECK(k.Version == b.Version && k.Beta == b.Beta && k.SqueezeFactor == b.SqueezeFactor, "message_missing", "a missing message changed the values");
    static const char* keys[] = {"Version", "Beta", "SqueezeFactor"};
    Dictionary d;
    d.Load("carried_message");
    static const std::vector<std::string> kinds = {"missing", "text", "none", "listed"};
    damaged(d, {keys[s.below(3)]}, kinds[s.below(4)], 0).Save("carried_bad", "w");
    bool ok = false, threw = refuses([&] { ok = b.Load("carried_bad"); });
    CHECK(threw || !ok, "message_damaged", "a damaged message was accepted");
}
PROP(M15, "an object with content exported and imported into another one")
{
    switch (s.below(9)) {
    case 0: io_estimator<double>(s); break;
    case 1: io_estimator<Complex>(s); break;
    case 2: if (s.flip()) io_bundle<double>(s); else io_bundle<Complex>(s); break;
    case 3: case 4: io_histogram(s); break;
    case 5: case 6: io_world(s); break;
    case 7: io_para(s); break;
    default: io_message(s);
    }
}
int main(int argc, char** argv)
{
    quiet();
    py_init();
    return pbt::main_(argc, argv);
}
