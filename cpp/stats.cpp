// M22: relative frequencies of sectors in long runs against an exact enumeration of skeleton diagrams.
#include "inv.h"
using namespace diag;
typedef std::vector<int> Cell; // order, measG, gamma, deltas, loops, up G lines, all loops on one site
static const char* FIELD[] = {"order", "measG", "gamma", "deltas", "loops", "upG", "onesite"};
static bool conn(int n, const std::vector<int>& pi, int c1, int c2, int w1, int w2)
{
    std::vector<int> p(n);
    for (int i = 0; i < n; i++) p[i] = i;
    std::function<int(int)> f = [&](int i) { return p[i] == i ? i : p[i] = f(p[i]); };
    for (int i = 0; i < n; i++) if (i != c1 && i != c2) p[f(i)] = f(pi[i]);
    for (int i = 0; i < n / 2; i++) if (i != w1 && i != w2) p[f(2 * i)] = f(2 * i + 1);
    for (int i = 1; i < n; i++) if (f(i) != f(0)) return false;
    return true;
}
static bool skeleton(int N, const std::vector<int>& pi)
{
    for (int i = 0; i < 2 * N; i++) for (int j = i; j < 2 * N; j++) if ((N > 1 || i == j) && !conn(2 * N, pi, i, j, -1, -1)) return false;
    for (int i = 0; i < N; i++) for (int j = i; j < N; j++) if ((N > 1 || i == j) && !conn(2 * N, pi, -1, -1, i, j)) return false;
    return true;
}
static void exact(const Cfg& c, const Ref& r, std::map<Cell, double>& out)
{
    int S = c.Vol() * c.NSub;
    double b = c.beta;
    out[Cell{0, 1, 0, 0, 0, 0, 0}] += 0.5 * 2 * S * c.orderRe[0];
    out[Cell{0, 0, 0, 0, 0, 0, 0}] += 0.5 * S * c.polRe * c.orderRe[0];
    auto site = [&](int i) { Site s; s.Sublattice = i % c.NSub; s.Coordinate[0] = i / c.NSub / c.Ly; s.Coordinate[1] = i / c.NSub % c.Ly; return s; };
    std::vector<Site> sites;
    for (int i = 0; i < S; i++) sites.push_back(site(i));
    for (int N = 1; N <= c.order; N++) {
        double pre = c.orderRe[N];
        for (int i = 1; i <= N; i++) pre /= 2.0 * i;
        std::vector<int> pi(2 * N);
        for (int i = 0; i < 2 * N; i++) pi[i] = i;
        do {
            if (!skeleton(N, pi)) continue;
            std::vector<int> cyc(2 * N, -1);
            int L = 0;
            for (int i = 0; i < 2 * N; i++) {
                if (cyc[i] >= 0) continue;
                for (int j = i; cyc[j] < 0; j = pi[j]) cyc[j] = L;
                L++;
            }
            std::vector<int> inv(2 * N);
            for (int i = 0; i < 2 * N; i++) inv[pi[i]] = i;
            long ns = 1;
            for (int l = 0; l < L; l++) ns *= S;
            for (int sp = 0; sp < (1 << (2 * N)); sp++) {
                auto s = [&](int v) { return (sp >> v) & 1; };
                bool ok = true; // spin current through every W
                for (int i = 0; i < N; i++) {
                    int j = 0;
                    for (int v = 2 * i; v < 2 * i + 2; v++) j += s(v) - s(inv[v]);
                    if (j) ok = false;
                }
                if (!ok) continue;
                int up = 0;
                for (int v = 0; v < 2 * N; v++) up += s(v);
                for (long si = 0; si < ns; si++) {
                    std::vector<int> st(L);
                    long q = si;
                    for (int l = 0; l < L; l++) { st[l] = q % S; q /= S; }
                    bool one = true;
                    for (int l = 1; l < L; l++) one &= st[l] == st[0];
                    std::vector<double> g(2 * N), gx(2 * N), ws(N), wd(N), wx(N, 0);
                    double G = 1;
                    for (int v = 0; v < 2 * N; v++) {
                        auto& R = sites[st[cyc[v]]];
                        g[v] = std::abs(r.g(R, R, 0, 0, s(v), s(v)));
                        G *= g[v];
                        if (c.gamma3) for (auto& u : sites) gx[v] += std::abs(r.gg(R, u, 0, 0, 0, s(v))) * b; // u stays behind when a loop moves
                    }
                    for (int i = 0; i < N; i++) {
                        auto &a = sites[st[cyc[2 * i]]], &z = sites[st[cyc[2 * i + 1]]];
                        int sa = s(inv[2 * i]) * 2 + s(2 * i), sb = s(inv[2 * i + 1]) * 2 + s(2 * i + 1);
                        ws[i] = std::abs(r.w(a, z, 0, 0, sa, sb)) * b * b;
                        wd[i] = std::abs(r.wd(a, z, sa, sb)) * b;
                        if (c.gamma3) for (auto& u : sites) wx[i] += std::abs(r.gw(a, z, u, 0, 0, 0, sa, sb)) * b * b * b;
                    }
                    for (int dm = 0; dm < (1 << N); dm++) { // which W are instantaneous
                        if (N == 1 && dm) continue;         // order-1 delta diagrams belong to order 2 runs only, see below
                        double W = 1;
                        int nd = 0;
                        for (int i = 0; i < N; i++) { bool d = (dm >> i) & 1; nd += d; W *= d ? wd[i] : ws[i]; }
                        auto add = [&](int mg, int gam, double x) { if (x > 0) out[Cell{N, mg, gam, nd, L, up, one}] += x * pre; };
                        double b2 = 1;
                        for (int m = 0; m < 2 * N; m++) { // measured G
                            double x = G / g[m] * W * b2;
                            add(1, 0, x);
                            if (!c.gamma3) continue;
                            double y = 0, z = 0;
                            for (int v = 0; v < 2 * N; v++) if (v != m) y += gx[v] / g[v];
                            for (int i = 0; i < N; i++) if (!((dm >> i) & 1)) z += wx[i] / ws[i];
                            add(1, 1, x * y * c.ggRe);
                            add(1, 2, x * z * c.ggRe);
                        }
                        for (int m = 0; m < N; m++) { // measured W
                            if ((dm >> m) & 1) continue;
                            double x = G * W / ws[m] * b * b * c.polRe;
                            add(0, 0, x);
                            if (!c.gamma3) continue;
                            double y = 0, z = 0;
                            for (int v = 0; v < 2 * N; v++) y += gx[v] / g[v];
                            for (int i = 0; i < N; i++) if (i != m && !((dm >> i) & 1)) z += wx[i] / ws[i];
                            add(0, 1, x * y * c.gwRe);
                            add(0, 2, x * z * c.gwRe);
                        }
                    }
                }
            }
        } while (std::next_permutation(pi.begin(), pi.end()));
    }
}
static Cell cell(World& w)
{
    auto& D = w.diag;
    if (D.Order == 0) return Cell{0, D.MeasureGLine, 0, 0, 0, 0, 0};
    int nd = 0, up = 0, one = 1;
    for (int i = 0; i < D.W.HowMany(); i++) nd += D.W(i)->IsDelta;
    for (int i = 0; i < D.G.HowMany(); i++) up += D.G(i)->nVer[IN]->_spin[OUT];
    for (int i = 1; i < D.Ver.HowMany(); i++) one &= D.Ver(i)->R == D.Ver(0)->R;
    return Cell{D.Order, D.MeasureGLine, D.HasGammaGW, nd, w.loops(), up, one};
}
struct Obs { std::vector<std::map<Cell, double>> chain; std::vector<double> n; long worm = 0, total = 0, earlyTau = 0, nTau = 0; };
static void sample(const Cfg& c, int chains, long hops, uint32_t seed, Obs& o)
{
    World w(c);
    for (int k = 0; k < chains; k++) {
        // chains continue from wherever the previous one ended: starting diagrams differ
        w.para.RNG.Reset((int)(pbt::mix(seed + k) & 0x3fffffff));
        w.mk.Hop((int)(hops / 5));
        std::map<Cell, double> h;
        double n = 0;
        for (long i = 0; i < hops; i += 7) {
            w.mk.Hop(7);
            o.total++;
            if (w.diag.Worm.Exist) { o.worm++; continue; }
            h[cell(w)]++;
            n++;
            if (w.diag.Order) { o.nTau++; o.earlyTau += w.diag.Ver(0)->Tau < 0.5 * c.beta; }
        }
        for (auto& e : h) e.second /= n;
        o.chain.push_back(h);
        o.n.push_back(n);
    }
}
struct Bad { std::string what; double exp, got, z; };
static std::vector<Bad> compare(const std::map<Cell, double>& ex, const Obs& o, double zlim, double rlim, bool& slow)
{
    double tot = 0;
    for (auto& e : ex) tot += e.second;
    std::vector<Bad> bad;
    std::map<std::string, double> me;
    std::map<std::string, std::vector<double>> mo;
    auto labels = [&](const Cell& c) {
        std::vector<std::string> l;
        std::ostringstream a;
        a << "cell";
        for (size_t i = 0; i < c.size(); i++) {
            std::ostringstream b;
            b << FIELD[i] << "=" << c[i];
            a << " " << b.str();
            l.push_back(b.str());
            if (i) { b << " order=" << c[0]; l.push_back(b.str()); }
        }
        l.push_back(a.str());
        std::ostringstream d;
        d << "order=" << c[0] << " measG=" << c[1] << " gamma=" << c[2];
        l.push_back(d.str());
        return l;
    };
    int R = o.chain.size();
    for (auto& e : ex) for (auto& l : labels(e.first)) me[l] += e.second / tot;
    for (int k = 0; k < R; k++)
        for (auto& e : o.chain[k]) for (auto& l : labels(e.first)) { auto& v = mo[l]; v.resize(R); v[k] += e.second; }
    for (auto& e : mo) if (!me.count(e.first)) bad.push_back(Bad{"visited though of weight zero: " + e.first, 0, e.second[0], 99});
    // chains are correlated: the slowest observable decides how many independent samples there are
    double n = 0, tau = 1;
    for (double x : o.n) n += x / R;
    auto stat = [&](const std::string& l, double& m, double& var) {
        auto& v = mo[l];
        v.resize(R);
        m = var = 0;
        for (double x : v) m += x / R;
        for (double x : v) var += (x - m) * (x - m) / (R - 1);
    };
    double m, var;
    for (auto& e : me) {
        if (e.second < 0.02 || e.second > 0.98) continue;
        stat(e.first, m, var);
        double p = std::max(e.second * (1 - e.second), m * (1 - m));
        tau = std::max(tau, var * n / p);
    }
    slow = tau > n / 12;
    for (auto& e : me) {
        if (e.second < 0.003) continue;
        stat(e.first, m, var);
        double se = std::sqrt(std::max(var / R, e.second * (1 - e.second) * tau / (n * R))) + 1e-9;
        double z = (m - e.second) / se;
        if (std::abs(z) > zlim && std::abs(m - e.second) > rlim * e.second) bad.push_back(Bad{e.first, e.second, m, z});
    }
    return bad;
}
PROP(M22, "a run whose chains visited both measuring sectors, worm and worm-free configurations and every order up to the maximum, compared cell by cell")
{
    CfgOpt o;
    o.maxL = 2; o.maxSub = 2; o.maxT = 1; o.maxOrder = s.tier ? 3 : 2; o.gamma3 = 3; o.zeros = false;
    Cfg c = gen_cfg(s, o);
    c.T = c.TT = 1;
    if (c.gamma3) c.Ly = 1;
    if (c.order == 3) c.Ly = 1;
    static const double re[] = {1, 0.6, 1.7};
    c.wormRe = re[s.below(3)];
    c.polRe = re[s.below(3)];
    c.ggRe = re[s.below(3)];
    c.gwRe = re[s.below(3)];
    c.beta = s.flip() ? 1.0 : 0.7;
    Ref r;
    r.build(c);
    for (int i = 0; i <= c.order; i++) c.orderRe[i] = re[s.below(3)];
    // keep the orders comparable
    std::map<Cell, double> ex;
    exact(c, r, ex);
    std::vector<double> z(c.order + 1, 0);
    for (auto& e : ex) z[e.first[0]] += e.second;
    double k = 1;
    for (int i = 0; i <= c.order; i++) { double f = z[0] / z[i] * re[s.below(3)]; c.orderRe[i] *= f; }
    k = c.orderRe[0];
    for (auto& x : c.orderRe) x /= k;
    ex.clear();
    exact(c, r, ex);
    // order-1 instantaneous diagrams are reachable only when a higher order exists
    if (c.order >= 2) {
        // weight of order 1 with a delta line, measured G only
        int S = c.Vol() * c.NSub;
        for (int v = 0; v < S; v++)
            for (int s0 = 0; s0 < 2; s0++)
                for (int s1 = 0; s1 < 2; s1++) {
                    Site R;
                    R.Sublattice = v % c.NSub; R.Coordinate[0] = v / c.NSub / c.Ly; R.Coordinate[1] = v / c.NSub % c.Ly;
                    double g0 = std::abs(r.g(R, R, 0, 0, s0, s0)), g1 = std::abs(r.g(R, R, 0, 0, s1, s1));
                    double wd = std::abs(r.wd(R, R, s1 * 2 + s0, s0 * 2 + s1)) * c.beta;
                    double pre = 0.5 * c.orderRe[1];
                    Cell b{1, 1, 0, 1, 1, s0 + s1, 1};
                    ex[b] += pre * wd * (g0 + g1);
                    if (c.gamma3) {
                        double y0 = 0, y1 = 0;
                        for (int q = 0; q < S; q++) {
                            Site u;
                            u.Coordinate[0] = q / c.Ly; u.Coordinate[1] = q % c.Ly;
                            y0 += std::abs(r.gg(R, u, 0, 0, 0, s0)) * c.beta;
                            y1 += std::abs(r.gg(R, u, 0, 0, 0, s1)) * c.beta;
                        }
                        Cell q{1, 1, 1, 1, 1, s0 + s1, 1};
                        ex[q] += pre * wd * (y0 + y1) * c.ggRe;
                    }
                }
    }
    uint32_t seed = s.word();
    long hops = s.tier ? 200000 : 60000;
    Obs a;
    sample(c, 24, hops, seed, a);
    bool slow = false;
    auto bad = compare(ex, a, 5, 0.03, slow);
    if (slow) { s.tag("slow_mixing"); throw pbt::Discard(); }
    s.tag("hops", 24 * hops);
    std::ostringstream d;
    d << c.str() << " cells=" << ex.size() << " worm fraction " << (double)a.worm / a.total;
    double tz = (2.0 * a.earlyTau - a.nTau) / std::sqrt((double)a.nTau + 1);
    if (!bad.empty()) {
        s.tag("first_pass_suspicious");
        Obs b;
        sample(c, 24, hops * 6, seed ^ 0x5a5a5a5a, b);
        auto bad2 = compare(ex, b, 5, 0.03, slow);
        if (slow) { s.tag("slow_mixing"); throw pbt::Discard(); }
        for (auto& x : bad)
            for (auto& y : bad2)
                CHECK(x.what != y.what || (x.exp > 0 && (x.got - x.exp) * (y.got - y.exp) <= 0) || (x.exp > 0 && std::abs(y.got - y.exp) < 0.6 * std::abs(x.got - x.exp)), "distribution",
                      "sampled frequency of " << x.what << " is " << y.got << " (and " << x.got << " in a shorter run), exact " << x.exp << ", " << y.z << " standard errors; " << d.str());
    }
    (void)tz;
    CHECK(a.worm > 0 && a.worm < a.total, "sectors", "worm sector never " << (a.worm ? "left" : "entered") << "; " << d.str());
    s.nontrivial(d.str());
}
int main(int argc, char** argv)
{
    py_init();
    quiet();
    return pbt::main_(argc, argv);
}
