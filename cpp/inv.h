// Invariants of a diagram, computed independently of the code's own self-check.
#ifndef VERIF_INV_H
#define VERIF_INV_H
#include "world.h"
inline int kmod(long k)
{
    long m = 2L * MAX_K + 1;
    k %= m;
    if (k > MAX_K) k -= m;
    if (k < -MAX_K) k += m;
    return (int)k;
}
inline void check_structure(World& w)
{
    auto& D = w.diag;
    int N = D.Order;
    CHECK(N >= 0 && N <= w.c.order, "order", "order " << N << " outside 0.." << w.c.order);
    if (N == 0) {
        CHECK(!D.Worm.Exist, "order0", "worm present at order 0");
        CHECK(D.HasGammaGW == 0, "order0", "external vertex attached at order 0");
        N = 1; // the dormant order-1 topology must stay intact
    }
    CHECK(D.G.HowMany() == 2 * N && D.W.HowMany() == N && D.Ver.HowMany() == 2 * N, "count", "G=" << D.G.HowMany() << " W=" << D.W.HowMany() << " Ver=" << D.Ver.HowMany() << " at order " << D.Order);
    std::set<diag::Vertex*> vs;
    std::set<diag::GLine*> gs;
    std::set<diag::WLine*> ws;
    for (int i = 0; i < 2 * N; i++) { vs.insert(D.Ver(i)); gs.insert(D.G(i)); }
    for (int i = 0; i < N; i++) ws.insert(D.W(i));
    CHECK((int)vs.size() == 2 * N && (int)gs.size() == 2 * N && (int)ws.size() == N, "distinct", "a component occurs twice");
    for (int i = 0; i < 2 * N; i++) {
        CHECK(D.Ver(i)->Name == i && D.G(i)->Name == i, "name", "component name differs from its slot " << i);
        auto g = D.G(i);
        for (int d = 0; d < 2; d++) {
            CHECK(vs.count(g->nVer[d]), "link", "G" << i << " end " << d << " is not a vertex of the diagram");
            CHECK(g->nVer[d]->nG[1 - d] == g, "link", "G" << i << " end " << d << " is not linked back");
        }
        auto v = D.Ver(i);
        CHECK(gs.count(v->nG[IN]) && gs.count(v->nG[OUT]) && ws.count(v->nW), "link", "vertex " << i << " has a foreign line");
        CHECK(v->nG[IN]->nVer[OUT] == v && v->nG[OUT]->nVer[IN] == v, "link", "vertex " << i << " G links");
        CHECK((v->Dir == IN || v->Dir == OUT) && v->nW->nVer[v->Dir] == v, "link", "vertex " << i << " W link/direction");
        CHECK(std::abs(g->K.K) <= MAX_K, "range", "G momentum out of range " << g->K.K);
        CHECK(v->Tau >= 0 && v->Tau < w.c.beta, "range", "time " << v->Tau << " outside [0," << w.c.beta << ")");
        CHECK(v->R.Sublattice >= 0 && v->R.Sublattice < w.c.NSub && v->R.Coordinate[0] >= 0 && v->R.Coordinate[0] < w.c.Lx && v->R.Coordinate[1] >= 0 && v->R.Coordinate[1] < w.c.Ly, "range", "site out of range");
        for (int d = 0; d < 2; d++) CHECK(v->_spin[d] == 0 || v->_spin[d] == 1, "range", "spin value");
    }
    for (int i = 0; i < N; i++) {
        auto x = D.W(i);
        CHECK(x->Name == i, "name", "W name differs from slot");
        CHECK(std::abs(x->K.K) <= MAX_K, "range", "W momentum out of range");
        for (int d = 0; d < 2; d++) {
            CHECK(vs.count(x->nVer[d]), "link", "W" << i << " end is not a vertex of the diagram");
            CHECK(x->nVer[d]->nW == x && x->nVer[d]->Dir == d, "link", "W" << i << " end not linked back with direction");
        }
        CHECK(x->nVer[0] != x->nVer[1], "link", "W" << i << " both ends on one vertex");
        if (x->IsDelta) {
            CHECK(x->nVer[0]->Tau == x->nVer[1]->Tau || D.Order == 0, "delta", "instantaneous W" << i << " has unequal times");
            CHECK(!x->IsMeasure, "delta", "instantaneous W" << i << " is the measured line");
        }
        CHECK(x->IsWorm == w.wormy(x), "wormflag", "W" << i << " worm flag " << x->IsWorm);
    }
    int mg = 0, mw = 0;
    for (auto g : gs) if (g->IsMeasure) { mg++; CHECK(g == D.GMeasure, "measure", "flagged G is not GMeasure"); }
    for (auto x : ws) if (x->IsMeasure) { mw++; CHECK(x == D.WMeasure, "measure", "flagged W is not WMeasure"); }
    CHECK(mg == (D.MeasureGLine ? 1 : 0) && mw == (D.MeasureGLine ? 0 : 1), "measure", "measuring lines: G " << mg << " W " << mw << " MeasureGLine " << D.MeasureGLine);
    if (D.Worm.Exist) {
        CHECK(vs.count(D.Worm.Ira) && vs.count(D.Worm.Masha), "worm", "worm end is not a vertex of the diagram");
        CHECK(D.Worm.Ira != D.Worm.Masha, "worm", "worm ends coincide");
        CHECK(std::abs(D.Worm.K.K) <= MAX_K, "range", "worm momentum");
    }
    for (auto v : vs) {
        long k = (long)v->nG[IN]->K.K - v->nG[OUT]->K.K + (v->Dir == IN ? -1 : 1) * (long)v->nW->K.K;
        if (D.Worm.Exist && v == D.Worm.Ira) k -= D.Worm.K.K;
        if (D.Worm.Exist && v == D.Worm.Masha) k += D.Worm.K.K;
        CHECK(kmod(k) == 0, "momentum", "momentum not conserved at vertex " << v->Name << " by " << k);
    }
    for (auto g : gs) CHECK(g->nVer[IN]->_spin[OUT] == g->nVer[OUT]->_spin[IN], "spin", "spin differs along G" << g->Name);
    // spin current: what leaves one end of an interaction enters the other, up to the worm
    for (auto x : ws) {
        int j = 0;
        for (int d = 0; d < 2; d++) {
            auto v = x->nVer[d];
            j += (int)v->_spin[OUT] - (int)v->_spin[IN];
            if (D.Worm.Exist && v == D.Worm.Ira) j += D.Worm.dSpin;
            if (D.Worm.Exist && v == D.Worm.Masha) j -= D.Worm.dSpin;
        }
        CHECK(j == 0, "spincurrent", "spin current through W" << x->Name << " changes by " << j);
    }
    for (auto v : vs) {
        auto u = v->nG[OUT]->nVer[OUT];
        CHECK(u->R == v->R, "loopsite", "vertices " << v->Name << " and " << u->Name << " of one fermion loop sit on different sites");
    }
    if (D.HasGammaGW == 1) {
        CHECK(vs.count(*D.Vin) && vs.count(*D.Vout) && (*D.Vin)->nG[OUT]->IsGGGammaG && (*D.Vin)->nG[OUT]->nVer[OUT] == *D.Vout, "gamma", "external vertex legs do not lead to the flagged G line");
    }
    if (D.HasGammaGW == 2) {
        CHECK(vs.count(*D.Vin) && vs.count(*D.Vout) && (*D.Vin)->nW->IsWWGammaW && (*D.Vin)->nW == (*D.Vout)->nW, "gamma", "external vertex legs do not lead to the flagged W line");
    }
    CHECK(D.HasGammaGW >= 0 && D.HasGammaGW <= 2, "gamma", "HasGammaGW " << D.HasGammaGW);
    CHECK(D.HasGammaGW == 0 || w.c.gamma3, "gamma", "external vertex without gamma3 runs");
    int fg = 0, fw = 0;
    for (auto g : gs) fg += g->IsGGGammaG;
    for (auto x : ws) fw += x->IsWWGammaW;
    CHECK(fg == (D.HasGammaGW == 1) && fw == (D.HasGammaGW == 2), "gamma", "external flags G " << fg << " W " << fw << " HasGammaGW " << D.HasGammaGW);
    if (D.HasGammaGW) {
        CHECK(D.UExt.Tau >= 0 && D.UExt.Tau < w.c.beta, "range", "external time");
        CHECK(D.UExt.R.Sublattice >= 0 && D.UExt.R.Sublattice < w.c.NSub && D.UExt.R.Coordinate[0] >= 0 && D.UExt.R.Coordinate[0] < w.c.Lx && D.UExt.R.Coordinate[1] >= 0 && D.UExt.R.Coordinate[1] < w.c.Ly, "range", "external site");
    }
}
struct LoopRef { int loops; double sign; };
inline LoopRef loop_ref(World& w) { return LoopRef{w.loops(), w.diag.SignFermiLoop}; }
inline cd line_product(World& w)
{
    cd p = 1;
    for (int i = 0; i < w.diag.G.HowMany(); i++) p *= w.gweight(w.diag.G(i));
    for (int i = 0; i < w.diag.W.HowMany(); i++) p *= w.wweight(w.diag.W(i));
    return p;
}
inline void check_weights(World& w, LoopRef r)
{
    auto& D = w.diag;
    int l = w.loops();
    double want = (l - r.loops) % 2 == 0 ? r.sign : -r.sign;
    CHECK(std::abs(D.SignFermiLoop - want) < 1e-9, "loopsign", "fermion-loop sign " << D.SignFermiLoop << " with " << l << " loops (started with " << r.loops << " and sign " << r.sign << ")");
    if (D.Order == 0) {
        CHECK(close(C(D.Weight), (double)w.c.Vol() * w.c.NSub), "weight0", "weight " << C(D.Weight) << " at order 0");
        CHECK(close(C(D.Phase), 1.0, 1e-7), "phase", "phase " << C(D.Phase) << " at order 0");
        return;
    }
    for (int i = 0; i < D.G.HowMany(); i++) CHECK(close(C(D.G(i)->Weight), w.gweight(D.G(i))), "gweight", "G" << i << " stores " << C(D.G(i)->Weight) << " table says " << w.gweight(D.G(i)));
    for (int i = 0; i < D.W.HowMany(); i++) CHECK(close(C(D.W(i)->Weight), w.wweight(D.W(i))), "wweight", "W" << i << " stores " << C(D.W(i)->Weight) << " table says " << w.wweight(D.W(i)));
    cd p = line_product(w) * D.SignFermiLoop * (D.Order % 2 ? -1.0 : 1.0);
    CHECK(close(C(D.Weight), p, 1e-7), "weight", "diagram weight " << C(D.Weight) << " product of lines " << p);
    CHECK(std::abs(p) > 0, "weight", "diagram of weight zero");
    CHECK(close(C(D.Phase), p / std::abs(p), 1e-7), "phase", "phase " << C(D.Phase) << " of weight " << p);
}
inline void check_hash(World& w)
{
    auto& D = w.diag;
    std::map<int, int> g, x;
    for (int i = 0; i < D.G.HowMany(); i++) g[D.G(i)->K.K]++;
    for (int i = 0; i < D.W.HowMany(); i++) x[std::abs(D.W(i)->K.K)]++;
    for (auto& e : g) CHECK(e.second == 1, "gunique", "two G lines carry momentum " << e.first);
    for (auto& e : x) CHECK(e.second == 1, "wunique", "two W lines carry momentum of modulus " << e.first);
    CHECK(!x.count(0), "wzero", "a W line carries zero momentum");
    for (int k = -MAX_K; k <= MAX_K; k++) {
        bool rec = D.GHashCheck(Momentum(k));
        CHECK(rec == (g.count(k) > 0), "ghash", "G record for momentum " << k << " is " << rec);
    }
    for (int k = 1; k <= MAX_K; k++) {
        bool rec = D.WHashCheck(Momentum(k)), rec2 = D.WHashCheck(Momentum(-k));
        CHECK(rec == (x.count(k) > 0) && rec2 == rec, "whash", "W record for momentum " << k << " is " << rec);
    }
    CHECK(D.WHashCheck(Momentum(0)), "whash", "zero W momentum not refused");
}
inline bool connected(World& w, const void* c1, const void* c2)
{
    auto& D = w.diag;
    int n = D.Ver.HowMany();
    std::vector<int> p(n);
    for (int i = 0; i < n; i++) p[i] = i;
    std::function<int(int)> f = [&](int i) { return p[i] == i ? i : p[i] = f(p[i]); };
    for (int i = 0; i < D.G.HowMany(); i++)
        if (D.G(i) != c1 && D.G(i) != c2) p[f(D.G(i)->nVer[0]->Name)] = f(D.G(i)->nVer[1]->Name);
    for (int i = 0; i < D.W.HowMany(); i++)
        if (D.W(i) != c1 && D.W(i) != c2) p[f(D.W(i)->nVer[0]->Name)] = f(D.W(i)->nVer[1]->Name);
    for (int i = 1; i < n; i++)
        if (f(i) != f(0)) return false;
    return true;
}
inline void check_skeleton(World& w)
{
    auto& D = w.diag;
    if (D.Worm.Exist || D.Order == 0) return;
    int N = D.Order;
    for (int i = 0; i < 2 * N; i++)
        for (int j = i; j < 2 * N; j++)
            if (N > 1 || i == j) CHECK(connected(w, D.G(i), D.G(j)), "skeletonG", "cutting G" << i << ",G" << j << " disconnects the diagram");
    for (int i = 0; i < N; i++)
        for (int j = i; j < N; j++)
            if (N > 1 || i == j) CHECK(connected(w, D.W(i), D.W(j)), "skeletonW", "cutting W" << i << ",W" << j << " disconnects the diagram");
}
// Everything observable about the configuration
inline std::vector<uint64_t> snapshot(World& w)
{
    auto& D = w.diag;
    std::vector<uint64_t> o;
    auto r = [&](double x) { uint64_t u; std::memcpy(&u, &x, 8); if (x == 0) u = 0; o.push_back(u); };
    auto c = [&](const Complex& x) { r(x.Re); r(x.Im); };
    auto site = [&](const Site& s) { o.push_back(s.Sublattice); o.push_back(s.Coordinate[0]); o.push_back(s.Coordinate[1]); };
    o.push_back(D.Order);
    c(D.Weight); c(D.Phase); r(D.SignFermiLoop);
    o.push_back(D.MeasureGLine);
    o.push_back(D.MeasureGLine ? (uint64_t)D.GMeasure : (uint64_t)D.WMeasure);
    o.push_back(D.HasGammaGW);
    if (D.HasGammaGW) { site(D.UExt.R); r(D.UExt.Tau); o.push_back((uint64_t)*D.Vin); o.push_back((uint64_t)*D.Vout); }
    o.push_back(D.Worm.Exist);
    if (D.Worm.Exist) { o.push_back((uint64_t)D.Worm.Ira); o.push_back((uint64_t)D.Worm.Masha); o.push_back(D.Worm.K.K); o.push_back(D.Worm.dSpin); r(D.Worm.Weight); }
    o.push_back(D.G.HowMany());
    for (int i = 0; i < D.G.HowMany(); i++) {
        auto g = D.G(i);
        o.push_back((uint64_t)g); o.push_back(g->Name); o.push_back(g->IsMeasure * 2 + g->IsGGGammaG); o.push_back((uint64_t)g->nVer[0]); o.push_back((uint64_t)g->nVer[1]); o.push_back(g->K.K); c(g->Weight);
    }
    o.push_back(D.W.HowMany());
    for (int i = 0; i < D.W.HowMany(); i++) {
        auto g = D.W(i);
        o.push_back((uint64_t)g); o.push_back(g->Name); o.push_back(g->IsMeasure * 8 + g->IsWWGammaW * 4 + g->IsDelta * 2 + g->IsWorm); o.push_back((uint64_t)g->nVer[0]); o.push_back((uint64_t)g->nVer[1]); o.push_back(g->K.K); c(g->Weight);
    }
    o.push_back(D.Ver.HowMany());
    for (int i = 0; i < D.Ver.HowMany(); i++) {
        auto v = D.Ver(i);
        o.push_back((uint64_t)v); o.push_back(v->Name); o.push_back((uint64_t)v->nG[0]); o.push_back((uint64_t)v->nG[1]); o.push_back((uint64_t)v->nW); site(v->R); o.push_back(v->_spin[0] * 2 + v->_spin[1]); r(v->Tau); o.push_back(v->Dir);
    }
    uint64_t h = 1;
    for (int k = -MAX_K; k <= MAX_K; k++) h = h * 1099511628211ULL + D.GHashCheck(Momentum(k)) + 1;
    for (int k = 0; k <= MAX_K; k++) h = h * 1099511628211ULL + D.WHashCheck(Momentum(k)) + 1;
    o.push_back(h);
    return o;
}
struct Step { int op; uint32_t seed; };
inline Step gen_step(Src& s, const World& w)
{
    Step st;
    int n = w.nops();
    int r = (int)s.below(20);
    if (r < 7) st.op = (int)s.below(n);
    else if (r < 9) st.op = n; // hop
    else if (w.diag.Worm.Exist) {
        static const int ops[] = {5, 5, 5, 5, 7, 7, 4, 4, 2, 2, 3, 1, 1, 6, 8, 9, 13, 14};
        st.op = ops[s.below(18)];
    }
    else if (w.diag.HasGammaGW) {
        static const int ops[] = {0, 0, 18, 20, 9, 10, 11, 12, 13, 14};
        st.op = ops[s.below(10)];
    }
    else if (w.diag.Order == 0) st.op = 16;
    else {
        static const int ops[] = {0, 0, 0, 0, 0, 11, 12, 12, 9, 10, 13, 14, 14, 15, 17, 19};
        st.op = ops[s.below(w.c.gamma3 ? 16 : 14)];
    }
    st.seed = (uint32_t)s.below(1u << 30);
    return st;
}
// a kind of configuration to head for: order, worm or not, measuring sector, external vertex function
struct Goal { int order = -1, worm = 0, sector = 0, vertex = 0; };
inline Goal gen_goal(Src& s, const Cfg& c)
{
    Goal g;
    g.order = c.order > 5 && s.flip() ? c.order : s.range(1, c.order);
    g.worm = s.below(3) == 0;
    g.sector = (int)s.below(2);
    g.vertex = c.gamma3 && !g.worm ? (int)s.below(3) : 0;
    return g;
}
inline bool reached(const World& w, const Goal& g)
{
    auto& D = w.diag;
    return D.Order >= g.order && D.Worm.Exist == (bool)g.worm && (g.worm || D.MeasureGLine == (g.sector == 0)) && D.HasGammaGW == g.vertex;
}
inline Step goal_step(Src& s, const World& w, const Goal& g)
{
    typedef std::vector<int> V;
    auto& D = w.diag;
    Step st = gen_step(s, w);
    V o, back = {18, 20};
    if (D.Order == 0) o = {16};
    else if (D.Order < g.order) o = D.Worm.Exist ? V{5, 7, 5, 7, 4} : D.HasGammaGW ? back : V{0};
    else if (D.Worm.Exist != (bool)g.worm) o = D.Worm.Exist ? V{1, 2, 3, 4} : D.HasGammaGW ? back : V{0};
    else if (D.MeasureGLine != (g.sector == 0) && !g.worm) o = D.HasGammaGW ? back : V{11, 12};
    else if (g.vertex != D.HasGammaGW) o = D.HasGammaGW ? back : g.vertex == 1 ? V{17} : V{19};
    if (!o.empty() && s.below(4)) st.op = o[s.below(o.size())];
    return st;
}
// histories: half of them wander, half head for goals that change now and then
struct Steps {
    bool driven = false;
    Goal g;
    Step next(Src& s, const World& w)
    {
        if (g.order < 0) { driven = s.flip(); g = gen_goal(s, w.c); }
        else if (driven && s.below(reached(w, g) ? 8 : 40) == 0) g = gen_goal(s, w.c);
        return driven ? goal_step(s, w, g) : gen_step(s, w);
    }
};
inline void do_step(World& w, const Step& st)
{
    w.para.RNG.Reset((int)st.seed);
    if (st.op < w.nops()) (w.mk.*World::ops()[st.op].f)();
    else w.mk.Hop(1);
}
inline const char* op_name(World& w, int op) { return op < w.nops() ? World::ops()[op].name : "HOP"; }
#endif
