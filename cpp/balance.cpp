// M03: detailed balance of every update, by enumerating every discrete choice in both directions.
#include "inv.h"
using namespace diag;
struct Saved { // a diagram by value, links as indices
    struct GL { int a, b, k; bool m, x; Complex w; };
    struct WL { int a, b, k; bool m, x, d, o; Complex w; };
    struct V { int in, out, w, dir; Site R; int s[2]; double t; };
    std::vector<GL> g;
    std::vector<WL> w;
    std::vector<V> v;
    int order, gamma, gm, wm, ira, masha, wk, ds, vin;
    bool measG, worm;
    double sign, ww;
    Complex weight, phase;
    weight::ExtPoint u;
    std::vector<char> gh, wh;
};
static Saved save(Diagram& D)
{
    Saved s;
    for (int i = 0; i < D.G.HowMany(); i++) { auto g = D.G(i); s.g.push_back({g->nVer[0]->Name, g->nVer[1]->Name, g->K.K, g->IsMeasure, g->IsGGGammaG, g->Weight}); }
    for (int i = 0; i < D.W.HowMany(); i++) { auto g = D.W(i); s.w.push_back({g->nVer[0]->Name, g->nVer[1]->Name, g->K.K, g->IsMeasure, g->IsWWGammaW, g->IsDelta, g->IsWorm, g->Weight}); }
    for (int i = 0; i < D.Ver.HowMany(); i++) { auto v = D.Ver(i); s.v.push_back({v->nG[0]->Name, v->nG[1]->Name, v->nW->Name, v->Dir, v->R, {v->_spin[0], v->_spin[1]}, v->Tau}); }
    s.order = D.Order; s.gamma = D.HasGammaGW; s.measG = D.MeasureGLine; s.worm = D.Worm.Exist; s.sign = D.SignFermiLoop; s.weight = D.Weight; s.phase = D.Phase;
    s.gm = D.MeasureGLine && D.GMeasure ? D.GMeasure->Name : -1;
    s.wm = !D.MeasureGLine && D.WMeasure ? D.WMeasure->Name : -1;
    s.ira = s.worm ? D.Worm.Ira->Name : -1; s.masha = s.worm ? D.Worm.Masha->Name : -1; s.wk = D.Worm.K.K; s.ds = D.Worm.dSpin; s.ww = D.Worm.Weight;
    s.u = D.UExt;
    s.vin = s.gamma == 1 ? (*D.Vin)->nG[OUT]->Name : s.gamma == 2 ? (*D.Vin)->nW->Name : -1;
    s.gh.assign((char*)D.GHash, (char*)D.GHash + sizeof(D.GHash));
    s.wh.assign((char*)D.WHash, (char*)D.WHash + sizeof(D.WHash));
    return s;
}
static void load(Diagram& D, const Saved& s)
{
    while (D.G.HowMany() > (int)s.g.size()) D.G.Remove(D.G.HowMany() - 1);
    while (D.W.HowMany() > (int)s.w.size()) D.W.Remove(D.W.HowMany() - 1);
    while (D.Ver.HowMany() > (int)s.v.size()) D.Ver.Remove(D.Ver.HowMany() - 1);
    while (D.G.HowMany() < (int)s.g.size()) D.G.Add();
    while (D.W.HowMany() < (int)s.w.size()) D.W.Add();
    while (D.Ver.HowMany() < (int)s.v.size()) D.Ver.Add();
    for (size_t i = 0; i < s.g.size(); i++) { auto g = D.G(i); auto& x = s.g[i]; g->nVer[0] = D.Ver(x.a); g->nVer[1] = D.Ver(x.b); g->K = Momentum(x.k); g->IsMeasure = x.m; g->IsGGGammaG = x.x; g->Weight = x.w; }
    for (size_t i = 0; i < s.w.size(); i++) { auto g = D.W(i); auto& x = s.w[i]; g->nVer[0] = D.Ver(x.a); g->nVer[1] = D.Ver(x.b); g->K = Momentum(x.k); g->IsMeasure = x.m; g->IsWWGammaW = x.x; g->IsDelta = x.d; g->IsWorm = x.o; g->Weight = x.w; }
    for (size_t i = 0; i < s.v.size(); i++) { auto v = D.Ver(i); auto& x = s.v[i]; v->nG[0] = D.G(x.in); v->nG[1] = D.G(x.out); v->nW = D.W(x.w); v->Dir = x.dir; v->R = x.R; v->_spin[0] = (spin)x.s[0]; v->_spin[1] = (spin)x.s[1]; v->Tau = x.t; }
    D.Order = s.order; D.HasGammaGW = s.gamma; D.MeasureGLine = s.measG; D.SignFermiLoop = s.sign; D.Weight = s.weight; D.Phase = s.phase;
    D.GMeasure = s.gm >= 0 ? D.G(s.gm) : nullptr;
    D.WMeasure = s.wm >= 0 ? D.W(s.wm) : nullptr;
    D.Worm.Exist = s.worm;
    if (s.worm) { D.Worm.Ira = D.Ver(s.ira); D.Worm.Masha = D.Ver(s.masha); }
    D.Worm.K = Momentum(s.wk); D.Worm.dSpin = s.ds; D.Worm.Weight = s.ww;
    D.UExt = s.u;
    if (s.gamma == 1) { D.Vin = &D.G(s.vin)->nVer[IN]; D.Vout = &D.G(s.vin)->nVer[OUT]; }
    if (s.gamma == 2) { D.Vin = &D.W(s.vin)->nVer[IN]; D.Vout = &D.W(s.vin)->nVer[OUT]; }
    memcpy(D.GHash, s.gh.data(), sizeof(D.GHash));
    memcpy(D.WHash, s.wh.data(), sizeof(D.WHash));
}
typedef std::vector<long> Key;
static long tq(World& w, double t) { return std::llround(t / w.c.beta * 4294967296.0); }
// label-free key: vertices are identified by the (unique) momentum of their incoming fermion line
static Key key(World& w)
{
    auto& D = w.diag;
    Key k;
    bool o0 = D.Order == 0;
    k.push_back(D.Order);
    k.push_back(D.MeasureGLine);
    k.push_back(D.HasGammaGW);
    if (D.HasGammaGW) { k.push_back(tq(w, D.UExt.Tau)); k.push_back(D.UExt.R.Sublattice); k.push_back(D.UExt.R.Coordinate[0]); k.push_back(D.UExt.R.Coordinate[1]); }
    k.push_back(D.Worm.Exist);
    if (D.Worm.Exist) { k.push_back(D.Worm.Ira->nG[IN]->K.K); k.push_back(D.Worm.Masha->nG[IN]->K.K); k.push_back(D.Worm.K.K); k.push_back(D.Worm.dSpin); }
    std::vector<int> id(D.Ver.HowMany());
    for (size_t i = 0; i < id.size(); i++) id[i] = i;
    std::sort(id.begin(), id.end(), [&](int a, int b) { return D.Ver(a)->nG[IN]->K.K < D.Ver(b)->nG[IN]->K.K; });
    for (int i : id) {
        auto v = D.Ver(i);
        k.push_back(v->nG[IN]->K.K);
        k.push_back(v->nG[OUT]->K.K);
        k.push_back((v->nG[OUT]->IsMeasure ? 1 : 0) + (v->nG[OUT]->IsGGGammaG ? 2 : 0));
        auto x = v->nW;
        k.push_back(v->Dir);
        k.push_back(x->nVer[1 - v->Dir]->nG[IN]->K.K);
        k.push_back(x->K.K);
        k.push_back(x->IsMeasure + 2 * x->IsDelta + 4 * x->IsWorm + 8 * x->IsWWGammaW);
        if (o0) continue;
        k.push_back(v->R.Sublattice); k.push_back(v->R.Coordinate[0]); k.push_back(v->R.Coordinate[1]);
        k.push_back(v->_spin[0] * 2 + v->_spin[1]);
        k.push_back(tq(w, v->Tau));
    }
    return k;
}
static double target(World& w)
{
    auto& D = w.diag;
    int NK = 2 * MAX_K + 1;
    double p;
    if (D.Order == 0) p = (double)w.c.Vol() * w.c.NSub / (2.0 * NK);
    else p = std::abs(line_product(w)) / std::pow(2.0 * NK, D.Order);
    p *= w.c.orderRe[D.Order];
    if (!D.MeasureGLine) p *= w.c.polRe;
    if (D.HasGammaGW) p *= D.MeasureGLine ? w.c.ggRe : w.c.gwRe;
    if (D.Worm.Exist) p *= w.c.wormRe * weight::Worm::Weight(D.Worm.Ira->R, D.Worm.Masha->R, D.Worm.Ira->Tau, D.Worm.Masha->Tau) / NK;
    return p;
}
//                                 CR DW MG MW RC AI DI AD DD CT RL GW WG DC CD J0 JB g+ g- w+ w-
static const int INVOP[21] = {1, 0, 2, 3, 4, 6, 5, 8, 7, 9, 10, 12, 11, 14, 13, 16, 15, 18, 17, 20, 19};
static const int NTAU[21] = {0, 0, 0, 0, 0, 2, 0, 1, 0, 1, 0, 0, 0, 1, 0, 0, 2, 1, 0, 1, 0};
struct Path { std::vector<uint32_t> script; double dens; int acc; }; // acc: index of the acceptance draw or -1
struct Runner {
    World& w;
    Saved x;
    long runs = 0;
    bool mirror = false; // times drawn as beta*(1-u)
    Runner(World& w_) : w(w_), x(save(w_.diag)) {}
    std::vector<VerifDraw> run(int op, const std::vector<uint32_t>& script, bool hop = false)
    {
        load(w.diag, x);
        verif_script.on = true;
        verif_script.in = script;
        verif_script.log.clear();
        verif_script.pos = 0;
        if (hop) w.mk.Hop(1);
        else (w.mk.*World::ops()[op].f)();
        verif_script.on = false;
        runs++;
        return verif_script.log;
    }
    // every combination of discrete draws, times from the candidates
    void enumerate(int op, const std::vector<uint32_t>& taus, std::map<Key, std::vector<Path>>& out, size_t cap = 60000)
    {
        Key k0;
        load(w.diag, x);
        k0 = key(w);
        std::vector<uint32_t> digit;
        for (size_t it = 0;; it++) {
            if (it > cap) throw pbt::Discard();
            // translate digits into words, discovering draw types on the way
            std::vector<uint32_t> script;
            std::vector<VerifDraw> log;
            std::vector<long> radix;
            int nu = 0;
            for (;;) { // one draw at a time: its kind and range depend only on the draws before it
                log = run(op, script);
                size_t i = script.size();
                if (i >= log.size()) break;
                uint32_t d = i < digit.size() ? digit[i] : 0;
                if (log[i].isU) {
                    if (nu < NTAU[op]) { radix.push_back(taus.size()); script.push_back(taus[d]); }
                    else { radix.push_back(1); script.push_back(0); }
                    nu++;
                }
                else { radix.push_back(log[i].n); script.push_back(d); }
            }
            Key k = key(w);
            if (k != k0) {
                Path p;
                p.script = script;
                p.dens = 1;
                p.acc = -1;
                nu = 0;
                for (size_t i = 0; i < log.size(); i++) {
                    if (!log[i].isU) p.dens /= log[i].n;
                    else if (nu++ < NTAU[op]) p.dens /= w.c.beta;
                    else { CHECK(p.acc < 0, "draws", World::ops()[op].name << " draws more than one acceptance number"); p.acc = i; }
                }
                out[k].push_back(p);
            }
            digit.resize(script.size(), 0);
            // odometer: advance the last digit; deeper draws restart
            size_t i = script.size();
            while (i > 0) {
                if (digit[i - 1] + 1 < (uint32_t)radix[i - 1]) { digit[i - 1]++; digit.resize(i); break; }
                i--;
                digit[i] = 0;
            }
            if (i == 0) break;
        }
        load(w.diag, x);
    }
    bool accepted(int op, std::vector<uint32_t> sc, int acc, uint32_t u, const Key& k)
    {
        sc[acc] = u;
        run(op, sc);
        return key(w) == k;
    }
    double flow(int op, const std::vector<Path>& ps, const Key& k, double& relerr)
    {
        double f = 0;
        for (auto& p : ps) {
            double a = 1;
            if (p.acc >= 0 && !accepted(op, p.script, p.acc, 0xffffffffu, k)) {
                uint64_t lo = 0, hi = 0xffffffffu; // accepted at lo, not at hi
                while (hi - lo > 1) {
                    uint64_t m = (lo + hi) / 2;
                    (accepted(op, p.script, p.acc, (uint32_t)m, k) ? lo : hi) = m;
                }
                a = (lo + 0.5) / 4294967296.0;
            }
            relerr = std::max(relerr, 1.2e-10 / a);
            f += p.dens * a;
        }
        load(w.diag, x);
        return f;
    }
};
// probability that Hop calls an operation, measured with a scripted first draw
static double call_prob(Runner& r, int op, const Path& p, const Key& k)
{
    static std::map<int, double> cache;
    int id = op * 2 + r.w.c.gamma3;
    auto f = cache.find(id);
    if (f != cache.end()) return f->second;
    int n = 19 * 23 * 2, c = 0;
    for (int i = 0; i < n; i++) {
        std::vector<uint32_t> sc(1, (uint32_t)((i + 0.5) / n * 4294967296.0));
        sc.insert(sc.end(), p.script.begin(), p.script.end());
        r.run(op, sc, true);
        if (key(r.w) == k) c++;
    }
    load(r.w.diag, r.x);
    return cache[id] = (double)c / n;
}
static void snap_times(World& w)
{
    auto& D = w.diag;
    auto snap = [&](double t) { double u = std::floor(t / w.c.beta * 4294967296.0) * 2.32830643653869628906e-010; return u * w.c.beta; };
    for (int i = 0; i < D.Ver.HowMany(); i++) D.Ver(i)->Tau = snap(D.Ver(i)->Tau);
    D.UExt.Tau = snap(D.UExt.Tau);
    if (D.Order == 0) return;
    auto cx = [](cd z) { return Complex(z.real(), z.imag()); };
    for (int i = 0; i < D.G.HowMany(); i++) D.G(i)->Weight = cx(w.gweight(D.G(i)));
    for (int i = 0; i < D.W.HowMany(); i++) D.W(i)->Weight = cx(w.wweight(D.W(i)));
    cd p = line_product(w) * D.SignFermiLoop * (D.Order % 2 ? -1.0 : 1.0);
    if (std::abs(p) == 0) throw pbt::Discard();
    D.Weight = cx(p);
    D.Phase = cx(p / std::abs(p));
    if (D.Worm.Exist) D.Worm.Weight = weight::Worm::Weight(D.Worm.Ira->R, D.Worm.Masha->R, D.Worm.Ira->Tau, D.Worm.Masha->Tau);
}
static void flip_w(WLine* x) // same interaction, opposite orientation
{
    std::swap(x->nVer[0], x->nVer[1]);
    x->nVer[0]->Dir = 0;
    x->nVer[1]->Dir = 1;
    x->K = Momentum(-x->K.K);
}
PROP(M03, "a transition X -> Y with positive probability whose two flows were both computed (acceptance of each direction bisected to 2^-32)")
{
    CfgOpt o;
    o.maxL = 2; o.maxSub = 2; o.maxT = 4; o.maxOrder = 4; o.gamma3 = 2;
    Cfg c = gen_cfg(s, o);
    // the factors the histories grow under, and those the transitions are judged with
    Cfg grow = c;
    bool driven = s.flip(2, 3);
    if (driven) {
        grow.wormRe = grow.polRe = grow.ggRe = grow.gwRe = 1;
        for (size_t i = 0; i < grow.orderRe.size(); i++) grow.orderRe[i] = std::pow(4.0, (double)i);
        if (s.flip())
            for (double* f : {&c.wormRe, &c.polRe, &c.ggRe, &c.gwRe}) *f = std::pow(10.0, s.range(-4, 4));
        if (s.flip(1, 3))
            for (auto& f : c.orderRe) f = std::pow(10.0, s.range(-3, 3));
    }
    World w(grow);
    int n = s.range(0, s.tier ? 120 : 60);
    if (!driven)
        for (int i = 0; i < n; i++) do_step(w, gen_step(s, w));
    else { // towards an order, with or without worm, in one of the sectors
        Goal g = gen_goal(s, c);
        for (int i = 0; i < 200 && (i < n || !reached(w, g)); i++) do_step(w, goal_step(s, w, g));
        w.c = c;
        for (size_t i = 0; i < c.orderRe.size(); i++) w.para.OrderReWeight[i] = c.orderRe[i];
        w.para.WormSpaceReweight = c.wormRe;
        w.para.PolarReweight = c.polRe;
        w.para.GammaGReweight = c.ggRe;
        w.para.GammaWReweight = c.gwRe;
    }
    // pick an applicable operation
    auto& D = w.diag;
    std::vector<int> ops;
    if (D.Order == 0) ops = {16};
    else if (D.Worm.Exist) ops = {1, 2, 3, 4, 5, 6, 7, 8};
    else {
        ops = {0, 9, 10};
        if (D.HasGammaGW == 0) { ops.push_back(D.MeasureGLine ? 11 : 12); if (D.Order == 1) ops.push_back(15); if (c.gamma3) for (int k : {17, 19, 17, 19}) ops.push_back(k); }
        if (D.Order >= 2) for (int k : {13, 14, 13, 14, 13, 14}) ops.push_back(k);
        if (D.HasGammaGW == 1) { ops.push_back(18); ops.push_back(18); }
        if (D.HasGammaGW == 2) { ops.push_back(20); ops.push_back(20); }
    }
    int op = ops[s.below(ops.size())];
    snap_times(w);
    if (op == 1 && D.Worm.Ira->Dir == OUT && D.Worm.Ira->nW == D.Worm.Masha->nW) {
        // CreateWorm always starts at the IN end; the same configuration drawn with the opposite orientation is paired
        Runner r0(w);
        std::map<Key, std::vector<Path>> a, b;
        r0.enumerate(1, {0}, a);
        double e = 0, f0 = 0, f1 = 0;
        for (auto& y : a) f0 += r0.flow(1, y.second, y.first, e);
        flip_w(D.Worm.Ira->nW);
        snap_times(w);
        Runner r1(w);
        r1.enumerate(1, {0}, b);
        for (auto& y : b) f1 += r1.flow(1, y.second, y.first, e);
        CHECK(std::abs(f0 - f1) <= (1e-6 + e) * std::max(f0, f1), "orientation", "DELETE_WORM flow depends on the drawing direction of the interaction: " << f0 << " vs " << f1 << "; " << w.show());
    }
    Runner rx(w);
    Key kx = key(w);
    double px = target(w);
    std::string xs = w.show();
    std::vector<uint32_t> taus;
    std::set<uint32_t> xtau, used;
    for (int i = 0; i < D.Ver.HowMany(); i++) xtau.insert((uint32_t)tq(w, D.Ver(i)->Tau));
    xtau.insert((uint32_t)tq(w, D.UExt.Tau));
    for (int i = 0; i < NTAU[op]; i++) {
        uint32_t t = s.word();
        if (xtau.count(t) || used.count(t)) throw pbt::Discard();
        used.insert(t);
        taus.push_back(t);
    }
    std::map<Key, std::vector<Path>> ys;
    // times: fix draw j to taus[j] by enumerating all assignments and keeping those where each is distinct or single
    if (NTAU[op] == 0) taus.push_back(0);
    rx.enumerate(op, taus, ys);
    s.tag("enumerated_runs", rx.runs);
    if (ys.empty()) { s.tag(std::string("no_transition_") + World::ops()[op].name); return; }
    int tries = std::min<int>(3, ys.size());
    for (int t = 0; t < tries; t++) {
        auto it = ys.begin();
        std::advance(it, s.below(ys.size()));
        const Key& ky = it->first;
        double err = 0, fx = rx.flow(op, it->second, ky, err);
        fx *= call_prob(rx, op, it->second[0], ky);
        // go to Y
        rx.run(op, it->second[0].script);
        CHECK(key(w) == ky, "determinism", "the same draws led to a different configuration");
        // proposed times are uniform over [0,beta): the drawn numbers must reappear
        if (NTAU[op]) {
            std::set<uint32_t> ny;
            for (int i = 0; i < D.Ver.HowMany(); i++) ny.insert((uint32_t)tq(w, D.Ver(i)->Tau));
            if (D.HasGammaGW) ny.insert((uint32_t)tq(w, D.UExt.Tau));
            int nu = 0, found = 0;
            for (size_t i = 0; i < it->second[0].script.size(); i++)
                for (uint32_t q : taus)
                    if (it->second[0].script[i] == q && (ny.count(q) || ny.count((uint32_t)(0 - q)))) { found++; break; }
            nu = NTAU[op];
            CHECK(found >= nu, "times", World::ops()[op].name << ": new times are not beta times the numbers drawn; " << w.show());
        }
        double py = target(w);
        std::string ysr = w.show();
        Saved keep = rx.x;
        Runner ry(w);
        int inv = INVOP[op];
        std::vector<uint32_t> cand(xtau.begin(), xtau.end());
        if (NTAU[inv] == 0) cand.assign(1, 0);
        std::map<Key, std::vector<Path>> back;
        ry.enumerate(inv, cand, back);
        s.tag("enumerated_runs", ry.runs);
        double fy = 0;
        auto b = back.find(kx);
        if (b != back.end()) {
            fy = ry.flow(inv, b->second, kx, err);
            fy *= call_prob(ry, inv, b->second[0], kx);
        }
        load(D, keep);
        double l = px * fx, r = py * fy;
        s.tag(std::string("balance_") + World::ops()[op].name);
        if (err > 1e-3) { s.tag("acceptance_too_small_to_resolve"); if (fy > 0) continue; }
        CHECK(std::abs(l - r) <= (1e-6 + 3 * err) * std::max(l, r), std::string("balance-") + World::ops()[std::min(op, inv)].name,
              World::ops()[op].name << ": flow X->Y " << l << " (target " << px << " x " << fx << "), flow Y->X by " << World::ops()[inv].name << " " << r << " (target " << py << " x " << fy << "), ratio " << l / r << "; " << c.str() << " X: " << xs << "  Y: " << ysr);
        s.nontrivial(std::string(World::ops()[op].name) + " flows " + std::to_string(l) + " = " + std::to_string(r) + "; X: " + xs);
    }
}
int main(int argc, char** argv)
{
    py_init();
    quiet();
    return pbt::main_(argc, argv);
}
