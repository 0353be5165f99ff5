// Builds a complete Monte Carlo world (parameters, tables, diagram, Markov chain, monitor) from
// generated choices, plus an independent reference evaluation of every table lookup.
#ifndef VERIF_WORLD_H
#define VERIF_WORLD_H
#include "pbt.h"
#include "environment/environment.h"
#include "module/weight/component.h"
#include "module/weight/gamma3.h"
#include "utility/dictionary.h"
#include "utility/pyglue/pyarraywrapper.h"
#include <complex>
#include <memory>
using pbt::Src;
typedef std::complex<double> cd;
inline cd C(const Complex& c) { return cd(c.Re, c.Im); }
inline bool close(cd a, cd b, double rel = 1e-9, double abs_ = 1e-12) { return std::abs(a - b) <= abs_ + rel * std::max(std::abs(a), std::abs(b)); }

struct Cfg {
    int Lx = 2, Ly = 2, NSub = 1, T = 4, TT = 4;
    double beta = 1.0;
    int order = 2;
    bool gamma3 = false;
    bool mirror = true;   // W tables have the mirror symmetry the code assumes
    int zeros = 0;        // 1 in 'zeros' table entries vanish (0: none)
    bool positive = false; // real positive tables (no sign problem)
    double wormRe = 1, polRe = 1, ggRe = 1, gwRe = 1;
    std::vector<double> orderRe, timeRatio;
    uint64_t tseed = 1, sseed = 1;
    int Vol() const { return Lx * Ly; }
    std::string str() const
    {
        std::ostringstream o;
        o << "L=" << Lx << "x" << Ly << " NSub=" << NSub << " T=" << T << "/" << TT << " beta=" << beta << " order=" << order << " gamma3=" << gamma3 << " zeros=" << zeros;
        return o.str();
    }
};
struct CfgOpt {
    int maxL = 4, maxSub = 3, maxT = 8, maxOrder = 5, gamma3 = 3; // gamma3: 1 in n
    bool mirror = true, zeros = true, positive = false;
    int deep = 0; // 1 in n heads for the highest orders
};
inline Cfg gen_cfg(Src& s, CfgOpt o = CfgOpt())
{
    Cfg c;
    c.Lx = s.range(2, o.maxL); // the seed diagram sits on site (1,0)
    c.Ly = s.range(1, o.maxL);
    c.gamma3 = o.gamma3 && s.below(o.gamma3) == (uint64_t)(o.gamma3 - 1);
    c.NSub = c.gamma3 ? 1 : s.range(1, o.maxSub);
    c.T = s.range(1, o.maxT);
    c.TT = s.range(1, o.maxT);
    static const double betas[] = {1.0, 0.5, 0.25, 2.0, 3.0, 0.7};
    c.beta = betas[s.below(6)];
    bool deep = o.deep && s.below(o.deep) == (uint64_t)(o.deep - 1);
    c.order = deep ? s.range(6, MAX_ORDER - 1) : s.range(1, o.maxOrder);
    c.mirror = o.mirror;
    c.positive = o.positive;
    c.zeros = o.zeros ? (s.flip(1, 3) ? 4 : 0) : 0;
    static const double re[] = {1, 0.5, 2, 0.1, 5};
    c.wormRe = re[s.below(5)];
    c.polRe = re[s.below(5)];
    c.ggRe = re[s.below(5)];
    c.gwRe = re[s.below(5)];
    for (int i = 0; i <= c.order; i++) {
        static const double grow[] = {2, 5, 20};
        c.orderRe.push_back(i == 0 ? 1.0 : deep ? c.orderRe[i - 1] * grow[s.below(3)] : re[s.below(5)]);
        c.timeRatio.push_back(re[s.below(3)]);
    }
    c.tseed = s.below(1u << 20) + 1;
    c.sseed = c.tseed;
    return c;
}
struct Rand { // table filler
    uint64_t x;
    explicit Rand(uint64_t s) : x(s) {}
    uint64_t next() { return x = pbt::mix(x); }
    double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};
inline cd rnd_entry(Rand& r, const Cfg& c)
{
    double m = 0.4 + 1.1 * r.u(), ph = 2 * M_PI * r.u();
    bool z = c.zeros && r.next() % c.zeros == 0;
    if (z) return 0;
    return c.positive ? cd(m, 0) : std::polar(m, ph);
}
// Independent tables and lookups
struct Ref {
    Cfg c;
    std::vector<cd> G, Ws, Wd, GG, GW;
    std::vector<int> RSq, RSym, TSq, TSym, TFlag;
    int RSize = 0, TSize = 0;
    int disp(const Site& a, const Site& b) const
    {
        int dx = ((b.Coordinate[0] - a.Coordinate[0]) % c.Lx + c.Lx) % c.Lx;
        int dy = ((b.Coordinate[1] - a.Coordinate[1]) % c.Ly + c.Ly) % c.Ly;
        return dx * c.Ly + dy;
    }
    int neg(int d) const
    {
        int x = d / c.Ly, y = d % c.Ly;
        return ((c.Lx - x) % c.Lx) * c.Ly + (c.Ly - y) % c.Ly;
    }
    int bin(double dt, int n) const // bin of dt reduced to [0,beta)
    {
        if (dt < 0) { // the code's convention: floor in bins, then one period up
            return (int)std::floor(dt * (1.0 / (c.beta / n))) + n;
        }
        return (int)std::floor(dt * (1.0 / (c.beta / n)));
    }
    size_t ig(int s1, int b1, int s2, int b2, int d, int t) const { return ((((s1 * c.NSub + b1) * 2 + s2) * (size_t)c.NSub + b2) * c.Vol() + d) * c.T + t; }
    size_t iw(int s1, int b1, int s2, int b2, int d, int t) const { return ((((s1 * c.NSub + b1) * 4 + s2) * (size_t)c.NSub + b2) * c.Vol() + d) * c.T + t; }
    size_t id(int s1, int b1, int s2, int b2, int d) const { return (((s1 * c.NSub + b1) * 4 + s2) * (size_t)c.NSub + b2) * c.Vol() + d; }
    void build(const Cfg& cfg)
    {
        c = cfg;
        Rand r(c.tseed);
        int V = c.Vol(), N = c.NSub;
        G.assign((size_t)4 * N * N * V * c.T, 0);
        for (auto& x : G) x = rnd_entry(r, c);
        Ws.assign((size_t)16 * N * N * V * c.T, 0);
        for (auto& x : Ws) x = rnd_entry(r, c);
        Wd.assign((size_t)16 * N * N * V, 0);
        for (auto& x : Wd) x = rnd_entry(r, c);
        Cfg nz = c;
        nz.zeros = 0;
        // entries the seed diagram needs must not vanish
        for (int s1 = 0; s1 < 2; s1++)
            for (int b = 0; b < N; b++) {
                G[ig(s1, b, s1, b, 0, 0)] = rnd_entry(r, nz);
                Ws[iw(3 * s1, b, 3 * s1, b, 0, 0)] = rnd_entry(r, nz);
            }
        if (c.mirror) {
            for (int s1 = 0; s1 < 4; s1++)
                for (int s2 = 0; s2 < 4; s2++)
                    for (int b1 = 0; b1 < N; b1++)
                        for (int b2 = 0; b2 < N; b2++)
                            for (int d = 0; d < V; d++) {
                                Wd[id(s2, b2, s1, b1, neg(d))] = Wd[id(s1, b1, s2, b2, d)];
                                for (int t = 0; t < c.T; t++)
                                    Ws[iw(s2, b2, s1, b1, neg(d), c.T - 1 - t)] = Ws[iw(s1, b1, s2, b2, d, t)];
                            }
        }
        if (c.gamma3) {
            GG.assign((size_t)2 * V * c.T * c.T, 0);
            for (auto& x : GG) x = rnd_entry(r, c);
            // symmetry maps: random grouping, multiplicities = orbit sizes
            Rand rs(c.sseed);
            auto group = [&](int n, std::vector<int>& sq, std::vector<int>& sym, int& size) {
                int k = 1 + rs.next() % n;
                sq.resize(n);
                sym.resize(n);
                std::vector<int> cnt(k, 0);
                for (int i = 0; i < n; i++) { sq[i] = i < k ? i : rs.next() % k; cnt[sq[i]]++; }
                for (int i = 0; i < n; i++) sym[i] = cnt[sq[i]];
                size = k;
            };
            group(V * V, RSq, RSym, RSize);
            group(c.TT * c.TT, TSq, TSym, TSize);
            TFlag.resize(c.TT * c.TT);
            for (auto& f : TFlag) f = rs.next() % 2;
            GW.assign((size_t)2 * RSize * TSize, 0);
            for (auto& x : GW) x = rnd_entry(r, c);
        }
    }
    cd g(const Site& in, const Site& out, double tin, double tout, int sin, int sout) const
    {
        cd v = G[ig(sin, in.Sublattice, sout, out.Sublattice, disp(in, out), bin(tout - tin, c.T))];
        return tout > tin ? v : -v;
    }
    cd w(const Site& in, const Site& out, double tin, double tout, int sin, int sout) const { return Ws[iw(sin, in.Sublattice, sout, out.Sublattice, disp(in, out), bin(tout - tin, c.T))]; }
    cd wd(const Site& in, const Site& out, int sin, int sout) const { return Wd[id(sin, in.Sublattice, sout, out.Sublattice, disp(in, out))]; }
    size_t igg(const Site& in, const Site& u, double tin, double tout, double ut, int sin, double& sign) const
    {
        sign = 1;
        double t1 = tout - ut, t2 = tin - ut;
        if (t1 < 0) { sign = -sign; t1 += c.beta; }
        if (t2 < 0) { sign = -sign; t2 += c.beta; }
        int i1 = (int)std::floor(t1 * (c.T / c.beta)), i2 = (int)std::floor(t2 * (c.T / c.beta));
        return ((sin * (size_t)c.Vol() + disp(in, u)) * c.T + i1) * c.T + i2;
    }
    cd gg(const Site& in, const Site& u, double tin, double tout, double ut, int sin) const
    {
        double sg;
        size_t i = igg(in, u, tin, tout, ut, sin, sg);
        return GG[i] * sg;
    }
    // spin classes of a vertex function on W: which channel, and the transformation
    static int spincls(int so, int si) // so,si: two-spin index (IN*2+OUT) of the outgoing / incoming end
    {
        if (so == 3 && si == 3) return 0;
        if (so == 0 && si == 0) return 1;
        if (so == 3 && si == 0) return 2;
        if (so == 0 && si == 3) return 3;
        if (so == 2 && si == 1) return 4; // UP,DOWN | DOWN,UP
        if (so == 1 && si == 2) return 5;
        return -1;
    }
    void igw(const Site& in, const Site& out, const Site& u, double tin, double tout, double ut, int& ri, int& ti) const
    {
        auto b = [&](double t) { if (t < 0) t += c.beta; return (int)std::floor(t * (c.TT / c.beta)); };
        ri = disp(out, u) * c.Vol() + disp(in, u);
        ti = b(tout - ut) * c.TT + b(tin - ut);
        if (TFlag[ti]) ri = disp(in, u) * c.Vol() + disp(out, u); // the stored entry has its two ends exchanged
    }
    cd gw(const Site& in, const Site& out, const Site& u, double tin, double tout, double ut, int sin, int sout) const
    {
        int ri, ti;
        igw(in, out, u, tin, tout, ut, ri, ti);
        int cls = spincls(sout, sin);
        size_t i = (size_t)RSq[ri] * TSize + TSq[ti];
        if (cls < 0 || cls >= 4) i += (size_t)RSize * TSize;
        cd v = GW[i];
        if (TFlag[ti]) v = -std::conj(v);
        if (cls == 2 || cls == 3) v = -v;
        if (cls == 4) v = -std::conj(v);
        return v;
    }
};
inline void write_text(const std::string& p, const std::string& t)
{
    std::ofstream f(p);
    f << t;
}
inline std::string basis_text(double beta, int T)
{
    std::ostringstream o;
    o.precision(17);
    o << "{'Beta': " << beta << ", 'MaxTauBin': " << (double)T << ", 'Number': 2.0, 'Basis': [[";
    for (int k = 0; k < 2; k++) {
        for (int i = 0; i < T; i++) o << (i ? "," : "") << (k ? i * 1.0 - 0.5 * (T - 1) + 0.125 : 1.0 * T);
        o << (k ? "]]" : "],[");
    }
    o << "}";
    return o.str();
}
inline void set_basis(double beta)
{
    static double cur = -1;
    if (cur == beta) return;
    cur = beta;
    write_text("FermiBasis.dat.txt", basis_text(beta, 4));
    write_text("BoseBasis.dat.txt", basis_text(beta, 4));
}
struct Arrays { // storage that Python array objects point to
    std::vector<std::unique_ptr<std::vector<Complex>>> v;
    Python::ArrayObject make(const std::vector<cd>& a, std::vector<uint> shape)
    {
        v.emplace_back(new std::vector<Complex>());
        for (auto& x : a) v.back()->push_back(Complex(x.real(), x.imag()));
        return Python::ArrayObject(v.back()->data(), shape, (int)shape.size());
    }
};
inline Dictionary weight_dict(const Ref& r, Arrays& st)
{
    const Cfg& c = r.c;
    uint N = c.NSub, V = c.Vol(), T = c.T;
    Dictionary d, g, w;
    g["SmoothT"] = st.make(r.G, {2, N, 2, N, V, T});
    d["G"] = g;
    w["SmoothT"] = st.make(r.Ws, {4, N, 4, N, V, T});
    w["DeltaT"] = st.make(r.Wd, {4, N, 4, N, V});
    d["W"] = w;
    if (c.gamma3) {
        Dictionary a, b;
        a["SmoothT"] = st.make(r.GG, {2, V, T, T});
        d["GGGammaG"] = a;
        b["SmoothT"] = st.make(r.GW, {2, (uint)r.RSize, (uint)r.TSize});
        b["RSqueeze"] = r.RSq;
        b["RSymFactor"] = r.RSym;
        b["TauSqueeze"] = r.TSq;
        b["TauSymFactor"] = r.TSym;
        b["TauFlag"] = r.TFlag;
        b["RSize"] = r.RSize;
        b["TauSize"] = r.TSize;
        d["WWGammaW"] = b;
    }
    return d;
}
inline void fill_para(para::ParaMC& p, const Cfg& c)
{
    p.SetTest();
    int size[2] = {c.Lx, c.Ly};
    p.Version = 0;
    p.NSublat = c.NSub;
    p.Lat = Lattice(Vec<int>(size), c.NSub);
    p.Beta = c.beta;
    p.T = 1 / c.beta;
    p.Order = c.order;
    p.OrderReWeight = c.orderRe;
    p.OrderTimeRatio = c.timeRatio;
    p.WormSpaceReweight = c.wormRe;
    p.PolarReweight = c.polRe;
    p.GammaGReweight = c.ggRe;
    p.GammaWReweight = c.gwRe;
    p.runGamma3 = c.gamma3;
    p.MaxTauBin = c.T;
    p.MaxTauBinTiny = c.TT;
    p.Toss = 1;
    p.Sweep = 1;
    p.Seed = 0;
    p.PrinterTimer = p.DiskWriterTimer = p.MessageTimer = p.ReweightTimer = 1000;
    p.RNG.Reset(1);
}
struct World {
    Cfg c;
    Ref ref;
    struct Own {
        para::ParaMC para;
        weight::Weight weight{false};
        diag::Diagram diag;
        mc::Markov mk;
        mc::MarkovMonitor mon;
    };
    std::unique_ptr<Own> own;
    para::ParaMC& para;
    weight::Weight& weight;
    diag::Diagram& diag;
    mc::Markov& mk;
    mc::MarkovMonitor& mon;
    World(EnvMonteCarlo& e, const Cfg& cfg) : c(cfg), para(e.Para), weight(e.Weight), diag(e.Diag), mk(e.Markov), mon(e.MarkovMonitor) { ref.build(c); }
    explicit World(const Cfg& cfg) : c(cfg), own(new Own), para(own->para), weight(own->weight), diag(own->diag), mk(own->mk), mon(own->mon)
    {
        ref.build(c);
        fill_para(para, c);
        set_basis(c.beta);
        Arrays st;
        {
            Dictionary d = weight_dict(ref, st);
            weight.FromDict(d, weight::GW, para);
            if (c.gamma3) weight.FromDict(d, weight::GammaGW, para);
        }
        weight.BuildNew(weight::SigmaPolar, para);
        diag.BuildNew(para.Lat, *weight.G, *weight.W);
        mk.BuildNew(para, diag, weight);
        mon.BuildNew(para, diag, weight);
    }
    cd gweight(diag::GLine* g)
    {
        diag::Vertex *a = g->nVer[IN], *b = g->nVer[OUT];
        if (g->IsMeasure) return 1.0;
        if (g->IsGGGammaG) return ref.gg(a->R, diag.UExt.R, a->Tau, b->Tau, diag.UExt.Tau, a->_spin[OUT]);
        return ref.g(a->R, b->R, a->Tau, b->Tau, a->_spin[OUT], b->_spin[IN]);
    }
    static int sp2(diag::Vertex* v) { return v->_spin[IN] * 2 + v->_spin[OUT]; }
    bool wormy(diag::WLine* w)
    {
        auto& o = diag.Worm;
        return o.Exist && (w->nVer[IN] == o.Ira || w->nVer[IN] == o.Masha || w->nVer[OUT] == o.Ira || w->nVer[OUT] == o.Masha);
    }
    cd wweight(diag::WLine* w)
    {
        diag::Vertex *a = w->nVer[IN], *b = w->nVer[OUT];
        int sa = sp2(a), sb = sp2(b);
        if (wormy(w)) sa = sb = 3;
        if (w->IsDelta) return ref.wd(a->R, b->R, sa, sb);
        if (w->IsMeasure) return 1.0;
        if (w->IsWWGammaW) return ref.gw(a->R, b->R, diag.UExt.R, a->Tau, b->Tau, diag.UExt.Tau, sa, sb);
        return ref.w(a->R, b->R, a->Tau, b->Tau, sa, sb);
    }
    int loops() // closed fermion loops of the actual topology
    {
        std::set<diag::Vertex*> seen;
        int n = 0;
        for (int i = 0; i < diag.Ver.HowMany(); i++) {
            diag::Vertex* v = diag.Ver(i);
            if (seen.count(v)) continue;
            n++;
            for (int guard = 0; seen.insert(v).second; guard++) {
                CHECK(guard < 64, "loop", "fermion loop does not close");
                v = v->nG[OUT]->nVer[OUT];
            }
        }
        return n;
    }
    typedef void (mc::Markov::*Op)();
    struct OpDef { const char* name; Op f; };
    static const std::vector<OpDef>& ops()
    {
        using mc::Markov;
        static std::vector<OpDef> v = {
            {"CREATE_WORM", &Markov::CreateWorm}, {"DELETE_WORM", &Markov::DeleteWorm}, {"MOVE_WORM_G", &Markov::MoveWormOnG}, {"MOVE_WORM_W", &Markov::MoveWormOnW}, {"RECONNECT", &Markov::Reconnect}, {"ADD_INTERACTION", &Markov::AddInteraction}, {"DEL_INTERACTION", &Markov::DeleteInteraction}, {"ADD_DELTA_INTERACTION", &Markov::AddDeltaInteraction}, {"DEL_DELTA_INTERACTION", &Markov::DeleteDeltaInteraction}, {"CHANGE_TAU_VERTEX", &Markov::ChangeTauOnVertex}, {"CHANGE_R_LOOP", &Markov::ChangeRLoop}, {"CHANGE_MEASURE_G2W", &Markov::ChangeMeasureFromGToW}, {"CHANGE_MEASURE_W2G", &Markov::ChangeMeasureFromWToG}, {"CHANGE_DELTA2CONTINUS", &Markov::ChangeDeltaToContinuous}, {"CHANGE_CONTINUS2DELTA", &Markov::ChangeContinuousToDelta}, {"JUMP_TO_ORDER0", &Markov::JumpToOrder0}, {"JUMP_BACK_TO_ORDER1", &Markov::JumpBackToOrder1}, {"JUMP_TO_GGGAMMAG", &Markov::JumpToGGGammaG}, {"JUMP_FROM_GGGAMMAG_TO_G", &Markov::JumpFromGGGammaGToG}, {"JUMP_TO_WWGAMMAW", &Markov::JumpToWWGammaW}, {"JUMP_FROM_WWGAMMAW_TO_W", &Markov::JumpFromWWGammaWToW}};
        return v;
    }
    int nops() const { return c.gamma3 ? 21 : 17; }
    std::string show()
    {
        std::ostringstream o;
        auto& D = diag;
        o << "order=" << D.Order << " sign=" << D.SignFermiLoop << " measG=" << D.MeasureGLine << " gamma=" << D.HasGammaGW;
        if (D.Worm.Exist) o << " worm(" << D.Worm.Ira->Name << "," << D.Worm.Masha->Name << ",k=" << D.Worm.K.K << ",s=" << D.Worm.dSpin << ")";
        for (int i = 0; i < D.G.HowMany(); i++) {
            auto g = D.G(i);
            o << " G" << g->Name << ":" << g->nVer[IN]->Name << ">" << g->nVer[OUT]->Name << " k" << g->K.K << (g->IsMeasure ? "M" : "") << (g->IsGGGammaG ? "X" : "");
        }
        for (int i = 0; i < D.W.HowMany(); i++) {
            auto w = D.W(i);
            o << " W" << w->Name << ":" << w->nVer[IN]->Name << "-" << w->nVer[OUT]->Name << " k" << w->K.K << (w->IsDelta ? "D" : "") << (w->IsMeasure ? "M" : "") << (w->IsWorm ? "w" : "") << (w->IsWWGammaW ? "X" : "");
        }
        for (int i = 0; i < D.Ver.HowMany(); i++) {
            auto v = D.Ver(i);
            o << " v" << v->Name << "@" << v->R.Sublattice << "(" << v->R.Coordinate[0] << "," << v->R.Coordinate[1] << ") t" << v->Tau << " s" << v->_spin[0] << v->_spin[1];
        }
        return o.str();
    }
};
inline void py_init()
{
    static bool done = false;
    if (done) return;
    done = true;
    Python::Initialize();
    Python::ArrayInitialize();
}
inline void quiet()
{
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
}
#endif
