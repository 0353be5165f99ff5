// M06 measurement routing, M08 propagator lookups, M09 index maps, M21 vertex functions.
#include "inv.h"
#include "module/weight/index_map.h"
using namespace diag;
typedef weight::IndexMapSPIN2 Map2;
typedef weight::IndexMapSPIN4 Map4;
static const int64_t ONE = 1LL << 32; // times live on the grid beta * k / 2^32, as the generator produces them
static double tval(int64_t k, double beta) { return k * (1.0 / ONE) * beta; }
static int64_t red(int64_t k) { return ((k % ONE) + ONE) % ONE; }
// bin of a reduced time difference, or -1 if it is too near an edge to say
// (on binary grids every product is exact, and an edge belongs to the bin it opens)
static int gbin(int64_t k, int n, double beta)
{
    int e;
    if (std::frexp(beta, &e) == 0.5 && (n & (n - 1)) == 0) return (int)((__int128)red(k) * n / ONE);
    __int128 x = (__int128)red(k) * n;
    int64_t rest = (int64_t)(x % ONE);
    if (rest < 4096 || rest > ONE - 4096) return -1;
    return (int)(x / ONE);
}
static int64_t gk(Src& s, int T)
{
    switch (s.below(7)) {
    case 0: return 0;
    case 6: return red((int64_t)((double)s.below(T) / T * ONE)); // an edge (exact on binary grids)
    case 1: return ONE - 1 - (int64_t)s.below(3);
    case 2: return red((int64_t)((s.below(T) + 0.5) / T * ONE));
    case 3: return red((int64_t)((double)s.below(T) / T * ONE) + 20000);
    default: return s.word();
    }
}
static Site gsite(Src& s, const Cfg& c)
{
    Site r;
    r.Sublattice = s.below(c.NSub);
    r.Coordinate[0] = s.below(c.Lx);
    r.Coordinate[1] = s.below(c.Ly);
    return r;
}
static Site moved(const Site& a, int dx, int dy, const Cfg& c)
{
    Site r = a;
    r.Coordinate[0] = (r.Coordinate[0] + dx) % c.Lx;
    r.Coordinate[1] = (r.Coordinate[1] + dy) % c.Ly;
    return r;
}
static cd at(const std::vector<cd>& v, size_t i) { return v[i]; }
static std::string say(const Site& a) { std::ostringstream o; o << "(" << a.Sublattice << ";" << a.Coordinate[0] << "," << a.Coordinate[1] << ")"; return o.str(); }
// ---------------------------------------------------------------- M08
PROP(M08, "a lookup between two different space-time points")
{
    CfgOpt o;
    o.maxL = 4; o.maxSub = 3; o.maxT = 9; o.maxOrder = 1; o.gamma3 = 0;
    Cfg c = gen_cfg(s, o);
    if (s.flip()) c.mirror = false;
    World w(c);
    Ref& r = w.ref;
    int n = 60;
    for (int i = 0; i < n; i++) {
        Site a = gsite(s, c), b = s.below(3) ? gsite(s, c) : a;
        int64_t ka = gk(s, c.T), kb = s.below(4) ? gk(s, c.T) : ka;
        double ta = tval(ka, c.beta), tb = tval(kb, c.beta);
        int dx = s.below(c.Lx), dy = s.below(c.Ly);
        Site a2 = moved(a, dx, dy, c), b2 = moved(b, dx, dy, c);
        int64_t sh = s.word();
        int64_t ka2 = red(ka + sh), kb2 = red(kb + sh);
        double ta2 = tval(ka2, c.beta), tb2 = tval(kb2, c.beta);
        int wraps = ((ka + sh) >= ONE) + ((kb + sh) >= ONE);
        int bin = gbin(kb - ka, c.T, c.beta);
        int sgn = kb > ka ? 1 : -1;
        if (bin < 0 && kb != ka) continue;
        if (bin < 0) bin = 0; // equal times: first bin, from below
        std::ostringstream arg;
        arg << say(a) << " t=" << ta << " to " << say(b) << " t=" << tb << "; " << c.str();
        if (!(a == b) || ka != kb) s.nontrivial(arg.str());
        bool edge = ka == kb && c.T; // a common shift of equal times keeps them equal
        (void)edge;
        // fermion line
        spin s1 = spin(s.below(2)), s2 = spin(s.below(2));
        cd want = (double)sgn * at(r.G, r.ig(s1, a.Sublattice, s2, b.Sublattice, r.disp(a, b), bin));
        auto same = [&](const Complex& got, cd v, const char* what) { CHECK(close(C(got), v, 1e-13), what, what << ": " << C(got) << " instead of " << v << " for " << arg.str()); };
        same(w.weight.G->Weight(a, b, ta, tb, s1, s2, false, false), want, "g_lookup");
        same(w.weight.G->Weight(IN, a, b, ta, tb, s1, s2, false, false), want, "g_forward");
        same(w.weight.G->Weight(OUT, b, a, tb, ta, s2, s1, false, false), want, "g_backward");
        same(w.weight.G->Weight(a2, b2, ta, tb, s1, s2, false, false), want, "g_translation");
        if (kb != ka) same(w.weight.G->Weight(a, b, ta2, tb2, s1, s2, false, false), wraps == 1 ? -want : want, "g_timeshift");
        same(w.weight.G->Weight(a, b, ta, tb, s1, s2, true, false), 1, "g_measure");
        same(w.weight.G->Weight(IN, a, b, ta, tb, s1, s2, true, false), 1, "g_measure");
        same(w.weight.G->Weight(OUT, a, b, ta, tb, s1, s2, true, false), 1, "g_measure");
        // interaction
        spin p[2] = {spin(s.below(2)), spin(s.below(2))}, q[2] = {spin(s.below(2)), spin(s.below(2))};
        int sp = p[0] * 2 + p[1], sq = q[0] * 2 + q[1];
        spin p0[2] = {p[0], p[1]}, q0[2] = {q[0], q[1]};
        bool worm = s.below(3) == 0;
        if (worm) sp = sq = 3;
        cd ws = at(r.Ws, r.iw(sp, a.Sublattice, sq, b.Sublattice, r.disp(a, b), bin)), wd = at(r.Wd, r.id(sp, a.Sublattice, sq, b.Sublattice, r.disp(a, b)));
        same(w.weight.W->Weight(a, b, ta, tb, p, q, worm, false, false, false), ws, "w_lookup");
        same(w.weight.W->Weight(IN, a, b, ta, tb, p, q, worm, false, false, false), ws, "w_forward");
        same(w.weight.W->Weight(OUT, b, a, tb, ta, q, p, worm, false, false, false), ws, "w_backward");
        same(w.weight.W->Weight(a2, b2, ta2, tb2, p, q, worm, false, false, false), ws, "w_shift");
        same(w.weight.W->Weight(a, b, ta, tb, p, q, worm, true, false, false), 1, "w_measure");
        same(w.weight.W->Weight(IN, a, b, ta, tb, p, q, worm, true, false, false), 1, "w_measure");
        same(w.weight.W->Weight(OUT, a, b, ta, tb, p, q, worm, true, false, false), 1, "w_measure");
        double any = s.flip() ? ta2 : tb;
        same(w.weight.W->Weight(a2, b2, ta, any, p, q, worm, false, true, false), wd, "delta_lookup");
        same(w.weight.W->Weight(IN, a, b, ta, any, p, q, worm, false, true, false), wd, "delta_forward");
        same(w.weight.W->Weight(OUT, b, a, any, ta, q, p, worm, false, true, false), wd, "delta_backward");
        CHECK(p[0] == p0[0] && p[1] == p0[1] && q[0] == q0[0] && q[1] == q0[1], "w_spins", "a lookup changed the spins it was given");
    }
}
// ---------------------------------------------------------------- M09
PROP(M09, "a table with more than one site, sublattice or time bin, every index visited")
{
    Cfg c;
    c.Lx = s.range(1, 7);
    c.Ly = s.range(1, 7);
    c.NSub = s.range(1, 4);
    c.T = s.below(4) ? s.range(1, 9) : s.range(10, 200);
    static const double B[] = {1.0, 0.9, 0.7, 3.3, 20.0, 0.05};
    c.beta = s.flip() ? B[s.below(6)] : s.real(0.1, 30);
    int size[2] = {c.Lx, c.Ly};
    Lattice lat{Vec<int>(size), c.NSub};
    std::string d = c.str();
    CHECK(lat.Vol == c.Vol() && lat.SublatVol == c.NSub && lat.Dimension == D && lat.Size == Vec<int>(size), "lattice", "lattice of " << d << " has volume " << lat.Vol);
    // lattice
    std::vector<int> seen(c.Vol(), 0);
    for (int x = 0; x < c.Lx; x++)
        for (int y = 0; y < c.Ly; y++) {
            Vec<int> v(0);
            v[0] = x;
            v[1] = y;
            int i = lat.Vec2Index(v);
            CHECK(i == x * c.Ly + y, "vec2index", "index of " << v << " is " << i << "; " << d);
            CHECK(lat.Vec2Index({x, y}) == i, "vec2index", "the two forms differ for " << v);
            CHECK(lat.Index2Vec(i) == v, "index2vec", "vector of " << i << " is " << lat.Index2Vec(i) << "; " << d);
            seen[i]++;
        }
    for (int n : seen) CHECK(n == 1, "vec2index", "an index is hit " << n << " times; " << d);
    for (int i = 0; i < 20; i++) {
        Site a = gsite(s, c), b = gsite(s, c), a2 = a, b2 = b;
        int lim = s.flip() ? 1 : 4;
        for (int k = 0; k < D; k++) {
            a2.Coordinate[k] += lat.Size[k] * s.range(-lim, lim);
            b2.Coordinate[k] += lat.Size[k] * s.range(-lim, lim);
        }
        Ref r;
        r.c = c;
        int want = r.disp(a, b);
        CHECK(lat.CoordiIndex(a, b) == want, "coordi", "displacement of " << say(a) << say(b) << " is " << lat.CoordiIndex(a, b) << " instead of " << want << "; " << d);
        CHECK(lat.CoordiIndex(a2, b2) == want, "coordi_periodic", "displacement of " << say(a2) << say(b2) << " is " << lat.CoordiIndex(a2, b2) << " instead of " << want << "; " << d);
        Vec<int> v = b2.Coordinate;
        lat.Shift(v);
        CHECK(v == b.Coordinate, "shift", "vector " << b2.Coordinate << " shifts to " << v << "; " << d);
    }
    // times
    for (int sym = 0; sym < 2; sym++) {
        auto S = sym ? weight::TauAntiSymmetric : weight::TauSymmetric;
        Map2 m2(c.beta, c.T, lat, S);
        Map4 m4(c.beta, c.T, lat, S);
        std::vector<const weight::IndexMap*> maps{&m2, &m4};
        for (auto m : maps) {
            CHECK(m->Beta == c.beta && (int)m->MaxTauBin == c.T && m->Symmetry == S, "map", "map of " << d);
            for (int b = 0; b < c.T; b++) {
                double t = m->IndexToTau(b);
                CHECK(t > 0 && t < c.beta && std::fabs(t - (b + 0.5) * c.beta / c.T) < 1e-12 * c.beta, "bin_time", "bin " << b << " is at " << t << "; " << d);
                CHECK(m->TauIndex(t) == b && m->TauIndex(t - c.beta) == b, "time_bin", "time " << t << " of bin " << b << " is in bin " << m->TauIndex(t) << "/" << m->TauIndex(t - c.beta) << "; " << d);
            }
            for (int i = 0; i < 20; i++) {
                int64_t ka = gk(s, c.T), kb = gk(s, c.T);
                double ta = tval(ka, c.beta), tb = tval(kb, c.beta);
                int b = gbin(kb - ka, c.T, c.beta), got = m->TauIndex(ta, tb);
                CHECK(got >= 0 && got < c.T && (b < 0 || b == got), "time_bin", "times " << ta << "," << tb << " are in bin " << got << " instead of " << b << "; " << d);
                CHECK(m->TauIndex(tb - ta) == got, "time_bin", "the two forms of TauIndex differ for " << ta << "," << tb);
                CHECK(m->GetTauSymmetryFactor(ta, tb) == (kb > ka ? 1 : sym ? -1 : 1), "time_sign", "sign for times " << ta << "," << tb << " is " << m->GetTauSymmetryFactor(ta, tb));
            }
        }
        if (c.beta == 1.0 && (c.T & (c.T - 1)) == 0) // binary grids: every edge is exact and opens its bin, one period earlier as well
            for (int b = 0; b < c.T; b++)
                for (int j = 0; j < 2; j++) {
                    const weight::IndexMap* m = j ? (const weight::IndexMap*)&m2 : &m4;
                    double t = (double)b / c.T;
                    CHECK(m->TauIndex(t) == b && m->TauIndex(t - 1.0) == b && m->TauIndex(0.0, t) == b && (t == 0 || m->TauIndex(1.0 - t, 0.0) == b), "time_edge", "the edge of bin " << b << " is in bins " << m->TauIndex(t) << "," << m->TauIndex(t - 1.0) << "; " << d);
                }
        // full enumeration
        for (int ns = 2; ns <= 4; ns += 2) {
            size_t N = (size_t)ns * ns * c.NSub * c.NSub * c.Vol();
            uint want[6] = {(uint)ns, (uint)c.NSub, (uint)ns, (uint)c.NSub, (uint)c.Vol(), (uint)c.T};
            const uint* sh = maps[ns / 4]->GetShape();
            for (int k = 0; k < 6; k++) CHECK(sh[k] == want[k], "shape", "dimension " << k << " is " << sh[k] << "; " << d);
            size_t flat = 0, budget = 30000;
            bool all = N * c.T <= budget;
            uint64_t x = s.word();
            for (int p = 0; p < ns; p++)
                for (int a = 0; a < c.NSub; a++)
                    for (int q = 0; q < ns; q++)
                        for (int b = 0; b < c.NSub; b++)
                            for (int v = 0; v < c.Vol(); v++) {
                                x = pbt::mix(x + flat);
                                Site ra(a), rb(b);
                                ra.Coordinate[0] = x % c.Lx; ra.Coordinate[1] = (x >> 8) % c.Ly;
                                rb.Coordinate[0] = (ra.Coordinate[0] + v / c.Ly) % c.Lx;
                                rb.Coordinate[1] = (ra.Coordinate[1] + v % c.Ly) % c.Ly;
                                spin pp[2] = {spin(p / 2), spin(p % 2)}, qq[2] = {spin(q / 2), spin(q % 2)};
                                uint g = ns == 2 ? m2.GetIndex(spin(p), spin(q), ra, rb) : m4.GetIndex(pp, qq, ra, rb);
                                CHECK(g == flat, "delta_index", "instantaneous index " << g << " instead of " << flat << " for spins " << p << q << " " << say(ra) << say(rb) << "; " << d);
                                if (all || x % (N * c.T / budget + 1) == 0)
                                    for (int t = 0; t < c.T; t++) {
                                        double dt = (t + 0.5) / c.T, t0 = ((x >> 16) % 1000) / 1000.0, t1 = t0 + dt;
                                        if (t1 >= 1) t1 -= 1;
                                        t0 *= c.beta;
                                        t1 *= c.beta;
                                        g = ns == 2 ? m2.GetIndex(spin(p), spin(q), ra, rb, t0, t1) : m4.GetIndex(pp, qq, ra, rb, t0, t1);
                                        CHECK(g == flat * c.T + t, "smooth_index", "index " << g << " instead of " << flat * c.T + t << " for spins " << p << q << " " << say(ra) << say(rb) << " times " << t0 << "," << t1 << "; " << d);
                                    }
                                flat++;
                            }
            CHECK(flat == N, "size", "size");
        }
    }
    for (int i = 0; i < 4; i++) CHECK(Map2::IsSameSpin(i) == (i / 2 == i % 2), "samespin", "IsSameSpin(" << i << ")");
    if (c.Vol() > 1 || c.NSub > 1 || c.T > 1) s.nontrivial(d);
}
// ---------------------------------------------------------------- statistics read back through the exported dictionaries
struct Stat {
    std::vector<cd> a;
    double norm = 0, factor = 0;
    std::vector<uint> shape;
};
static Stat read_stat(const Dictionary& d)
{
    Stat s;
    auto arr = d.Get<Python::ArrayObject>("WeightAccu");
    Complex* p = arr.Data<Complex>();
    s.a.resize(arr.Size());
    for (size_t i = 0; i < s.a.size(); i++) s.a[i] = C(p[i]);
    for (auto x : arr.Shape()) s.shape.push_back((uint)x);
    s.norm = d.Get<double>("NormAccu");
    s.factor = d.Get<double>("Norm");
    return s;
}
static Stat hist(const Dictionary& d) { return read_stat(d.Get<Dictionary>("Histogram").Get<Dictionary>("SmoothT")); }
static void cmp(const char* what, const Stat& got, const std::vector<cd>& want, double norm, const std::string& ctx)
{
    CHECK(got.a.size() == want.size(), "stat_size", what << " holds " << got.a.size() << " entries instead of " << want.size());
    for (size_t i = 0; i < want.size(); i++) CHECK(close(got.a[i], want[i], 1e-10, 1e-10), what, what << " entry " << i << " is " << got.a[i] << " instead of " << want[i] << "; " << ctx);
    CHECK(std::fabs(got.norm - norm) <= 1e-10 * (1 + norm), what, what << " normalisation is " << got.norm << " instead of " << norm << "; " << ctx);
}
static const cd I1(0, 1);
// ---------------------------------------------------------------- M21
struct GWEntry { size_t i; cd v; };
static GWEntry gw_entry(const Ref& r, int ri, int ti, int cls, cd x)
{
    GWEntry e;
    e.i = (size_t)r.RSq[ri] * r.TSize + r.TSq[ti] + (cls >= 4 ? (size_t)r.RSize * r.TSize : 0);
    cd v = x / (double)(r.RSym[ri] * r.TSym[ti]);
    if (r.TFlag[ti]) v = -std::conj(v);
    if (cls == 2 || cls == 3) v = -v;
    if (cls == 4) v = v / 2.0;
    if (cls == 5) v = -std::conj(v) / 2.0;
    e.v = v;
    return e;
}
PROP(M21, "a lookup or an accumulation whose external point differs from both ends")
{
    CfgOpt o;
    o.maxL = 4; o.maxSub = 1; o.maxT = 7; o.maxOrder = 1; o.gamma3 = 1;
    Cfg c = gen_cfg(s, o);
    World w(c);
    Ref& r = w.ref;
    std::vector<cd> ag((size_t)2 * c.Vol() * c.T * c.T, 0), aw((size_t)2 * r.RSize * r.TSize, 0);
    double ng = 0, nw = 0;
    static const int P[6][2] = {{3, 3}, {0, 0}, {3, 0}, {0, 3}, {2, 1}, {1, 2}}; // (outgoing end, incoming end) of each class
    std::ostringstream log;
    for (int i = 0; i < 40; i++) {
        Site a = gsite(s, c), b = s.below(3) ? gsite(s, c) : a, u = s.below(3) ? gsite(s, c) : a;
        int64_t ka = gk(s, c.T), kb = s.below(4) ? gk(s, c.T) : ka, ku = s.below(5) ? gk(s, c.T) : kb, sh = s.word();
        double ta = tval(ka, c.beta), tb = tval(kb, c.beta), tu = tval(ku, c.beta);
        double ta2 = tval(red(ka + sh), c.beta), tb2 = tval(red(kb + sh), c.beta), tu2 = tval(red(ku + sh), c.beta);
        int dx = s.below(c.Lx), dy = s.below(c.Ly);
        Site a2 = moved(a, dx, dy, c), b2 = moved(b, dx, dy, c), u2 = moved(u, dx, dy, c);
        weight::ExtPoint e, e2;
        e.R = u; e.Tau = tu; e.Spin = UP;
        e2.R = u2; e2.Tau = tu2; e2.Spin = UP;
        std::ostringstream arg;
        arg << say(a) << " t=" << ta << " " << say(b) << " t=" << tb << " external " << say(u) << " t=" << tu << "; " << c.str();
        if (ka != ku && kb != ku && !(a == u)) s.nontrivial(arg.str());
        auto same = [&](const Complex& got, cd v, const char* what) { CHECK(close(C(got), v, 1e-13), what, what << ": " << C(got) << " instead of " << v << " for " << arg.str()); };
        auto bin = [&](int64_t k, int n) { int x = gbin(k, n, c.beta); return red(k) == 0 ? 0 : x; };
        cd x(s.range(-3, 3), s.range(-3, 3) / 2.0);
        // fermion line
        spin sp = spin(s.below(2));
        int i1 = bin(kb - ku, c.T), i2 = bin(ka - ku, c.T);
        if (i1 >= 0 && i2 >= 0) {
            int sg = (kb < ku ? -1 : 1) * (ka < ku ? -1 : 1);
            size_t idx = ((sp * (size_t)c.Vol() + r.disp(a, u)) * c.T + i1) * c.T + i2;
            cd want = (double)sg * r.GG[idx];
            same(w.weight.G->Weight(a, b, ta, tb, sp, sp, false, true, &e), want, "gg_lookup");
            same(w.weight.G->Weight(IN, a, b, ta, tb, sp, sp, false, true, &e), want, "gg_forward");
            same(w.weight.G->Weight(OUT, b, a, tb, ta, sp, sp, false, true, &e), want, "gg_backward");
            same(w.weight.GammaG->Weight(a, b, u, ta, tb, tu, sp, sp, UP), want, "gg_direct");
            e2.Tau = tu;
            same(w.weight.G->Weight(a2, b2, ta, tb, sp, sp, false, true, &e2), want, "gg_translation");
            e2.Tau = tu2;
            int wr = ((ka + sh) >= ONE) + ((kb + sh) >= ONE); // a wrap of the external point flips both signs
            same(w.weight.G->Weight(a, b2, ta2, tb2, sp, sp, false, true, &(e2.R = u, e2)), wr == 1 ? -want : want, "gg_timeshift");
            e2.R = u2;
            if (s.flip()) {
                w.weight.GammaG->Measure(a, b, u, ta, tb, tu, sp, sp, UP, Complex(x.real(), x.imag()));
                ag[idx] += (double)sg * x;
                log << "G" << idx << " ";
            }
        }
        // interaction
        int cls = s.below(6);
        spin so[2] = {spin(P[cls][0] / 2), spin(P[cls][0] % 2)}, si[2] = {spin(P[cls][1] / 2), spin(P[cls][1] % 2)};
        int j1 = bin(kb - ku, c.TT), j2 = bin(ka - ku, c.TT);
        if (j1 >= 0 && j2 >= 0) {
            int ri = r.disp(b, u) * c.Vol() + r.disp(a, u), ti = j1 * c.TT + j2;
            if (r.TFlag[ti]) ri = r.disp(a, u) * c.Vol() + r.disp(b, u); // the stored entry has its two ends exchanged
            cd want = r.GW[(size_t)r.RSq[ri] * r.TSize + r.TSq[ti] + (cls >= 4 ? (size_t)r.RSize * r.TSize : 0)];
            if (r.TFlag[ti]) want = -std::conj(want);
            if (cls == 2 || cls == 3) want = -want;
            if (cls == 4) want = -std::conj(want);
            same(w.weight.W->Weight(a, b, ta, tb, si, so, false, false, false, true, &e), want, "gw_lookup");
            same(w.weight.W->Weight(IN, a, b, ta, tb, si, so, false, false, false, true, &e), want, "gw_forward");
            same(w.weight.W->Weight(OUT, b, a, tb, ta, so, si, false, false, false, true, &e), want, "gw_backward");
            same(w.weight.GammaW->Weight(a, b, u, ta, tb, tu, si, so, UP), want, "gw_direct");
            same(w.weight.W->Weight(a2, b2, ta2, tb2, si, so, false, false, false, true, &e2), want, "gw_shift");
            if (s.flip()) {
                w.weight.GammaW->Measure(a, b, u, ta, tb, tu, si, so, UP, Complex(x.real(), x.imag()));
                auto en = gw_entry(r, ri, ti, cls, x);
                aw[en.i] += en.v;
                log << "W" << en.i << " ";
                // spins reversed at both ends, the accumulated entry undoes the lookup
                int rc = cls == 4 ? 5 : cls == 5 ? 4 : cls < 2 ? 1 - cls : 5 - cls;
                spin so2[2] = {spin(1 - so[0]), spin(1 - so[1])}, si2[2] = {spin(1 - si[0]), spin(1 - si[1])};
                (void)rc;
                cd f = C(w.weight.GammaW->Weight(a, b, u, ta, tb, tu, si2, so2, UP)) / (double)(r.RSym[ri] * r.TSym[ti]) / (cls >= 4 ? 2.0 : 1.0);
                auto back = gw_entry(r, ri, ti, cls, C(w.weight.GammaW->Weight(a, b, u, ta, tb, tu, si2, so2, UP)));
                CHECK(back.i == en.i && close(back.v, r.GW[en.i] / (double)(r.RSym[ri] * r.TSym[ti]) / (cls >= 4 ? 2.0 : 1.0), 1e-12), "gw_inverse", "accumulating what is looked up does not give the table entry: " << back.v << " for " << arg.str() << f);
            }
        }
        if (s.below(8) == 0) { double n = s.range(1, 9) / 2.0; w.weight.GammaG->MeasureNorm(n); ng += n; w.weight.GammaW->MeasureNorm(n / 2); nw += n / 2; }
        if (s.below(25) == 0) {
            double f = s.range(1, 5) / 2.0;
            w.weight.GammaG->SqueezeStatistics(f);
            w.weight.GammaW->SqueezeStatistics(f);
            for (auto& z : ag) z /= f;
            for (auto& z : aw) z /= f;
            ng /= f;
            nw /= f;
            log << "squeeze ";
        }
        if (s.below(60) == 0) {
            w.weight.GammaG->ClearStatistics();
            w.weight.GammaW->ClearStatistics();
            std::fill(ag.begin(), ag.end(), 0);
            std::fill(aw.begin(), aw.end(), 0);
            ng = nw = 0;
            log << "clear ";
        }
        if (s.below(60) == 0) {
            double f = -s.range(0, 2);
            int thrown = 0;
            try { w.weight.GammaG->SqueezeStatistics(f); } catch (std::exception&) { thrown++; }
            try { w.weight.GammaW->SqueezeStatistics(f); } catch (std::exception&) { thrown++; }
            CHECK(thrown == 2, "squeeze", "squeezing by " << f << " is not refused");
        }
    }
    Stat sg = read_stat(w.weight.GammaG->StatisToDict()), sw = read_stat(w.weight.GammaW->StatisToDict());
    cmp("gg_accumulate", sg, ag, ng, log.str() + c.str());
    cmp("gw_accumulate", sw, aw, nw, log.str() + c.str());
}
// ---------------------------------------------------------------- M06
PROP(M06, "a history that filled a histogram with contributions from at least two different bins")
{
    CfgOpt o;
    o.maxL = 3; o.maxSub = 2; o.maxT = 5; o.maxOrder = 3; o.gamma3 = 3; o.zeros = false; o.deep = 8;
    Cfg c = gen_cfg(s, o);
    World w(c);
    Ref& r = w.ref;
    auto& D = w.diag;
    size_t NG = (size_t)4 * c.NSub * c.NSub * c.Vol() * c.T, NW = 4 * NG;
    std::vector<cd> sg(NG * c.order, 0), po(NW * c.order, 0), gg, gw;
    if (c.gamma3) { gg.assign((size_t)2 * c.Vol() * c.T * c.T, 0); gw.assign((size_t)2 * r.RSize * r.TSize, 0); }
    double ns = 0, np = 0, ngg = 0, ngw = 0;
    std::vector<double> worm(c.order + 1, 0), phy(c.order + 1, 0);
    double cS = 0, cP = 0, cG = 0, cW = 0;
    std::set<std::pair<int, size_t>> bins;
    auto verify = [&](const std::string& ctx) {
        cmp("sigma", hist(w.weight.Sigma->ToDict()), sg, ns, ctx);
        cmp("polar", hist(w.weight.Polar->ToDict()), po, np, ctx);
        if (c.gamma3) {
            cmp("gammag", read_stat(w.weight.GammaG->StatisToDict()), gg, ngg, ctx);
            cmp("gammaw", read_stat(w.weight.GammaW->StatisToDict()), gw, ngw, ctx);
        }
        for (int i = 0; i <= c.order; i++) {
            CHECK(w.mon.WormEstimator[i].Value() == worm[i] && w.mon.WormEstimator[i].Norm() == worm[i] + 1, "worm_count", "order " << i << " worm counter " << w.mon.WormEstimator[i].Value() << " instead of " << worm[i] << "; " << ctx);
            CHECK(w.mon.PhyEstimator[i].Value() == phy[i] && w.mon.PhyEstimator[i].Norm() == phy[i] + 1, "phy_count", "order " << i << " counter " << w.mon.PhyEstimator[i].Value() << " instead of " << phy[i] << "; " << ctx);
        }
        CHECK(w.mon.SigmaEstimator.Value() == cS && w.mon.PolarEstimator.Value() == cP, "sector_count", "sector counters " << w.mon.SigmaEstimator.Value() << "," << w.mon.PolarEstimator.Value() << " instead of " << cS << "," << cP << "; " << ctx);
        if (c.gamma3) CHECK(w.mon.GammaGEstimator.Value() == cG && w.mon.GammaWEstimator.Value() == cW, "gamma_count", "vertex counters " << w.mon.GammaGEstimator.Value() << "," << w.mon.GammaWEstimator.Value() << " instead of " << cG << "," << cW << "; " << ctx);
    };
    int n = s.range(1, 60);
    std::ostringstream log;
    log << c.str() << ":";
    Steps steps;
    for (int k = 0; k < n; k++) {
        Step st = steps.next(s, w);
        do_step(w, st);
        log << " " << op_name(w, st.op);
        int times = s.below(4) == 0 ? 2 : 1;
        for (int q = 0; q < times; q++) {
            w.mon.Measure();
            int N = D.Order;
            double ow = 1.0 / c.orderRe[N];
            cd ph = C(D.Phase);
            bool gam = c.gamma3 && D.HasGammaGW != 0;
            if (D.Worm.Exist) {
                worm[N]++;
                if (!gam) (D.MeasureGLine ? cS : cP)++;
                continue;
            }
            phy[N]++;
            if (N == 0) {
                if (D.MeasureGLine) { ns += ow; if (c.gamma3) ngg += ow; }
                else { np += ow; if (c.gamma3) ngw += ow; }
                continue;
            }
            if (D.MeasureGLine) {
                diag::Vertex *a = D.GMeasure->nVer[OUT], *b = D.GMeasure->nVer[IN];
                int sp = a->_spin[IN];
                if (!gam) {
                    cS++;
                    size_t i = r.ig(sp, a->R.Sublattice, b->_spin[OUT], b->R.Sublattice, r.disp(a->R, b->R), r.bin(b->Tau - a->Tau, c.T));
                    i += (N - 1) * NG;
                    sg[i] += ph * ow * (b->Tau > a->Tau ? 1.0 : -1.0);
                    bins.insert(std::make_pair(0, i));
                    s.tag("sigma");
                }
                else {
                    cG++;
                    double sgn;
                    size_t i = r.igg(a->R, D.UExt.R, a->Tau, b->Tau, D.UExt.Tau, sp, sgn);
                    gg[i] += ph * ow / c.ggRe * sgn;
                    bins.insert(std::make_pair(2, i));
                    s.tag("gammaG");
                }
            }
            else {
                if (!gam) {
                    diag::Vertex *a = D.WMeasure->nVer[OUT], *b = D.WMeasure->nVer[IN];
                    cP++;
                    size_t i = r.iw(World::sp2(a), a->R.Sublattice, World::sp2(b), b->R.Sublattice, r.disp(a->R, b->R), r.bin(b->Tau - a->Tau, c.T)) + (N - 1) * NW;
                    po[i] -= ph * ow;
                    bins.insert(std::make_pair(1, i));
                    s.tag("polar");
                }
                else {
                    diag::Vertex *a = D.WMeasure->nVer[IN], *b = D.WMeasure->nVer[OUT];
                    cW++;
                    int ri, ti;
                    r.igw(a->R, b->R, D.UExt.R, a->Tau, b->Tau, D.UExt.Tau, ri, ti);
                    int cls = Ref::spincls(World::sp2(b), World::sp2(a));
                    CHECK(cls >= 0, "gw_class", "spins of the measured interaction do not conserve current");
                    auto e = gw_entry(r, ri, ti, cls, ph * ow / c.gwRe);
                    gw[e.i] += e.v;
                    bins.insert(std::make_pair(3, e.i));
                    s.tag("gammaW");
                }
            }
        }
        if (NW * c.order < 20000 ? s.below(4) == 0 : k % 20 == 0) verify(log.str());
    }
    verify(log.str());
    if (bins.size() > 1) s.nontrivial(log.str());
}
int main(int argc, char** argv)
{
    py_init();
    quiet();
    return pbt::main_(argc, argv);
}
