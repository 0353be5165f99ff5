// M10 random numbers, M11 complex arithmetic, M12 momenta and lattice vectors, M13 component pool.
#include "world.h"
#include "utility/rng.h"
#include "utility/complex.h"
#include "utility/momentum.h"
#include "utility/vector.h"
#include "module/diagram/component_bundle.h"
#include <complex>
using pbt::Src; using pbt::main_;
typedef std::complex<long double> ld;
// ---------------------------------------------------------------- M10
static uint32_t untemper(uint32_t y)
{
    y ^= y >> 18;
    y ^= (y << 15) & 0xefc60000u;
    uint32_t x = y;
    for (int i = 0; i < 5; i++) x = y ^ ((x << 7) & 0x9d2c5680u);
    y = x;
    x = y;
    for (int i = 0; i < 3; i++) x = y ^ (x >> 11);
    return x;
}
struct Draw { int kind, a, b; };
static double draw(RandomFactory& r, const Draw& d) { return d.kind ? (double)r.irn(d.a, d.b) : r.urn(); }
static void check_draw(const Draw& d, double v)
{
    if (d.kind) CHECK(v >= d.a && v <= d.b, "irn_range", "irn(" << d.a << "," << d.b << ") gave " << v);
    else CHECK(v >= 0.0 && v < 1.0, "urn_range", "urn() gave " << v);
}
static Draw gen_draw(Src& s)
{
    Draw d{0, 0, 0};
    if (s.flip()) return d;
    d.kind = 1;
    int span = s.below(4) ? (int)s.below(s.flip() ? 6 : 40) : (int)s.below(100000);
    d.a = s.range(-30, 30) * (s.below(5) ? 1 : 1000);
    d.b = d.a + span;
    return d;
}
static std::string transport(Src& s, RandomFactory& from, RandomFactory& to)
{
    int how = s.below(6);
    if (how == 0) { std::stringstream t; t << from; t >> to; return "stream"; }
    if (how == 1) { to.Reset(ToString(from)); return "Reset(text)"; }
    if (how == 2) { to = RandomFactory(ToString(from)); return "constructor"; }
    if (how == 3) { std::ostringstream t; t << from; std::istringstream i("  " + t.str() + " 7 8"); i >> to; return "embedded text"; }
    para::ParaMC p, q;
    Cfg c;
    c.orderRe = {1, 1, 1};
    c.timeRatio = {1, 1, 1};
    fill_para(p, c);
    fill_para(q, c);
    p.RNG = from;
    q.RNG = to;
    if (how == 4) { q.FromDict(p.ToDict()); to = q.RNG; return "parameter dictionary"; }
    Dictionary d, e;
    d["Para"] = p.ToDict();
    d.Save("rng_state", "w");
    e.Load("rng_state");
    q.FromDict(e.Get<Dictionary>("Para"));
    to = q.RNG;
    return "parameter file";
}
PROP(M10, "a stream of at least two draws compared between two routes (interleaving, transport or reseeding), or a distribution of at least 20000 draws")
{
    int mode = s.below(20);
    int seed = (int)s.word();
    if (mode >= 12 && mode < 14) { // distribution
        RandomFactory r(seed);
        int kind = s.below(4), n = kind == 0 ? 64 : s.range(2, 50), from = s.range(-20, 20);
        bool other = s.flip();
        auto chi = [&](RandomFactory& r, long N) {
            std::vector<double> h(n, 0);
            for (long i = 0; i < N; i++) {
                int k;
                if (other) { if (kind == 3) r.irn(0, 5); else r.urn(); }
                if (kind == 0) k = (int)(r.urn() * n);
                else if (kind == 1) { double x = r.urn() * 4096; k = (int)((x - std::floor(x)) * n); } // low bits
                else if (kind == 2) k = r.irn(from, from + n - 1) - from;
                else { double a = r.urn(), b = r.urn(); double x = a + b; k = (int)((x - std::floor(x)) * n); } // successive pair
                CHECK(k >= 0 && k < n, "range", "value outside its interval");
                h[k]++;
            }
            double c = 0, e = (double)N / n;
            for (double x : h) c += (x - e) * (x - e) / e;
            return (c - (n - 1)) / std::sqrt(2.0 * (n - 1));
        };
        double z = chi(r, 20000);
        s.tag("distribution");
        if (z > 7) {
            RandomFactory q(seed ^ 0x1234567);
            double z2 = chi(q, 400000);
            CHECK(z2 < 7, "uniform", "kind " << kind << " over " << n << " values deviates from uniform by " << z2 << " sigma");
        }
        s.nontrivial("distribution kind " + std::to_string(kind) + " n=" + std::to_string(n));
        return;
    }
    if (mode >= 14 && mode < 17) { // the next machine word is chosen
        static const uint32_t W[] = {0u, 1u, 0x7fffffffu, 0x80000000u, 0x80000001u, 0xffffffffu, 0xfffffffeu, 0x40000000u};
        RandomFactory r(seed), q(1);
        std::istringstream t(ToString(r));
        std::vector<std::string> w;
        std::string x;
        while (t >> x) w.push_back(x);
        if (w.size() != 625) return;
        int pos = s.below(600);
        uint32_t word = s.below(3) ? W[s.below(8)] : s.word();
        for (int i = 0; i < 8; i++) w[pos + i] = std::to_string(untemper(word));
        w[624] = std::to_string(pos);
        x.clear();
        for (auto& y : w) x += (x.empty() ? "" : " ") + y;
        q.Reset(x);
        if (ToString(q) != x) return; // another engine
        for (int i = 0; i < 8; i++) { Draw d = gen_draw(s); check_draw(d, draw(q, d)); }
        s.tag("chosen_word");
        s.nontrivial("next word " + std::to_string(word));
        return;
    }
    int n = s.range(2, 40);
    int skip = s.below(4) == 0 ? s.range(600, 1300) : s.below(10);
    RandomFactory a(seed), b(seed);
    if (s.flip()) { b = RandomFactory((int)s.word()); for (int i = s.below(5); i > 0; i--) b.urn(); b.Reset(seed); }
    for (int i = 0; i < skip; i++) {
        a.urn();
        if (s.pos % 2 || i % 3 == 0) b.irn(0, i);
        else b.urn();
    }
    std::string how = "interleaving";
    std::vector<double> va, vb;
    std::vector<Draw> ds;
    int at = s.range(0, n - 1);
    int what = s.below(4); // 0 interleave, 1.. transport of the state
    for (int i = 0; i < n; i++) {
        if (i == at && what) {
            RandomFactory c((int)s.word());
            for (int k = s.below(3); k > 0; k--) c.urn();
            how = transport(s, a, c);
            a = c;
        }
        Draw d = gen_draw(s);
        ds.push_back(d);
        // b sees other kinds of draws on the way and the same kind with probability 1/2
        bool same = s.flip();
        Draw e = same ? d : gen_draw(s);
        double x = draw(a, d), y = draw(b, e);
        check_draw(d, x);
        check_draw(e, y);
        if (same) CHECK(x == y, "stream", "draw " << i << " of seed " << seed << " (" << how << " at " << at << ", skip " << skip << ") is " << x << " and " << y);
    }
    s.tag(how);
    s.nontrivial(how + " seed=" + std::to_string(seed) + " n=" + std::to_string(n) + " skip=" + std::to_string(skip));
}
// ---------------------------------------------------------------- M11
static double num(Src& s)
{
    switch (s.below(6)) {
    case 0: return s.range(-3, 3);
    case 1: return 0;
    case 2: return s.real(-2, 2);
    case 3: return s.real(-1, 1) * std::pow(10.0, s.range(-60, 60));
    case 4: return s.range(-1000, 1000) / 8.0;
    default: return s.real(-100, 100);
    }
}
static Complex cnum(Src& s)
{
    double a = num(s);
    switch (s.below(5)) {
    case 0: return Complex(a, 0);
    case 1: return Complex(0, a);
    default: return Complex(a, num(s));
    }
}
static ld L(const Complex& c) { return ld(c.Re, c.Im); }
static std::string str(const Complex& c) { std::ostringstream o; o.precision(17); o << "(" << c.Re << "," << c.Im << ")"; return o.str(); }
// scale: size of the terms the result is made of
static void same(const char* op, const Complex& got, ld want, long double scale, const std::string& args, double eps = 1e-13)
{
    long double e = std::abs(L(got) - want);
    CHECK(e <= eps * scale, op, op << " of " << args << " gives " << str(got) << " instead of (" << (double)want.real() << "," << (double)want.imag() << ")");
}
static bool fin(const Complex& c) { return std::isfinite(c.Re) && std::isfinite(c.Im) && std::max(std::fabs(c.Re), std::fabs(c.Im)) < 1e140; }
PROP(M11, "an operation on operands that are not all zero")
{
    Complex a = cnum(s), b = cnum(s);
    double r = num(s);
    int op = s.below(34);
    std::string args = str(a) + " " + str(b) + " " + std::to_string(r);
    long double A = std::abs(L(a)), B = std::abs(L(b)), R = std::fabs(r);
    Complex x = a;
    bool bz = B < 1e-70L, rz = R < 1e-70L, az = A < 1e-70L;
    if (!az || !bz) s.nontrivial("op " + std::to_string(op) + " " + args);
    s.tag("op" + std::to_string(op));
    switch (op) {
    case 0: same("a+b", a + b, L(a) + L(b), A + B, args); break;
    case 1: same("a-b", a - b, L(a) - L(b), A + B, args); break;
    case 2: same("a*b", a * b, L(a) * L(b), A * B, args); break;
    case 3: if (!bz) same("a/b", a / b, L(a) / L(b), A / B, args); break;
    case 4: same("a+r", a + r, L(a) + (long double)r, A + R, args); break;
    case 5: same("r+a", r + a, L(a) + (long double)r, A + R, args); break;
    case 6: same("a-r", a - r, L(a) - (long double)r, A + R, args); break;
    case 7: same("r-a", r - a, (long double)r - L(a), A + R, args); break;
    case 8: same("a*r", a * r, L(a) * (long double)r, A * R, args); break;
    case 9: same("r*a", r * a, L(a) * (long double)r, A * R, args); break;
    case 10: if (!rz) same("a/r", a / r, L(a) / (long double)r, A / R, args); break;
    case 11: if (!az) same("r/a", r / a, (long double)r / L(a), R / A, args); break;
    case 12: same("-a", -a, -L(a), A, args); same("+a", +a, L(a), A, args); break;
    case 13: x += b; same("a+=b", x, L(a) + L(b), A + B, args); break;
    case 14: x -= b; same("a-=b", x, L(a) - L(b), A + B, args); break;
    case 15: x *= b; same("a*=b", x, L(a) * L(b), A * B, args); break;
    case 16: if (!bz) { x /= b; same("a/=b", x, L(a) / L(b), A / B, args); } break;
    case 17: x += r; same("a+=r", x, L(a) + (long double)r, A + R, args); break;
    case 18: x -= r; same("a-=r", x, L(a) - (long double)r, A + R, args); break;
    case 19: x *= r; same("a*=r", x, L(a) * (long double)r, A * R, args); break;
    case 20: if (!rz) { x /= r; same("a/=r", x, L(a) / (long double)r, A / R, args); } break;
    case 21: // the operand is (part of) the number itself
        switch (s.below(12)) {
        case 0: x += x; same("a+=a", x, 2.0L * L(a), A, args); break;
        case 1: x -= x; same("a-=a", x, 0, A, args); break;
        case 2: x *= x; same("a*=a", x, L(a) * L(a), A * A, args); break;
        case 3: if (!az) { x /= x; same("a/=a", x, 1, 1, args); } break;
        case 4: x += x.Re; same("a+=a.Re", x, L(a) + (long double)a.Re, A, args); break;
        case 5: x -= x.Re; same("a-=a.Re", x, L(a) - (long double)a.Re, A, args); break;
        case 6: x *= x.Re; same("a*=a.Re", x, L(a) * (long double)a.Re, A * A, args); break;
        case 7: if (std::fabs(a.Re) > 1e-70) { x /= x.Re; same("a/=a.Re", x, L(a) / (long double)a.Re, A / std::fabs(a.Re), args); } break;
        case 8: x *= x.Im; same("a*=a.Im", x, L(a) * (long double)a.Im, A * A, args); break;
        case 9: if (std::fabs(a.Im) > 1e-70) { x /= x.Im; same("a/=a.Im", x, L(a) / (long double)a.Im, A / std::fabs(a.Im), args); } break;
        case 10: x = x; same("a=a", x, L(a), A, args); break;
        default: x = x.Im; same("a=a.Im", x, (long double)a.Im, A, args); break;
        }
        break;
    case 22: { Complex y = a; y = b; same("a=b", y, L(b), B, args); y = r; same("a=r", y, (long double)r, R, args); Complex z(a); same("copy", z, L(a), A, args); break; }
    case 23: same("conjugate", conjugate(a), std::conj(L(a)), A, args); CHECK(std::fabs((double)(mod(a) - A)) <= 1e-13 * A, "mod", "mod" << args << " = " << mod(a)); CHECK(std::fabs((double)(mod2(a) - A * A)) <= 1e-13 * A * A, "mod2", "mod2" << args); break;
    case 24: {
        if (az) { CHECK(phase(Complex(0, 0)).Re == 0 && phase(Complex(0, 0)).Im == 0, "phase", "phase of zero"); break; }
        same("phase", phase(a), L(a) / A, 1, args);
        break;
    }
    case 25: {
        double t = arg(a), w = std::arg(L(a));
        double d = std::fabs(t - w);
        if (a.Im == 0) d = std::fabs(std::fabs(t) - std::fabs(w)); // either side of the cut
        CHECK(d <= 1e-13, "arg", "arg" << args << " = " << t);
        if (!az) same("polar(mod,arg)", polar(mod(a), arg(a)), L(a), A, args);
        break;
    }
    case 26: if (std::fabs(a.Re) < 300 && std::fabs(a.Im) < 1e6) same("exp", exp(a), std::exp(L(a)), std::exp(std::abs((long double)a.Re)) * 0 + std::exp((long double)a.Re), args, 1e-10); break;
    case 27: {
        Complex q = sqrt(a);
        CHECK(q.Re >= 0, "sqrt_branch", "sqrt" << args << " = " << str(q));
        same("sqrt^2", q * q, L(a), A, args, 1e-12);
        if (a.Im != 0) CHECK((q.Im < 0) == (a.Im < 0) || std::fabs(q.Im) < 1e-12 * std::sqrt((double)A), "sqrt_branch", "sqrt" << args << " = " << str(q) << " is on the wrong side");
        if (a.Im == 0 && a.Re < 0) CHECK(q.Im > 0 || std::signbit(a.Im), "sqrt_branch", "sqrt" << args << " = " << str(q));
        break;
    }
    case 28: case 29: {
        // a^w = exp(w log a) on the principal branch
        Complex w(s.real(-4, 4), s.real(-4, 4));
        if (s.flip()) w = Complex(s.range(-5, 5), 0);
        bool real_ = op == 29;
        if (real_) w.Im = 0;
        if (az) {
            Complex q = real_ ? pow(Complex(0, 0), w.Re) : pow(Complex(0, 0), w);
            if (w.Re == 0 && w.Im == 0) same("0^0", q, 1, 1, str(w));
            else if (w.Re > 0) same("0^w", q, 0, 1, str(w));
            break;
        }
        if (A > 1e20L || A < 1e-20L) break;
        long double th = std::arg(L(a));
        ld lg(std::log(A), th), want = std::exp(L(w) * lg), alt = std::exp(L(w) * ld(std::log(A), -th));
        Complex q = real_ ? pow(a, w.Re) : pow(a, w);
        long double sc = std::abs(want) + (a.Im == 0 ? std::abs(alt) : 0);
        if (a.Im == 0 && std::signbit(a.Im) && std::abs(L(q) - want) > 1e-9L * sc) want = alt;
        same(real_ ? "pow(a,r)" : "pow(a,b)", q, want, sc, str(a) + " ^ " + str(w), 1e-9);
        break;
    }
    case 30: case 31: {
        int p = s.range(3, 17);
        std::ostringstream o;
        o.precision(p);
        if (op == 31) o << std::scientific;
        o << a;
        std::string t = o.str();
        if (s.flip()) { std::string u; for (char ch : t) { if (ch == ',' || ch == ')') u += " "; u += ch; if (ch == ',' || ch == '(') u += "  "; } t = u; }
        std::istringstream i(t);
        Complex y(9, 9);
        i >> y;
        CHECK(!i.fail(), "read", "cannot read back " << t);
        double e = p == 17 ? 0 : std::pow(10.0, -p + 1);
        CHECK(std::fabs(y.Re - a.Re) <= e * std::fabs(a.Re) && std::fabs(y.Im - a.Im) <= e * std::fabs(a.Im), "read", str(a) << " written as " << t << " reads " << str(y));
        break;
    }
    case 32: {
        std::ostringstream o;
        o.precision(17);
        o << a;
        std::string t = o.str();
        static const char bad[] = "[;<x";
        size_t k = s.below(3);
        char c = bad[s.below(4)];
        size_t p = k == 0 ? 0 : k == 1 ? t.find(',') : t.size() - 1;
        t[p] = c;
        std::istringstream i(t);
        Complex y;
        i >> y;
        CHECK(i.fail(), "read_bad", "accepted " << t);
        break;
    }
    default: {
        CHECK(Equal(a, a) && Equal(a, a.Re, a.Im), "equal", str(a) << " differs from itself");
        double e = 1e-6, dx = s.real(-3, 3) * e, dy = s.real(-3, 3) * e;
        Complex y(1 + dx, 2 + dy), o(1, 2);
        double m = std::max(std::fabs(y.Re - 1), std::fabs(y.Im - 2));
        if (std::fabs(m - e) > 1e-12) CHECK(Equal(y, o, e) == (m < e) && Equal(y, 1, 2, e) == (m < e), "equal", "Equal" << str(y));
        CHECK(IsZero(a) == (a.Re == 0 && a.Im == 0), "iszero", "IsZero" << str(a));
        break;
    }
    }
}
// ---------------------------------------------------------------- M12
static int red(long k) { long P = 2L * MAX_K + 1; k = ((k % P) + P) % P; if (k > MAX_K) k -= P; return (int)k; }
static long kval(Src& s)
{
    switch (s.below(4)) {
    case 0: return s.range(-3, 3);
    case 1: return (s.flip() ? 1 : -1) * ((long)MAX_K - s.range(-2, 2));
    case 2: return s.range(-MAX_K, MAX_K);
    default: return s.range(-5 * MAX_K, 5 * MAX_K);
    }
}
static double vnum(Src& s) { return s.below(3) ? s.range(-50, 50) / 4.0 : s.real(-1000, 1000); }
template <typename T> static Vec<T> mk(const T* a, int how)
{
    if (how == 0) return Vec<T>((T*)a);
    Vec<T> v;
    if (how == 1) { for (int i = 0; i < D; i++) v[i] = a[i]; return v; }
    v = Vec<T>({a[0], a[1]});
    return v;
}
template <typename T> static void vec_case(Src& s, std::function<T()> g, bool integer)
{
    T a[D], b[D], o[D];
    for (int i = 0; i < D; i++) { a[i] = g(); b[i] = s.below(3) ? g() : a[i]; }
    Vec<T> x = mk<T>(a, s.below(3)), y = mk<T>(b, s.below(3)), z;
    for (int i = 0; i < D; i++) CHECK(x[i] == a[i] && y[i] == b[i] && ((const Vec<T>&)x)[i] == a[i] && x.begin()[i] == a[i], "vec_make", "component " << i << " not stored");
    CHECK(x.end() - x.begin() == D && (int)x.size() == D, "vec_make", "size");
    x.CopyToArray(o);
    for (int i = 0; i < D; i++) CHECK(o[i] == a[i], "vec_copy", "CopyToArray component " << i);
    z = x + y;
    for (int i = 0; i < D; i++) CHECK(z[i] == a[i] + b[i], "vec_add", "component " << i << " of sum");
    z = x - y;
    for (int i = 0; i < D; i++) CHECK(z[i] == a[i] - b[i], "vec_sub", "component " << i << " of difference");
    z = x; z += y;
    for (int i = 0; i < D; i++) CHECK(z[i] == a[i] + b[i], "vec_addeq", "component " << i);
    z = x; z -= y;
    for (int i = 0; i < D; i++) CHECK(z[i] == a[i] - b[i], "vec_subeq", "component " << i);
    z = x; z += z;
    for (int i = 0; i < D; i++) CHECK(z[i] == a[i] + a[i], "vec_addeq", "component " << i << " of v+=v");
    z = x; z -= z;
    for (int i = 0; i < D; i++) CHECK(z[i] == 0, "vec_subeq", "component " << i << " of v-=v");
    int k = s.range(-5, 5);
    z = x * k;
    for (int i = 0; i < D; i++) CHECK(z[i] == a[i] * k, "vec_mul", "component " << i << " times integer");
    if (!integer) {
        double r = vnum(s);
        z = x * r;
        for (int i = 0; i < D; i++) CHECK(z[i] == a[i] * r, "vec_mul", "component " << i << " times real");
    }
    z = Vec<T>(a[0]);
    for (int i = 0; i < D; i++) CHECK(z[i] == a[0], "vec_fill", "component " << i);
    bool eq = true, sure = true;
    for (int i = 0; i < D; i++) { double d = std::fabs((double)(a[i] - b[i])); eq &= d == 0 || d < 1e-9; sure &= d == 0 || d > 1e-8; }
    if (sure || integer) CHECK((x == y) == eq && (x != y) == !eq && (y == x) == eq && x == x && !(x != x), "vec_equal", "comparison of " << x << " and " << y << " gives " << (x == y) << (x != y));
    for (int i = 0; i < D; i++) { // one component apart
        Vec<T> w = x;
        w[i] += 1;
        CHECK(!(w == x) && w != x, "vec_equal", w << " equals " << x);
    }
    std::ostringstream os;
    os.precision(17);
    os << x;
    std::istringstream is(os.str() + " 5");
    Vec<T> u(T(77));
    is >> u;
    CHECK(!is.fail(), "vec_text", "cannot read " << os.str());
    for (int i = 0; i < D; i++) CHECK(u[i] == a[i], "vec_text", os.str() << " reads as " << u);
    CHECK(x.PrettyString() == "(" + ToString(x) + ")", "vec_text", "PrettyString " << x.PrettyString());
    std::string t = os.str();
    size_t c = t.find(',');
    CHECK(c != std::string::npos, "vec_text", "no separator in " << t);
    t[c] = ';';
    std::istringstream bad(t);
    bad >> u;
    CHECK(bad.fail(), "vec_text", "accepted " << t);
}
PROP(M12, "operands of which at least one is non-zero")
{
    int mode = s.below(4);
    if (mode == 0) { vec_case<int>(s, [&] { return s.below(4) ? s.range(-9, 9) : s.range(-1000000, 1000000); }, true); s.nontrivial("integer vectors"); return; }
    if (mode == 1) { vec_case<double>(s, [&] { return vnum(s); }, false); s.nontrivial("real vectors"); return; }
    long a = kval(s), b = kval(s), c = kval(s);
    if (a || b) s.nontrivial("momenta " + std::to_string(a) + " " + std::to_string(b) + " " + std::to_string(c));
    Momentum A(a), B(b), X;
    int ra = red(a), rb = red(b);
    auto is = [&](const char* op, const Momentum& m, long want) {
        CHECK(m.K >= -MAX_K && m.K <= MAX_K, "k_range", op << " of " << a << " and " << b << " is " << m.K << ", out of range");
        CHECK(m.K == red(want), op, op << " of " << a << " and " << b << " is " << m.K << " instead of " << red(want));
    };
    is("make", A, a);
    is("make", Momentum(), 0);
    is("copy", Momentum(A), a);
    X = B; is("assign", X, b);
    is("a+b", A + B, (long)ra + rb);
    is("a+int", A + (int)b, (long)ra + b);
    is("int+a", (int)b + A, (long)ra + b);
    is("a-b", A - B, (long)ra - rb);
    is("a-int", A - (int)b, (long)ra - b);
    is("int-a", (int)b - A, b - (long)ra);
    X = A; X += B; is("a+=b", X, (long)ra + rb);
    X = A; X += (int)b; is("a+=int", X, (long)ra + b);
    X = A; X -= B; is("a-=b", X, (long)ra - rb);
    X = A; X -= (int)b; is("a-=int", X, (long)ra - b);
    X = A; X += X; is("a+=a", X, 2L * ra);
    X = A; X -= X; is("a-=a", X, 0);
    int k = s.range(-6, 6);
    is("k*a", k * A, (long)k * ra);
    Momentum Cm(c);
    is("assoc", (A + B) + Cm, (A + (B + Cm)).K);
    is("assoc-", (A - B) - Cm, (A - (B + Cm)).K);
    is("inverse", (A + B) - B, ra);
    CHECK((A == B) == (ra == rb) && (A != B) == (ra != rb), "k_eq", "comparison of " << a << " and " << b);
    int n = s.flip() ? rb : ra;
    CHECK((A == n) == (ra == n) && (n == A) == (ra == n) && (A != n) == (ra != n) && (n != A) == (ra != n), "k_eq", "comparison of " << a << " with integer " << n);
    CHECK(A.abs() == std::abs(ra), "k_abs", "abs of " << ra << " is " << A.abs());
    CHECK(A.index() == ra + MAX_K && A.index() >= 0 && A.index() <= 2 * MAX_K, "k_index", "index of " << ra << " is " << A.index());
    std::ostringstream o;
    o << A;
    std::istringstream i(o.str());
    Momentum Y(5);
    i >> Y;
    CHECK(!i.fail() && Y.K == ra, "k_text", ra << " written as " << o.str() << " reads " << Y.K);
    std::istringstream j(std::to_string(a));
    j >> Y;
    is("read", Y, a);
}
// ---------------------------------------------------------------- M13
struct Tagged { long v; };
static void put(diag::GLine* g, long v) { g->Weight = Complex(v, -v); }
static void put(diag::WLine* g, long v) { g->Weight = Complex(v, -v); }
static void put(diag::Vertex* g, long v) { g->Tau = v; }
static long get(diag::GLine* g) { return g->Weight.Re == -g->Weight.Im ? (long)g->Weight.Re : -1; }
static long get(diag::WLine* g) { return g->Weight.Re == -g->Weight.Im ? (long)g->Weight.Re : -1; }
static long get(diag::Vertex* g) { return (long)g->Tau; }
template <typename T> static void pool_case(Src& s, const char* kind)
{
    // model: live components as address -> content
    std::unique_ptr<diag::Bundle<T>> B(new diag::Bundle<T>("pool")), F(new diag::Bundle<T>("other"));
    std::map<T*, long> live;
    std::vector<T*> dead;
    long next = 1;
    T* foreign = F->Add();
    int cap = diag::MAX_BUNDLE;
    int n = s.range(1, s.flip() ? 12 : 70);
    int bias = s.below(3);
    std::ostringstream log;
    bool big = false, removed = false;
    auto refused = [&](std::function<void()> f, const char* what) {
        bool thrown = false;
        try { f(); } catch (std::exception&) { thrown = true; }
        CHECK(thrown, "refuse", what << " is not refused; history " << log.str());
    };
    for (int i = 0; i < n; i++) {
        int op = s.below(12);
        if (op < 5 + bias) {
            if ((int)live.size() == cap) { log << " add!"; refused([&] { B->Add(); }, "adding to a full pool"); s.tag("full"); }
            else {
                T* p = B->Add();
                log << " add";
                CHECK(p != nullptr && !live.count(p), "alias", "Add returned a live component; history " << log.str());
                CHECK(p->Name == (int)live.size(), "name", "new component is named " << p->Name << " instead of " << live.size() << log.str());
                put(p, next);
                live[p] = next++;
                if (live.size() > 2) big = true;
            }
        }
        else if (op < 9 && live.empty()) {
            if (op % 2) { log << " del0!"; refused([&] { B->Remove(0); }, "removing from an empty pool"); }
            else if (!dead.empty()) { log << " deldead!"; T* p = dead[s.below(dead.size())]; refused([&] { B->Remove(p); }, "removing a dead component"); }
        }
        else if (op < 9) {
            int k = s.below(live.size());
            T* p = (*B)(k);
            if (op % 2) { log << " del#" << k; B->Remove(k); }
            else { log << " del@" << k; B->Remove(p); }
            CHECK(live.count(p), "foreign", "slot " << k << " held no live component; history " << log.str());
            live.erase(p);
            dead.push_back(p);
            removed = true;
        }
        else if (op == 9) {
            int k = (int)live.size() + s.below(3);
            switch (s.below(6)) {
            case 0: log << " [" << k << "]!"; refused([&] { (*B)[k]; }, "indexing past the end"); break;
            case 1: log << " (" << k << ")!"; refused([&] { (*B)(k); }, "indexing past the end"); break;
            case 2: log << " del#" << k << "!"; refused([&] { B->Remove(k); }, "removing past the end"); break;
            case 3: log << " [-]!"; k = -1 - (int)s.below(3); refused([&] { (*B)[k]; }, "a negative index"); break;
            case 4: log << " (-)!"; k = -1 - (int)s.below(3); refused([&] { (*B)(k); }, "a negative index"); break;
            default: log << " del#-!"; k = -1 - (int)s.below(3); refused([&] { B->Remove(k); }, "removing a negative index"); break;
            }
            s.tag("refused");
        }
        else if (op == 10) {
            log << " delforeign!";
            T* t = s.below(3) ? foreign : nullptr;
            refused([&] { B->Remove(t); }, "removing a foreign component");
            if (!dead.empty()) {
                T* p = dead[s.below(dead.size())];
                if (!live.count(p)) { CHECK(!B->Exist(p), "exist", "removed component still exists; history " << log.str()); refused([&] { B->Remove(p); }, "removing a dead component"); }
            }
        }
        else if (!live.empty()) {
            RandomFactory r((int)s.word());
            T* p = B->RandomPick(r);
            CHECK(live.count(p), "pick", "picked a component that is not live; history " << log.str());
        }
        CHECK(B->HowMany() == (int)live.size(), "count", "holds " << B->HowMany() << " instead of " << live.size() << "; history " << log.str());
        std::set<T*> seen;
        for (int k = 0; k < B->HowMany(); k++) {
            T* p = (*B)(k);
            CHECK(&(*B)[k] == p, "index", "[] and () differ at " << k);
            CHECK(seen.insert(p).second, "alias", "slot " << k << " repeats a component; history " << log.str());
            CHECK(live.count(p), "foreign", "slot " << k << " holds a component that is not live; history " << log.str());
            CHECK(p->Name == k, "name", "slot " << k << " holds component named " << p->Name << "; history " << log.str());
            CHECK(get(p) == live[p], "content", "content of slot " << k << " changed; history " << log.str());
            CHECK(B->Exist(p) && !F->Exist(p), "exist", "Exist is wrong for slot " << k << "; history " << log.str());
        }
        CHECK(!B->Exist(foreign) && !B->Exist(nullptr), "exist", "foreign component exists; history " << log.str());
        CHECK(F->HowMany() == 1 && (*F)(0) == foreign, "other", "another pool changed");
    }
    CHECK(B->BundleName() == "pool", "poolname", "name");
    if (s.below(40) == 0 && live.size() > 1) { // uniform pick
        auto z = [&](int seed, int N) {
            RandomFactory r(seed);
            std::map<T*, int> h;
            for (int i = 0; i < N; i++) h[B->RandomPick(r)]++;
            double e = (double)N / live.size(), c = 0;
            for (auto& l : live) c += (h[l.first] - e) * (h[l.first] - e) / e;
            double d = live.size() - 1;
            return (c - d) / std::sqrt(2 * d);
        };
        int sd = (int)s.word();
        if (z(sd, 5000) > 8) { double y = z(sd + 1, 100000); CHECK(y < 8, "uniform", "picks deviate from uniform by " << y << " sigma over " << live.size() << " components"); }
        s.tag("uniform");
    }
    if (big && removed) s.nontrivial(std::string(kind) + log.str());
}
PROP(M13, "a history that held three components at once and removed one")
{
    switch (s.below(3)) {
    case 0: pool_case<diag::GLine>(s, "G"); break;
    case 1: pool_case<diag::WLine>(s, "W"); break;
    default: pool_case<diag::Vertex>(s, "Ver");
    }
}
int main(int argc, char** argv)
{
    py_init();
    quiet();
    return main_(argc, argv);
}
