// D08 (second half): tables and statistics written by one layer and read by the other, entry by entry.
// The self-consistency layer is the translated Python tree in the working directory.
#include "inv.h"
#include "pyhelp.h"
using namespace diag;
static const char* CODE =
    "import sys, os\n"
    "sys.path[:0] = [os.getcwd(), os.path.join(os.getcwd(), 'dyson')]\n"
    "import logging, weight, IO\n"
    "logging.getLogger().setLevel(logging.CRITICAL)\n"
    "import collect\n"
    "def vx_map(a):\n"
    "    L, nsub, beta, nbin = a\n"
    "    return weight.IndexMap(Beta=float(beta), L=L, NSublat=nsub, MaxTauBin=nbin, MaxTauBinTiny=nbin, BasisNum=nbin, Symmetry=False)\n"
    "def vx_table(a):\n"
    "    m, name, spin, sym, seed = a\n"
    "    w = weight.Weight(name, m, spin, sym, 'R', 'T')\n"
    "    r = _n.random.RandomState(seed)\n"
    "    w.Data = r.uniform(-1, 1, w.Shape) + 1j * r.uniform(-1, 1, w.Shape)\n"
    "    return w\n"
    "def vx_dict(w): return w.ToDict()\n"
    "def vx_update(ab):\n"
    "    d = dict(ab[0]); d.update(ab[1]); return d\n"
    // names of the entry in the self-consistency layer: spins of both ends, sublattices, displacement out-in, times
    "def vx_index(m, s1, sub1, s2, sub2, rin, rout, tin, tout, four, delta):\n"
    "    d = [(b - a) % l for a, b, l in zip(rin, rout, m.L)]\n"
    "    a = m.Spin2Index(*s1) if four else s1\n"
    "    b = m.Spin2Index(*s2) if four else s2\n"
    "    i = [a, sub1, b, sub2, m.CoordiIndex(d)]\n"
    "    return tuple(i if delta else i + [m.TauIndex(tin, tout)])\n"
    "def vx_look(a):\n"
    "    w, qs = a\n"
    "    return [complex(w.Data[vx_index(w.Map, *q)]) for q in qs]\n"
    "def vx_collect(a):\n"
    "    m, dicts, spin, sym = a\n"
    "    e = collect.WeightEstimator(weight.Weight('SmoothT', m, spin, sym))\n"
    "    for d in dicts: e.MergeFromDict(_c.deepcopy(d))\n"
    "    return e.ToDict()['SmoothT']\n"
    "def vx_nz(a):\n" // non-zero entries of accumulated statistics
    "    d, m, qs = a\n"
    "    acc = d['WeightAccu']\n"
    "    want = _n.zeros_like(acc)\n"
    "    for order, val, q in qs: want[(order - 1,) + tuple(vx_index(m, *q))] += val\n"
    "    if acc.shape != want.shape: return 'shape %s' % (acc.shape,)\n"
    "    bad = _n.argwhere(abs(acc - want) > 1e-9 * (1 + abs(want)))\n"
    "    if len(bad):\n"
    "        i = tuple(bad[0]); return 'entry %s is %s instead of %s' % (tuple(int(x) for x in i), acc[i], want[i])\n"
    "    return ''\n"
    "import gamma3_calc as g3\n"
    "def vx_vertex(a):\n" // a vertex function in the form it is handed to the simulation, and in full
    "    L, sym, beta, nbin, seed, full = a\n"
    "    m = weight.IndexMap(Beta=float(beta), L=L, NSublat=1, MaxTauBin=nbin, MaxTauBinTiny=nbin, BasisNum=nbin, Symmetry=sym)\n"
    "    ts, tr, tf, tg, rs, rr, rf = g3.SymmetryMapping(m)\n"
    "    r = _n.random.RandomState(seed)\n"
    "    rnd = lambda sh: (r.uniform(-1, 1, sh) + 1j * r.uniform(-1, 1, sh)).astype(_n.complex64)\n"
    "    if full: c = g3.CompressGammaW(rnd((2, m.Vol, m.Vol, nbin, nbin)), m)\n"
    "    else: c = rnd((2, len(rr), len(tr)))\n"
    "    d = {'TauSqueeze': ts.flatten().tolist(), 'TauSymFactor': tf.flatten().tolist(), 'TauFlag': tg.flatten().tolist(), 'RSqueeze': rs.flatten().tolist(), 'RSymFactor': rf.flatten().tolist(), 'RSize': len(rr), 'TauSize': len(tr), 'SmoothT': _n.array(c, dtype=complex)}\n"
    "    return [m, d, g3.UnCompressGammaW(c, m)]\n"
    "def vx_item(a): return a[0][a[1]]\n"
    "def vx_entries(a):\n"
    "    f, m, qs = a\n"
    "    return [complex(f[s, m.CoordiIndex(r1), m.CoordiIndex(r2), m.TauIndex(tu, t1), m.TauIndex(tu, t2)]) for s, r1, r2, t1, t2, tu in qs]\n"
    "def vx_images(m, r1, r2):\n"
    "    ops = [lambda x, y: (x, y)]\n"
    "    if 'Square' in m.Symmetry: ops += [lambda x, y: (-x, y), lambda x, y: (x, -y), lambda x, y: (-x, -y)]\n"
    "    if 'Triangular' in m.Symmetry: ops += [lambda x, y: (-x - y, y), lambda x, y: (x + y, -y), lambda x, y: (-x, -y)]\n"
    "    w = lambda v: tuple(x % l for x, l in zip(v, m.L))\n"
    "    return sorted(set((w(g(*r1)), w(g(*r2))) for g in ops))\n"
    "def vx_spread(a):\n" // statistics expanded to full size against the samples spread over their equivalent entries
    "    acc, m, qs = a\n"
    "    full = g3.UnCompressGammaW(_n.array(acc), m)\n"
    "    want = _n.zeros(full.shape, dtype=complex)\n"
    "    for s, r1, r2, t1, t2, tu, x in qs:\n"
    "        b1, b2 = m.TauIndex(tu, t1), m.TauIndex(tu, t2)\n"
    "        im = vx_images(m, r1, r2)\n"
    "        for p, q in im:\n"
    "            i, j = m.CoordiIndex(p), m.CoordiIndex(q)\n"
    "            k = len(im) * (1 if b1 == b2 else 2)\n"
    "            want[s, i, j, b1, b2] += x / k\n"
    "            if b1 != b2: want[s, j, i, b2, b1] -= _n.conj(x) / k\n"
    "    bad = _n.argwhere(abs(full - want) > 1e-5 * (1 + abs(want)))\n"
    "    if len(bad):\n"
    "        i = tuple(bad[0]); return 'entry %s is %s instead of %s' % (tuple(int(x) for x in i), full[i], want[i])\n"
    "    return ''\n"
    "def vx_save(a): IO.SaveBigDict(a[0], a[1])\n"
    "def vx_load(f): return IO.LoadBigDict(f)\n";
static std::string digits(double x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
static Python::Object tuple_of(std::vector<Python::Object> v)
{
    PyObject* t = PyTuple_New(v.size());
    for (size_t i = 0; i < v.size(); i++) PyTuple_SetItem(t, i, v[i].Get(Python::NewRef));
    return t;
}
static std::string coord_pair(const Site& a) { return "(" + ToString(a.Coordinate[0]) + "," + ToString(a.Coordinate[1]) + ")"; }
static std::string query(const Site& a, const Site& b, double ta, double tb, const std::string& s1, const std::string& s2, bool four, bool delta)
{
    return "(" + s1 + "," + ToString(a.Sublattice) + "," + s2 + "," + ToString(b.Sublattice) + "," + coord_pair(a) + "," + coord_pair(b) + "," + digits(ta) + "," + digits(tb) + "," + (four ? "True" : "False") + "," + (delta ? "True" : "False") + ")";
}
static std::string sp2(const spin* p) { return "(" + ToString((int)p[0]) + "," + ToString((int)p[1]) + ")"; }
static Site site(Src& s, const Cfg& c)
{
    Site r;
    r.Sublattice = s.below(c.NSub);
    r.Coordinate[0] = s.below(c.Lx);
    r.Coordinate[1] = s.below(c.Ly);
    return r;
}
// a time pair whose difference is well inside a bin
static void times(Src& s, const Cfg& c, double& ta, double& tb)
{
    double d = (s.below(c.T) + s.real(0.01, 0.99)) / c.T;
    ta = s.unit();
    tb = ta + d;
    if (tb >= 1) tb -= 1;
    double x = (tb - ta) * c.T;
    if (std::fabs(x - std::floor(x)) < 0.003 || std::fabs(x - std::ceil(x)) < 0.003) throw pbt::Discard();
    ta *= c.beta;
    tb *= c.beta;
}
static void py_setup()
{
    static bool init = false;
    if (init) return;
    init = true;
    PyObject* d = py_main();
    PyObject* r = PyRun_String(CODE, Py_file_input, d, d);
    if (!r) { PyErr_Print(); abort(); }
}
// three times on a grid that keeps the two differences well inside a bin
static void times3(Src& s, const Cfg& c, double& t1, double& t2, double& tu)
{
    tu = s.unit();
    double* t[2] = {&t1, &t2};
    for (int i = 0; i < 2; i++) {
        double x = tu + (s.below(c.T) + s.real(0.01, 0.99)) / c.T;
        if (x >= 1) x -= 1;
        double y = (x - tu) * c.T;
        if (std::fabs(y - std::floor(y)) < 0.003 || std::fabs(y - std::ceil(y)) < 0.003) throw pbt::Discard();
        *t[i] = x * c.beta;
    }
    tu *= c.beta;
}
PROP(D12, "at least one entry looked up through both layers with its three points at different sites")
{
    py_setup();
    CfgOpt o;
    o.maxL = 3; o.maxSub = 1; o.maxT = 5; o.maxOrder = 3; o.gamma3 = 0;
    Cfg c = gen_cfg(s, o);
    static const char* names[] = {"['SU2']", "['SU2','Square']", "['Square']", "['SU2','Triangular']"};
    int sym = s.below(4);
    if (sym == 3) c.Ly = c.Lx;
    Vec<int> size;
    size[0] = c.Lx;
    size[1] = c.Ly;
    Lattice lat(size, 1);
    std::string ctx = ToString(c.Lx) + "x" + ToString(c.Ly) + " " + names[sym] + " bins " + ToString(c.T) + " beta " + digits(c.beta);
    Python::Object v = py_call("vx_vertex", py_run("([" + ToString(c.Lx) + "," + ToString(c.Ly) + "]," + names[sym] + "," + digits(c.beta) + "," + ToString(c.T) + "," + ToString((int)(c.tseed % 1000000)) + "," + (s.flip() ? "True" : "False") + ")"));
    auto part = [&](const char* i) { return py_call("vx_item", tuple_of({v, py_run(i)})); };
    Dictionary d;
    CHECK(d.FromPy(part("1")), "frompy", "the exported vertex function is not a dictionary");
    std::vector<weight::basis> B(1, weight::basis(c.T, 1.0));
    weight::GammaWClass W(lat, c.beta, c.T, B);
    CHECK(W.WeightFromDict(d), "fromdict", "the vertex function of the self-consistency layer is refused; " << ctx);
    static const int P[6][2] = {{3, 3}, {0, 0}, {3, 0}, {0, 3}, {2, 1}, {1, 2}}; // spins of the outgoing and incoming end
    std::string lq = "[", mq = "[";
    std::vector<cd> lv;
    bool far = false;
    int nm = 0;
    for (int i = s.range(1, 12); i > 0; i--) {
        Site a = site(s, c), b = site(s, c), u = site(s, c);
        a.Sublattice = b.Sublattice = u.Sublattice = 0;
        double ta, tb, tu;
        times3(s, c, tb, ta, tu);
        far |= (a.Coordinate[0] != b.Coordinate[0] || a.Coordinate[1] != b.Coordinate[1]) && (a.Coordinate[0] != u.Coordinate[0] || a.Coordinate[1] != u.Coordinate[1]);
        int cls = s.below(6);
        spin out[2] = {spin(P[cls][0] / 2), spin(P[cls][0] % 2)}, in[2] = {spin(P[cls][1] / 2), spin(P[cls][1] % 2)};
        auto disp = [&](const Site& x) { return "(" + ToString((u.Coordinate[0] - x.Coordinate[0] + c.Lx) % c.Lx) + "," + ToString((u.Coordinate[1] - x.Coordinate[1] + c.Ly) % c.Ly) + ")"; };
        std::string at = "(" + ToString(cls >= 4 ? 1 : 0) + "," + disp(b) + "," + disp(a) + "," + digits(tb) + "," + digits(ta) + "," + digits(tu);
        lq += at + "),";
        Complex x = W.Weight(a, b, u, ta, tb, tu, in, out, UP);
        cd y(x.Re, x.Im);
        lv.push_back(cls == 2 || cls == 3 ? -y : cls == 4 ? -std::conj(y) : y);
        if (s.flip()) {
            cd z(s.range(-5, 5), s.range(-5, 5));
            W.Measure(a, b, u, ta, tb, tu, in, out, UP, Complex(z.real(), z.imag()));
            cd e = cls == 2 || cls == 3 ? -z : cls == 4 ? z / 2.0 : cls == 5 ? -std::conj(z) / 2.0 : z;
            mq += at + ",complex(" + digits(e.real()) + "," + digits(e.imag()) + ")),";
            nm++;
        }
    }
    Python::Object map = part("0"), full = part("2");
    Python::Object r = py_call("vx_entries", tuple_of({full, map, py_run(lq + "]")}));
    for (size_t i = 0; i < lv.size(); i++) {
        PyObject* x = PyList_GetItem(r.Get(), i);
        cd want(PyComplex_RealAsDouble(x), PyComplex_ImagAsDouble(x));
        CHECK(std::abs(want - lv[i]) < 1e-6, "lookup", "lookup " << i << " of " << lq << " gives " << lv[i] << " in the simulation and " << want << " in the expanded table; " << ctx);
    }
    if (nm) {
        Dictionary st = W.StatisToDict();
        Python::Object acc = py_call("vx_item", tuple_of({st.ToPy(), py_run("'WeightAccu'")}));
        Python::Object bad = py_call("vx_spread", tuple_of({acc, map, py_run(mq + "]")}));
        std::string e = PyUnicode_AsUTF8(bad.Get());
        CHECK(e.empty(), "measure", "samples " << mq << "] expanded by the self-consistency layer: " << e << "; " << ctx);
    }
    if (far) s.nontrivial(ctx + " " + lq);
    s.tag("lookups", (long)lv.size());
    s.tag("measurements", nm);
}
PROP(D08, "at least one entry looked up through both layers at different space-time points")
{
    py_setup();
    CfgOpt o;
    o.maxL = 4; o.maxSub = 3; o.maxT = 9; o.maxOrder = 3; o.gamma3 = 0;
    Cfg c = gen_cfg(s, o);
    Vec<int> size;
    size[0] = c.Lx;
    size[1] = c.Ly;
    Lattice lat(size, c.NSub);
    Python::Object map = py_call("vx_map", py_run("([" + ToString(c.Lx) + "," + ToString(c.Ly) + "]," + ToString(c.NSub) + "," + digits(c.beta) + "," + ToString(c.T) + ")"));
    std::string seed = ToString((int)(c.tseed % 1000000));
    auto table = [&](const char* name, const char* spn, const char* sym) {
        return py_call("vx_table", tuple_of({map, py_run(std::string("'") + name + "'"), py_run(std::string("'") + spn + "'"), py_run(std::string("'") + sym + "'"), py_run(seed)}));
    };
    Python::Object g = table("SmoothT", "TwoSpins", "AntiSymmetric"), w = table("SmoothT", "FourSpins", "Symmetric"), w0 = table("DeltaT", "FourSpins", "Symmetric");
    Python::Object gd = py_call("vx_dict", g), wd = py_call("vx_update", tuple_of({py_call("vx_dict", w), py_call("vx_dict", w0)}));
    if (s.flip(1, 4)) { // through a file
        py_call("vx_save", tuple_of({py_run("'cross'"), gd}));
        gd = py_call("vx_load", py_run("'cross'"));
        py_call("vx_save", tuple_of({py_run("'cross'"), wd}));
        wd = py_call("vx_load", py_run("'cross'"));
    }
    Dictionary G_, W_;
    CHECK(G_.FromPy(gd) && W_.FromPy(wd), "frompy", "exported tables are not dictionaries");
    weight::GClass G(lat, c.beta, c.T);
    weight::WClass W(lat, c.beta, c.T);
    CHECK(G.FromDict(G_) && W.FromDict(W_), "fromdict", "tables of the self-consistency layer are refused; " << c.str());
    // lookups
    std::string gq = "[", wq = "[", dq = "[";
    std::vector<cd> gv, wv, dv;
    bool far = false;
    for (int i = s.range(1, 12); i > 0; i--) {
        Site a = site(s, c), b = site(s, c);
        double ta, tb;
        times(s, c, ta, tb);
        far |= a.Coordinate[0] != b.Coordinate[0] || a.Coordinate[1] != b.Coordinate[1];
        spin x = s.flip() ? UP : DOWN, y = s.flip() ? UP : DOWN;
        spin p[2] = {s.flip() ? UP : DOWN, s.flip() ? UP : DOWN}, q[2] = {s.flip() ? UP : DOWN, s.flip() ? UP : DOWN};
        gq += query(a, b, ta, tb, ToString((int)x), ToString((int)y), false, false) + ",";
        wq += query(a, b, ta, tb, sp2(p), sp2(q), true, false) + ",";
        dq += query(a, b, ta, tb, sp2(p), sp2(q), true, true) + ",";
        Complex v = G.Weight(a, b, ta, tb, x, y, false, false);
        gv.push_back(cd(v.Re, v.Im) * (tb > ta ? 1.0 : -1.0));
        v = W.Weight(a, b, ta, tb, p, q, false, false, false, false);
        wv.push_back(cd(v.Re, v.Im));
        v = W.Weight(a, b, ta, tb, p, q, false, false, true, false);
        dv.push_back(cd(v.Re, v.Im));
    }
    auto compare = [&](const Python::Object& t, std::string q, const std::vector<cd>& v, const char* what) {
        Python::Object r = py_call("vx_look", tuple_of({t, py_run(q + "]")}));
        for (size_t i = 0; i < v.size(); i++) {
            PyObject* x = PyList_GetItem(r.Get(), i);
            cd want(PyComplex_RealAsDouble(x), PyComplex_ImagAsDouble(x));
            CHECK(std::abs(want - v[i]) < 1e-12, what, "lookup " << i << " of " << q << " gives " << v[i] << " in the simulation and " << want << " in the self-consistency layer; " << c.str());
        }
    };
    compare(g, gq, gv, "g");
    compare(w, wq, wv, "w");
    compare(w0, dq, dv, "w0");
    // exporting again gives the tables back
    Python::Object gb = G.ToDict().ToPy(), wb = W.ToDict().ToPy();
    CHECK(py_diff(gd, gb).empty() && py_diff(wd, wb).empty(), "export", "tables change on the way back: " << py_diff(gd, gb) << " " << py_diff(wd, wb));
    // statistics, from the simulation to the self-consistency layer
    weight::SigmaClass S(lat, c.beta, c.T, c.order);
    weight::PolarClass P(lat, c.beta, c.T, c.order);
    S.BuildNew();
    P.BuildNew();
    std::string sq = "[", pq = "[";
    int nm = s.range(0, 10);
    for (int i = 0; i < nm; i++) {
        Site a = site(s, c), b = site(s, c);
        double ta, tb;
        times(s, c, ta, tb);
        spin x = s.flip() ? UP : DOWN;
        static const int cons[6][4] = {{0, 0, 0, 0}, {1, 1, 1, 1}, {0, 0, 1, 1}, {1, 1, 0, 0}, {0, 1, 1, 0}, {1, 0, 0, 1}};
        const int* k = cons[s.below(6)];
        spin p[2] = {spin(k[0]), spin(k[1])}, q[2] = {spin(k[2]), spin(k[3])};
        int ord = s.range(1, c.order);
        double re = s.range(-5, 5), im = s.range(-5, 5);
        std::string val = "complex(" + digits(re) + "," + digits(im) + ")";
        S.Measure(a, b, ta, tb, x, x, ord, Complex(re, im));
        sq += "(" + ToString(ord) + "," + (tb > ta ? "" : "-") + val + "," + query(a, b, ta, tb, ToString((int)x), ToString((int)x), false, false) + "),";
        P.Measure(a, b, ta, tb, p, q, ord, Complex(re, im));
        pq += "(" + ToString(ord) + "," + val + "," + query(a, b, ta, tb, sp2(p), sp2(q), true, false) + "),";
    }
    int files = s.range(1, 3);
    auto collected = [&](Dictionary d, const char* spn, const char* sym, std::string q, const char* what) {
        Python::Object one = d.Get<Dictionary>("Histogram").ToPy();
        PyObject* l = PyList_New(0);
        for (int i = 0; i < files; i++) PyList_Append(l, one.Get());
        Python::Object list(l);
        Python::Object acc = py_call("vx_collect", tuple_of({map, list, py_run(std::string("'") + spn + "'"), py_run(std::string("'") + sym + "'")}));
        std::string qs = "[";
        for (int i = 0; i < files; i++) qs += q.substr(1);
        Python::Object r = py_call("vx_nz", tuple_of({acc, map, py_run(qs + "]")}));
        std::string bad = PyUnicode_AsUTF8(r.Get());
        CHECK(bad.empty(), what, what << " statistics read by the self-consistency layer: " << bad << "; measured " << q << "; " << c.str());
    };
    collected(S.ToDict(), "TwoSpins", "AntiSymmetric", sq, "sigma");
    collected(P.ToDict(), "FourSpins", "Symmetric", pq, "polar");
    if (far) s.nontrivial(c.str() + " " + gq);
    s.tag("lookups", (long)gv.size() * 3);
    s.tag("measurements", nm * 2);
}
int main(int argc, char** argv)
{
    quiet();
    py_init();
    return pbt::main_(argc, argv);
}
