// M24: the first order of the two measured functions (and of the two vertex functions), sampled by the simulation
// and collected by the self-consistency layer, against the closed expressions of the self-consistency layer.
// The self-consistency layer is the translated Python tree in the working directory.
#include "inv.h"
#include "pyhelp.h"
using namespace diag;
static const char* CODE =
    "import sys, os\n"
    "sys.path[:0] = [os.getcwd(), os.path.join(os.getcwd(), 'dyson')]\n"
    "import logging, weight\n"
    "logging.getLogger().setLevel(logging.CRITICAL)\n"
    "import collect, calculator as calc, gamma3_calc as g3\n"
    "UP, DOWN = 1, 0\n"
    "def vf_world(a):\n"
    "    L, nsub, beta, nbin, seed, flat, gamma, sym = a\n"
    "    m = weight.IndexMap(Beta=float(beta), L=L, NSublat=nsub, MaxTauBin=nbin, MaxTauBinTiny=nbin, BasisNum=nbin, Symmetry=sym)\n"
    "    r = _n.random.RandomState(seed)\n"
    "    def rnd(shape, c): # moderate size, phases in one half plane most of the time\n"
    "        x = r.uniform(0.4, 1.2, shape) * _n.exp(1j * r.uniform(-1.0, 1.0, shape) * (1.5 if seed % 3 else 0.4)) * r.choice([1, -1] if seed % 2 else [1], shape)\n"
    "        if c: x[...] = x[..., :1]\n"
    "        return x\n"
    "    G = weight.Weight('SmoothT', m, 'TwoSpins', 'AntiSymmetric', 'R', 'T')\n"
    "    G.Data = rnd(G.Shape, flat)\n"
    "    W = weight.Weight('SmoothT', m, 'FourSpins', 'Symmetric', 'R', 'T')\n"
    "    x = rnd(W.Shape, flat)\n"
    "    opp = [m.CoordiIndex([-c % l for c, l in zip(v, m.L)]) for v in m.GetAllCoordi()]\n"
    "    y = _n.transpose(x, (2, 3, 0, 1, 4, 5))[:, :, :, :, opp][..., ::-1]\n"
    "    W.Data = 0.5 * (x + y)\n"
    "    k = abs(W.Data) < 0.1\n"
    "    W.Data[k] = 0.3\n" // keep the mirror symmetry and every entry different from zero
    "    W0 = weight.Weight('DeltaT', m, 'FourSpins', 'Symmetric', 'R')\n"
    "    d = rnd(W0.Shape, False)\n"
    "    W0.Data = 0.5 * (d + _n.transpose(d, (2, 3, 0, 1, 4))[:, :, :, :, opp])\n"
    "    w = W.ToDict(); w.update(W0.ToDict())\n"
    "    out = {'G': G.ToDict(), 'W': w}\n"
    "    v = {'m': m, 'G': _c.deepcopy(G), 'W': _c.deepcopy(W), 'chains': {}}\n"
    "    v['Sigma'] = calc.SigmaSmoothT_FirstOrder(_c.deepcopy(G), _c.deepcopy(W), m).Data\n"
    "    v['Polar'] = calc.Polar_FirstOrder(_c.deepcopy(G), m).Data\n"
    "    if gamma:\n"
    "        ts, tr, tf, tg, rs, rr, rf = g3.SymmetryMapping(m)\n"
    "        gg = rnd((2, m.Vol, nbin, nbin), False)\n"
    "        c = g3.CompressGammaW(rnd((6, m.Vol, m.Vol, nbin, nbin), False).astype(_n.complex64)[:2], m)\n"
    "        c[0] = 1j * c[0].imag\n" // of the two longitudinal sectors only the antisymmetric combination exists
    "        ww = g3.UnCompressGammaW(c, m)\n"
    "        out['GGGammaG'] = {'SmoothT': gg}\n"
    "        out['WWGammaW'] = {'TauSqueeze': ts.flatten().tolist(), 'TauSymFactor': tf.flatten().tolist(), 'TauFlag': tg.flatten().tolist(), 'RSqueeze': rs.flatten().tolist(), 'RSymFactor': rf.flatten().tolist(), 'RSize': len(rr), 'TauSize': len(tr), 'SmoothT': _n.array(c, dtype=complex)}\n"
    "        v['GammaG'] = g3.AddW_To_GGGammaG(gg, W, m) - g3.AddG_To_WWGammaW(ww, G, m)\n"
    "        v['GammaW'] = g3.AddG_To_GGGammaG(gg, G, m)\n"
    "        v['GammaW'] = 0.5 * (v['GammaW'] - _n.conj(_n.transpose(v['GammaW'], (0, 2, 1, 4, 3))))\n" // what the statistics keep: the part which turns into its negative conjugate when the ends are exchanged
    "    v['out'] = out\n"
    "    return v\n"
    "def vf_out(v): return v['out']\n"
    "def vf_reset(v): v['chains'] = {}; return 0\n"
    "def vf_add(a):\n" // state of the accumulations after one more chain
    "    v, d, gamma = a\n"
    "    items = [('Sigma', d['Sigma']['Histogram']['SmoothT']), ('Polar', d['Polar']['Histogram']['SmoothT'])]\n"
    "    if gamma: items += [('GammaG', d['GammaGStatis']), ('GammaW', d['GammaWStatis'])]\n"
    "    for n, x in items: v['chains'].setdefault(n, []).append((_n.array(x['WeightAccu'], dtype=complex), float(x['NormAccu']), float(x['Norm'])))\n"
    "    return 0\n"
    "def vf_judge(v):\n" // name -> (worst z of real and imaginary parts, where, value, expected, noise relative to the largest entry)
    "    res = []\n"
    "    m = v['m']\n"
    "    for n, ch in sorted(v['chains'].items()):\n"
    "        A = _n.array([c[0] for c in ch]); N = _n.array([c[1] for c in ch])\n"
    "        A[1:] -= A[:-1].copy(); N[1:] -= N[:-1].copy()\n"
    "        if n in ('Sigma', 'Polar'): A = A[:, 0]\n"
    "        if N.sum() < 200: res.append([n, 0.0, '', 0j, 0j, 9.0]); continue\n"
    "        R = A.sum(0) / N.sum()\n"
    "        K = len(ch)\n"
    "        e = (A - R * N.reshape((K,) + (1,) * (A.ndim - 1))) / N.mean()\n"
    "        sr = _n.sqrt((e.real ** 2).sum(0) / K / (K - 1)); si = _n.sqrt((e.imag ** 2).sum(0) / K / (K - 1))\n"
    "        R, sr, si = R * ch[0][2], sr * ch[0][2], si * ch[0][2]\n"
    "        want = v[n]\n"
    "        if n == 'GammaW': R, sr, si = [g3.UnCompressGammaW(x.astype(_n.complex64), m) if x.ndim < 5 else x for x in (R, sr + 0j, si + 0j)]\n"
    "        if n == 'GammaW': sr, si = abs(sr), abs(si)\n"
    "        keep = _n.ones(R.shape, bool)\n"
    "        if n in ('Sigma', 'Polar'):\n" // propagators stay on a site within the simulation
    "            keep[:] = False\n"
    "            for s in range(m.NSublat): keep[:, s, :, s, 0] = True\n"
    "            want = _n.where(keep, want, 0)\n"
    "            keep[:] = True\n"
    "        else:\n"
    "            t = _n.arange(m.MaxTauBin)\n"
    "            keep[..., t, t] = False\n" // both ends in the same bin: the sign of the propagator changes within
    "        big = abs(want[keep]).max()\n"
    "        noise = float(max(sr[keep].max(), si[keep].max()) / big)\n"
    "        z = _n.maximum(abs((R - want).real) / (sr + 2e-4 * big), abs((R - want).imag) / (si + 2e-4 * big))\n"
    "        z[~keep] = 0\n"
    "        i = _n.unravel_index(_n.argmax(z), z.shape)\n"
    "        res.append([n, float(z[i]), str(tuple(int(q) for q in i)), complex(R[i]), complex(want[i]), noise])\n"
    "    return res\n";
static std::string digits(double x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
static Python::Object tuple_of(std::vector<Python::Object> v)
{
    PyObject* t = PyTuple_New(v.size());
    for (size_t i = 0; i < v.size(); i++) PyTuple_SetItem(t, i, v[i].Get(Python::NewRef));
    return t;
}
struct Unsized : weight::GammaWClass { // the tables take their size from the first message
    static weight::WeightArray<3>& table(weight::GammaWClass& g) { return g.*(&Unsized::_Weight); }
    static weight::WeightArray<3>& accu(weight::GammaWClass& g) { return g.*(&Unsized::_WeightAccu); }
};
static void py_setup()
{
    static bool init = false;
    if (init) return;
    init = true;
    PyObject* d = py_main();
    PyObject* r = PyRun_String(CODE, Py_file_input, d, d);
    if (!r) { PyErr_Print(); abort(); }
}
struct Verdict { std::string name, where; double z, noise; cd got, want; };
static std::vector<Verdict> sample(World& w, Python::Object& v, int chains, long hops, uint32_t seed)
{
    py_call("vf_reset", v);
    int every = 5;
    for (int k = 0; k < chains; k++) {
        w.para.RNG.Reset((int)(pbt::mix(seed + k) & 0x3fffffff));
        w.mk.Hop((int)(hops / 10) + 100);
        for (long i = 0; i < hops; i += every) {
            w.mk.Hop(every);
            w.mon.Measure();
        }
        Dictionary d = w.weight.ToDict(w.c.gamma3 ? weight::SigmaPolar | weight::GammaGWStatis : weight::SigmaPolar);
        py_call("vf_add", tuple_of({v, d.ToPy(), py_run(w.c.gamma3 ? "True" : "False")}));
    }
    Python::Object r = py_call("vf_judge", v);
    std::vector<Verdict> out;
    for (Py_ssize_t i = 0; i < PyList_Size(r.Get()); i++) {
        PyObject* e = PyList_GetItem(r.Get(), i);
        Verdict q;
        q.name = PyUnicode_AsUTF8(PyList_GetItem(e, 0));
        q.z = PyFloat_AsDouble(PyList_GetItem(e, 1));
        q.where = PyUnicode_AsUTF8(PyList_GetItem(e, 2));
        PyObject *a = PyList_GetItem(e, 3), *b = PyList_GetItem(e, 4);
        q.got = cd(PyComplex_RealAsDouble(a), PyComplex_ImagAsDouble(a));
        q.want = cd(PyComplex_RealAsDouble(b), PyComplex_ImagAsDouble(b));
        q.noise = PyFloat_AsDouble(PyList_GetItem(e, 5));
        out.push_back(q);
    }
    return out;
}
PROP(M24, "a run in which every measured function was known to better than a tenth of its largest entry (vertex functions: a fifth), entry by entry")
{
    py_setup();
    CfgOpt o;
    o.maxL = 3; o.maxSub = 2; o.maxT = 6; o.maxOrder = 1; o.gamma3 = 3; o.zeros = false;
    Cfg c = gen_cfg(s, o);
    c.order = 1;
    c.TT = c.T;
    static const double re[] = {1, 0.5, 2};
    c.wormRe = re[s.below(3)]; c.polRe = re[s.below(3)]; c.ggRe = re[s.below(3)]; c.gwRe = re[s.below(3)];
    for (auto& x : c.orderRe) x = re[s.below(3)];
    if (c.gamma3) { c.Lx = 2; c.Ly = 1; c.T = c.TT = s.range(2, 3); }
    bool flat = c.gamma3;
    int seed = (int)s.below(100000);
    World w(c);
    Python::Object v = py_call("vf_world", py_run("([" + ToString(c.Lx) + "," + ToString(c.Ly) + "]," + ToString(c.NSub) + "," + digits(c.beta) + "," + ToString(c.T) + "," + ToString(seed) + "," + (flat ? "True" : "False") + "," + (c.gamma3 ? "True" : "False") + ",['SU2'])"));
    Dictionary d;
    CHECK(d.FromPy(py_call("vf_out", v)), "frompy", "the exported tables are not a dictionary");
    w.weight.FromDict(d, weight::GW, w.para);
    if (c.gamma3) {
        Unsized::table(*w.weight.GammaW).Free();
        Unsized::accu(*w.weight.GammaW).Free();
        w.weight.FromDict(d, weight::GammaGW, w.para);
    }
    w.diag.Reset(w.para.Lat, *w.weight.G, *w.weight.W);
    w.mk.Reset(w.para, w.diag, w.weight);
    w.mon.Reset(w.para, w.diag, w.weight);
    uint32_t sd = s.word();
    long hops = (s.tier ? 300000 : 100000) * (c.gamma3 ? 3 : 1);
    std::string ctx = c.str() + " seed " + ToString(seed);
    auto a = sample(w, v, 20, hops, sd);
    bool fine = true, bad = false;
    for (auto& x : a) {
        fine &= x.noise < (x.name[0] == 'G' ? 0.2 : 0.1);
        bad |= x.z > 6;
        s.tag(x.name + (x.noise < (x.name[0] == 'G' ? 0.2 : 0.1) ? " known" : " noisy"));
    }
    if (bad) {
        s.tag("first_pass_suspicious");
        auto b = sample(w, v, 40, hops * 4, sd ^ 0x5a5a5a5a);
        for (size_t i = 0; i < b.size(); i++)
            CHECK(b[i].z < 6 || a[i].z < 6, b[i].name, b[i].name << " entry " << b[i].where << " measured at first order is " << b[i].got << ", the closed expression gives " << b[i].want << " (" << b[i].z << " standard errors; " << a[i].z << " at " << a[i].where << " in a shorter run); " << ctx);
    }
    if (fine) s.nontrivial(ctx);
}
int main(int argc, char** argv)
{
    py_init();
    quiet();
    return pbt::main_(argc, argv);
}
