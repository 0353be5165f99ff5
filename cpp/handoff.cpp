// M25: whole calculations: the self-consistency loop and one or two simulations work on the same files. Everything one
// side writes is read by the other with the same meaning: tables, message, temperature, version, statistics.
// The self-consistency layer is the translated Python tree in the working directory.
#include "envkit.h"
static const char* CODE =
    "import sys, os, shutil, logging, random, pprint\n"
    "sys.path[:0] = [os.getcwd(), os.path.join(os.getcwd(), 'dyson')]\n"
    "import logger\n"
    "logging.disable(logging.CRITICAL)\n"
    "import main as dyson, model, collect, IO, parameter, weight, lattice as latmod, gc, job_class, basis\n"
    "gc.collect = lambda *a: 0\n"
    "mem = logger.memory_usage\n"
    "for mod in list(sys.modules.values()):\n"
    "    if getattr(mod, 'memory_usage', None) is mem: mod.memory_usage = lambda: 0.0\n"
    "dyson.time.sleep = lambda t: None\n"
    "HERE = os.getcwd()\n"
    "collect.workspace = HERE\n"
    "H = {}\n"
    "build = model.BareFactory.Build\n"
    "def Build(f):\n"
    "    H['calls'] += 1\n"
    "    if H['calls'] > H['versions'] + 1: raise KeyboardInterrupt()\n"
    "    return build(f)\n"
    "model.BareFactory.Build = Build\n"
    "broadcast = parameter.BroadcastMessage\n"
    "def Broadcast(name, d):\n"
    "    H['messages'].append(dict(d))\n"
    "    return broadcast(name, d)\n"
    "parameter.BroadcastMessage = Broadcast\n"
    "null = open(os.devnull, 'w')\n"
    "def hf_new(a):\n" // from the description of the user to the input files of every process
    "    name, nsub, L, beta, nbin, ntiny, gamma3, J, field, interval, thr, K, seed, mk, timer, sample = a\n"
    "    for e in os.listdir(HERE):\n"
    "        if any(x in e for x in ('_statis', '_para', '_in_', 'Weight', 'Message', 'Basis', '.log')): os.unlink(os.path.join(HERE, e))\n"
    "    H.clear()\n"
    "    common = {'Gamma3': gamma3, 'Tau': {'MaxTauBin': nbin, 'Beta': beta, 'MaxTauBinTiny': ntiny, 'BasisNum': 4}, 'Lattice': {'Name': name, 'NSublat': nsub, 'L': list(L)},\n"
    "        'Model': {'Name': 'J1J2', 'Interaction': list(J) + [0.0, 0.0], 'ExternalField': [0.0] * 4, 'Symmetry': ['SU2', 'ParticleHole'], 'Hopping': [0.0] * 4, 'Phase': [0.0] * 4, 'ChemicalPotential': [0.0] * 4}}\n"
    "    mc = {'Control': {'__Execute': './simulator.exe', '__Duplicate': K, '__IsCluster': False, '__AutoRun': True}, 'Job': {'Sample': sample}}\n"
    "    mc['Markov'] = dict(mk); mc['Markov'].update(Timer=dict(timer), runGamma3=gamma3)\n"
    "    dy = {'Control': {'__Execute': ['python', './dyson/main.py'], '__Duplicate': 1, '__IsCluster': False, '__AutoRun': True}, 'Job': {'DysonOnly': K == 0, 'SumRule': False}}\n"
    "    dy['Dyson'] = {'SleepTime': 0, 'Gamma3': gamma3, 'OrderAccepted': {'Sigma': 1, 'Polar': 1}, 'ErrorThreshold': thr, 'Annealing': {'DeltaField': list(field), 'Interval': list(interval)}}\n"
    "    random.seed(seed)\n"
    "    mc.update(common); dy.update(common)\n"
    "    files = []\n"
    "    for j, t in ((job_class.JobMonteCarlo(mc), 'MC'), (job_class.JobDyson(dy), 'DYSON')):\n"
    "        while j.pid:\n"
    "            pid, d = j.to_dict()\n"
    "            f = '_in_%s_%d' % (t, pid)\n"
    "            IO.SaveDict(f, 'w', d)\n"
    "            if t == 'MC': files.append(f)\n"
    "            else:\n"
    "                job, H['para'] = parameter.Load(f)\n"
    "                dyson.ParaFile, dyson.WeightFile, dyson.MessageFile, dyson.OutputFile = '%s_DYSON_para' % job['PID'], job['WeightFile'], job['MessageFile'], job['OutputFile']\n"
    "    for t in ('Fermi', 'Bose'):\n"
    "        b = basis.SVDBasis(nbin, beta, t)\n"
    "        b.GenerateBasis(4)\n"
    "        b.Save(t + 'Basis.dat')\n"
    "    H['new'] = True\n"
    "    return files\n"
    "def hf_run(a):\n" // some versions of the loop; the messages it sent
    "    versions, only = a\n"
    "    if H['new']: para = H['para']\n"
    "    else: para = parameter.LoadPara(dyson.ParaFile)\n"
    "    p = para['Model']['Symmetry']\n"
    "    if para['Lattice']['Name'] not in p: p.append(para['Lattice']['Name'])\n"
    "    m = weight.IndexMap(NSublat=para['Lattice']['NSublat'], L=para['Lattice']['L'], Beta=float(para['Tau']['Beta']), MaxTauBin=para['Tau']['MaxTauBin'], MaxTauBinTiny=para['Tau']['MaxTauBinTiny'], BasisNum=para['Tau']['BasisNum'], Symmetry=p)\n"
    "    H['map'] = m\n"
    "    H['calls'], H['versions'], H['messages'] = 0, versions, []\n"
    "    o, e = sys.stdout, sys.stderr\n"
    "    sys.stdout = sys.stderr = null\n"
    "    try: dyson.Dyson(only, H['new'], False, para, m, latmod.Lattice(para['Lattice']['Name'], m))\n"
    "    except (SystemExit, KeyboardInterrupt): pass\n"
    "    finally: sys.stdout, sys.stderr = o, e\n"
    "    ms = H['messages']\n"
    "    if ms: H['new'] = False\n"
    "    return [H['calls'] - 1, len(ms), ms[-1]['Version'] if ms else 0, float(ms[-1]['Beta']) if ms else 0.0, float(ms[-1]['SqueezeFactor']) if ms else 0.0]\n"
    "def hf_tables():\n" // what the file holds, as plain lists
    "    d = IO.LoadBigDict(dyson.WeightFile)\n"
    "    f = lambda x: _n.ascontiguousarray(x, dtype=complex).ravel().tolist()\n"
    "    r = {'G': f(d['G']['SmoothT']), 'Ws': f(d['W']['SmoothT']), 'Wd': f(d['W']['DeltaT'])}\n"
    "    if 'GGGammaG' in d:\n"
    "        w = d['WWGammaW']\n"
    "        r['GG'] = f(d['GGGammaG']['SmoothT'])\n"
    "        r['GW'] = f(w['SmoothT']) if 'SmoothT' in w else []\n"
    "        for k in ('RSqueeze', 'RSymFactor', 'TauSqueeze', 'TauSymFactor', 'TauFlag'): r[k] = [int(x) for x in w[k]]\n"
    "        r['RSize'], r['TauSize'] = [int(w['RSize'])], [int(w['TauSize'])]\n"
    "    H['file'] = d\n"
    "    return r\n"
    "def hf_list(a): return a[0][a[1]]\n"
    "def hf_collect(a):\n" // statistics as the loop collects them against what the simulations hold
    "    mems, gamma3 = a\n"
    "    o, e = sys.stdout, sys.stderr\n"
    "    sys.stdout = sys.stderr = null\n"
    "    try: S, P, GG, GW = collect.CollectStatis(H['map'], gamma3)\n"
    "    finally: sys.stdout, sys.stderr = o, e\n"
    "    H['want'] = {}\n"
    "    def close(n, got, want, tol):\n"
    "        if got.shape != want.shape: return '%s collected with shape %s, simulated with %s' % (n, got.shape, want.shape)\n"
    "        sc = abs(want).max() if want.size else 0\n"
    "        i = _n.unravel_index(_n.argmax(abs(got - want)), want.shape)\n"
    "        return '' if abs(got - want)[i] <= tol * sc else '%s%s collected as %s, simulated as %s' % (n, tuple(int(q) for q in i), got[i], want[i])\n"
    "    for n, x in (('Sigma', S), ('Polar', P)):\n"
    "        hs = [mm[n]['Histogram']['SmoothT'] for mm in mems]\n"
    "        na = sum(h['NormAccu'] for h in hs)\n"
    "        want = sum(_n.array(h['WeightAccu'], dtype=complex) for h in hs) / na * hs[0]['Norm']\n"
    "        H['want'][n] = want\n"
    "        d = x.ToDict()['SmoothT']\n"
    "        r = close(n, _n.array(d['WeightAccu']) / d['NormAccu'] * d['Norm'], want, 1e-9)\n"
    "        if r: return r\n"
    "    if gamma3:\n"
    "        for n, x in (('GammaG', GG), ('GammaW', GW)):\n"
    "            hs = [mm[n + 'Statis'] for mm in mems]\n"
    "            na = sum(h['NormAccu'] for h in hs)\n"
    "            r = close(n, _n.array(x), sum(_n.array(h['WeightAccu'], dtype=complex) for h in hs) / na * hs[0]['Norm'], 1e-5)\n"
    "            if r: return r\n"
    "    return ''\n"
    "def hf_sigma():\n" // the self-energy in the file is the statistics up to some order
    "    got, want = _n.array(H['file']['Sigma']['SmoothT']), H['want']['Sigma']\n"
    "    c = [abs(got - want[:k].sum(0)).max() for k in range(1, len(want) + 1)]\n"
    "    sc = max(abs(want).max(), 1e-30)\n"
    "    return '' if min(c) <= 1e-8 * sc * len(want) else 'the self-energy saved by the loop is no sum of the first orders of the statistics (off by %s of %s)' % (min(c), sc)\n";
static std::string digits(double x)
{
    std::ostringstream o;
    o.precision(17);
    o << x;
    std::string t = o.str();
    return t.find_first_of(".e") == std::string::npos ? t + ".0" : t;
}
static std::string floats(const std::vector<double>& v)
{
    std::string t = "[";
    for (double x : v) t += digits(x) + ",";
    return t + "]";
}
static Python::Object tuple_of(std::vector<Python::Object> v)
{
    PyObject* t = PyTuple_New(v.size());
    for (size_t i = 0; i < v.size(); i++) PyTuple_SetItem(t, i, v[i].Get(Python::NewRef));
    return t;
}
static void py_setup()
{
    static bool done = false;
    if (done) return;
    done = true;
    setup();
    PyObject* d = py_main();
    PyObject* r = PyRun_String(CODE, Py_file_input, d, d);
    if (!r) { PyErr_Print(); abort(); }
}
static std::vector<cd> numbers_of(Python::Object& d, const char* k)
{
    PyObject* l = PyDict_GetItemString(d.Get(), k);
    std::vector<cd> v;
    for (Py_ssize_t i = 0; l && i < PyList_Size(l); i++) {
        PyObject* e = PyList_GetItem(l, i);
        v.push_back(cd(PyComplex_RealAsDouble(e), PyComplex_ImagAsDouble(e)));
    }
    return v;
}
static std::vector<int> ints_of(Python::Object& d, const char* k)
{
    std::vector<int> v;
    for (cd x : numbers_of(d, k)) v.push_back((int)std::lround(x.real()));
    return v;
}
// the tables in the file
static void load(Ref& r, const Cfg& c, Python::Object& d)
{
    r.c = c;
    r.G = numbers_of(d, "G"); r.Ws = numbers_of(d, "Ws"); r.Wd = numbers_of(d, "Wd");
    size_t N = c.NSub, V = c.Vol(), T = c.T;
    CHECK(r.G.size() == 4 * N * N * V * T && r.Ws.size() == 16 * N * N * V * T && r.Wd.size() == 16 * N * N * V, "size", "tables of unexpected size in the file");
    if (!c.gamma3) return;
    r.GG = numbers_of(d, "GG"); r.GW = numbers_of(d, "GW");
    r.RSq = ints_of(d, "RSqueeze"); r.RSym = ints_of(d, "RSymFactor"); r.TSq = ints_of(d, "TauSqueeze"); r.TSym = ints_of(d, "TauSymFactor"); r.TFlag = ints_of(d, "TauFlag");
    r.RSize = ints_of(d, "RSize")[0]; r.TSize = ints_of(d, "TauSize")[0];
    CHECK(r.GG.size() == 2 * V * T * T && r.GW.size() == (size_t)2 * r.RSize * r.TSize && r.RSq.size() == V * V && r.TSq.size() == T * T, "size", "vertex tables of unexpected size in the file");
}
static bool same(const std::vector<cd>& a, const Python::ArrayObject& b0)
{
    Python::ArrayObject b = b0;
    if (b.Size() != a.size()) return false;
    Complex* p = b.Data<Complex>();
    for (size_t i = 0; i < a.size(); i++)
        if (std::abs(a[i] - C(p[i])) > 1e-12 * (1e-30 + std::abs(a[i]))) return false;
    return true;
}
PROP(M25, "a calculation in which the loop used statistics of the simulations and these accepted the result")
{
    py_setup();
    Cfg c;
    { CfgOpt o; o.maxL = 3; o.maxSub = 1; o.maxT = 6; o.maxOrder = 3; o.gamma3 = 0; o.zeros = false; c = gen_cfg(s, o); }
    static const char* names[] = {"Square", "Checkerboard", "Honeycomb", "Square", "ValenceBond"};
    c.gamma3 = s.flip(1, 3);
    std::string name = c.gamma3 ? "Square" : names[s.below(5)];
    c.NSub = name == "Square" ? 1 : 2;
    c.Lx = s.range(2, 3); c.Ly = s.range(2, 3);
    static const double bs[] = {0.5, 0.25, 1.0, 0.3};
    c.beta = bs[s.below(4)];
    c.T = c.TT = s.flip(2, 3) ? 8 : 9 + (int)s.below(3);
    if (!c.gamma3) c.TT = s.range(1, c.T); // vertex functions of both grids are combined only when they agree
    static const double js[] = {1.0, -0.5, 0.3};
    double J1 = js[s.below(3)], J2 = s.flip() ? 0.0 : 0.2;
    int field = (int)s.below(3);
    const char* fs[] = {"[0.0]*4,[0.0]*4", "[-0.4,-0.4,0.0,0.0],[0.1,0.1,0.0,0.0]", "[-0.2,0.2,0.0,0.0],[0.05,-0.05,0.0,0.0]"};
    static const double ths[] = {0.5, 10.0, 0.05};
    double thr = ths[s.below(3)];
    int K = s.range(1, 2);
    int toss = (int)s.below(1000), sweep = s.range(1, 100), tm[4], seed = (int)s.below(1000000);
    for (int& x : tm) x = s.range(1, 1000);
    long long sample = s.flip() ? 100000000 : s.range(1, 1000);
    std::ostringstream log;
    log << name << " " << c.str() << " J " << J1 << " " << J2 << " field " << field << " threshold " << thr << " simulations " << K << ":";
    std::ostringstream mk;
    mk << "{'Order':" << c.order << ",'Sweep':" << sweep << ",'Toss':" << toss << ",'OrderReWeight':" << floats(c.orderRe) << ",'OrderTimeRatio':" << floats(c.timeRatio) << ",'WormSpaceReweight':" << digits(c.wormRe) << ",'PolarReweight':" << digits(c.polRe) << ",'GammaGReweight':" << digits(c.ggRe) << ",'GammaWReweight':" << digits(c.gwRe) << "}";
    std::ostringstream tt;
    tt << "{'PrinterTimer':" << tm[0] << ",'DiskWriterTimer':" << tm[1] << ",'MessageTimer':" << tm[2] << ",'ReweightTimer':" << tm[3] << "}";
    Python::Object files = py_call("hf_new", py_run("('" + name + "'," + ToString(c.NSub) + ",[" + ToString(c.Lx) + "," + ToString(c.Ly) + "]," + digits(c.beta) + "," + ToString(c.T) + "," + ToString(c.TT) + "," + (c.gamma3 ? "True" : "False") + ",[" + digits(J1) + "," + digits(J2) + "]," + fs[field] + "," + digits(thr) + "," + ToString(K) + "," + ToString(seed) + "," + mk.str() + "," + tt.str() + "," + ToString(sample) + ")"));
    CHECK(PyList_Size(files.Get()) == K, "processes", "input files for " << PyList_Size(files.Get()) << " instead of " << K << " simulations");
    std::vector<std::unique_ptr<Run>> runs;
    for (int k = 0; k < K; k++) {
        runs.emplace_back(new Run);
        runs.back()->c = c;
        runs.back()->f.input = PyUnicode_AsUTF8(PyList_GetItem(files.Get(), k));
    }
    int rounds = s.range(1, 3), used = 0, version = 0;
    for (int round = 0; round < rounds; round++) {
        int n = s.range(1, 2);
        bool only = s.flip(1, round ? 4 : 2);
        Python::Object out = py_call("hf_run", py_run("(" + ToString(n) + "," + (only ? "True" : "False") + ")"));
        auto item = [&](int i) { return PyFloat_AsDouble(PyList_GetItem(out.Get(), i)); };
        int tried = (int)item(0), sent = (int)item(1), v = (int)item(2);
        double beta = item(3);
        log << " loop " << (only ? "alone" : "with statistics") << " " << sent << "/" << n << " versions";
        CHECK(tried == n + 1, "stopped", "the loop gave up after " << tried - 1 << " of " << n << " versions:" << log.str());
        if (!sent) {
            s.tag("no version succeeded");
            break;
        }
        CHECK(v > version, "version", "version " << v << " announced after " << version << ":" << log.str());
        CHECK(beta == c.beta, "beta", "Beta " << beta << " announced instead of " << c.beta << ":" << log.str());
        version = v;
        Python::Object tab = py_run("hf_tables()");
        if (round && !only && n == 1) {
            std::string d = PyUnicode_AsUTF8(py_run("hf_sigma()").Get());
            CHECK(d.empty(), "sigma", d << ":" << log.str());
            s.tag("statistics used");
            used++;
        }
        double top = 0, bottom = 1e300;
        for (auto n : {"G", "Ws", "GG", "GW"})
            for (cd x : numbers_of(tab, n)) top = std::max(top, std::abs(x));
        for (cd x : numbers_of(tab, "G"))
            if (std::abs(x) > 1e-14) bottom = std::min(bottom, std::abs(x));
        if (!(top < 1e4 && bottom > 1e-5 && bottom < 1e4)) { s.tag("critical point"); return; } // the loop itself divides by rounding errors there; a version later nothing may be left of G
        for (auto& p : runs) {
            Run& r = *p;
            bool fresh = !r.env;
            if (fresh) {
                r.env.reset(new EnvMonteCarlo(para::Job(r.f.input)));
                CHECK(!r.env->Job.DoesLoad, "load", "a first process would continue another run:" << log.str());
                CHECK(r.env->BuildNew(), "build", "the simulation does not start from the files of the loop:" << log.str());
                auto& P = r.env->Para;
                CHECK(P.Version == 0 && P.Beta == c.beta && (int)P.MaxTauBin == c.T && (int)P.MaxTauBinTiny == c.TT && (int)P.NSublat == c.NSub && P.Lat.Size[0] == c.Lx && P.Lat.Size[1] == c.Ly, "common", "the simulation works on another system than described:" << log.str());
                CHECK((int)P.Order == c.order && P.Sweep == sweep && P.Toss == toss && P.OrderReWeight == c.orderRe && P.OrderTimeRatio == c.timeRatio && P.WormSpaceReweight == c.wormRe && P.PolarReweight == c.polRe && P.GammaGReweight == c.ggRe && P.GammaWReweight == c.gwRe && P.runGamma3 == c.gamma3 && r.env->Job.Sample == sample, "markov", "the simulation runs with other settings than described:" << log.str());
                int have[4] = {(int)P.PrinterTimer, (int)P.DiskWriterTimer, (int)P.MessageTimer, (int)P.ReweightTimer};
                for (int i = 0; i < 4; i++) CHECK(have[i] >= (int)(0.8 * tm[i]) && have[i] <= 1.2 * tm[i], "timer", "interval " << i << " is " << have[i] << ", described as " << tm[i] << ":" << log.str());
            }
            else
                for (int i = 0; i < 2000 && r.env->Diag.HasGammaGW; i++) r.env->Markov.Hop(1);
            EnvMonteCarlo& e = *r.env;
            if (e.Diag.HasGammaGW) return; // the message has to wait
            if (!fresh) { // statistics without a sample in some sector: the present diagram may have no weight any more, the run ends then
                World& w = *r.w;
                load(w.ref, c, tab);
                double least = 1;
                for (int i = 0; i < e.Diag.G.HowMany(); i++) least = std::min(least, std::abs(w.gweight(e.Diag.G(i))));
                for (int i = 0; i < e.Diag.W.HowMany(); i++) least = std::min(least, std::abs(w.wweight(e.Diag.W(i))));
                if (least < 1e-7) { s.tag("diagram without weight in the new tables"); return; }
            }
            CHECK(e.ListenToMessage(), "refused", "the simulation does not take over version " << v << ":" << log.str());
            CHECK(e.Para.Version == v && e.Para.Beta == c.beta, "message", "the simulation is at version " << e.Para.Version << ", Beta " << e.Para.Beta << ":" << log.str());
            CHECK(!e.ListenToMessage(), "twice", "the simulation takes over the same version twice:" << log.str());
            if (fresh) r.bind();
            World& w = *r.w;
            load(w.ref, c, tab);
            Dictionary t = e.Weight.ToDict(weight::GW | (c.gamma3 ? weight::GammaGW : 0));
            CHECK(same(w.ref.G, t.Get<Dictionary>("G").Get<Python::ArrayObject>("SmoothT")), "G", "G of the simulation is not the one in the file:" << log.str());
            CHECK(same(w.ref.Ws, t.Get<Dictionary>("W").Get<Python::ArrayObject>("SmoothT")), "W", "W of the simulation is not the one in the file:" << log.str());
            CHECK(same(w.ref.Wd, t.Get<Dictionary>("W").Get<Python::ArrayObject>("DeltaT")), "W0", "the bare line of the simulation is not the one in the file:" << log.str());
            if (c.gamma3) {
                CHECK(same(w.ref.GG, t.Get<Dictionary>("GGGammaG").Get<Python::ArrayObject>("SmoothT")), "GG", "the vertex function GG of the simulation is not the one in the file:" << log.str());
                CHECK(same(w.ref.GW, t.Get<Dictionary>("WWGammaW").Get<Python::ArrayObject>("SmoothT")), "WW", "the vertex function WW of the simulation is not the one in the file:" << log.str());
            }
            LoopRef lr = loop_ref(w);
            auto look = [&] {
                check_structure(w);
                check_weights(w, lr);
            };
            look();
            int hops = s.range(300, s.tier ? 6000 : 3000);
            for (int i = 0; i < hops; i++) {
                e.Markov.Hop(3);
                e.MarkovMonitor.Measure();
                if (i % 100 == 0) look();
            }
            look();
        }
        if (round + 1 == rounds) break;
        Python::Object mems = PyList_New(0);
        bool enough = true;
        for (auto& p : runs) {
            Run& r = *p;
            if (!savable(r, s)) return;
            r.env->Save();
            Dictionary m = r.env->Weight.ToDict(weight::SigmaPolar | (c.gamma3 ? weight::GammaGWStatis : 0));
            Python::Object mo = py_call("vp_copy", m.ToPy());
            PyList_Append(mems.Get(), mo.Get());
            for (auto& x : totals(*r.w).h) enough &= x.second.norm > 0;
        }
        if (!enough) { s.tag("no norm yet"); break; }
        Python::Object res = py_call("hf_collect", tuple_of({mems, py_run(c.gamma3 ? "True" : "False")}));
        std::string d = PyUnicode_AsUTF8(res.Get());
        CHECK(d.empty(), "collect", d << ":" << log.str());
        log << " collected";
        s.tag("collected");
    }
    if (used) s.nontrivial(log.str());
}
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
