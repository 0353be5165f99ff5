// Runs from input files, and processes, shared by env.cpp and program.cpp.
#ifndef ENVKIT_H
#define ENVKIT_H
#include "totals.h"
#include "utility/abort.h"
#include <signal.h>
#include <sys/wait.h>
#include <poll.h>
#include <dirent.h>
using namespace diag;
static void setup()
{
    static bool done = false;
    if (done) return;
    done = true;
    py_init();
    quiet();
    PyObject* d = py_main();
    const char* code =
        "def vp_near(a, b, tol=1e-8, path=''):\n"
        "    if isinstance(a, _n.ndarray):\n"
        "        if not isinstance(b, _n.ndarray) or a.shape != b.shape: return path + ': arrays differ in shape'\n"
        "        if not a.size: return ''\n"
        "        t = 1e-5 if 'GammaWStatis' in path else tol\n"
        "        m = float(_n.abs(a).max())\n"
        "        return '' if bool((_n.abs(a - b) <= t * m).all()) else path + ': entries differ by %g of %g' % (float(_n.abs(a - b).max()), m)\n"
        "    if isinstance(a, dict):\n"
        "        if set(a) != set(b): return '%s: keys %s %s' % (path, sorted(map(str, a)), sorted(map(str, b)))\n"
        "        for k in sorted(a, key=str):\n"
        "            r = vp_near(a[k], b[k], tol, path + '/' + str(k))\n"
        "            if r: return r\n"
        "        return ''\n"
        "    if isinstance(a, (list, tuple)):\n"
        "        if len(a) != len(b): return path + ': lengths'\n"
        "        for i, (x, y) in enumerate(zip(a, b)):\n"
        "            r = vp_near(x, y, tol, path + '/' + str(i))\n"
        "            if r: return r\n"
        "        return ''\n"
        "    if isinstance(a, (float, complex)) and not isinstance(a, bool):\n"
        "        if a != a: return '' if b != b else path\n"
        "        return '' if a == b or abs(a - b) <= tol * (1e-3 + abs(a)) else '%s: %r and %r' % (path, a, b)\n"
        "    return '' if a == b else '%s: %r and %r' % (path, a, b)\n";
    PyObject* r = PyRun_String(code, Py_file_input, d, d);
    if (!r) { PyErr_Print(); abort(); }
}
static std::string near_diff(const Dictionary& a, const Dictionary& b)
{
    Python::Object x = a.ToPy(), y = b.ToPy();
    Python::Object r = py_call("vp_near", x, &y);
    return PyUnicode_AsUTF8(r.Get());
}
// ---------------------------------------------------------------- input of a run
static std::string numbers(const std::vector<double>& v)
{
    std::ostringstream o;
    o.precision(17);
    o << "[";
    for (size_t i = 0; i < v.size(); i++) o << (i ? ", " : "") << v[i];
    o << "]";
    return o.str();
}
struct Files { int pid; std::string input, weight, message; };
static Files make_files(Src& s, const Cfg& c)
{
    Files f;
    f.pid = s.range(0, 99);
    f.input = "in_" + ToString(f.pid);
    f.weight = "gw_" + ToString(f.pid);
    f.message = "msg_" + ToString(f.pid);
    std::ostringstream o;
    o.precision(17);
    o << "{'Job': {'Type': 'MC', 'DoesLoad': False, 'Sample': 7, 'PID': " << f.pid << ", 'WeightFile': '" << f.weight << "', 'MessageFile': '" << f.message << "'},\n"
      << "'Para': {" << (s.flip() ? "'Version': 0, " : "") << "'Tau': {'Beta': " << c.beta << (c.beta == (long)c.beta ? ".0" : "") << ", 'MaxTauBin': " << c.T << ", 'MaxTauBinTiny': " << c.TT << "},\n"
      << "'Lattice': {'NSublat': " << c.NSub << ", 'L': [" << c.Lx << ", " << c.Ly << "]},\n"
      << "'Markov': {'Toss': " << s.below(1000) << ", 'Sweep': " << s.range(1, 100) << ", 'WormSpaceReweight': " << c.wormRe << ", 'PolarReweight': " << c.polRe << ", 'runGamma3': " << (c.gamma3 ? "True" : "False")
      << ", 'GammaGReweight': " << c.ggRe << ", 'GammaWReweight': " << c.gwRe << ", 'OrderReWeight': " << numbers(c.orderRe) << ", 'OrderTimeRatio': " << numbers(c.timeRatio) << ", 'Order': " << c.order
      << (s.flip() ? ", 'Counter': " + ToString((long long)s.below(1ULL << 45)) : "") << ", 'Seed': " << (int)s.below(1u << 31)
      << ", 'Timer': {'PrinterTimer': " << s.range(1, 500) << ", 'DiskWriterTimer': " << s.range(1, 500) << ", 'MessageTimer': " << s.range(1, 500) << ", 'ReweightTimer': " << s.range(1, 500) << "}}}}";
    write_text(f.input + ".txt", o.str());
    return f;
}
static void clean(const Files& f)
{
    for (auto& n : {std::string(ToString(f.pid) + "_MC_para.txt"), std::string(ToString(f.pid) + "_MC_statis.hkl"), f.weight + ".hkl", f.message + ".txt", f.input + ".txt", std::string(ToString(f.pid) + "_MC.log")}) unlink(n.c_str());
}
static void write_weight(const Ref& r, const std::string& name)
{
    Arrays st;
    weight_dict(r, st).BigSave(name);
}
struct Run {
    Files f;
    Cfg c;
    Arrays keep;
    std::unique_ptr<EnvMonteCarlo> env;
    std::unique_ptr<World> w;
    void bind() { w.reset(new World(*env, c)); }
};
static void build(Src& s, Run& r, const Cfg& c)
{
    setup();
    r.c = c;
    r.f = make_files(s, c);
    set_basis(c.beta);
    Ref ref;
    ref.build(c);
    write_weight(ref, r.f.weight);
    r.env.reset(new EnvMonteCarlo(para::Job(r.f.input)));
    r.env->BuildNew();
    r.bind();
}
// the configuration without addresses
struct View {
    std::vector<long> d;
    std::vector<double> x;
    std::string diff(const View& o) const
    {
        std::ostringstream m;
        if (d.size() != o.d.size() || x.size() != o.x.size()) return "different numbers of components";
        for (size_t i = 0; i < d.size(); i++)
            if (d[i] != o.d[i]) { m << "discrete entry " << i << ": " << d[i] << " and " << o.d[i]; return m.str(); }
        for (size_t i = 0; i < x.size(); i++)
            if (std::fabs(x[i] - o.x[i]) > 1e-9 * (1e-2 + std::fabs(x[i]))) { m.precision(17); m << "number " << i << ": " << x[i] << " and " << o.x[i]; return m.str(); }
        return "";
    }
};
static View view(World& w)
{
    auto& D = w.diag;
    View v;
    auto& d = v.d;
    auto site = [&](const Site& s) { d.push_back(s.Sublattice); d.push_back(s.Coordinate[0]); d.push_back(s.Coordinate[1]); };
    d.push_back(w.para.Counter);
    d.push_back(w.para.Version);
    d.push_back(D.Order);
    d.push_back(D.MeasureGLine);
    d.push_back(D.MeasureGLine ? D.GMeasure->Name : D.WMeasure->Name);
    d.push_back(D.HasGammaGW);
    if (D.HasGammaGW) { site(D.UExt.R); v.x.push_back(D.UExt.Tau); d.push_back((*D.Vin)->Name); d.push_back((*D.Vout)->Name); }
    d.push_back(D.Worm.Exist);
    if (D.Worm.Exist) { d.push_back(D.Worm.Ira->Name); d.push_back(D.Worm.Masha->Name); d.push_back(D.Worm.K.K); d.push_back(D.Worm.dSpin); v.x.push_back(D.Worm.Weight); }
    v.x.push_back(D.SignFermiLoop);
    for (double y : {D.Weight.Re, D.Weight.Im, D.Phase.Re, D.Phase.Im}) v.x.push_back(y);
    for (int i = 0; i < D.G.HowMany(); i++) {
        auto g = D.G(i);
        for (long y : {(long)g->nVer[0]->Name, (long)g->nVer[1]->Name, (long)g->K.K, (long)g->IsMeasure, (long)g->IsGGGammaG}) d.push_back(y);
        if (D.Order) { v.x.push_back(g->Weight.Re); v.x.push_back(g->Weight.Im); }
    }
    for (int i = 0; i < D.W.HowMany(); i++) {
        auto g = D.W(i);
        for (long y : {(long)g->nVer[0]->Name, (long)g->nVer[1]->Name, (long)g->K.K, (long)g->IsMeasure, (long)g->IsDelta, (long)g->IsWorm, (long)g->IsWWGammaW}) d.push_back(y);
        if (D.Order) { v.x.push_back(g->Weight.Re); v.x.push_back(g->Weight.Im); }
    }
    for (int i = 0; i < D.Ver.HowMany(); i++) {
        auto u = D.Ver(i);
        for (long y : {(long)u->Name, (long)u->nG[0]->Name, (long)u->nG[1]->Name, (long)u->nW->Name, (long)u->_spin[0], (long)u->_spin[1], (long)u->Dir}) d.push_back(y);
        site(u->R);
        v.x.push_back(u->Tau);
    }
    uint64_t h = 1;
    for (int k = -MAX_K; k <= MAX_K; k++) h = h * 1099511628211ULL + D.GHashCheck(Momentum(k)) + 1;
    for (int k = 0; k <= MAX_K; k++) h = h * 1099511628211ULL + D.WHashCheck(Momentum(k)) + 1;
    d.push_back((long)h);
    return v;
}
static Dictionary run_state(EnvMonteCarlo& e)
{
    Dictionary d;
    d["Para"] = frozen(e.Para.ToDict());
    d["Config"] = frozen(e.Diag.ToDict());
    d["Statis"] = frozen(e.Para.runGamma3 ? e.Weight.ToDict(weight::SigmaPolar | weight::GammaGWStatis) : e.Weight.ToDict(weight::SigmaPolar));
    d["GW"] = frozen(e.Weight.ToDict(weight::GW));
    d["Monitor"] = frozen(e.MarkovMonitor.ToDict());
    return d;
}
struct Act { int kind, n; };
static Act gen_act(Src& s)
{
    Act a;
    static const int ks[] = {0, 0, 0, 1, 1, 1, 1, 2, 3};
    a.kind = ks[s.below(9)];
    a.n = s.range(1, 40);
    return a;
}
static void act(Run& r, const Act& a)
{
    auto& e = *r.env;
    switch (a.kind) {
    case 0: e.Markov.Hop(a.n); break;
    case 1:
        for (int i = 0; i < a.n; i++) { e.Markov.Hop(1); e.MarkovMonitor.Measure(); }
        break;
    case 2:
        e.MarkovMonitor.AddStatistics();
        e.MarkovMonitor.Measure();
        break;
    case 3: e.AdjustOrderReWeight(); break;
    }
}
static void write_message(const std::string& file, int version, double beta, double squeeze)
{
    std::ostringstream o;
    o.precision(17);
    o << "{'Beta': " << beta << (beta == (long)beta ? ".0" : "") << ", 'Version': " << version << ", 'SqueezeFactor': " << squeeze << (squeeze == (long)squeeze ? ".0" : "") << "}";
    write_text(file + ".txt", o.str());
}
static Cfg env_cfg(Src& s, bool zeros)
{
    CfgOpt o;
    o.maxL = 3; o.maxT = 4; o.maxOrder = 4; o.gamma3 = 3; o.zeros = zeros;
    Cfg c = gen_cfg(s, o);
    return c;
}
// a configuration at which the run may be saved
static bool savable(Run& r, Src& s)
{
    for (int i = 0; i < 400 && r.env->Diag.HasGammaGW; i++) r.env->Markov.Hop(1);
    return r.env->Diag.HasGammaGW == 0;
}
// ---------------------------------------------------------------- processes
static int out_fd = -1;
static void put(char ch) { if (write(out_fd, &ch, 1) != 1) _exit(99); }
static void at_end() { put('X'); }
struct Proc { int pid, fd; };
template <typename F> static Proc spawn(F f)
{
    int p[2];
    if (pipe(p)) throw pbt::Discard();
    int pid = fork();
    if (pid < 0) throw pbt::Discard();
    if (pid == 0) {
        close(p[0]);
        out_fd = p[1];
        signal(SIGINT, SIG_DFL);
        signal(SIGTERM, SIG_DFL);
        signal(SIGALRM, SIG_DFL);
        alarm(60);
        // exit() runs what was registered here first; leave the harness's own buffers alone
        atexit(at_end);
        try { f(); }
        catch (std::exception& e) { fprintf(stderr, "child: %s\n", e.what()); put('!'); _exit(88); }
        put('E');
        _exit(0);
    }
    close(p[1]);
    return Proc{pid, p[0]};
}
struct Result { std::string out; int status; bool hang; };
static Result collect(Proc p, double limit)
{
    Result r;
    r.hang = false;
    double t0 = pbt::now();
    char b[4096];
    for (;;) {
        struct pollfd q = {p.fd, POLLIN, 0};
        double left = limit - (pbt::now() - t0);
        if (left <= 0) { r.hang = true; kill(p.pid, SIGKILL); break; }
        if (poll(&q, 1, (int)(left * 1000) + 1) <= 0) continue;
        ssize_t n = read(p.fd, b, sizeof b);
        if (n <= 0) break;
        r.out.append(b, n);
        if (r.out.size() > 60000) r.out.erase(0, 30000);
    }
    close(p.fd);
    while (waitpid(p.pid, &r.status, 0) < 0 && errno == EINTR) {}
    return r;
}
static std::string show_status(int st)
{
    std::ostringstream o;
    if (WIFEXITED(st)) o << "exit status " << WEXITSTATUS(st);
    else if (WIFSIGNALED(st)) o << "killed by signal " << WTERMSIG(st);
    return o.str();
}
#endif
