// M23: the simulation program as a whole (src/main.cpp), started from an input file in a process of its own.
// Time is a generated function of the number of updates done; requests to end and new messages arrive at generated times.
#include "envkit.h"
#include <fcntl.h>
#include "utility/timer.h"
#include "module/markov/markov.h"
using namespace diag;
int sim_main(int argc, const char* argv[]);
int RunTest() { return 0; }
// ---------------------------------------------------------------- the schedule of one leg
struct Drop { int tick; std::string message, weight; }; // files that appear
struct Plan {
    std::vector<int> gaps; // seconds from one hundred measurements to the next
    std::vector<Drop> drops;
    int ticks; // the request comes at the latest here
    int save, where; // or in the save with this number, before (0) or after (1) writing
    int sig;
    unsigned long long base, per, toss;
};
static Plan plan;
static unsigned long long* counter; // of the run in this process
static bool fake = false;
static int seen; // ticks whose files have been put in place
static void copy_file(const std::string& a, const std::string& b)
{
    std::ifstream i(a.c_str(), std::ios::binary);
    std::ofstream o((b + ".part").c_str(), std::ios::binary);
    o << i.rdbuf();
    o.close();
    rename((b + ".part").c_str(), b.c_str());
}
static std::string message_to, weight_to;
static int tick_now()
{
    unsigned long long c = counter ? *counter : plan.base;
    return c < plan.base + plan.toss ? 0 : (int)((c - plan.base - plan.toss) / plan.per);
}
static time_t clock_now()
{
    int t = tick_now();
    time_t r = 1000000000;
    // the discarded updates take as long as one tick when there are any
    if (counter && plan.toss && *counter >= plan.base + plan.toss) r += plan.gaps[0];
    for (int i = 1; i <= t; i++) r += plan.gaps[i % plan.gaps.size()];
    return r;
}
static void arrive()
{
    int t = tick_now();
    for (; seen <= t; seen++)
        for (auto& d : plan.drops)
            if (d.tick == seen) {
                if (!d.weight.empty()) {
                    copy_file(d.weight, weight_to);
                    for (auto b : {"FermiBasis", "BoseBasis"}) copy_file(b + d.message, b + std::string(".dat.txt"));
                }
                copy_file(d.message, message_to);
            }
}
extern "C" time_t time(time_t* p)
{
    time_t r;
    if (!fake) {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        r = ts.tv_sec;
    }
    else {
        arrive();
        if (tick_now() >= plan.ticks) raise(plan.sig);
        r = clock_now();
    }
    if (p) *p = r;
    return r;
}
static int saves;
class SpyEnv : public EnvMonteCarlo {
public:
    SpyEnv(const para::Job& job, bool sym = false) : EnvMonteCarlo(job, sym) {}
    bool BuildNew() { bool r = EnvMonteCarlo::BuildNew(); counter = &Para.Counter; return r; }
    bool Load() { bool r = EnvMonteCarlo::Load(); counter = &Para.Counter; return r; }
    void Save()
    {
        saves++;
        if (saves == plan.save && plan.where == 0) raise(plan.sig);
        EnvMonteCarlo::Save();
        if (saves == plan.save && plan.where == 1) raise(plan.sig);
    }
};
// ---------------------------------------------------------------- what the program is to do
struct Elapsed {
    time_t since, every;
    Elapsed(time_t e) : since(clock_now()), every(e) {}
    bool due()
    {
        if (clock_now() - since < every) return false;
        since = clock_now();
        return true;
    }
};
static void reference(const std::string& input)
{
    para::Job job(input);
    EnvMonteCarlo e(job);
    if (job.DoesLoad) e.Load();
    else e.BuildNew();
    counter = &e.Para.Counter;
    Elapsed write(e.Para.DiskWriterTimer), listen(e.Para.MessageTimer), adjust(e.Para.ReweightTimer);
    arrive();
    e.ListenToMessage();
    for (int i = 0; i < (int)e.Para.Toss; i++) e.Markov.Hop(e.Para.Sweep);
    for (;;) {
        for (int i = 0; i < 100; i++) {
            e.Markov.Hop(e.Para.Sweep);
            e.MarkovMonitor.Measure();
        }
        arrive();
        if (tick_now() >= plan.ticks) return;
        e.MarkovMonitor.AddStatistics();
        if (write.due()) {
            e.Save();
            if (++saves == plan.save) return;
        }
        if (listen.due()) e.ListenToMessage();
        if (adjust.due()) e.AdjustOrderReWeight();
    }
}
// ---------------------------------------------------------------- the property
static std::string slurp(const std::string& f)
{
    std::ifstream i(f.c_str(), std::ios::binary);
    std::ostringstream o;
    o << i.rdbuf();
    return o.str();
}
static bool there(const std::string& f) { return access(f.c_str(), F_OK) == 0; }
static void wipe(const std::string& d)
{
    if (DIR* h = opendir(d.c_str())) {
        while (struct dirent* x = readdir(h)) {
            std::string n = x->d_name;
            if (n == "." || n == "..") continue;
            if (x->d_type == DT_DIR) wipe(d + "/" + n);
            else unlink((d + "/" + n).c_str());
        }
        closedir(h);
    }
    rmdir(d.c_str());
}
struct Settings {
    int toss, sweep, printer, disk, message, reweight;
    unsigned long long counter;
    std::string job(int pid, bool load, const std::string& type) const
    {
        return "{'Job': {'Type': '" + type + "', 'DoesLoad': " + (load ? "True" : "False") + ", 'Sample': 7, 'PID': " + ToString(pid) + ", 'WeightFile': 'gw', 'MessageFile': 'msg'},\n";
    }
};
static std::string para_text(const Cfg& c, const Settings& t, int seed)
{
    std::ostringstream o;
    o.precision(17);
    o << "'Para': {'Version': 0, 'Tau': {'Beta': " << c.beta << (c.beta == (long)c.beta ? ".0" : "") << ", 'MaxTauBin': " << c.T << ", 'MaxTauBinTiny': " << c.TT << "},\n"
      << "'Lattice': {'NSublat': " << c.NSub << ", 'L': [" << c.Lx << ", " << c.Ly << "]},\n"
      << "'Markov': {'Toss': " << t.toss << ", 'Sweep': " << t.sweep << ", 'WormSpaceReweight': " << c.wormRe << ", 'PolarReweight': " << c.polRe << ", 'runGamma3': " << (c.gamma3 ? "True" : "False")
      << ", 'GammaGReweight': " << c.ggRe << ", 'GammaWReweight': " << c.gwRe << ", 'OrderReWeight': " << numbers(c.orderRe) << ", 'OrderTimeRatio': " << numbers(c.timeRatio) << ", 'Order': " << c.order
      << ", 'Counter': " << t.counter << ", 'Seed': " << seed
      << ", 'Timer': {'PrinterTimer': " << t.printer << ", 'DiskWriterTimer': " << t.disk << ", 'MessageTimer': " << t.message << ", 'ReweightTimer': " << t.reweight << "}}}}";
    return o.str();
}
static void put_all(const std::string& n, const std::string& t)
{
    std::ofstream o(n.c_str());
    o << t;
}
static void basis_files(const std::string& dir, double beta, const std::string& end)
{
    for (auto b : {"FermiBasis", "BoseBasis"}) write_text(dir + b + end, basis_text(beta, 4));
}
static Result child(const std::string& dir, const std::function<void()>& f)
{
    return collect(spawn([&] {
        if (chdir(dir.c_str())) _exit(97);
        if (!getenv("VP_SHOW")) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); }
        seen = 0;
        saves = 0;
        counter = nullptr;
        fake = true;
        f();
    }), 25);
}
PROP(M23, "a run that wrote its state at least once before it was ended and did something else than the first write in between: an adjustment of weights, a message or a second write was due")
{
    setup();
    CfgOpt o;
    o.maxL = 3; o.maxT = 4; o.maxOrder = 3; o.gamma3 = 4; o.zeros = true;
    Cfg c = gen_cfg(s, o);
    set_basis(c.beta);
    int pid = s.range(0, 99);
    wipe("prog");
    mkdir("prog", 0700);
    mkdir("prog/a", 0700);
    mkdir("prog/b", 0700);
    mkdir("prog/a/infile", 0700);
    mkdir("prog/b/infile", 0700);
    Settings t;
    t.toss = s.flip() ? s.range(0, 60) : 0;
    t.sweep = s.range(1, 6);
    static const int per[] = {1, 3, 5, 10, 20, 40, 100};
    t.printer = per[s.below(7)];
    t.disk = per[s.below(5)];
    t.message = per[s.below(7)];
    t.reweight = per[s.below(7)];
    t.counter = s.flip(1, 3) ? s.below(1ULL << 33) : 0;
    int seed = (int)s.below(1u << 31);
    bool by_pid = s.flip();
    const char* flag = by_pid ? (s.flip() ? "-p" : "--PID") : (s.flip() ? "-f" : "--file");
    std::string input = by_pid ? "infile/_in_MC_" + ToString(pid) : std::string("my_input");
    std::string arg = by_pid ? ToString(pid) : input;
    std::string state = ToString(pid) + "_MC";
    {
        Ref ref;
        ref.build(c);
        write_weight(ref, "prog/a/gw");
        copy_file("prog/a/gw.hkl", "prog/b/gw.hkl");
        basis_files("prog/a/", c.beta, ".dat.txt");
        basis_files("prog/b/", c.beta, ".dat.txt");
    }
    message_to = "msg.txt";
    weight_to = "gw.hkl";
    std::ostringstream log;
    log << c.str() << " toss " << t.toss << " sweep " << t.sweep << " disk " << t.disk << " message " << t.message << " reweight " << t.reweight;
    int legs = s.flip(1, 3) ? 2 : 1, version = 0;
    double beta = c.beta;
    bool rich = false, saved = false;
    for (int leg = 0; leg < legs; leg++) {
        for (auto d : {"prog/a/", "prog/b/"})
            put_all(d + input + ".txt", t.job(pid, leg > 0, "MC") + para_text(c, t, seed));
        Plan p;
        p.base = t.counter;
        p.per = 100ULL * t.sweep;
        p.toss = (unsigned long long)t.toss * t.sweep;
        if (leg) { // the counter the saved state carries
            Dictionary d;
            d.Load("prog/b/" + state + "_para");
            p.base = d.Get<Dictionary>("Para").Get<Dictionary>("Markov").Get<unsigned long long>("Counter");
        }
        int n = s.range(1, 5);
        for (int i = 0; i < n; i++) p.gaps.push_back(s.flip(1, 4) ? 0 : s.range(1, 12));
        p.ticks = s.flip(1, 3) ? s.range(20, 120) : s.range(1, 16);
        p.save = s.flip() ? s.range(1, 4) : 0;
        p.where = (int)s.below(2);
        p.sig = s.flip() ? SIGTERM : SIGINT;
        int drops = s.range(0, 3);
        std::vector<int> when;
        for (int i = 0; i < drops; i++) when.push_back(s.range(0, 10));
        std::sort(when.begin(), when.end());
        for (int i = 0; i < drops; i++) {
            Drop d;
            d.tick = when[i];
            d.message = "m" + ToString(leg) + ToString(i);
            bool stale = s.below(4) == 0;
            if (!stale) {
                version += 1 + (int)s.below(2);
                Cfg c2 = c;
                if (c.zeros == 0) c2.tseed = s.below(1000) + 7; // a configuration must not lose its weight
                static const double b[] = {1.0, 0.5, 0.25, 2.0, 3.0, 0.7};
                if (c.zeros == 0 && legs == 1 && s.flip()) beta = c2.beta = b[s.below(6)];
                else c2.beta = beta;
                Ref ref;
                set_basis(c2.beta);
                ref.build(c2);
                d.weight = "w" + ToString(leg) + ToString(i) + ".hkl";
                for (auto q : {"prog/a/", "prog/b/"}) {
                    write_weight(ref, q + ("w" + ToString(leg)) + ToString(i));
                    basis_files(q, c2.beta, d.message);
                }
                set_basis(c.beta);
            }
            double squeeze = s.real(0.5, 3);
            for (auto q : {"prog/a/", "prog/b/"}) {
                write_message(q + d.message, version, beta, squeeze);
                rename((q + d.message + ".txt").c_str(), (q + d.message).c_str());
            }
            p.drops.push_back(d);
            log << " [message version " << version << " at " << d.tick << "]";
        }
        plan = p;
        log << " leg " << leg << ": gaps " << n << " end at " << p.ticks << " or save " << p.save << " with signal " << p.sig << ";";
        Result ra = child("prog/a", [&] {
            const char* av[] = {"simulator", flag, arg.c_str()};
            sim_main(3, av);
        });
        Result rb = child("prog/b", [&] { reference(input); });
        CHECK(!rb.hang && WIFEXITED(rb.status) && WEXITSTATUS(rb.status) == 0, "reference", "the reference loop ended with " << show_status(rb.status) << " " << log.str());
        CHECK(!ra.hang, "hang", "the program does not end on request: " << log.str());
        CHECK(WIFEXITED(ra.status) && WEXITSTATUS(ra.status) == p.sig, "ending", "the program ended with " << show_status(ra.status) << " instead of status " << p.sig << ": " << log.str());
        bool stat = there("prog/b/" + state + "_statis.hkl");
        CHECK(stat == there("prog/a/" + state + "_statis.hkl"), "written", (stat ? "the program has not written its data" : "the program has written data before it was due") << ": " << log.str());
        CHECK(there("prog/a/" + state + "_para.txt"), "written", "no parameter file: " << log.str());
        Dictionary x, y;
        x.Load("prog/a/" + state + "_para");
        y.Load("prog/b/" + state + "_para");
        std::string d = dict_diff(x, y);
        CHECK(d.empty(), "para", "the saved parameters differ from those of a run that keeps the schedule at " << d << ": " << log.str());
        if (stat) {
            Dictionary u, v;
            u.BigLoad("prog/a/" + state + "_statis");
            v.BigLoad("prog/b/" + state + "_statis");
            d = dict_diff(u, v);
            CHECK(d.empty(), "statistics", "the saved data differ from those of a run that keeps the schedule at " << d << ": " << log.str());
            saved = true;
            if (p.ticks > 4) rich = true;
        }
        s.tag(stat ? "saved" : "not saved");
        s.tag(leg ? "continued" : "new");
        if (!stat) break;
    }
    // other command lines
    int odd = (int)s.below(12);
    if (odd == 0) {
        std::vector<std::string> bad = {"simulator"};
        int k = (int)s.below(4);
        if (k == 1) bad.push_back("-p");
        if (k == 2) { bad.push_back("-q"); bad.push_back(arg); }
        if (k == 3) { bad.push_back(flag); bad.push_back(arg); bad.push_back("x"); }
        wipe("prog/a");
        mkdir("prog/a", 0700);
        mkdir("prog/a/infile", 0700);
        put_all("prog/a/" + input + ".txt", t.job(pid, false, "MC") + para_text(c, t, seed));
        Result r = child("prog/a", [&] {
            std::vector<const char*> av;
            for (auto& b : bad) av.push_back(b.c_str());
            sim_main((int)av.size(), av.data());
        });
        CHECK(!r.hang && !(WIFEXITED(r.status) && WEXITSTATUS(r.status) == 0), "arguments", "a wrong command line is accepted");
        CHECK(!there("prog/a/" + state + "_para.txt"), "arguments", "a wrong command line starts a run");
        s.tag("wrong command line");
    }
    if (odd == 1) {
        wipe("prog/a");
        mkdir("prog/a", 0700);
        mkdir("prog/a/infile", 0700);
        put_all("prog/a/" + input + ".txt", t.job(pid, false, "DYSON") + para_text(c, t, seed));
        Result r = child("prog/a", [&] {
            const char* av[] = {"simulator", flag, arg.c_str()};
            sim_main(3, av);
        });
        CHECK(!r.hang, "other_type", "a job of another type does not end");
        CHECK(!there("prog/a/" + state + "_para.txt"), "other_type", "a job of another type starts a run");
        s.tag("other type");
    }
    wipe("prog");
    if (saved && rich) s.nontrivial(log.str());
}
// ---------------------------------------------------------------- the program itself
#define main sim_main
#define EnvMonteCarlo SpyEnv
#include "main.cpp"
#undef EnvMonteCarlo
#undef main
int main(int argc, char** argv)
{
    py_init();
    return pbt::main_(argc, argv);
}
