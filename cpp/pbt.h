// Minimal property-based testing engine: choice-sequence generation, shrinking, replay.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H
#include <algorithm>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <vector>
namespace pbt {
typedef uint64_t u64_;
static u64_* shm = nullptr; // records choices of a forked case, survives a crash
static const size_t SHM_N = 4000001;
typedef uint64_t u64;
inline u64 mix(u64 x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
struct Fail {
    std::string key, msg;
    Fail(const std::string& k, const std::string& m) : key(k), msg(m) {}
};
struct Discard {};
class Src {
public:
    std::vector<u64> in, rec;
    size_t pos = 0;
    bool replay = false;
    std::mt19937_64 rng;
    bool nontrivial_ = false;
    std::string desc;
    int tier = 0;
    std::map<std::string, long> tags;
    std::vector<Fail> soft; // known findings hit
    explicit Src(u64 seed) : rng(mix(seed)) {}
    explicit Src(const std::vector<u64>& v) : in(v), replay(true) {}
    u64 below(u64 n) // uniform in [0,n)
    {
        u64 v;
        if (replay) {
            v = pos < in.size() ? in[pos] : 0;
            pos++;
            if (n && v >= n) v %= n;
        }
        else
            v = n ? rng() % n : rng();
        rec.push_back(v);
        if (shm && rec.size() < SHM_N) { shm[rec.size()] = v; shm[0] = rec.size(); }
        if (rec.size() > 4000000) throw Discard();
        return v;
    }
    int range(int a, int b) { return a + (int)below((u64)((long)b - a + 1)); }
    bool flip(int num = 1, int den = 2) { return (int)below(den) >= den - num; }
    double unit() { return below(1ULL << 32) * (1.0 / 4294967296.0); }
    double real(double a, double b) { return a + (b - a) * unit(); }
    uint32_t word() { return (uint32_t)below(1ULL << 32); }
    template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    void nontrivial(const std::string& d = "")
    {
        nontrivial_ = true;
        if (desc.empty()) desc = d;
    }
    void tag(const std::string& t, long n = 1) { tags[t] += n; }
};
typedef std::function<void(Src&)> Prop;
struct Def {
    std::string name, rule;
    Prop fn;
    double weight;
};
inline std::vector<Def>& defs()
{
    static std::vector<Def> d;
    return d;
}
struct Reg {
    Reg(const std::string& n, const std::string& rule, Prop f, double w = 1) { defs().push_back(Def{n, rule, f, w}); }
};
#define PROP(ident, rule)                               \
    static void prop_##ident(pbt::Src&);                \
    static pbt::Reg reg_##ident(#ident, rule, prop_##ident); \
    static void prop_##ident(pbt::Src& s)
#define PROPW(ident, w, rule)                               \
    static void prop_##ident(pbt::Src&);                \
    static pbt::Reg reg_##ident(#ident, rule, prop_##ident, w); \
    static void prop_##ident(pbt::Src& s)
#define CHECK(cond, key, msg)                       \
    do {                                            \
        if (!(cond)) {                              \
            std::ostringstream ss__;                \
            ss__.precision(17);                     \
            ss__ << msg << " [" #cond "]";          \
            throw pbt::Fail(key, ss__.str());       \
        }                                           \
    } while (0)
inline std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}
inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
struct Outcome {
    int kind; // 0 ok, 1 fail, 2 discard
    std::string key, msg;
};
inline Outcome run1(const Prop& p, Src& s)
{
    try {
        p(s);
        return Outcome{0, "", ""};
    }
    catch (Fail& f) { return Outcome{1, f.key, f.msg}; }
    catch (Discard&) { return Outcome{2, "", ""}; }
    catch (std::exception& e) { return Outcome{1, "exception", std::string("unexpected exception: ") + e.what()}; }
}
inline u64 hashv(const std::vector<u64>& v)
{
    u64 h = 1469598103934665603ULL;
    for (u64 x : v) h = mix(h ^ x);
    return h;
}
typedef std::function<bool(const std::vector<u64>&, std::vector<u64>&)> FailsFn;
inline std::vector<u64> shrink_with(const FailsFn& fails, std::vector<u64> best, double budget)
{
    double t0 = now();
    bool improved = true;
    auto better = [](const std::vector<u64>& a, const std::vector<u64>& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; };
    while (improved && now() - t0 < budget) {
        improved = false;
        for (size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1; chunk /= 2) {
            for (size_t i = best.size(); i-- > 0 && now() - t0 < budget;) {
                if (i + chunk > best.size()) continue;
                std::vector<u64> c(best.begin(), best.begin() + i), r;
                c.insert(c.end(), best.begin() + i + chunk, best.end());
                if (fails(c, r) && better(r, best)) { best = r; improved = true; }
                else if (chunk > 1) i = i >= chunk / 2 ? i - chunk / 2 : 0;
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < best.size() && now() - t0 < budget; i++) {
            if (!best[i]) continue;
            std::vector<u64> c = best, r;
            c[i] = 0;
            if (fails(c, r) && better(r, best)) { best = r; improved = true; continue; }
            for (u64 d = best[i] / 2; d && i < best.size() && now() - t0 < budget; d /= 2) {
                if (best[i] < d) continue;
                c = best;
                c[i] -= d;
                if (fails(c, r) && better(r, best)) { best = r; improved = true; }
            }
        }
    }
    return best;
}
inline std::vector<u64> shrink(const Prop& p, const std::vector<u64>& v0, const std::string& key, double budget, int tier)
{
    return shrink_with([&](const std::vector<u64>& v, std::vector<u64>& out) {
        Src s(v);
        s.tier = tier;
        alarm(60);
        Outcome o = run1(p, s);
        alarm(0);
        out = s.rec;
        return o.kind == 1 && o.key == key;
    }, v0, budget);
}
static int status_fd = -1;
inline void on_alarm(int)
{
    const char m[] = "HANG: case exceeded its time limit\n";
    if (write(2, m, sizeof(m) - 1)) {}
    _exit(97);
}
inline std::string dump(const std::vector<u64>& v)
{
    std::ostringstream o;
    for (size_t i = 0; i < v.size(); i++) o << (i ? " " : "") << v[i];
    return o.str();
}
// args: --prop NAME,NAME|all --seed N --secs T --out FILE --status FILE --tier 0|1 --known a,b  | --replay FILE
inline int main_(int argc, char** argv)
{
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    signal(SIGALRM, on_alarm);
    int tier = atoi(a["--tier"].c_str());
    if (a.count("--list")) {
        for (auto& d : defs()) fprintf(stderr, "%s\t%s\n", d.name.c_str(), d.rule.c_str());
        return 0;
    }
    if (a.count("--replay")) {
        std::ifstream f(a["--replay"]);
        std::string line, prop, mode;
        std::getline(f, prop);
        f >> mode;
        std::vector<u64> v;
        u64 x;
        while (f >> x) v.push_back(x);
        for (auto& d : defs())
            if (d.name == prop) {
                Src s = mode == "SEED" ? Src(v.at(0)) : Src(v);
                s.tier = tier;
                alarm(60);
                Outcome o = run1(d.fn, s);
                alarm(0);
                std::ofstream out(a["--out"]);
                out << o.kind << "\n" << o.key << "\n" << o.msg << "\n";
                fprintf(stderr, "replay %s: %s %s %s\n", prop.c_str(), o.kind == 1 ? "FAIL" : "ok", o.key.c_str(), o.msg.c_str());
                out.close();
                _exit(o.kind == 1 ? 1 : 0);
            }
        fprintf(stderr, "no such property %s\n", prop.c_str());
        _exit(2);
    }
    if (a.count("--shrink")) { // shrink a crashing case, each attempt in a forked child
        std::ifstream f(a["--shrink"]);
        std::string prop, mode;
        std::getline(f, prop);
        f >> mode;
        std::vector<u64> v, best;
        u64 x;
        while (f >> x) v.push_back(x);
        shm = (u64*)mmap(0, SHM_N * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        for (auto& d : defs())
            if (d.name == prop) {
                auto attempt = [&](bool seeded, const std::vector<u64>& c, std::vector<u64>& out) {
                    shm[0] = 0;
                    fflush(0);
                    pid_t pid = fork();
                    if (!pid) {
                        int fd = open("/dev/null", O_WRONLY);
                        dup2(fd, 2);
                        Src s = seeded ? Src(c.at(0)) : Src(c);
                        s.tier = tier;
                        alarm(20);
                        Outcome o = run1(d.fn, s);
                        _exit(o.kind == 1 ? 1 : 0);
                    }
                    int st = 0;
                    waitpid(pid, &st, 0);
                    out.assign(shm + 1, shm + 1 + shm[0]);
                    return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
                };
                if (!attempt(mode == "SEED", v, best)) _exit(3);
                best = shrink_with([&](const std::vector<u64>& c, std::vector<u64>& out) { return attempt(false, c, out); }, best, atof(a["--secs"].c_str()));
                std::vector<u64> o2;
                if (!attempt(false, best, o2)) _exit(3);
                std::ofstream out(a["--out"]);
                out << dump(best) << "\n";
                out.close();
                _exit(0);
            }
        _exit(2);
    }
    u64 seed = strtoull(a["--seed"].c_str(), 0, 10);
    double secs = atof(a["--secs"].c_str());
    std::set<std::string> known;
    {
        std::stringstream ss(a["--known"]);
        std::string k;
        while (std::getline(ss, k, ',')) known.insert(k);
    }
    std::set<std::string> sel;
    {
        std::stringstream ss(a["--prop"]);
        std::string k;
        while (std::getline(ss, k, ',')) sel.insert(k);
    }
    status_fd = open(a["--status"].c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    std::vector<Def*> ds;
    double wsum = 0;
    for (auto& d : defs())
        if (sel.count(d.name) || sel.count("all")) { ds.push_back(&d); wsum += d.weight; }
    std::ofstream out(a["--out"]);
    double t0 = now();
    std::ostringstream js;
    js << "[";
    bool first = true;
    double used = 0;
    for (Def* d : ds) {
        double end = t0 + secs * (used + d->weight) / wsum;
        used += d->weight;
        long evals = 0, discards = 0, nontriv = 0;
        std::unordered_set<u64> seen;
        std::vector<std::string> samples;
        std::map<std::string, long> tags, knownhits;
        std::map<std::string, std::string> knownmsg;
        std::string fkey, fmsg, fchoices, forig;
        for (u64 i = 0; now() < end || evals == 0; i++) {
            u64 cs = mix(mix(seed) ^ mix(i + 1) ^ std::hash<std::string>()(d->name)) >> 1;
            if (status_fd >= 0) {
                char b[300];
                int n = snprintf(b, 300, "%s\nSEED %llu\n%-20s", d->name.c_str(), (unsigned long long)cs, "");
                if (pwrite(status_fd, b, n, 0)) {}
            }
            Src s(cs);
            s.tier = tier;
            alarm(60);
            Outcome o = run1(d->fn, s);
            alarm(0);
            evals++;
            for (auto& t : s.tags) tags[t.first] += t.second;
            for (auto& f : s.soft) { knownhits[f.key]++; knownmsg[f.key] = f.msg; }
            if (o.kind == 2) discards++;
            if (o.kind != 2 && s.nontrivial_) {
                if (seen.size() < 2000000 && seen.insert(hashv(s.rec)).second) nontriv++;
                if (samples.size() < 3 && !s.desc.empty()) samples.push_back(s.desc.substr(0, 600));
            }
            if (o.kind == 1) {
                if (known.count(o.key)) { knownhits[o.key]++; knownmsg[o.key] = o.msg; continue; }
                fkey = o.key;
                forig = o.msg;
                std::vector<u64> m = shrink(d->fn, s.rec, o.key, 25, tier);
                Src s2(m);
                s2.tier = tier;
                Outcome o2 = run1(d->fn, s2);
                if (o2.kind == 1) { fmsg = o2.msg; fchoices = dump(m); }
                else { fmsg = o.msg; fchoices = dump(s.rec); }
                break;
            }
        }
        js << (first ? "" : ",") << "\n{\"prop\":\"" << d->name << "\",\"rule\":\"" << jesc(d->rule) << "\",\"evals\":" << evals << ",\"discards\":" << discards << ",\"nontriv\":" << nontriv << ",\"samples\":[";
        for (size_t i = 0; i < samples.size(); i++) js << (i ? "," : "") << "\"" << jesc(samples[i]) << "\"";
        js << "],\"tags\":{";
        bool f2 = true;
        for (auto& t : tags) { js << (f2 ? "" : ",") << "\"" << jesc(t.first) << "\":" << t.second; f2 = false; }
        js << "},\"known\":{";
        f2 = true;
        for (auto& t : knownhits) { js << (f2 ? "" : ",") << "\"" << jesc(t.first) << "\":\"" << jesc(knownmsg[t.first]) << "\""; f2 = false; }
        js << "},\"fail\":";
        if (fkey.empty()) js << "null";
        else js << "{\"key\":\"" << jesc(fkey) << "\",\"msg\":\"" << jesc(fmsg) << "\",\"choices\":\"" << fchoices << "\"}";
        js << "}";
        first = false;
        if (!fkey.empty()) break;
    }
    js << "]\n";
    out << js.str();
    out.close();
    _exit(0);
}
}
#endif
