// M26 diagnostics: the log, failures, scope guards and the text helpers.
#include "world.h"
#include "utility/logger.h"
#include "utility/abort.h"
#include "utility/scopeguard.h"
#include "utility/utility.h"
#include <ctime>
#include <sys/stat.h>
#include <sys/wait.h>
#include <dlfcn.h>
#include <iostream>
#define COMMA ,
using pbt::Src; using pbt::main_;
// the clock the log reads; a log that uses another clock shows the real time, which is accepted as well
static time_t fake_now = 0;
extern "C" time_t time(time_t* t) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    time_t v = fake_now ? fake_now : ts.tv_sec;
    if (t) *t = v;
    return v;
}
static time_t real_now() { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); return ts.tv_sec; }
static std::string read_file(const std::string& n)
{
    std::ifstream f(n, std::ios::binary);
    std::ostringstream o;
    o << f.rdbuf();
    return o.str();
}
struct Screen {
    std::ostringstream text;
    std::streambuf* old;
    Screen() : old(std::cout.rdbuf(text.rdbuf())) {}
    ~Screen() { std::cout.rdbuf(old); }
};
static const char* LEVELS[] = {"[DEBUG]", "[INFO]", "[WARNING]", "[ERROR]"};
struct Entry { std::string name, file, msg; int level, line; time_t fake, t0, t1; };
static bool stamp_ok(const int* n, time_t t)
{
    struct tm* m = localtime(&t);
    return n[0] == m->tm_year % 100 && n[1] == m->tm_mon + 1 && n[2] == m->tm_mday && n[3] == m->tm_hour && n[4] == m->tm_min && n[5] == m->tm_sec;
}
// parses one entry at pos; returns an explanation of what is wrong, or nothing
static std::string parse(const std::string& t, size_t& pos, const Entry& e)
{
    auto lit = [&](const std::string& x) { if (t.compare(pos, x.size(), x)) return false; pos += x.size(); return true; };
    if (!lit("[" + e.name + "]")) return "name";
    if (!lit(LEVELS[e.level])) return "level";
    if (!lit("[")) return "stamp";
    int n[6];
    for (int i = 0; i < 6; i++) {
        char* end;
        n[i] = (int)strtol(t.c_str() + pos, &end, 10);
        if (end == t.c_str() + pos) return "stamp";
        pos = end - t.c_str() + 1;
    }
    bool ok = stamp_ok(n, e.fake);
    for (time_t x = e.t0; x <= e.t1 && !ok; x++) ok = stamp_ok(n, x);
    if (!ok) { std::ostringstream o; o << "stamp " << n[0] << "/" << n[1] << "/" << n[2] << " " << n[3] << ":" << n[4] << ":" << n[5] << " for time " << e.fake; return o.str(); }
    if (!lit("@[" + e.file + ":" + ToString(e.line) + "]\n")) return "call site";
    if (!lit(e.msg)) return "message";
    while (pos < t.size() && t[pos] == '\n') pos++;
    return "";
}
static std::string gen_text(Src& s)
{
    static const char* parts[] = {"x", "%s%n", "\n", "[ERROR]", "a message", "\t", "{}", "1e-9", "\"q\"", "]", "@[f:1]"};
    std::string o;
    int n = s.below(8) ? (int)s.below(5) : (int)s.below(400);
    for (int i = 0; i < n; i++) o += parts[s.below(11)];
    while (!o.empty() && o[0] == '\n') o.erase(0, 1);
    while (!o.empty() && o.back() == '\n') o.pop_back();
    return o;
}
static void compare(const std::string& got, const std::string& before, const std::vector<Entry>& want, const std::string& where, const std::string& log)
{
    CHECK(got.compare(0, before.size(), before) == 0, "earlier", where << " lost what it held before; history " << log);
    size_t pos = before.size();
    for (size_t i = 0; i < want.size(); i++) {
        std::string w = parse(got, pos, want[i]);
        CHECK(w.empty(), "entry", where << ": message " << i << " of " << want.size() << " (" << LEVELS[want[i].level] << " '" << want[i].msg.substr(0, 60) << "'): wrong " << w << "; the text goes on with '" << got.substr(std::min(pos, got.size()), 80) << "'; history " << log);
    }
    CHECK(pos == got.size(), "more", where << " goes on with '" << got.substr(pos, 200) << "'; history " << log);
}
// every case starts from the same configuration, so that it does not depend on the ones before
static void known_state() { LOGGER_CONF("before.log", "before", Logger::file_on | Logger::screen_off, 0, 4); unlink("before.log"); }
static void log_case(Src& s)
{
    known_state();
    std::map<std::string, std::vector<Entry>> want;
    std::map<std::string, std::string> before;
    std::vector<Entry> screen;
    const char* files[] = {"logA.log", "logB.log", "other/logC.log"};
    mkdir("other", 0755);
    for (auto f : files) {
        if (s.flip(2, 3)) unlink(f);
        else { std::ofstream o(f); o << "an earlier run\n[old][INFO]\n"; }
        before[f] = read_file(f);
    }
    Screen scr;
    std::ostringstream log;
    std::string cur, name;
    int fl = 0, sl = 0, shown = 0, hidden = 0;
    bool fon = false, son = false;
    auto configure = [&]() {
        cur = files[s.below(3)];
        name = s.pick<std::string>({"MC", "t", "", "a b", "DYSON[1]"});
        fl = s.below(5), sl = s.below(5);
        fon = s.flip(3, 4), son = s.flip();
        auto f = fon ? Logger::file_on : Logger::file_off;
        auto c = son ? Logger::screen_on : Logger::screen_off;
        log << " configure(" << cur << "," << name << (fon ? ",file " : ",no file ") << fl << (son ? ",screen " : ",no screen ") << sl << ")";
        LOGGER_CONF(cur, name, f | c, fl, sl);
    };
    configure();
    int n = s.range(1, 14), confs = 1;
    std::string last_file;
    for (int i = 0; i < n; i++) {
        if (s.below(5) == 0) { configure(); confs++; continue; }
        Entry e;
        e.level = s.below(4);
        e.name = name;
        e.msg = gen_text(s);
        // days of every month of every year the program may run in
        fake_now = s.flip(3, 4) ? 1262304000 + (time_t)s.below(20 * 365 * 86400LL) : 0;
        e.t0 = real_now();
        e.fake = fake_now ? fake_now : e.t0;
        std::string path = s.pick<std::string>({"/a/b/markov.cpp", "src/main.cpp", "c:\\x\\y.cpp", "", "plain.cpp", "/r/", "/a.b/c-d.h"});
        if (s.flip(1, 4)) {
            switch (e.level) {
            case 0: LOG_DEBUG(e.msg); e.line = __LINE__; break;
            case 1: LOG_INFO(e.msg); e.line = __LINE__; break;
            case 2: LOG_WARNING(e.msg); e.line = __LINE__; break;
            default: LOG_ERROR(e.msg); e.line = __LINE__;
            }
            path = __FILE__;
        }
        else {
            e.line = s.below(3) ? (int)s.below(2000) : (int)s.below(1 << 30);
            Logger::getInstance().print(e.level, path, e.line, e.msg);
        }
        fake_now = 0;
        e.t1 = real_now();
        size_t p = path.find_last_of("/\\");
        e.file = p == std::string::npos ? path : path.substr(p + 1);
        log << " " << LEVELS[e.level] << (e.fake == e.t0 ? std::string() : "@" + ToString(e.fake)) << "'" << e.msg.substr(0, 12) << "' from " << path;
        if (fon && e.level >= fl) { want[cur].push_back(e); shown++; } else hidden++;
        if (son && e.level >= sl) screen.push_back(e);
        // what was logged is there at once, also for somebody else or after a crash
        compare(read_file(cur), before[cur], want[cur], cur, log.str());
    }
    for (auto f : files) compare(read_file(f), before[f], want[f], f, log.str());
    compare(scr.text.str(), "", screen, "the screen", log.str());
    if (shown && hidden && confs > 1) s.nontrivial(log.str().substr(0, 300));
    s.tag("messages", n);
}
template <typename X> static void one_failure(const std::string& msg, int level, int& line, int& evals)
{
    line = __LINE__; THROW(X, (evals++, msg) << 7, LogLevel(level));
}
template <typename X> static void failure(Src& s, const char* type)
{
    known_state();
    Screen scr;
    unlink("fail.log");
    int fl = s.below(4), level = s.below(4), line = 0, evals = 0;
    LOGGER_CONF("fail.log", "f", Logger::file_on | Logger::screen_off, fl, 0);
    std::string msg = gen_text(s), kind;
    std::string what;
    Entry e{"f", "log.cpp", "", level, 0, 0, real_now(), 0};
    bool refused = true, expect = true;
    int how = s.below(4), value = s.range(-2, 2), assertions = 0;
    const int* null = nullptr;
    try {
        switch (how) {
        case 0: one_failure<X>(msg, level, line, evals); break;
        case 1: type = "RunTimeException"; e.level = 3; msg += "8"; evals++; line = __LINE__; ABORT(msg); break;
        case 2: type = "RunTimeException"; e.level = 3; expect = value <= 0; evals++; line = __LINE__; ASSERT_ALLWAYS((assertions++, value > 0), msg << value); break;
        default: type = "RunTimeException"; e.level = 3; expect = value > 0; evals++; line = __LINE__; CHECKNULL(value > 0 ? null : &value);
        }
        refused = false;
    }
    catch (X& x) { what = x.what(); kind = typeid(X).name(); }
    catch (RunTimeException& x) { what = x.what(); kind = typeid(RunTimeException).name(); }
    e.t1 = real_now(); e.fake = e.t0; e.line = line;
    std::string want = how == 0 ? typeid(X).name() : typeid(RunTimeException).name();
    if (how == 0) msg += "7";
    CHECK(refused == expect, "raised", "way " << how << " with value " << value << (refused ? " raises" : " goes on"));
    std::string t = read_file("fail.log");
    if (!refused) { CHECK(t.empty(), "raised", "nothing failed, but the log holds " << t); return; }
    if (how == 2) CHECK(assertions == 1, "once", "the condition was evaluated " << assertions << " times");
    CHECK(kind == want, "type", "a failure of type " << type << " arrives as " << kind);
    CHECK(evals == 1, "once", "the message was evaluated " << evals << " times");
    std::string place = ":" + ToString(line) + "] ";
    if (how == 3) msg = " is nullptr!";
    CHECK(what.find(msg) != std::string::npos && what.find("log.cpp" + place) != std::string::npos, "what", "the failure '" << msg << "' at line " << line << " reports '" << what << "'");
    size_t p = what.find(place);
    e.msg = "Exception throwed: " + what.substr(p + place.size());
    std::vector<Entry> w;
    if (e.level >= fl) w.push_back(e);
    compare(t, "", w, "the log of a failure", type);
    s.nontrivial(std::string(type) + " way " + ToString(how) + " '" + msg.substr(0, 60) + "'");
}
static void guards(Src& s, int depth, std::vector<int>& order, std::vector<int>& want, int& id, bool raise, std::string& log)
{
    int mine = id++;
    int how = s.below(3);
    log += " " + ToString(mine) + (how == 1 ? "(dismissed)" : "");
    {
        ScopeGuard g([&order, mine] { order.push_back(mine); });
        if (how == 1) g.Dismiss();
        if (depth > 0) {
            try { guards(s, depth - 1, order, want, id, raise, log); }
            catch (int) { if (how != 1) want.push_back(mine); throw; }
        }
        else if (raise) { if (how != 1) want.push_back(mine); throw 1; }
        CHECK(std::find(order.begin(), order.end(), mine) == order.end(), "guard-early", "guard" << log << " ran before its scope ended");
        if (how == 2) { int more = id++; want.push_back(more); ON_SCOPE_EXIT([&order COMMA more] { order.push_back(more); }); }
    }
    if (how != 1) want.push_back(mine);
}
PROP(M26, "log: messages above and below the threshold and more than one configuration; failures: one that is raised; guards: at least three; text: a padded text")
{
    switch (s.below(8)) {
    case 0: case 1: case 2: case 3: log_case(s); break;
    case 4: case 5:
        switch (s.below(7)) {
        case 0: failure<IOInvalid>(s, "IOInvalid"); break;
        case 1: failure<TypeInvalid>(s, "TypeInvalid"); break;
        case 2: failure<KeyInvalid>(s, "KeyInvalid"); break;
        case 3: failure<ValueInvalid>(s, "ValueInvalid"); break;
        case 4: failure<IndexInvalid>(s, "IndexInvalid"); break;
        case 5: failure<MemoryException>(s, "MemoryException"); break;
        default: failure<RunTimeException>(s, "RunTimeException");
        }
        break;
    case 6: {
        std::vector<int> order, want;
        int id = 0, depth = s.below(6);
        bool raise = s.flip(), seen = false;
        std::string log;
        try { guards(s, depth, order, want, id, raise, log); } catch (int) { seen = true; }
        CHECK(seen == raise, "guard-raise", "guards" << log << " swallow an exception");
        CHECK(order == want, "guard-order", "guards" << log << (raise ? " left by an exception" : "") << " ran " << order.size() << " times, expected " << want.size() << ", or in another order");
        if (id > 2) s.nontrivial("guards" + log);
        break;
    }
    default: {
        std::string t;
        int n = s.below(12), w = s.range(0, 14);
        for (int i = 0; i < n; i++) t += (char)('a' + s.below(26));
        std::string l = Left(t, w), r = Right(t, w), c = Center(t, w);
        int pad = std::max(0, w - n);
        std::string ctx = "'" + t + "' in a field of " + ToString(w);
        CHECK(l == t + std::string(pad, ' '), "left", ctx << ": '" << l << "'");
        CHECK(r == std::string(pad, ' ') + t, "right", ctx << ": '" << r << "'");
        CHECK(c == std::string(pad / 2, ' ') + t + std::string(pad - pad / 2, ' '), "center", ctx << ": '" << c << "'");
        double x = s.pick<double>({0.0, s.real(-1, 1), s.real(-1e6, 1e6), 1e15, -1e-8});
        int d = s.below(10);
        char b[400];
        snprintf(b, sizeof b, "%*.*f", w, d, x);
        CHECK(ToString(x, w, d) == b, "number", "number " << x << " width " << w << " digits " << d << ": '" << ToString(x, w, d) << "'");
        double eps = s.pick<double>({1e-9, 1e-3, 1.0, 0.0}), y = x + s.pick<double>({0.0, eps * 0.5, -eps * 0.5, eps * 2, -eps * 2, 1.0});
        CHECK(Equal(x, y, eps) == (std::fabs(x - y) < eps) && Zero(x, eps) == (std::fabs(x) < eps), "equal", "comparison of " << x << " and " << y << " within " << eps);
        std::string f = s.pick<std::string>({"logA.log", "not/there", "empty.txt", "full.txt"});
        unlink("empty.txt");
        { std::ofstream o("full.txt"); o << t << "1"; }
        struct stat st;
        bool have = stat(f.c_str(), &st) == 0;
        CHECK(DoesFileExist(f) == have, "exist", "existence of " << f << " (" << have << ")");
        CHECK((stat(f.c_str(), &st) == 0) == have, "exist", "asking for " << f << " creates it");
        if (f == "full.txt") CHECK(read_file(f) == t + "1", "exist", "asking for a file changes it");
        if (f != "logA.log") {
            CHECK(CleanFile(f) == (f != "not/there"), "clean", "emptying " << f);
            if (f != "not/there") CHECK(read_file(f).empty() && stat(f.c_str(), &st) == 0, "clean", f << " is not empty");
        }
        if (pad) s.nontrivial(ctx);
    }
    }
}
int main(int argc, char** argv)
{
    py_init();
    quiet();
    return main_(argc, argv);
}
