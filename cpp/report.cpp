// M28: the report about the updates against the moves that were made.
#include "inv.h"
#include "utility/logger.h"
#include <iostream>
#include <map>
#include <array>
#include <malloc.h>
using namespace diag;
using namespace pbt;
static uint32_t word(uint32_t seed, int k)
{
    uint64_t z = ((uint64_t)seed << 32 | (uint32_t)k) + 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return (uint32_t)(z ^ (z >> 31));
}
struct Screen {
    std::ostringstream text;
    std::streambuf* old;
    Screen() : old(std::cout.rdbuf(text.rdbuf())) {}
    ~Screen() { std::cout.rdbuf(old); }
};
struct Row { double prop = 0, acc = 0; bool operator==(const Row& o) const { return prop == o.prop && acc == o.acc; } };
typedef std::map<std::string, std::map<int, Row>> Table; // update, order (-1: sum)
struct Report { Table t; std::map<std::string, std::map<int, std::array<double, 3>>> b; long long counter = -1; };
static Report report(World& w)
{
    Screen scr;
    w.mk.PrintDetailBalanceInfo();
    std::istringstream in(scr.text.str());
    std::string l, name;
    Report r;
    bool pair = false;
    while (std::getline(in, l)) {
        size_t c = l.find("DiagCounter:");
        if (c != l.npos) { r.counter = std::atoll(l.c_str() + c + 12); continue; }
        size_t i = l.find_first_not_of(" \t");
        if (i == l.npos || l[i] == '=' || l[i] == '-' || l[i] == '[') continue;
        size_t arrow = l.find("<------>");
        if (i == 0 && l[l.size() - 1] == ':') {
            pair = arrow != l.npos;
            name = l.substr(0, l.size() - 1);
            CHECK(pair ? !r.b.count(name) : !r.t.count(name), "twice", "the report describes " << name << " twice");
            if (pair) r.b[name]; else r.t[name];
            continue;
        }
        if (l.compare(i, 4, "None") == 0) continue;
        bool sum = l.compare(i, 9, "Summation") == 0;
        CHECK(!name.empty() && (sum || l.compare(i, 5, "Order") == 0), "line", "the report has the line " << l);
        int o = sum ? -1 : std::atoi(l.c_str() + i + 5);
        double a, b, q;
        size_t col = l.find(':');
        CHECK(col != l.npos && std::sscanf(l.c_str() + col + 1, "%lf %lf %lf", &a, &b, &q) == 3, "line", "the report has the line " << l);
        if (pair) {
            CHECK(!r.b[name].count(o), "twice", "order " << o << " of " << name << " is reported twice");
            r.b[name][o] = {{a, b, q}};
        }
        else {
            CHECK(!r.t[name].count(o), "twice", "order " << o << " of " << name << " is reported twice");
            Row x;
            x.prop = a; x.acc = b;
            r.t[name][o] = x;
            CHECK(std::fabs(q - b / a) < 2e-5 * (1 + q), "ratio", "the report says " << b << " of " << a << " are a ratio of " << q);
        }
    }
    return r;
}
static std::string diff(const Table& a, const Table& b)
{
    std::ostringstream o;
    for (auto& x : a) for (auto& y : x.second) {
        Row z;
        auto p = b.find(x.first);
        if (p != b.end()) { auto q = p->second.find(y.first); if (q != p->second.end()) z = q->second; }
        if (!(z == y.second)) o << " " << x.first << " order " << y.first << ": " << y.second.prop << " proposed, " << y.second.acc << " accepted, expected " << z.prop << " and " << z.acc << ";";
    }
    return o.str();
}
static Row at(const Table& t, const std::string& n, int o)
{
    auto p = t.find(n);
    if (p == t.end()) return Row();
    auto q = p->second.find(o);
    return q == p->second.end() ? Row() : q->second;
}
PROP(M28, "a report about at least 20 accepted moves of 5 kinds at 2 orders")
{
    CfgOpt opt;
    opt.deep = 6;
    Cfg c = gen_cfg(s, opt);
    World w(c);
    std::set<std::string> known;
    for (int i = 0; i < w.nops(); i++) known.insert(World::ops()[i].name);
    int n = s.range(1, s.pick<int>({20, 100, 400}));
    Steps steps;
    Table ref, acc;
    Report last = report(w);
    std::set<int> orders;
    std::set<std::string> kinds;
    int accepted = 0;
    auto context = [&](int i, const std::string& op) { return "; step " + ToString(i) + " " + op + " from order " + ToString(w.diag.Order) + "; " + c.str(); };
    for (auto& x : last.t) CHECK(x.second.empty(), "fresh", "a report before the first update counts updates of " << x.first);
    for (int i = 0; i < n; i++) {
        Step st = steps.next(s, w);
        bool hop = st.op >= w.nops();
        std::string op = op_name(w, st.op);
        auto before = snapshot(w);
        int order = w.diag.Order;
        long long count = w.para.Counter;
        std::vector<uint32_t> words;
        for (int k = 0; k < 60; k++) words.push_back(word(st.seed + 0x9e3779b9u * (uint32_t)i, k));
        auto play = [&] {
            verif_script.in = words;
            verif_script.pos = 0;
            verif_script.log.clear();
            verif_script.on = true;
            if (hop) w.mk.Hop(1);
            else (w.mk.*World::ops()[st.op].f)();
            verif_script.on = false;
        };
        int proposed = -1; // unknown
        for (int probe = 0; probe < 2; probe++) {
            order = w.diag.Order;
            count = w.para.Counter;
            play();
            bool changed = before != snapshot(w);
            Report r = report(w);
            std::string where = context(i, op);
            if (hop) count++;
            CHECK(r.counter == w.para.Counter && w.para.Counter == count, "counter", "the report counts " << r.counter << " updates, the run " << w.para.Counter << ", there were " << count << where);
            for (auto& k : known) CHECK(r.t.count(k), "missing", "the report does not describe " << k << where);
            // what was counted in this call
            int dp = 0, da = 0;
            std::string by;
            for (auto& x : r.t) {
                Row sum;
                for (auto& y : x.second) {
                    if (y.first < 0) continue;
                    sum.prop += y.second.prop; sum.acc += y.second.acc;
                    Row o = at(last.t, x.first, y.first);
                    if (y.second == o) continue;
                    CHECK(hop || x.first == op, "update", "the move is counted as " << x.first << where);
                    CHECK(by.empty(), "update", "the move is counted as " << by << " and as " << x.first << where);
                    CHECK(y.first == order, "order", "a move from order " << order << " is counted at order " << y.first << where);
                    by = x.first;
                    dp = (int)(y.second.prop - o.prop);
                    da = (int)(y.second.acc - o.acc);
                }
                for (auto& y : at(last.t, x.first, -1).prop ? last.t[x.first] : std::map<int, Row>())
                    CHECK(x.second.count(y.first), "lost", "order " << y.first << " of " << x.first << " is no longer reported" << where);
                CHECK(at(r.t, x.first, -1) == sum, "sum", "the sum of " << x.first << " is " << at(r.t, x.first, -1).prop << " and " << at(r.t, x.first, -1).acc << ", the orders give " << sum.prop << " and " << sum.acc << where);
            }
            CHECK(dp == 0 || dp == 1, "proposed", dp << " proposals are counted in one update" << where);
            CHECK(da <= dp, "accepted", da << " of " << dp << " proposals are counted as accepted" << where);
            // picking the place of a loop can pick the place it has
            if (changed) CHECK(da == 1, "accepted", "the configuration changed, but no accepted move is counted" << where);
            else CHECK(da == 0 || by == "CHANGE_R_LOOP", "accepted", "the configuration did not change, but an accepted move is counted" << where);
            if (da) { accepted++; orders.insert(order); kinds.insert(by); acc[by][order].acc++; }
            last = r;
            if (probe && proposed == 0 && changed) {
                // the same choices, only another last number: if that is the one the decision is made with, the first call proposed the same move
                bool fresh = false;
                double tau = words[verif_script.log.size() - 1] * 2.32830643653869628906e-010 * c.beta;
                for (int k = 0; k < w.diag.Ver.HowMany(); k++) fresh = fresh || std::fabs(w.diag.Ver(k)->Tau - tau) < 1e-12;
                if (w.diag.HasGammaGW) fresh = fresh || std::fabs(w.diag.UExt.Tau - tau) < 1e-12;
                CHECK(fresh, "proposed", "a rejected proposal is not counted" << where);
            }
            if (hop || changed || !verif_script.log.size() || verif_script.log.size() > words.size() || !verif_script.log.back().isU) break;
            proposed = dp;
            uint32_t& u = words[verif_script.log.size() - 1];
            u = u < 0x80000000u ? 0 : 0x80000000u; // the same half: a choice between two stays as it is
        }
    }
    // the figures that compare a move with its reverse
    for (auto& x : last.b) {
        size_t p = x.first.find("<------>");
        std::string a = x.first.substr(0, p), b = x.first.substr(p + 8);
        CHECK(known.count(a) && known.count(b), "pair", "the report compares " << x.first);
        bool up = a.compare(0, 3, "ADD") == 0, down = a == "JUMP_TO_ORDER0";
        double sa = 0, sb = 0;
        for (int o = 0; o <= c.order; o++) {
            int other = up ? o + 1 : o;
            if (down) continue;
            double na = at(last.t, a, o).acc, nb = at(last.t, b, other).acc;
            if (up && o == c.order) continue;
            sa += na; sb += nb;
            std::array<double, 3> want = {{na, nb, std::fabs(na - nb) / std::sqrt(na + nb)}};
            bool there = x.second.count(o);
            CHECK(there || na + nb == 0, "pair", "order " << o << " of " << x.first << " is not compared: " << na << " and " << nb);
            if (!there) continue;
            auto& g = x.second[o];
            CHECK(g[0] == na && g[1] == nb && (na + nb == 0 || std::fabs(g[2] - want[2]) < 2e-5 * (1 + want[2])), "pair", "order " << o << " of " << x.first << " is reported as " << g[0] << ", " << g[1] << ", " << g[2] << ", expected " << na << ", " << nb << ", " << want[2]);
        }
        if (!down && sa + sb > 0) {
            CHECK(x.second.count(-1), "pair", "the comparison " << x.first << " has no sum");
            auto& g = x.second[-1];
            double q = std::fabs(sa - sb) / std::sqrt(sa + sb);
            CHECK(g[0] == sa && g[1] == sb && std::fabs(g[2] - q) < 2e-5 * (1 + q), "pair", "the sum of " << x.first << " is reported as " << g[0] << ", " << g[1] << ", " << g[2] << ", expected " << sa << ", " << sb << ", " << q);
        }
    }
    for (auto& x : acc) for (auto& y : x.second) CHECK(at(last.t, x.first, y.first).acc == y.second.acc, "accepted", at(last.t, x.first, y.first).acc << " accepted moves " << x.first << " at order " << y.first << " are reported, there were " << y.second.acc);
    if (s.below(8) == 0) {
        w.mk.BuildNew(w.para, w.diag, w.weight);
        Report r = report(w);
        for (auto& x : r.t) CHECK(x.second.empty(), "fresh", "a run begun anew reports earlier updates of " << x.first);
        for (auto& x : r.b) CHECK(x.second.empty(), "fresh", "a run begun anew compares earlier updates of " << x.first);
        int m = s.range(1, 120), moves = 0;
        for (int i = 0; i < m; i++) {
            auto before = snapshot(w);
            w.mk.Hop(1);
            moves += before != snapshot(w);
        }
        r = report(w);
        double all = 0, loops = at(r.t, "CHANGE_R_LOOP", -1).acc;
        for (auto& x : r.t) all += at(r.t, x.first, -1).acc;
        CHECK(moves <= all && all - loops <= moves, "fresh", m << " updates of a run begun anew made " << moves << " moves, the report counts " << all << " accepted moves");
        for (auto& x : r.t) for (auto& y : x.second) CHECK(y.second.acc <= y.second.prop, "fresh", "a run begun anew reports " << y.second.acc << " of " << y.second.prop << " moves " << x.first << " as accepted");
    }
    if (accepted >= 20 && kinds.size() >= 5 && orders.size() >= 2) s.nontrivial(c.str() + " " + ToString(accepted) + " accepted moves of " + ToString(kinds.size()) + " kinds at " + ToString(orders.size()) + " orders");
}
int main(int argc, char** argv)
{
    mallopt(M_PERTURB, 0x5a); // what is never set is never zero by chance, and the same in every run
    py_init();
    LOGGER_CONF("report.log", "report", Logger::screen_on, INFO, INFO);
    quiet();
    return main_(argc, argv);
}
