// M01 M02 M04 M05 M20: histories of diagram updates checked against independent invariants.
#include "inv.h"
#include "utility/logger.h"
using namespace diag;
static std::string cfgline(World& w, const std::string& h) { return w.c.str() + " steps: " + h; }
static int nsteps(Src& s) { static const int n[] = {20, 60, 200, 500}; int m = n[s.below(4)]; return s.range(1, s.tier ? m * 3 : m); }
static CfgOpt deep() { CfgOpt o; o.deep = 6; return o; }
struct Hist {
    World& w;
    Src& s;
    std::string h;
    int changed = 0, maxorder = 0, worms = 0;
    std::vector<uint64_t> last;
    int lo = -1;
    std::set<std::string> eff;
    Steps steps;
    Hist(World& w_, Src& s_) : w(w_), s(s_) {}
    void step(std::function<void()> chk)
    {
        if (w.diag.HasGammaGW == 0 && s.below(32) == 31) {
            Dictionary d = w.diag.ToDict();
            w.diag.FromDict(d, w.para.Lat, *w.weight.G, *w.weight.W);
            s.tag("reloaded");
            if (h.size() < 500) h += "reload ";
            try { chk(); }
            catch (pbt::Fail& f) { throw pbt::Fail(f.key, f.msg + " after reloading the diagram; " + w.c.str() + "; " + w.show()); }
        }
        Step st = steps.next(s, w);
        int o0 = w.diag.Order;
        bool w0 = w.diag.Worm.Exist;
        Complex ww = w.diag.Weight;
        do_step(w, st);
        bool ch = o0 != w.diag.Order || w0 != w.diag.Worm.Exist || ww.Re != w.diag.Weight.Re || ww.Im != w.diag.Weight.Im;
        if (ch) { changed++; eff.insert(op_name(w, st.op)); s.tag(std::string("accepted_") + op_name(w, st.op)); }
        maxorder = std::max(maxorder, w.diag.Order);
        worms += w.diag.Worm.Exist;
        if (h.size() < 500) { h += op_name(w, st.op); h += ch ? "* " : " "; }
        try { chk(); }
        catch (pbt::Fail& f) { throw pbt::Fail(f.key, f.msg + " after " + op_name(w, st.op) + "; " + w.c.str() + "; " + w.show()); }
    }
    void done()
    {
        s.tag("order_" + std::to_string(maxorder));
        if (maxorder >= 2 && changed >= 4 && worms) s.nontrivial(cfgline(w, h));
    }
};
#define RULE "history with at least 4 effective updates, a worm, and diagram order >= 2"
PROP(M01, RULE)
{
    Cfg c = gen_cfg(s, deep());
    World w(c);
    check_structure(w);
    Hist h(w, s);
    int n = nsteps(s);
    for (int i = 0; i < n; i++) h.step([&] { check_structure(w); });
    h.done();
}
PROP(M02, RULE)
{
    Cfg c = gen_cfg(s, deep());
    World w(c);
    LoopRef r = loop_ref(w);
    check_weights(w, r);
    Hist h(w, s);
    int n = nsteps(s);
    for (int i = 0; i < n; i++) h.step([&] { check_weights(w, r); });
    h.done();
}
PROP(M05, RULE)
{
    Cfg c = gen_cfg(s, deep());
    World w(c);
    check_hash(w);
    check_skeleton(w);
    Hist h(w, s);
    int n = nsteps(s);
    for (int i = 0; i < n; i++) h.step([&] { check_hash(w); check_skeleton(w); });
    h.done();
}
// counters parsed from the printed detailed-balance report
typedef std::map<std::string, std::map<int, std::pair<double, double>>> Counters;
static Counters counters(World& w)
{
    std::ostringstream buf;
    auto old = std::cout.rdbuf(buf.rdbuf());
    w.mk.PrintDetailBalanceInfo();
    std::cout.rdbuf(old);
    Counters r;
    std::istringstream in(buf.str());
    std::string line, cur;
    bool ops = true;
    std::set<std::string> names;
    for (auto& o : World::ops()) names.insert(o.name);
    names.insert("CHANGE_R_VERTEX");
    names.insert("CHANGE_SPIN_VERTEX");
    while (std::getline(in, line)) {
        if (line.find("<----") != std::string::npos) break;
        if (line.size() && line[0] != '\t' && line.back() == ':') {
            cur = line.substr(0, line.size() - 1);
            cur = names.count(cur) ? cur : "";
            if (cur.size()) r[cur];
            continue;
        }
        size_t p = line.find("Order");
        if (cur.size() && p != std::string::npos) {
            int o;
            double a, b;
            if (sscanf(line.c_str() + p, "Order%d:%lf%lf", &o, &a, &b) == 3) r[cur][o] = {a, b};
        }
    }
    return r;
}
PROP(M04, "history containing at least 5 rejected proposals and 5 calls to updates that do not apply, besides accepted ones, at order >= 2")
{
    static bool conf = false;
    if (!conf) { LOGGER_CONF("m04.log", "t", Logger::screen_on, INFO, INFO); conf = true; }
    Cfg c = gen_cfg(s, deep());
    World w(c);
    int n = nsteps(s), rej = 0, inap = 0, acc = 0, mo = 0;
    Counters c0 = counters(w);
    bool usable = c0.size() >= 10;
    if (!usable) s.tag("report_not_readable");
    std::string h;
    Steps steps;
    for (int i = 0; i < n; i++) {
        Step st = steps.next(s, w);
        int order = w.diag.Order;
        auto before = snapshot(w);
        std::string txt = w.show();
        do_step(w, st);
        auto after = snapshot(w);
        if (!usable) continue;
        Counters c1 = counters(w);
        double dp = 0, da = 0;
        std::string who;
        for (auto& o : c1)
            for (auto& e : o.second) {
                double p = e.second.first - c0[o.first][e.first].first, a = e.second.second - c0[o.first][e.first].second;
                if (p || a) {
                    who += o.first + " ";
                    CHECK(e.first == order, "counter", o.first << " counted at order " << e.first << " though the update started from order " << order << "; " << txt);
                    CHECK(st.op >= w.nops() || o.first == op_name(w, st.op), "counter", "calling " << op_name(w, st.op) << " counted as " << o.first);
                }
                dp += p;
                da += a;
            }
        CHECK((dp == 0 || dp == 1) && (da == 0 || da == 1) && da <= dp, "counter", op_name(w, st.op) << " proposed " << dp << " accepted " << da << "; " << txt);
        CHECK(da || before == after, "untouched", op_name(w, st.op) << " (" << who << ") was not accepted but changed the configuration: " << txt << "  =>  " << w.show());
        CHECK(before == after || da == 1, "uncounted", op_name(w, st.op) << " changed the configuration without an accepted count");
        rej += dp && !da;
        inap += !dp;
        acc += da;
        mo = std::max(mo, w.diag.Order);
        if (h.size() < 400) { h += op_name(w, st.op); h += da ? "+ " : dp ? "- " : "0 "; }
        c0 = c1;
    }
    s.tag("rejected", rej); s.tag("inapplicable", inap); s.tag("accepted", acc);
    if (rej >= 5 && inap >= 5 && acc >= 2 && mo >= 2) s.nontrivial(cfgline(w, h));
}
// M20: self-check
static bool self_check(World& w)
{
    try { return w.diag.CheckDiagram(); }
    catch (std::runtime_error&) { return false; }
}
PROP(M20, "configuration of order >= 2 reached by updates, with a corruption that was applicable")
{
    Cfg c = gen_cfg(s, deep());
    World w(c);
    int n = nsteps(s);
    Steps steps;
    for (int i = 0; i < n; i++) {
        do_step(w, steps.next(s, w));
        if (i % 4 == 0 || i + 1 == n) {
            auto a = snapshot(w);
            CHECK(self_check(w), "rejects-valid", "self-check rejects a reachable configuration " << w.c.str() << " " << w.show());
            CHECK(a == snapshot(w), "alters", "self-check altered the configuration");
        }
    }
    auto& D = w.diag;
    // make the weight usable as a witness: absolute tolerance of the check
    int N = D.Order;
    std::string what;
    auto G = [&] { return D.G((int)s.below(D.G.HowMany())); };
    auto W = [&] { return D.W((int)s.below(D.W.HowMany())); };
    auto V = [&] { return D.Ver((int)s.below(D.Ver.HowMany())); };
    if (N == 0) {
        D.Weight *= 1.5;
        CHECK(!self_check(w), "accepts-corrupt", "wrong weight at order 0 accepted");
        s.nontrivial("order 0, total weight scaled");
        return;
    }
    check_structure(w);
    bool applied = true;
    static Vertex foreign;
    int kind = (int)s.below(22);
    double wmag = std::abs(C(D.Weight));
    switch (kind) {
    case 0: { auto g = G(); int d = s.below(2); auto v = V(); if (v == g->nVer[d]) applied = false; g->nVer[d] = v; what = "G end moved to another vertex"; break; }
    case 1: { auto g = G(); int d = s.below(2); foreign = *g->nVer[d]; g->nVer[d] = &foreign; what = "G end on a foreign vertex"; break; }
    case 2: { auto g = W(); int d = s.below(2); auto v = V(); if (v == g->nVer[d]) applied = false; g->nVer[d] = v; what = "W end moved to another vertex"; break; }
    case 3: { auto g = W(); int d = s.below(2); foreign = *g->nVer[d]; g->nVer[d] = &foreign; what = "W end on a foreign vertex"; break; }
    case 4: { auto v = V(); int d = s.below(2); auto g = G(); if (g == v->nG[d]) applied = false; v->nG[d] = g; what = "vertex linked to another G"; break; }
    case 5: { auto v = V(); auto g = W(); if (g == v->nW) applied = false; v->nW = g; what = "vertex linked to another W"; break; }
    case 6: { D.Order += s.flip() && D.Order > 1 ? -1 : 1; what = "order off by one"; break; }
    case 7: { auto v = V(); v->Dir = 1 - v->Dir; what = "vertex direction flipped"; break; }
    case 8: { auto g = G(); g->IsMeasure = !g->IsMeasure; what = "G measuring flag flipped"; break; }
    case 9: { auto g = W(); g->IsMeasure = !g->IsMeasure; what = "W measuring flag flipped"; break; }
    case 10: { D.MeasureGLine = !D.MeasureGLine; what = "MeasureGLine flipped"; break; }
    case 11: { auto g = W(); g->IsWorm = !g->IsWorm; what = "W worm flag flipped"; break; }
    case 12: {
        std::vector<WLine*> ds;
        for (int i = 0; i < N; i++) if (D.W(i)->IsDelta) ds.push_back(D.W(i));
        if (ds.empty()) { applied = false; break; }
        auto x = s.pick(ds);
        auto v = x->nVer[s.below(2)];
        v->Tau = v->Tau > 0.5 * c.beta ? v->Tau * 0.5 : v->Tau + 0.25 * c.beta;
        what = "instantaneous line with unequal times";
        break;
    }
    case 13: { auto g = G(); if (g->nVer[0] == g->nVer[1]) applied = false; g->K += s.range(1, 2 * MAX_K); what = "G momentum shifted"; break; }
    case 14: { auto g = W(); g->K += s.range(1, 2 * MAX_K); what = "W momentum shifted"; break; }
    case 15: { auto v = V(); int d = s.below(2); v->_spin[d] = FLIP(v->_spin[d]); what = "spin flipped at one end of a G"; break; }
    case 16: { auto g = G(); g->Weight = g->Weight * 1.5 + Complex(0.1, 0.2); what = "G weight changed"; break; }
    case 17: { auto g = W(); g->Weight = g->Weight * 1.5 + Complex(0.1, 0.2); what = "W weight changed"; break; }
    case 18: { if (wmag < 1e-3) applied = false; D.Weight *= s.flip() ? -1.0 : 1.01; what = "total weight changed"; break; }
    case 19: { if (wmag < 1e-3) applied = false; D.SignFermiLoop *= -1; what = "loop sign flipped"; break; }
    case 20: { if (!D.Worm.Exist) { applied = false; break; } D.Worm.K += s.range(1, 2 * MAX_K); what = "worm momentum shifted"; break; }
    case 21: {
        if (!D.MeasureGLine) { applied = false; break; }
        auto g = G();
        if (g == D.GMeasure) { applied = false; break; }
        D.GMeasure = g;
        what = "GMeasure points to another line";
        break;
    }
    }
    s.tag(applied ? "corruption_" + std::to_string(kind) : "corruption_not_applicable");
    if (!applied) return;
    std::string key = "accepts-corrupt-" + std::to_string(kind);
    CHECK(!self_check(w), key, "self-check accepts a configuration with " << what << "; " << w.c.str() << " " << w.show());
    if (N >= 2) s.nontrivial(what + "; " + w.c.str());
}
int main(int argc, char** argv)
{
    py_init();
    quiet();
    return pbt::main_(argc, argv);
}
