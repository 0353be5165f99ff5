// M27 drawings of diagrams.
#include "inv.h"
#include <set>
using namespace pbt;
static std::string attr(const std::string& l, const std::string& k)
{
    size_t p = l.find(k + "=");
    if (p == std::string::npos) return "";
    p += k.size() + 1;
    if (l[p] == '"') return l.substr(p + 1, l.find('"', p + 1) - p - 1);
    size_t e = l.find_first_of(" ,;]", p);
    return l.substr(p, e - p);
}
static void check_drawing(World& w, const std::string& path)
{
    auto& D = w.diag;
    auto before = snapshot(w);
    D.WriteDiagram2gv(path);
    CHECK(before == snapshot(w), "changed", "drawing changed the configuration");
    std::ifstream f(path);
    std::string l;
    bool body = false, closed = false, first = true;
    typedef std::tuple<int, int, bool, std::string> Edge; // from, to, interaction, colour
    std::multiset<Edge> got, want;
    std::map<int, std::pair<bool, std::string>> nodes;
    int comments = 0;
    while (std::getline(f, l)) {
        if (!body) {
            if (first) {
                first = false;
                std::istringstream in(l);
                int order = -1, worm = -1;
                size_t a = l.find("Order="), b = l.find("WormExist="), c = l.find("FermiLoop="), d = l.find("Weight=");
                CHECK(a != l.npos && b != l.npos && c != l.npos && d != l.npos, "head", "the drawing starts with " << l);
                order = std::atoi(l.c_str() + a + 6);
                worm = std::atoi(l.c_str() + b + 10);
                double loop = std::atof(l.c_str() + c + 10);
                CHECK(order == D.Order && worm == (int)D.Worm.Exist && loop == D.SignFermiLoop, "head", "the drawing of order " << D.Order << ", worm " << D.Worm.Exist << ", sign " << D.SignFermiLoop << " starts with " << l);
            }
            if (l.compare(0, 2, "//") == 0) comments++;
            body = l.find("digraph") != l.npos && l.find('{') != l.npos;
            continue;
        }
        size_t i = l.find_first_not_of(" \t");
        if (i == l.npos || l.compare(i, 2, "//") == 0) continue;
        CHECK(!closed, "tail", "the drawing goes on after its end with " << l);
        if (l[i] == '}') { closed = true; continue; }
        if (l.compare(i, 4, "node") == 0 || l.compare(i, 4, "edge") == 0 || l.compare(i, 5, "graph") == 0) continue;
        CHECK(isdigit(l[i]), "line", "unexpected line " << l);
        int a = std::atoi(l.c_str() + i);
        size_t arrow = l.find("->");
        if (arrow != l.npos) {
            bool wl = attr(l, "style") == "dashed";
            int b = std::atoi(l.c_str() + arrow + 2);
            if (wl && a > b) std::swap(a, b);   // interactions have no direction
            got.insert(Edge(a, b, wl, attr(l, "color")));
        }
        else {
            CHECK(!nodes.count(a), "twice", "vertex " << a << " is drawn twice");
            nodes[a] = {attr(l, "shape") == "square", attr(l, "fillcolor")};
        }
    }
    CHECK(closed, "tail", "the drawing does not end");
    CHECK((int)nodes.size() == D.Ver.HowMany(), "vertices", nodes.size() << " vertices drawn, the diagram has " << D.Ver.HowMany());
    std::map<int, std::set<std::string>> fill;
    for (int i = 0; i < D.Ver.HowMany(); i++) {
        auto v = D.Ver(i);
        CHECK(nodes.count(v->Name), "vertex", "vertex " << v->Name << " is not drawn");
        bool worm = D.Worm.Exist && (v == D.Worm.Ira || v == D.Worm.Masha);
        CHECK(nodes[v->Name].first == worm, "worm", "vertex " << v->Name << (worm ? " is a worm end but not drawn as one" : " is drawn as a worm end"));
        fill[v->R.Sublattice].insert(nodes[v->Name].second);
    }
    for (auto& x : fill) CHECK(x.second.size() == 1, "sublattice", "vertices of sublattice " << x.first << " have different colours");
    if (fill.count(0) && fill.count(1)) CHECK(*fill[0].begin() != *fill[1].begin(), "sublattice", "sublattices 0 and 1 are both " << *fill[0].begin());
    const char* col[] = {"blue", "red"};
    for (int i = 0; i < D.G.HowMany(); i++) {
        auto g = D.G(i);
        std::string c = g->IsMeasure ? "green" : std::string(col[g->nVer[IN]->Spin(OUT)]) + ":" + col[g->nVer[OUT]->Spin(IN)] + ";0.5";
        want.insert(Edge(g->nVer[IN]->Name, g->nVer[OUT]->Name, false, c));
    }
    for (int i = 0; i < D.W.HowMany(); i++) {
        auto x = D.W(i);
        want.insert(Edge(std::min(x->nVer[IN]->Name, x->nVer[OUT]->Name), std::max(x->nVer[IN]->Name, x->nVer[OUT]->Name), true, x->IsMeasure ? "green" : ""));
    }
    auto text = [](const Edge& e) { std::ostringstream o; o << std::get<0>(e) << "->" << std::get<1>(e) << (std::get<2>(e) ? " interaction " : " propagator ") << std::get<3>(e); return o.str(); };
    for (auto& e : want) CHECK(got.count(e) == want.count(e), "missing", "the line " << text(e) << " is drawn " << got.count(e) << " times");
    for (auto& e : got) CHECK(want.count(e), "extra", "a line " << text(e) << " is drawn that the diagram does not have");
    CHECK(comments >= 2 + D.Ver.HowMany() + D.G.HowMany() + D.W.HowMany(), "describes", comments << " lines describe " << D.Ver.HowMany() << " vertices and " << D.G.HowMany() + D.W.HowMany() << " lines");
}
PROP(M27, "drawing of a diagram of order >= 2 reached by updates")
{
    CfgOpt o;
    o.deep = 6;
    Cfg c = gen_cfg(s, o);
    World w(c);
    int n = s.range(1, s.pick<int>({10, 60, 300}));
    Steps steps;
    std::string path = s.pick<std::string>({"d.gv", "e.gv"});
    { std::ofstream f(path); if (s.flip()) for (int i = 0; i < 3000; i++) f << "an older and longer drawing\n"; }
    int drawn = 0;
    for (int i = 0; i < n; i++) {
        do_step(w, steps.next(s, w));
        if (i % 8 && i + 1 < n) continue;
        try { check_drawing(w, path); }
        catch (pbt::Fail& f) { throw pbt::Fail(f.key, f.msg + "; " + w.c.str() + " " + w.show()); }
        drawn = std::max(drawn, w.diag.Order);
    }
    if (s.below(20) == 0) {
        bool ok = true;
        try { w.diag.WriteDiagram2gv("no/such/folder/d.gv"); } catch (std::exception&) { ok = false; }
        CHECK(!ok, "silent", "a drawing that cannot be written is not reported");
    }
    if (drawn >= 2) s.nontrivial(c.str() + " order " + ToString(drawn) + (w.diag.Worm.Exist ? " with worm" : ""));
}
int main(int argc, char** argv)
{
    py_init();
    quiet();
    return main_(argc, argv);
}
