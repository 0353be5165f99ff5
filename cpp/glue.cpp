// M19 values crossing the C++/Python boundary.
#include "inv.h"
#include "pyhelp.h"
#include <cfloat>
#include <list>
#include <tuple>
using namespace Python;
static bool same(double a, double b) { return std::memcmp(&a, &b, 8) == 0 || (a != a && b != b); }
static bool same(float a, float b) { return std::memcmp(&a, &b, 4) == 0 || (a != a && b != b); }
// Python prints a complex number as a sum, which loses the sign of a zero part
static bool zero_sign_lost = false;
static bool same(const Complex& a, const Complex& b)
{
    if (zero_sign_lost) return a.Re == b.Re && a.Im == b.Im;
    return same(a.Re, b.Re) && same(a.Im, b.Im);
}
static bool same(const std::string& a, const std::string& b) { return a == b; }
static bool same(bool a, bool b) { return a == b; }
static bool same(int a, int b) { return a == b; }
static bool same(unsigned a, unsigned b) { return a == b; }
static bool same(long a, long b) { return a == b; }
static bool same(unsigned long a, unsigned long b) { return a == b; }
static bool same(long long a, long long b) { return a == b; }
static bool same(unsigned long long a, unsigned long long b) { return a == b; }
static bool same(spin a, spin b) { return a == b; }
static bool same(const Momentum& a, const Momentum& b) { return a.K == b.K; }
static bool same(const RandomFactory& a, const RandomFactory& b) { return ToString(a) == ToString(b); }
template <typename T> static bool same(const Vec<T>& a, const Vec<T>& b) { return same(a[0], b[0]) && same(a[1], b[1]); }
template <typename T> static bool same(const std::vector<T>& a, const std::vector<T>& b);
template <typename T> static bool same(const std::list<T>& a, const std::list<T>& b) { return same(std::vector<T>(a.begin(), a.end()), std::vector<T>(b.begin(), b.end())); }
template <typename K, typename V> static bool same(const std::map<K, V>& a, const std::map<K, V>& b)
{
    if (a.size() != b.size()) return false;
    auto i = a.begin();
    for (auto& x : b) {
        if (!same(i->first, x.first) || !same(i->second, x.second)) return false;
        ++i;
    }
    return true;
}
template <typename T> static bool same(const std::vector<T>& a, const std::vector<T>& b)
{
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); i++) if (!same(a[i], b[i])) return false;
    return true;
}
// ---------------------------------------------------------------- generation
static double any_double(Src& s, bool finite)
{
    switch (s.below(finite ? 7 : 9)) {
    case 0: return 0.0;
    case 1: return -0.0;
    case 2: return s.range(-100, 100);
    case 3: return s.real(-1, 1);
    case 4: return s.real(-1, 1) * std::pow(10.0, s.range(-307, 307));
    case 5: { static const double v[] = {DBL_MAX, DBL_MIN, 4.9406564584124654e-324, 1e22, 9007199254740993.0, 0.1, 1 / 3.0, -DBL_MAX}; return v[s.below(8)]; }
    case 6: { uint64_t u = ((uint64_t)s.word() << 32) | s.word(); double d; std::memcpy(&d, &u, 8); return std::isfinite(d) ? d : 1.5; }
    case 7: return INFINITY;
    default: return NAN;
    }
}
template <typename T> static T any_int(Src& s)
{
    switch (s.below(6)) {
    case 0: return 0;
    case 1: return std::numeric_limits<T>::max() - (T)s.below(2);
    case 2: return std::numeric_limits<T>::min() + (T)s.below(2);
    case 3: return (T)s.below(1000);
    case 4: return (T)(-(long)s.below(1000));
    default: return (T)(((uint64_t)s.word() << 32) | s.word());
    }
}
static std::string any_string(Src& s)
{
    static const std::vector<std::string> bits = {"a", "B", "7", " ", "'", "\"", "\\", "\n", "\t", "{", "}", "[", "(", ",", ":", "#", "%", "\xc3\xa9", "\xe2\x88\x91", "None", "1.5", "nan", "array([1])", "\\x00", "//", "r'"};
    std::string o;
    int n = s.flip(1, 10) ? s.range(0, 200) : s.range(0, 8);
    for (int i = 0; i < n; i++) o += s.pick(bits);
    return o;
}
// text: complex numbers must survive Python's own repr (no infinities or NaN)
struct Gen { Src& s; bool finite, text; };
static void gen(Gen& g, double& v) { v = any_double(g.s, g.finite); }
static void gen(Gen& g, float& v) { v = (float)g.s.real(-1e6, 1e6); }
static void gen(Gen& g, Complex& v)
{
    v.Re = any_double(g.s, g.finite || g.text);
    v.Im = any_double(g.s, g.finite || g.text);
}
static void gen(Gen& g, std::string& v) { v = any_string(g.s); }
static void gen(Gen& g, bool& v) { v = g.s.flip(); }
static void gen(Gen& g, int& v) { v = any_int<int>(g.s); }
static void gen(Gen& g, unsigned& v) { v = any_int<unsigned>(g.s); }
static void gen(Gen& g, long& v) { v = any_int<long>(g.s); }
static void gen(Gen& g, unsigned long& v) { v = any_int<unsigned long>(g.s); }
static void gen(Gen& g, long long& v) { v = any_int<long long>(g.s); }
static void gen(Gen& g, unsigned long long& v) { v = any_int<unsigned long long>(g.s); }
static void gen(Gen& g, spin& v) { v = g.s.flip() ? UP : DOWN; }
static void gen(Gen& g, Momentum& v) { v = Momentum(g.s.range(-MAX_K, MAX_K)); }
static void gen(Gen& g, RandomFactory& v)
{
    v.Reset((int)g.s.below(1u << 30));
    for (int i = g.s.range(0, 5); i > 0; i--) v.urn();
}
template <typename T> static void gen(Gen& g, Vec<T>& v) { for (int i = 0; i < 2; i++) { T x; gen(g, x); v[i] = x; } }
template <typename T> static void gen(Gen& g, std::vector<T>& v);
template <typename T> static void gen(Gen& g, std::list<T>& v) { for (int n = g.s.range(0, 4); n > 0; n--) { T x; gen(g, x); v.push_back(x); } }
template <typename K, typename V> static void gen(Gen& g, std::map<K, V>& v) { for (int n = g.s.range(0, 4); n > 0; n--) { K k; V x; gen(g, k); gen(g, x); v[k] = x; } }
template <typename T> static void gen(Gen& g, std::vector<T>& v)
{
    int n = g.s.range(0, 5);
    for (int i = 0; i < n; i++) { T x; gen(g, x); v.push_back(x); }
}
// ---------------------------------------------------------------- stored values
struct Item {
    std::string key, type;
    std::function<void(Dictionary&)> put;
    std::function<bool(const Dictionary&)> ok; // read back through both forms of Get
};
typedef std::vector<Item> Items;
template <typename T> static Item item(Gen& g, const std::string& key, const char* type)
{
    auto v = std::make_shared<T>();
    gen(g, *v);
    return Item{key, type, [=](Dictionary& d) { d[key] = *v; },
                [=](const Dictionary& d) {
                    T x;
                    d.Get(key, x);
                    return same(d.Get<T>(key), *v) && same(x, *v);
                }};
}
template <typename T> struct Arr { std::vector<T> v; std::vector<uint> shape; };
template <typename T> static Item array_item(Gen& g, const std::string& key, const char* type)
{
    auto a = std::make_shared<Arr<T>>();
    int dim = g.s.range(1, 4);
    size_t n = 1;
    for (int i = 0; i < dim; i++) { a->shape.push_back(g.s.range(1, g.s.flip(1, 6) ? 12 : 3)); n *= a->shape.back(); }
    for (size_t i = 0; i < n; i++) { T x; gen(g, x); a->v.push_back(x); }
    return Item{key, type, [=](Dictionary& d) { d[key] = ArrayObject(a->v.data(), a->shape, (int)a->shape.size()); },
                [=](const Dictionary& d) {
                    auto x = d.Get<ArrayObject>(key);
                    if (x.Dim() != (int)a->shape.size() || x.Shape() != a->shape || x.Size() != a->v.size()) return false;
                    T* p = x.Data<T>();
                    for (size_t i = 0; i < a->v.size(); i++) if (!same(p[i], a->v[i])) return false;
                    return true;
                }};
}
static Items gen_items(Gen& g, int depth, int maxn);
static void put_all(const Items& v, Dictionary& d) { for (auto& x : v) x.put(d); }
static std::string bad(const Items& v, const Dictionary& d)
{
    for (auto& x : v) {
        try { if (!x.ok(d)) return x.type + " under key '" + x.key + "'"; }
        catch (pbt::Fail&) { throw; }
        catch (std::exception& e) { return x.type + " under key '" + x.key + "': " + e.what(); }
    }
    return "";
}
static Item dict_item(Gen& g, const std::string& key, int depth)
{
    auto sub = std::make_shared<Items>(gen_items(g, depth + 1, 3));
    return Item{key, "dictionary", [=](Dictionary& d) { Dictionary x; put_all(*sub, x); d[key] = x; },
                [=](const Dictionary& d) {
                    auto x = d.Get<Dictionary>(key);
                    size_t n = 0;
                    for (auto& e : x) { (void)e; n++; }
                    std::string b = bad(*sub, x);
                    CHECK(b.empty(), "value", "nested " << b << " changed");
                    return n == sub->size();
                }};
}
static Item dict_list_item(Gen& g, const std::string& key, int depth)
{
    auto sub = std::make_shared<std::vector<Items>>();
    for (int n = g.s.range(0, 3); n > 0; n--) sub->push_back(gen_items(g, depth + 1, 2));
    return Item{key, "list of dictionaries", [=](Dictionary& d) {
                    std::vector<Dictionary> l;
                    for (auto& i : *sub) { Dictionary x; put_all(i, x); l.push_back(x); }
                    d[key] = l;
                },
                [=](const Dictionary& d) {
                    auto l = d.Get<std::vector<Dictionary>>(key);
                    if (l.size() != sub->size()) return false;
                    for (size_t i = 0; i < l.size(); i++) {
                        std::string b = bad((*sub)[i], l[i]);
                        CHECK(b.empty(), "value", "listed " << b << " changed");
                    }
                    return true;
                }};
}
static Item gen_item(Gen& g, const std::string& k, int depth)
{
    switch (g.s.below(depth < 3 ? 30 : 26)) {
    case 0: return item<int>(g, k, "int");
    case 1: return item<unsigned>(g, k, "unsigned");
    case 2: return item<long>(g, k, "long");
    case 3: return item<unsigned long>(g, k, "unsigned long");
    case 4: return item<long long>(g, k, "long long");
    case 5: return item<unsigned long long>(g, k, "unsigned long long");
    case 6: return item<bool>(g, k, "bool");
    case 7: return item<double>(g, k, "real");
    case 8: return item<float>(g, k, "float");
    case 9: return item<Complex>(g, k, "complex");
    case 10: return item<std::string>(g, k, "string");
    case 11: return item<spin>(g, k, "spin");
    case 12: return item<Momentum>(g, k, "momentum");
    case 13: return item<RandomFactory>(g, k, "random stream");
    case 14: return item<Vec<int>>(g, k, "lattice vector");
    case 15: return item<Vec<double>>(g, k, "real vector");
    case 16: return item<std::vector<int>>(g, k, "list of int");
    case 17: return item<std::vector<double>>(g, k, "list of real");
    case 18: return item<std::vector<Complex>>(g, k, "list of complex");
    case 19: return item<std::vector<std::string>>(g, k, "list of string");
    case 20: return item<std::list<std::string>>(g, k, "linked list of strings");
    case 21: return item<std::list<long>>(g, k, "linked list");
    case 22: return item<std::map<std::string, double>>(g, k, "map of real");
    case 23: return item<std::map<int, Complex>>(g, k, "map of complex");
    case 24: return array_item<double>(g, k, "real array");
    case 25: return array_item<Complex>(g, k, "complex array");
    case 26: case 27: return dict_item(g, k, depth);
    case 28: return dict_list_item(g, k, depth);
    default: return item<std::vector<spin>>(g, k, "list of spins");
    }
}
static Items gen_items(Gen& g, int depth, int maxn)
{
    Items v;
    std::set<std::string> seen;
    int n = g.s.range(0, maxn);
    for (int i = 0; i < n; i++) {
        std::string k = g.s.flip(1, 3) ? any_string(g.s) : "key" + ToString((int)g.s.below(20));
        if (!seen.insert(k).second) continue;
        v.push_back(gen_item(g, k, depth));
    }
    return v;
}
static size_t count(const Dictionary& d)
{
    size_t n = 0;
    for (auto& e : d) { (void)e; n++; }
    return n;
}
static void round_trip(Src& s)
{
    int way = (int)s.below(9);
    bool text = way == 5 || way == 7;
    Gen g{s, way == 7, text};
    struct Reset { ~Reset() { zero_sign_lost = false; } } reset;
    zero_sign_lost = text;
    Items v = gen_items(g, 0, 6);
    Dictionary d;
    put_all(v, d);
    std::ostringstream log;
    for (auto& x : v) log << x.type << ", ";
    std::string b = bad(v, d);
    CHECK(b.empty(), "stored", "stored " << b << " reads differently");
    Dictionary r;
    const char* name = "";
    switch (way) {
    case 0: name = "copied"; r = d; break;
    case 1: { name = "copy constructed"; Dictionary t(d); r = t; break; }
    case 2: { // merged over an older dictionary
        name = "merged";
        Items old = gen_items(g, 0, 4);
        put_all(old, r);
        r.Update(d);
        Items keep;
        for (auto& x : old) {
            bool over = false;
            for (auto& y : v) over |= y.key == x.key;
            if (!over) keep.push_back(x);
        }
        b = bad(keep, r);
        CHECK(b.empty(), "merge_old", "merging changed another entry: " << b);
        CHECK(count(r) == keep.size() + v.size(), "merge_count", "number of entries after merging " << count(r));
        b = bad(v, r);
        CHECK(b.empty(), "merged", "merged " << b << " changed");
        b = bad(v, d);
        CHECK(b.empty(), "merge_source", "merging changed the source: " << b);
        if (!v.empty() && !keep.empty()) s.nontrivial("merged " + log.str());
        return;
    }
    case 3: {
        name = "converted to Python and back";
        Python::Object o = d.ToPy();
        CHECK(o.RefCount() == 1, "owner", "a converted dictionary has reference count " << o.RefCount());
        d.Clear();
        if (s.flip()) { Items old = gen_items(g, 0, 2); put_all(old, r); }
        CHECK(r.FromPy(o), "frompy", "a converted dictionary is refused");
        break;
    }
    case 4: {
        name = "stored in another dictionary";
        Dictionary t;
        t["outer"] = d;
        Dictionary u("more", t);
        r = u.Get<Dictionary>("more").Get<Dictionary>("outer");
        break;
    }
    case 5: name = "saved as text"; d.Save("glue", "w"); r.Load("glue"); break;
    case 6: name = "saved as data"; d.BigSave("glue"); r.BigLoad("glue"); break;
    case 7: {
        bool arr = false;
        std::function<void(const Items&)> f;
        if (d.PrettyString().find("array") != std::string::npos) arr = true;
        if (arr) throw pbt::Discard(); // the expression evaluator does not know arrays
        name = "printed and evaluated";
        r.LoadFromString(d.PrettyString());
        break;
    }
    default: {
        name = "assigned to itself and filled again";
        Dictionary& q = d;
        d = q;
        put_all(v, d);
        r = d;
    }
    }
    CHECK(count(r) == v.size(), "count", "number of entries " << count(r) << " instead of " << v.size() << " after being " << name);
    b = bad(v, r);
    CHECK(b.empty(), "value", b << " changed when " << name);
    CHECK(!PyErr_Occurred(), "pending", "a Python error is left pending after being " << name);
    if (!v.empty()) s.nontrivial(std::string(name) + ": " + log.str());
    s.tag(name);
}
// ---------------------------------------------------------------- refusals
// a Python value of a known kind
struct Lit { std::string expr, kind; };
static Lit lit(Src& s, int depth = 0)
{
    switch (s.below(depth < 2 ? 16 : 11)) {
    case 0: { static const char* v[] = {"0", "1", "2", "-1", "7", "-3000000000", "3000000000", "5000000000", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "10**18", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "10**400", "-10**400"}; return {v[s.below(23)], "int"}; }
    case 1: { static const char* v[] = {"0.0", "1.0", "-2.5", "1e300", "float('nan')", "float('inf')", "3.0"}; return {v[s.below(7)], "real"}; }
    case 2: { static const char* v[] = {"'abc'", "''", "'1'", "'True'", "'1.5'"}; return {v[s.below(5)], "string"}; }
    case 3: { static const char* v[] = {"1j", "(1+2j)", "complex(3)"}; return {v[s.below(3)], "complex"}; }
    case 4: return {"None", "none"};
    case 5: { static const char* v[] = {"_n.zeros((2,3))", "_n.arange(4.0)"}; return {v[s.below(2)], "real array"}; }
    case 6: return {"_n.zeros((2,), dtype=complex)", "complex array"};
    case 7: { static const char* v[] = {"_n.zeros((2,), dtype=_n.int64)", "_n.array(['a'])", "_n.zeros(2, dtype=_n.float32)", "_n.zeros(2, dtype=_n.complex64)", "_n.array([None, 1])"}; return {v[s.below(5)], "other array"}; }
    case 8: { static const char* v[] = {"object()", "len", "_n", "{1, 2}", "range(3)", "_n.int64(4)", "slice(1)"}; return {v[s.below(7)], "object"}; }
    case 9: { static const char* v[] = {"True", "False"}; return {v[s.below(2)], "bool"}; }
    case 10: return {"'\\u00e9\\u2211'", "string"};
    case 11: case 12: { // list
        int n = s.range(0, 4);
        std::string e = "[", k;
        for (int i = 0; i < n; i++) { Lit l = lit(s, depth + 1); e += (i ? ", " : "") + l.expr; k += (k.empty() ? "" : ";") + l.kind; }
        return {e + "]", "list(" + k + ")"};
    }
    case 13: {
        int n = s.range(0, 3);
        std::string e = "(", k;
        for (int i = 0; i < n; i++) { Lit l = lit(s, depth + 1); e += l.expr + ", "; k += (k.empty() ? "" : ";") + l.kind; }
        return {e + ")", "tuple(" + k + ")"};
    }
    default: {
        int n = s.range(0, 3);
        std::string e = "{", k;
        for (int i = 0; i < n; i++) {
            Lit l = lit(s, depth + 1);
            bool str = s.flip(3, 4);
            e += (str ? "'k" + ToString(i) + "'" : ToString(i)) + ": " + l.expr + ", ";
            k += (k.empty() ? "" : ";") + std::string(str ? "string:" : "int:") + l.kind;
        }
        return {e + "}", "dict(" + k + ")"};
    }
    }
}
// Decide with Python itself what a conversion may return: 1 must give the value, 0 must be refused, -1 not judged
static const char* ORACLE =
    "def vp_int(x, lo, hi):\n"
    "    if type(x) is bool: return -1\n"
    "    return int(type(x) is int and lo <= x <= hi)\n"
    "def vp_allow(t, x):\n"
    "    if t == 'int': return vp_int(x, -2**31, 2**31 - 1)\n"
    "    if t == 'unsigned': return vp_int(x, 0, 2**32 - 1)\n"
    "    if t == 'long' or t == 'long long': return vp_int(x, -2**63, 2**63 - 1)\n"
    "    if t == 'ulong' or t == 'ulonglong': return vp_int(x, 0, 2**64 - 1)\n"
    "    if t == 'momentum': return vp_int(x, -2**31, 2**31 - 1)\n"
    "    if t == 'spin': return vp_int(x, 0, 1)\n"
    "    if t == 'bool': return int(type(x) is bool)\n"
    "    if t == 'real' or t == 'float':\n"
    "        if type(x) is bool: return -1\n"
    "        if type(x) is int: return int(abs(x) < 2**1023) if abs(x) < 2**1023 or abs(x) > 2**1025 else -1\n"
    "        return int(isinstance(x, float))\n"
    "    if t == 'complex': return int(isinstance(x, complex))\n"
    "    if t == 'string':\n"
    "        if isinstance(x, bytes): return -1\n"
    "        if not isinstance(x, str): return 0\n"
    "        return -1 if chr(0) in x else 1\n"
    "    if t == 'rarray': return int(isinstance(x, _n.ndarray) and x.dtype == _n.float64)\n"
    "    if t == 'carray': return int(isinstance(x, _n.ndarray) and x.dtype == _n.complex128)\n"
    "    if t == 'dict':\n"
    "        if not isinstance(x, dict): return 0\n"
    "        return min([vp_allow('string', k) for k in x] or [1], key=lambda v: (v != 0, v))\n"
    "    c, _, rest = t.partition(' ')\n"
    "    if c in ('vec', 'list'):\n"
    "        if not isinstance(x, list) or c == 'vec' and len(x) != 2: return 0\n"
    "        return min([vp_allow(rest, y) for y in x] or [1], key=lambda v: (v != 0, v))\n"
    "    if c == 'map':\n"
    "        if not isinstance(x, dict): return 0\n"
    "        a, _, b = rest.partition(' ')\n"
    "        return min([vp_allow(a, k) for k in x] + [vp_allow(b, v) for v in x.values()] or [1], key=lambda v: (v != 0, v))\n"
    "    if c == 'tuple':\n"
    "        p = rest.split(',')\n"
    "        if not isinstance(x, tuple) or len(x) != len(p): return 0\n"
    "        return min([vp_allow(q, y) for q, y in zip(p, x)], key=lambda v: (v != 0, v))\n"
    "    raise ValueError(t)\n"
    "def vp_refs(x, out=None):\n"
    "    import sys\n"
    "    top = out is None\n"
    "    if top: out = []\n"
    "    out.append(sys.getrefcount(x) if not top else 0)\n"
    "    if isinstance(x, (list, tuple)):\n"
    "        for y in x: vp_refs(y, out)\n"
    "    elif isinstance(x, dict):\n"
    "        for k in x: vp_refs(k, out)\n"
    "        for k in x: vp_refs(x[k], out)\n"
    "    return out\n";
static bool is_allowed(const std::string& t, const Python::Object& x, int& res)
{
    PyObject* fn = PyDict_GetItemString(py_main(), "vp_allow");
    PyObject* r = PyObject_CallFunction(fn, "sO", t.c_str(), x.Get());
    if (!r) { PyErr_Print(); abort(); }
    res = (int)PyLong_AsLong(r);
    Py_DECREF(r);
    return true;
}
static std::string refs(const Python::Object& x)
{
    Python::Object r = py_call("vp_refs", x);
    return py_repr(r);
}
struct Reader {
    std::string type;
    // reads through Dictionary; returns the value converted back to Python
    std::function<Python::Object(const Dictionary&)> get;
};
// containers of containers are read but never written by the simulator
template <typename T> static Python::Object back(const T& v) { return CastToPy(v); }
template <typename T> static Python::Object back_list(const std::vector<T>& v)
{
    Python::Object l = PyList_New(v.size());
    for (size_t i = 0; i < v.size(); i++) PyList_SetItem(l.Get(), i, back(v[i]).Get(NewRef));
    return l;
}
static Python::Object back(const std::vector<std::vector<int>>& v) { return back_list(v); }
static Python::Object back(const std::vector<Vec<int>>& v) { return back_list(v); }
static Python::Object back(const std::map<std::string, std::vector<int>>& v)
{
    Python::Object d = PyDict_New();
    for (auto& e : v) PyDict_SetItemString(d.Get(), e.first.c_str(), back(e.second).Get());
    return d;
}
template <typename T> static Reader reader(const char* type)
{
    return Reader{type, [](const Dictionary& d) { return back(d.Get<T>("v")); }};
}
static std::vector<Reader>& readers()
{
    static std::vector<Reader> v = {
        reader<int>("int"), reader<unsigned>("unsigned"), reader<long>("long"), reader<long long>("long long"), reader<unsigned long>("ulong"), reader<unsigned long long>("ulonglong"), reader<spin>("spin"), reader<Momentum>("momentum"), reader<bool>("bool"), reader<double>("real"), reader<Complex>("complex"), reader<std::string>("string"),
        reader<Vec<int>>("vec int"), reader<Vec<double>>("vec real"), reader<std::vector<int>>("list int"), reader<std::vector<double>>("list real"), reader<std::vector<std::string>>("list string"), reader<std::vector<Complex>>("list complex"), reader<std::list<int>>("list int"), reader<std::vector<std::vector<int>>>("list list int"), reader<std::vector<Vec<int>>>("list vec int"), reader<std::vector<Dictionary>>("list dict"),
        reader<std::map<std::string, int>>("map string int"), reader<std::map<int, double>>("map int real"), reader<std::map<std::string, std::vector<int>>>("map string list int"), reader<Dictionary>("dict"),
        Reader{"rarray", [](const Dictionary& d) { auto a = d.Get<ArrayObject>("v"); a.Data<double>(); return Python::Object(a); }},
        Reader{"carray", [](const Dictionary& d) { auto a = d.Get<ArrayObject>("v"); a.Data<Complex>(); return Python::Object(a); }},
        Reader{"tuple int,real", [](const Dictionary& d) { auto t = d.Get<std::tuple<int, double>>("v"); Python::Object l = PyTuple_New(2); PyTuple_SetItem(l.Get(), 0, CastToPy(std::get<0>(t)).Get(NewRef)); PyTuple_SetItem(l.Get(), 1, CastToPy(std::get<1>(t)).Get(NewRef)); return l; }},
        Reader{"tuple string", [](const Dictionary& d) { auto t = d.Get<std::tuple<std::string>>("v"); Python::Object l = PyTuple_New(1); PyTuple_SetItem(l.Get(), 0, CastToPy(std::get<0>(t)).Get(NewRef)); return l; }},
        Reader{"tuple int,string,real", [](const Dictionary& d) { auto t = d.Get<std::tuple<int, std::string, double>>("v"); Python::Object l = PyTuple_New(3); PyTuple_SetItem(l.Get(), 0, CastToPy(std::get<0>(t)).Get(NewRef)); PyTuple_SetItem(l.Get(), 1, CastToPy(std::get<1>(t)).Get(NewRef)); PyTuple_SetItem(l.Get(), 2, CastToPy(std::get<2>(t)).Get(NewRef)); return l; }},
    };
    return v;
}
// a literal likely to be acceptable to the type, often with one flaw
static std::string fitting(Src& s, const std::string& t)
{
    if (s.flip(1, 12)) return lit(s, 1).expr;
    std::string c = t.substr(0, t.find(' ')), rest = t.find(' ') == std::string::npos ? "" : t.substr(t.find(' ') + 1);
    if (t == "long long" || c == "int" || c == "unsigned" || c == "long" || c == "ulong" || c == "ulonglong" || c == "momentum") {
        static const char* v[] = {"0", "1", "17", "-1", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "-9223372036854775808"};
        return v[s.below(s.flip() ? 3 : 14)];
    }
    if (c == "spin") return s.flip() ? "0" : s.flip() ? "1" : "2";
    if (c == "bool") return s.flip() ? "True" : "False";
    if (c == "real") { static const char* v[] = {"0.5", "1e-300", "-2.0", "3", "10**400"}; return v[s.below(5)]; }
    if (c == "complex") return s.flip() ? "(1+2j)" : "complex(-0.0, 3)";
    if (c == "string") return s.flip() ? "'abc'" : "'\\u00e9'";
    if (c == "rarray") return s.flip() ? "_n.arange(6.0).reshape(2,3)" : "_n.arange(6.0).reshape(2,3).T";
    if (c == "carray") return "_n.ones((2,2),dtype=complex)";
    if (c == "dict") return "{'a': " + lit(s, 1).expr + ", 'b': 2}";
    if (c == "vec") { int n = s.flip(3, 4) ? 2 : s.range(0, 3); std::string e = "["; for (int i = 0; i < n; i++) e += fitting(s, rest) + ","; return e + "]"; }
    if (c == "list") { int n = s.range(0, 4); std::string e = "["; for (int i = 0; i < n; i++) e += fitting(s, rest) + ","; return e + "]"; }
    if (c == "map") {
        std::string a = rest.substr(0, rest.find(' ')), b = rest.substr(rest.find(' ') + 1), e = "{";
        int n = s.range(0, 3);
        for (int i = 0; i < n; i++) e += (a == "string" ? "'k" + ToString(i) + "'" : s.flip(9, 10) ? ToString(i) : "'x'") + ": " + fitting(s, b) + ", ";
        return e + "}";
    }
    if (c == "tuple") {
        std::string e = "(", r = rest;
        while (true) {
            size_t k = r.find(',');
            e += fitting(s, r.substr(0, k)) + ", ";
            if (k == std::string::npos) break;
            r = r.substr(k + 1);
        }
        return e + ")";
    }
    return "None";
}
static void refusal(Src& s)
{
    auto& r = readers()[s.below(readers().size())];
    std::string expr = s.flip(3, 4) ? fitting(s, r.type) : lit(s).expr;
    // fresh objects, none shared with anything else
    Python::Object x = py_run(expr);
    int want = -1;
    is_allowed(r.type, x, want);
    Dictionary d;
    d["v"] = AnyObject(x);
    long top = x.RefCount();
    std::string before = refs(x);
    bool got = false;
    std::string why, diff;
    int n = s.range(1, 3);
    for (int i = 0; i < n; i++) {
        try {
            Python::Object y = r.get(d);
            got = true;
            if (want == 1) diff = py_diff(x, y);
        }
        catch (std::exception& e) { why = e.what(); }
        CHECK(!PyErr_Occurred(), "pending", "a Python error is left pending after reading " << expr << " as " << r.type);
    }
    std::string after = refs(x);
    CHECK(x.RefCount() == top && before == after, "refcount", "reading " << expr << " as " << r.type << " " << n << " times changes reference counts from " << top << ":" << before << " to " << x.RefCount() << ":" << after);
    if (want == 1) {
        CHECK(got, "refused", "reading " << expr << " as " << r.type << " was refused: " << why);
        // a real may be written as an integer, and integers come back as integers
        if (r.type.find("real") == std::string::npos) CHECK(diff.empty(), "changed", "reading " << expr << " as " << r.type << " gives another value: " << diff);
    }
    if (want == 0) CHECK(!got, "accepted", "reading " << expr << " as " << r.type << " was accepted");
    s.tag(want == 1 ? "accepted" : want == 0 ? "refused" : "not judged");
    if (want >= 0) s.nontrivial((want ? "accepted " : "refused ") + expr + " as " + r.type);
    // missing keys, and untouched destinations
    int v = 12345;
    CHECK(refuses([&] { d.Get("missing", v); }) && v == 12345, "missing", "a missing key gives a value");
    CHECK(!d.HasKey("missing") && count(d) == 1, "missing", "asking for a missing key creates it");
    bool key = false;
    try { d.Get<double>("w"); }
    catch (KeyInvalid&) { key = true; }
    CHECK(key, "missing", "a missing key does not raise KeyInvalid");
}
// ---------------------------------------------------------------- reference counts of histories
static void history(Src& s)
{
    // fresh objects are put into dictionaries, moved around and dropped again
    std::vector<Python::Object> obj;
    std::vector<std::string> expr;
    int n = s.range(1, 4);
    for (int i = 0; i < n; i++) {
        std::string e = "[" + lit(s, 1).expr + ", ['fresh%d' % id(object())], 10**30 + 1]";
        expr.push_back(e);
        obj.push_back(py_run(e));
    }
    std::vector<std::string> r0;
    for (auto& o : obj) r0.push_back(ToString(o.RefCount()) + ":" + refs(o));
    std::ostringstream log;
    {
        Dictionary a, b;
        std::vector<Python::Object> held;
        int m = s.range(1, 25);
        for (int i = 0; i < m; i++) {
            std::string k = "k" + ToString((int)s.below(4));
            int op = (int)s.below(12);
            log << op << " ";
            auto& o = obj[s.below(n)];
            switch (op) {
            case 0: case 1: a[k] = AnyObject(o); break;
            case 2: b = a; break;
            case 3: b.Update(a); break;
            case 4: held.push_back(a.ToPy()); break;
            case 5: if (!held.empty()) b.FromPy(held.back()); break;
            case 6: a.Clear(); break;
            case 7: b[k] = a; break;
            case 8: if (a.HasKey(k)) { auto x = a.Get<AnyObject>(k); AnyObject y(x); y = x; Python::Object z = y.Copy(); z = z; } break;
            case 9: { Dictionary t; if (b.HasKey(k)) refuses([&] { t = b.Get<Dictionary>(k); }); if (s.flip()) b = t; break; }
            case 10: if (!held.empty()) held.erase(held.begin() + s.below(held.size())); break;
            case 11: refuses([&] { a.Get<std::vector<std::vector<int>>>(k); }); refuses([&] { a.Get<std::map<std::string, int>>(k); }); break;
            }
            CHECK(!PyErr_Occurred(), "pending", "a Python error is pending after " << log.str());
        }
    }
    s.nontrivial(ToString(n) + " objects, operations " + log.str());
    for (int i = 0; i < n; i++) {
        std::string r1 = ToString(obj[i].RefCount()) + ":" + refs(obj[i]);
        CHECK(r1 == r0[i], "balance", "reference counts of " << expr[i] << " went from " << r0[i] << " to " << r1 << " in " << log.str());
    }
}
// ---------------------------------------------------------------- calling Python
static void calls(Src& s)
{
    static bool done = false;
    if (!done) {
        done = true;
        write_text("vpmod.py", "def echo(*a): return list(a)\ndef fail(kind):\n    raise {'io': IOError, 'key': KeyError, 'index': IndexError, 'memory': MemoryError, 'value': ValueError, 'type': TypeError}[kind]('asked for')\nnumber = 5\n");
    }
    ModuleObject m;
    m.LoadModule("vpmod.py");
    Gen g{s, false, false};
    switch (s.below(3)) {
    case 0: {
        int a; double b; std::string c; Complex e; std::vector<int> f;
        gen(g, a); gen(g, b); gen(g, c); gen(g, e); gen(g, f);
        Python::Object shared = py_run("[10**30, 'x' * 3]");
        long r0 = shared.RefCount();
        {
            Python::Object r = m.CallFunction("echo", a, b, c, e, f, shared);
            Dictionary d;
            auto at = [&](int i) { return AnyObject(PyList_GetItem(r.Get(), i), NoRef); };
            CHECK(PyList_Size(r.Get()) == 6 && same(at(0).As<int>(), a) && same(at(1).As<double>(), b) && same(at(2).As<std::string>(), c) && same(at(3).As<Complex>(), e) && same(at(4).As<std::vector<int>>(), f) && at(5).Get() == shared.Get(), "call", "arguments changed on the way to a Python function");
        }
        CHECK(shared.RefCount() == r0, "call_refs", "a call changes the reference count of an argument from " << r0 << " to " << shared.RefCount());
        s.nontrivial("call with arguments");
        break;
    }
    case 1: {
        static const char* kinds[] = {"io", "key", "index", "memory", "value", "type"};
        int k = (int)s.below(6);
        std::string got = "nothing";
        try { m.CallFunction("fail", std::string(kinds[k])); }
        catch (IOInvalid&) { got = "io"; }
        catch (KeyInvalid&) { got = "key"; }
        catch (IndexInvalid&) { got = "index"; }
        catch (MemoryException&) { got = "memory"; }
        catch (RunTimeException&) { got = "other"; }
        CHECK(got == (k < 4 ? kinds[k] : "other"), "exception", "a Python " << kinds[k] << " error arrives as " << got);
        CHECK(!PyErr_Occurred(), "pending", "a Python error is left pending after it was reported");
        s.nontrivial(std::string("Python error ") + kinds[k]);
        break;
    }
    default:
        CHECK(refuses([&] { m.CallFunction("nofunction"); }), "call_missing", "a missing function could be called");
        CHECK(refuses([&] { m.CallFunction("number"); }), "call_number", "a number could be called");
        CHECK(!PyErr_Occurred(), "pending", "a Python error is left pending after a bad call");
        Dictionary d;
        d["x"] = 1;
        CHECK(refuses([&] { d.Load("no_such_file"); }) && refuses([&] { d.BigLoad("no_such_file"); }), "file_missing", "a missing file was loaded");
        CHECK(refuses([&] { d.LoadFromString("{'a': 1"); }) && refuses([&] { d.LoadFromString("[1]"); }) && refuses([&] { d.LoadFromString("{1: 2}"); }), "script", "an invalid script was loaded");
        CHECK(count(d) == 1 && d.Get<int>("x") == 1, "script_state", "a failed load changed the dictionary");
        CHECK(!PyErr_Occurred(), "pending", "a Python error is left pending after a failed load");
        s.nontrivial("failed loads");
    }
}
PROP(M19, "a dictionary with at least one value carried over, a conversion whose outcome is known, a history of shared objects, or a call into Python")
{
    static bool init = false;
    if (!init) {
        init = true;
        PyObject* d = py_main();
        PyObject* r = PyRun_String(ORACLE, Py_file_input, d, d);
        if (!r) { PyErr_Print(); abort(); }
    }
    PyErr_Clear();
    switch (s.below(10)) {
    case 0: case 1: case 2: case 3: round_trip(s); break;
    case 4: case 5: case 6: refusal(s); break;
    case 7: case 8: history(s); break;
    default: calls(s);
    }
}
int main(int argc, char** argv)
{
    quiet();
    py_init();
    return pbt::main_(argc, argv);
}
