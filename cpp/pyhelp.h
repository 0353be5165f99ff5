// Small helpers to build, copy and compare Python values in the harnesses.
#ifndef VERIF_PYHELP_H
#define VERIF_PYHELP_H
#include "world.h"
inline PyObject* py_main()
{
    static PyObject* d = nullptr;
    if (d) return d;
    py_init();
    d = PyModule_GetDict(PyImport_AddModule("__main__"));
    const char* code =
        "import copy as _c, numpy as _n\n"
        "def vp_eq(a, b, path='', single=False):\n"
        "    if isinstance(a, _n.ndarray) or isinstance(b, _n.ndarray):\n"
        "        if not (isinstance(a, _n.ndarray) and isinstance(b, _n.ndarray)): return path + ': array and ' + type(b).__name__\n"
        "        if a.shape != b.shape: return '%s: shapes %s %s' % (path, a.shape, b.shape)\n"
        "        if a.dtype != b.dtype: return '%s: types %s %s' % (path, a.dtype, b.dtype)\n"
        "        if single and a.dtype.kind == 'c':\n"
        "            return '' if _n.allclose(a, b, rtol=3e-7, atol=1e-30) else path + ': entries differ'\n"
        "        return '' if _n.array_equal(a, b, equal_nan=a.dtype.kind in 'fc') else path + ': entries differ'\n"
        "    if type(a) is not type(b): return '%s: types %s %s' % (path, type(a).__name__, type(b).__name__)\n"
        "    if isinstance(a, dict):\n"
        "        if set(a) != set(b): return '%s: keys %s %s' % (path, sorted(map(str, a)), sorted(map(str, b)))\n"
        "        for k in sorted(a, key=str):\n"
        "            r = vp_eq(a[k], b[k], path + '/' + str(k), single or k == 'GammaWStatis')\n"
        "            if r: return r\n"
        "        return ''\n"
        "    if isinstance(a, (list, tuple)):\n"
        "        if len(a) != len(b): return path + ': lengths'\n"
        "        for i, (x, y) in enumerate(zip(a, b)):\n"
        "            r = vp_eq(x, y, path + '/' + str(i), single)\n"
        "            if r: return r\n"
        "        return ''\n"
        "    return '' if a == b or a != a and b != b else '%s: %r and %r' % (path, a, b)\n"
        "vp_copy = _c.deepcopy\n"
        "def vp_mut(arg):\n" // a deep copy of a dictionary with one entry damaged: path, kind, number
        "    d, path, how, n = arg\n"
        "    d = _c.deepcopy(d); x = d\n"
        "    for k in path[:-1]: x = x[k]\n"
        "    k = path[-1]; v = x[k]\n"
        "    if how == 'missing': del x[k]\n"
        "    elif how == 'text': x[k] = 'nonsense'\n"
        "    elif how == 'none': x[k] = None\n"
        "    elif how == 'listed': x[k] = [[v]]\n"
        "    elif how == 'longer': x[k] = _n.concatenate([v, v], axis=n % v.ndim)\n"
        "    elif how == 'shorter': x[k] = _n.delete(v, -1, axis=n % v.ndim)\n"
        "    elif how == 'flat': x[k] = v.reshape(-1)\n"
        "    elif how == 'deeper': x[k] = v.reshape(v.shape + (1,)) if n % 2 else v.reshape((1,) + v.shape)\n"
        "    elif how == 'single': x[k] = v.astype(_n.complex64 if v.dtype.kind == 'c' else _n.float32)\n"
        "    elif how == 'whole': x[k] = v.astype(_n.int64)\n"
        "    elif how == 'other': x[k] = v.real.copy() if v.dtype.kind == 'c' else v.astype(complex)\n"
        "    elif how == 'strided': # same values in another memory layout: must be accepted\n"
        "        x[k] = _n.asfortranarray(v) if n % 2 else _n.repeat(v, 2, axis=-1)[..., ::2]\n"
        "    else: raise ValueError(how)\n"
        "    return d\n";
    PyObject* r = PyRun_String(code, Py_file_input, d, d);
    if (!r) { PyErr_Print(); abort(); }
    Py_DECREF(r);
    return d;
}
inline Python::Object py_run(const std::string& expr)
{
    PyObject* d = py_main();
    PyObject* r = PyRun_String(expr.c_str(), Py_eval_input, d, d);
    if (!r) { PyErr_Print(); abort(); }
    return Python::Object(r);
}
inline Python::Object py_call(const char* f, const Python::Object& a, const Python::Object* b = nullptr)
{
    PyObject* fn = PyDict_GetItemString(py_main(), f);
    PyObject* r = PyObject_CallFunctionObjArgs(fn, a.Get(), b ? b->Get() : nullptr, nullptr);
    if (!r) { PyErr_Print(); abort(); }
    return Python::Object(r);
}
// "" when equal, else where they differ
inline std::string py_diff(const Python::Object& a, const Python::Object& b)
{
    Python::Object r = py_call("vp_eq", a, &b);
    return PyUnicode_AsUTF8(r.Get());
}
inline std::string dict_diff(const Dictionary& a, const Dictionary& b) { return py_diff(a.ToPy(), b.ToPy()); }
// a copy that shares no memory with the exporting object
inline Dictionary frozen(const Dictionary& d)
{
    Dictionary r;
    r.FromPy(py_call("vp_copy", d.ToPy()));
    return r;
}
inline std::string py_repr(const Python::Object& o)
{
    PyObject* r = PyObject_Repr(o.Get());
    std::string t = r ? PyUnicode_AsUTF8(r) : "?";
    Py_XDECREF(r);
    return t.substr(0, 600);
}
inline Dictionary damaged(const Dictionary& d, const std::vector<std::string>& path, const std::string& how, int n)
{
    Dictionary a;
    PyObject* p = PyList_New(0);
    for (auto& k : path) {
        PyObject* o = PyUnicode_FromString(k.c_str());
        PyList_Append(p, o);
        Py_DECREF(o);
    }
    Python::Object arg(Py_BuildValue("(ONsi)", d.ToPy().Get(), p, how.c_str(), n));
    Dictionary r;
    r.FromPy(py_call("vp_mut", arg));
    return r;
}
template <typename F> bool refuses(F f)
{
    try { f(); }
    catch (std::exception&) { return true; }
    return false;
}
#endif
