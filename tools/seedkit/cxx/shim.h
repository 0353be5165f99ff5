// Force-included before every /repo source: lets the Python-2 C-API glue compile against libpython 3.
#ifndef VERIF_PY2SHIM_H
#define VERIF_PY2SHIM_H
#ifdef __cplusplus
#include <Python.h>
#include <string>
static inline int verif_PyString_Check(PyObject* o) { return PyUnicode_Check(o) || PyBytes_Check(o); }
static inline const char* verif_PyString_AsString(PyObject* o)
{
    if (PyBytes_Check(o)) return PyBytes_AsString(o);
    return PyUnicode_AsUTF8(o);
}
#define PyString_Check verif_PyString_Check
#define PyString_AsString (char*)verif_PyString_AsString
#define PyString_FromString PyUnicode_FromString
#define PyString_FromFormat PyUnicode_FromFormat
#define PyString_Size PyUnicode_GetLength
#define PyInt_Check(o) (PyLong_Check(o))
#define PyInt_FromLong PyLong_FromLong
#define PyInt_AsLong PyLong_AsLong
#define PyInt_FromSize_t PyLong_FromSize_t
#endif
#endif
