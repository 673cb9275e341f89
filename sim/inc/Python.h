// Shadow header: reference counting without the GIL is reported (see agsim_gil_check).
#include_next <Python.h>
#ifndef AGSIM_PYTHON_H
#define AGSIM_PYTHON_H
#ifdef __cplusplus
extern "C"
#endif
void agsim_gil_check(const char* what);
#undef Py_INCREF
#undef Py_DECREF
#undef Py_XINCREF
#undef Py_XDECREF
#define Py_INCREF(op)  (agsim_gil_check("Py_INCREF"),  Py_INCREF(_PyObject_CAST(op)))
#define Py_DECREF(op)  (agsim_gil_check("Py_DECREF"),  Py_DECREF(_PyObject_CAST(op)))
#define Py_XINCREF(op) (agsim_gil_check("Py_XINCREF"), Py_XINCREF(_PyObject_CAST(op)))
#define Py_XDECREF(op) (agsim_gil_check("Py_XDECREF"), Py_XDECREF(_PyObject_CAST(op)))
#endif
