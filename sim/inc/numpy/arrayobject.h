// Shadow header: calls of the NumPy C API without the GIL are reported.
#include_next <numpy/arrayobject.h>
#ifndef AGSIM_NUMPY_H
#define AGSIM_NUMPY_H
#define PyArray_API (agsim_gil_check("NumPy C API"), PyArray_API)
#endif
