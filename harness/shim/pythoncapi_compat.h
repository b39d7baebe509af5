// Stand-in for the submodule vendored/pythoncapi_compat, which is empty here:
// the backports roughpy/compute uses that Python 3.12 does not have itself.
#pragma once
#include <stdint.h>
#if PY_VERSION_HEX < 0x030E0000
static inline int PyLong_AsInt32(PyObject* obj, int32_t* out)
{
    long v = PyLong_AsLong(obj);
    if (v == -1 && PyErr_Occurred()) return -1;
    if (v < INT32_MIN || v > INT32_MAX) {
        PyErr_SetString(PyExc_OverflowError, "Python int too large to convert to C int32_t");
        return -1;
    }
    *out = (int32_t) v;
    return 0;
}
#endif
