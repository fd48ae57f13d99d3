#include "pybind11/numpy.h"
#define NPY_NO_DEPRECATED_API NPY_1_7_API_VERSION
#include <numpy/arrayobject.h>

namespace verif_np {
static bool ready() {
    if (!PyArray_API && _import_array() < 0)
        return false;
    return true;
}
static int num(Kind k) {
    static const int t[] = {NPY_BOOL, NPY_INT8, NPY_UINT8, NPY_INT16, NPY_UINT16, NPY_INT32, NPY_UINT32, NPY_INT64, NPY_UINT64, NPY_FLOAT32, NPY_FLOAT64};
    return t[k];
}
static PyArrayObject *A(PyObject *o) {
    return (PyArrayObject *)o;
}
bool is_array(PyObject *o) {
    return ready() && o && PyArray_Check(o);
}
bool is_array_of(PyObject *o, Kind k) {
    return is_array(o) && PyArray_EquivTypenums(PyArray_TYPE(A(o)), num(k)) && PyArray_ISNOTSWAPPED(A(o));
}
PyObject *from_any(PyObject *o, Kind k, bool c_style) {
    if (!ready())
        return nullptr;
    if (!o) {
        PyErr_SetString(PyExc_ValueError, "cannot create an array from a null pointer");
        return nullptr;
    }
    int f = NPY_ARRAY_ENSUREARRAY | NPY_ARRAY_FORCECAST;
    if (c_style)
        f |= NPY_ARRAY_C_CONTIGUOUS;
    return PyArray_FromAny(o, PyArray_DescrFromType(num(k)), 0, 0, f, nullptr);
}
PyObject *as_array(PyObject *o) {
    if (!ready())
        return nullptr;
    return PyArray_FromAny(o, nullptr, 0, 0, NPY_ARRAY_ENSUREARRAY, nullptr);
}
PyObject *make(Kind k, const std::vector<Py_ssize_t> &shape, const void *data, PyObject *base,
               const std::vector<Py_ssize_t> *strides) {
    if (!ready())
        return nullptr;
    std::vector<npy_intp> st;
    if (strides)
        st.assign(strides->begin(), strides->end());
    npy_intp *sp = strides ? st.data() : nullptr;
    std::vector<npy_intp> d(shape.begin(), shape.end());
    if (d.empty())
        d.reserve(1);
    if (!data) {
        PyObject *a = PyArray_New(&PyArray_Type, (int)d.size(), d.data(), num(k), sp, nullptr, 0, 0, nullptr);
        // Memory handed out uninitialised is filled with a pattern so that forgotten initialisation is visible.
        if (a)
            memset(PyArray_DATA(A(a)), 0xA5, (size_t)PyArray_NBYTES(A(a)));
        return a;
    }
    PyObject *a = PyArray_New(&PyArray_Type, (int)d.size(), d.data(), num(k), sp, const_cast<void *>(data), 0,
                              base && !sp ? NPY_ARRAY_DEFAULT : base ? NPY_ARRAY_WRITEABLE | NPY_ARRAY_ALIGNED : 0, nullptr);
    if (!a)
        return nullptr;
    if (base) {
        Py_INCREF(base);
        PyArray_SetBaseObject(A(a), base);
        return a;
    }
    PyObject *c = PyArray_NewCopy(A(a), NPY_ANYORDER);
    Py_DECREF(a);
    return c;
}
PyObject *resize(PyObject *a, const std::vector<Py_ssize_t> &shape, bool refcheck) {
    std::vector<npy_intp> d(shape.begin(), shape.end());
    PyArray_Dims dims{d.data(), (int)d.size()};
    return PyArray_Resize(A(a), &dims, refcheck, NPY_ANYORDER);
}
PyObject *reshape(PyObject *a, const std::vector<Py_ssize_t> &shape) {
    std::vector<npy_intp> d(shape.begin(), shape.end());
    PyArray_Dims dims{d.data(), (int)d.size()};
    return PyArray_Newshape(A(a), &dims, NPY_ANYORDER);
}
void *data(PyObject *a) {
    return PyArray_DATA(A(a));
}
Py_ssize_t ndim(PyObject *a) {
    return PyArray_NDIM(A(a));
}
Py_ssize_t size(PyObject *a) {
    return PyArray_SIZE(A(a));
}
Py_ssize_t itemsize(PyObject *a) {
    return PyArray_ITEMSIZE(A(a));
}
Py_ssize_t nbytes(PyObject *a) {
    return PyArray_NBYTES(A(a));
}
Py_ssize_t dim(PyObject *a, Py_ssize_t k) {
    return PyArray_DIM(A(a), (int)k);
}
Py_ssize_t stride(PyObject *a, Py_ssize_t k) {
    return PyArray_STRIDE(A(a), (int)k);
}
const Py_ssize_t *dims(PyObject *a) {
    return (const Py_ssize_t *)PyArray_DIMS(A(a));
}
const Py_ssize_t *strides(PyObject *a) {
    return (const Py_ssize_t *)PyArray_STRIDES(A(a));
}
bool writeable(PyObject *a) {
    return PyArray_ISWRITEABLE(A(a));
}
}  // namespace verif_np
