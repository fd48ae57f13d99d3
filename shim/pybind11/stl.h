#ifndef VERIF_MINI_PYBIND11_STL_H
#define VERIF_MINI_PYBIND11_STL_H
#include "pybind11/pybind11.h"
namespace pybind11 {
namespace detail {
// Fills a container from an iterable Python object.
template <typename V, typename Put>
bool load_items(handle src, bool convert, Put put) {
    PyObject *it = PyObject_GetIter(src.ptr());
    if (!it) {
        PyErr_Clear();
        return false;
    }
    bool ok = true;
    while (PyObject *x = PyIter_Next(it)) {
        type_caster<V> c;
        ok = c.load(x, convert);
        if (ok)
            put(c.get());
        Py_DECREF(x);
        if (!ok)
            break;
    }
    Py_DECREF(it);
    PyErr_Clear();
    return ok;
}
template <typename S, typename V>
struct set_caster {
    S value;
    bool load(handle src, bool convert) {
        if (!src || !PyAnySet_Check(src.ptr()))
            return false;
        value.clear();
        return load_items<V>(src, convert, [&](V &v) {
            value.insert(v);
        });
    }
    S &get() {
        return value;
    }
    static handle cast(const S &s) {
        set out;
        for (const auto &x : s)
            out.add(x);
        return out.release();
    }
};
template <typename T, typename C, typename A>
struct type_caster<std::set<T, C, A>> : set_caster<std::set<T, C, A>, T> {};
template <typename T, typename H, typename E, typename A>
struct type_caster<std::unordered_set<T, H, E, A>> : set_caster<std::unordered_set<T, H, E, A>, T> {};
template <typename T, typename A>
struct type_caster<std::vector<T, A>> {
    std::vector<T, A> value;
    bool load(handle src, bool convert) {
        if (!src || !PySequence_Check(src.ptr()) || PyUnicode_Check(src.ptr()) || PyBytes_Check(src.ptr()))
            return false;
        value.clear();
        return load_items<T>(src, convert, [&](auto &&v) {
            value.push_back(v);
        });
    }
    std::vector<T, A> &get() {
        return value;
    }
    static handle cast(const std::vector<T, A> &s) {
        list out;
        for (const auto &x : s)
            out.append((const T &)x);
        return out.release();
    }
};
template <typename T, size_t N>
struct type_caster<std::array<T, N>> {
    std::array<T, N> value;
    bool load(handle src, bool convert) {
        type_caster<std::vector<T>> c;
        if (!c.load(src, convert) || c.value.size() != N)
            return false;
        for (size_t k = 0; k < N; k++)
            value[k] = c.value[k];
        return true;
    }
    std::array<T, N> &get() {
        return value;
    }
    static handle cast(const std::array<T, N> &s) {
        list out;
        for (const auto &x : s)
            out.append(x);
        return out.release();
    }
};
template <typename M, typename K, typename V>
struct map_caster {
    M value;
    bool load(handle src, bool convert) {
        if (!src || !PyDict_Check(src.ptr()))
            return false;
        PyObject *k, *v;
        Py_ssize_t pos = 0;
        while (PyDict_Next(src.ptr(), &pos, &k, &v)) {
            type_caster<K> a;
            type_caster<V> b;
            if (!a.load(k, convert) || !b.load(v, convert))
                return false;
            value.emplace(a.get(), b.get());
        }
        return true;
    }
    M &get() {
        return value;
    }
    static handle cast(const M &s) {
        dict d;
        for (auto &kv : s) {
            object k(to_python(kv.first), object::stolen_t{}), v(to_python(kv.second), object::stolen_t{});
            PyDict_SetItem(d.ptr(), k.ptr(), v.ptr());
        }
        return d.release();
    }
};
template <typename K, typename V, typename C, typename A>
struct type_caster<std::map<K, V, C, A>> : map_caster<std::map<K, V, C, A>, K, V> {};
template <typename K, typename V, typename H, typename E, typename A>
struct type_caster<std::unordered_map<K, V, H, E, A>> : map_caster<std::unordered_map<K, V, H, E, A>, K, V> {};
template <typename T>
struct type_caster<std::optional<T>> {
    std::optional<T> value;
    bool load(handle src, bool convert) {
        if (!src)
            return false;
        if (src.is_none())
            return true;
        type_caster<T> c;
        if (!c.load(src, convert))
            return false;
        value = c.get();
        return true;
    }
    std::optional<T> &get() {
        return value;
    }
    static handle cast(const std::optional<T> &s) {
        if (!s)
            return handle(Py_None).inc_ref();
        return to_python(*s);
    }
};
}  // namespace detail
}  // namespace pybind11
#endif
