// A small stand-in for pybind11, just enough to build PyMatching's binding sources against the CPython C interface.
// It follows pybind11's documented semantics for conversions, overload resolution, defaults and exception translation.
#ifndef VERIF_MINI_PYBIND11_H
#define VERIF_MINI_PYBIND11_H
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include <array>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#define PYBIND11_NAMESPACE pybind11

namespace pybind11 {

using ssize_t = Py_ssize_t;
using size_t = std::size_t;

class object;
class str;
struct arg;
struct arg_v;

class error_already_set : public std::exception {
   public:
    error_already_set() {
        PyErr_Fetch(&t, &v, &b);
        PyErr_NormalizeException(&t, &v, &b);
        msg = "python error";
        if (v) {
            PyObject *s = PyObject_Str(v);
            if (s) {
                const char *c = PyUnicode_AsUTF8(s);
                if (c)
                    msg = c;
                Py_DECREF(s);
            }
            PyErr_Clear();
        }
    }
    error_already_set(const error_already_set &o) : t(o.t), v(o.v), b(o.b), msg(o.msg) {
        Py_XINCREF(t);
        Py_XINCREF(v);
        Py_XINCREF(b);
    }
    ~error_already_set() override {
        Py_XDECREF(t);
        Py_XDECREF(v);
        Py_XDECREF(b);
    }
    void restore() {
        PyErr_Restore(t, v, b);
        t = v = b = nullptr;
    }
    bool matches(PyObject *exc) const {
        return t && PyErr_GivenExceptionMatches(t, exc);
    }
    const char *what() const noexcept override {
        return msg.c_str();
    }

   private:
    PyObject *t = nullptr, *v = nullptr, *b = nullptr;
    std::string msg;
};
struct cast_error : std::runtime_error {
    using std::runtime_error::runtime_error;
    cast_error() : std::runtime_error("Unable to cast Python instance to C++ type") {
    }
};
#define VERIF_PYEXC(name, base)          \
    struct name : std::runtime_error {   \
        using std::runtime_error::runtime_error; \
        name() : std::runtime_error("") {} \
    };
VERIF_PYEXC(value_error, )
VERIF_PYEXC(type_error, )
VERIF_PYEXC(index_error, )
VERIF_PYEXC(key_error, )
VERIF_PYEXC(attribute_error, )
VERIF_PYEXC(import_error, )
VERIF_PYEXC(buffer_error, )
VERIF_PYEXC(stop_iteration, )

namespace detail {
template <typename Policy>
class accessor;
struct str_attr;
struct generic_item;
struct sequence_item;
}  // namespace detail

class handle {
   public:
    handle() = default;
    handle(PyObject *p) : m_ptr(p) {
    }
    PyObject *ptr() const {
        return m_ptr;
    }
    const handle &inc_ref() const {
        Py_XINCREF(m_ptr);
        return *this;
    }
    const handle &dec_ref() const {
        Py_XDECREF(m_ptr);
        return *this;
    }
    explicit operator bool() const {
        return m_ptr != nullptr;
    }
    bool is(handle o) const {
        return m_ptr == o.m_ptr;
    }
    bool is_none() const {
        return m_ptr == Py_None;
    }
    bool operator==(const handle &o) const {
        return m_ptr == o.m_ptr;
    }
    bool operator!=(const handle &o) const {
        return m_ptr != o.m_ptr;
    }
    template <typename T>
    T cast() const;
    inline detail::accessor<detail::str_attr> attr(const char *name) const;
    inline detail::accessor<detail::generic_item> operator[](handle key) const;
    inline detail::accessor<detail::generic_item> operator[](const char *key) const;
    template <typename... Args>
    object operator()(Args &&...args) const;
    template <typename T>
    inline bool contains(T &&item) const;

   protected:
    PyObject *m_ptr = nullptr;
};

class object : public handle {
   public:
    struct borrowed_t {};
    struct stolen_t {};
    object() = default;
    object(handle h, bool is_borrowed) : handle(h) {
        if (is_borrowed)
            inc_ref();
    }
    object(handle h, borrowed_t) : handle(h) {
        inc_ref();
    }
    object(handle h, stolen_t) : handle(h) {
    }
    object(const object &o) : handle(o) {
        inc_ref();
    }
    object(object &&o) noexcept : handle(o) {
        o.m_ptr = nullptr;
    }
    ~object() {
        dec_ref();
    }
    object &operator=(const object &o) {
        if (this != &o) {
            handle t(m_ptr);
            m_ptr = o.m_ptr;
            inc_ref();
            t.dec_ref();
        }
        return *this;
    }
    object &operator=(object &&o) noexcept {
        if (this != &o) {
            handle t(m_ptr);
            m_ptr = o.m_ptr;
            o.m_ptr = nullptr;
            t.dec_ref();
        }
        return *this;
    }
    handle release() {
        PyObject *t = m_ptr;
        m_ptr = nullptr;
        return handle(t);
    }
};
template <typename T>
T reinterpret_borrow(handle h) {
    return T(h, object::borrowed_t{});
}
template <typename T>
T reinterpret_steal(handle h) {
    return T(h, object::stolen_t{});
}
inline object steal_or_throw(PyObject *p) {
    if (!p)
        throw error_already_set();
    return object(p, object::stolen_t{});
}

// ---------------------------------------------------------------------------------- accessors
namespace detail {
struct str_attr {
    typedef std::string key_type;
    static object get(handle o, const std::string &k) {
        return steal_or_throw(PyObject_GetAttrString(o.ptr(), k.c_str()));
    }
    static void set(handle o, const std::string &k, handle v) {
        if (PyObject_SetAttrString(o.ptr(), k.c_str(), v.ptr()) != 0)
            throw error_already_set();
    }
};
struct generic_item {
    typedef object key_type;
    static object get(handle o, const object &k) {
        return steal_or_throw(PyObject_GetItem(o.ptr(), k.ptr()));
    }
    static void set(handle o, const object &k, handle v) {
        if (PyObject_SetItem(o.ptr(), k.ptr(), v.ptr()) != 0)
            throw error_already_set();
    }
};
struct sequence_item {
    typedef size_t key_type;
    static object get(handle o, size_t k) {
        return steal_or_throw(PySequence_GetItem(o.ptr(), (Py_ssize_t)k));
    }
    static void set(handle o, size_t k, handle v) {
        if (PyTuple_CheckExact(o.ptr())) {
            v.inc_ref();
            if (PyTuple_SetItem(o.ptr(), (Py_ssize_t)k, v.ptr()) != 0)
                throw error_already_set();
            return;
        }
        if (PySequence_SetItem(o.ptr(), (Py_ssize_t)k, v.ptr()) != 0)
            throw error_already_set();
    }
};
template <typename Policy>
class accessor {
   public:
    accessor(handle o, typename Policy::key_type k) : obj(o, object::borrowed_t{}), key(std::move(k)) {
    }
    object get() const {
        return Policy::get(obj, key);
    }
    operator object() const {
        return get();
    }
    template <typename T>
    T cast() const {
        return get().template cast<T>();
    }
    template <typename... A>
    object operator()(A &&...a) const {
        return get()(std::forward<A>(a)...);
    }
    accessor<str_attr> attr(const char *name) const;
    template <typename K>
    auto operator[](K &&k) const;
    template <typename T>
    void operator=(T &&v) &&;
    template <typename T>
    void operator=(T &&v) &;
    bool is_none() const {
        return get().is_none();
    }
    bool is(handle h) const {
        return get().is(h);
    }

   private:
    object obj;
    typename Policy::key_type key;
};

// ---------------------------------------------------------------------------------- type casters
struct instance {
    PyObject_HEAD
    void *value;
    void (*deleter)(void *);
};
inline std::unordered_map<std::type_index, PyTypeObject *> &registered_types() {
    static auto *m = new std::unordered_map<std::type_index, PyTypeObject *>();
    return *m;
}

template <typename T, typename = void>
struct type_caster;  // load(handle, bool convert) -> bool ; get() ; static handle cast(T)

template <typename T>
using bare = std::remove_cv_t<std::remove_reference_t<T>>;

// classes bound with class_<T>
template <typename T, typename>
struct type_caster {
    T *value = nullptr;
    bool load(handle src, bool) {
        auto it = registered_types().find(std::type_index(typeid(T)));
        if (it == registered_types().end() || !PyObject_TypeCheck(src.ptr(), it->second))
            return false;
        value = (T *)((instance *)src.ptr())->value;
        return value != nullptr;
    }
    T &get() {
        return *value;
    }
    template <typename U>
    static handle cast(U &&x) {
        auto it = registered_types().find(std::type_index(typeid(T)));
        if (it == registered_types().end())
            throw type_error("Unable to convert function return value to a Python type!");
        PyTypeObject *t = it->second;
        instance *i = (instance *)t->tp_alloc(t, 0);
        if (!i)
            throw error_already_set();
        i->value = new T(std::forward<U>(x));
        i->deleter = [](void *p) {
            delete (T *)p;
        };
        return handle((PyObject *)i);
    }
};
template <typename T>
struct type_caster<T *, std::enable_if_t<std::is_class_v<T>>> {
    typedef std::remove_const_t<T> U;
    T *value = nullptr;
    bool load(handle src, bool convert) {
        if (src && src.is_none())
            return convert;
        type_caster<U> c;
        if (!c.load(src, convert))
            return false;
        value = &c.get();
        return true;
    }
    T *&get() {
        return value;
    }
};
template <>
struct type_caster<bool> {
    bool value = false;
    bool load(handle src, bool convert) {
        if (!src)
            return false;
        if (src.ptr() == Py_True) {
            value = true;
            return true;
        }
        if (src.ptr() == Py_False) {
            value = false;
            return true;
        }
        const char *tn = Py_TYPE(src.ptr())->tp_name;
        if (convert || !strcmp(tn, "numpy.bool") || !strcmp(tn, "numpy.bool_")) {
            if (src.is_none()) {
                value = false;
                return true;
            }
            PyNumberMethods *nm = Py_TYPE(src.ptr())->tp_as_number;
            if (nm && nm->nb_bool) {
                int r = nm->nb_bool(src.ptr());
                if (r == 0 || r == 1) {
                    value = r == 1;
                    return true;
                }
            }
            PyErr_Clear();
        }
        return false;
    }
    bool &get() {
        return value;
    }
    static handle cast(bool b) {
        return handle(b ? Py_True : Py_False).inc_ref();
    }
};
template <typename T>
struct type_caster<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
    T value = 0;
    bool load(handle src, bool convert) {
        if (!src || PyFloat_Check(src.ptr()))
            return false;
        if (!convert && !PyLong_Check(src.ptr()) && !PyIndex_Check(src.ptr()))
            return false;
        PyObject *idx = PyLong_Check(src.ptr()) ? Py_NewRef(src.ptr()) : PyNumber_Index(src.ptr());
        if (!idx) {
            PyErr_Clear();
            if (!convert || !PyNumber_Check(src.ptr()))
                return false;
            idx = PyNumber_Long(src.ptr());
            if (!idx) {
                PyErr_Clear();
                return false;
            }
        }
        bool ok = true;
        if constexpr (std::is_unsigned_v<T>) {
            unsigned long long v = PyLong_AsUnsignedLongLong(idx);
            if (v == (unsigned long long)-1 && PyErr_Occurred())
                ok = false;
            else if ((unsigned long long)(T)v != v)
                ok = false;
            value = (T)v;
        } else {
            long long v = PyLong_AsLongLong(idx);
            if (v == -1 && PyErr_Occurred())
                ok = false;
            else if ((long long)(T)v != v)
                ok = false;
            value = (T)v;
        }
        PyErr_Clear();
        Py_DECREF(idx);
        return ok;
    }
    T &get() {
        return value;
    }
    static handle cast(T v) {
        if constexpr (std::is_unsigned_v<T>)
            return PyLong_FromUnsignedLongLong(v);
        else
            return PyLong_FromLongLong(v);
    }
};
template <typename T>
struct type_caster<T, std::enable_if_t<std::is_floating_point_v<T>>> {
    T value = 0;
    bool load(handle src, bool convert) {
        if (!src || (!convert && !PyFloat_Check(src.ptr())))
            return false;
        double d = PyFloat_AsDouble(src.ptr());
        if (d == -1.0 && PyErr_Occurred()) {
            PyErr_Clear();
            if (convert && PyNumber_Check(src.ptr())) {
                PyObject *f = PyNumber_Float(src.ptr());
                PyErr_Clear();
                if (!f)
                    return false;
                value = (T)PyFloat_AsDouble(f);
                Py_DECREF(f);
                return true;
            }
            return false;
        }
        value = (T)d;
        return true;
    }
    T &get() {
        return value;
    }
    static handle cast(T v) {
        return PyFloat_FromDouble((double)v);
    }
};
template <>
struct type_caster<std::string> {
    std::string value;
    bool load(handle src, bool) {
        if (!src)
            return false;
        if (PyUnicode_Check(src.ptr())) {
            Py_ssize_t n;
            const char *c = PyUnicode_AsUTF8AndSize(src.ptr(), &n);
            if (!c) {
                PyErr_Clear();
                return false;
            }
            value.assign(c, (size_t)n);
            return true;
        }
        if (PyBytes_Check(src.ptr())) {
            value.assign(PyBytes_AsString(src.ptr()), (size_t)PyBytes_Size(src.ptr()));
            return true;
        }
        return false;
    }
    std::string &get() {
        return value;
    }
    static handle cast(const std::string &s) {
        PyObject *p = PyUnicode_DecodeUTF8(s.data(), (Py_ssize_t)s.size(), nullptr);
        if (!p)
            throw error_already_set();
        return p;
    }
};
template <>
struct type_caster<std::string_view> : type_caster<std::string> {
    std::string_view view;
    std::string_view &get() {
        return view = value;
    }
};
template <>
struct type_caster<const char *> {
    std::string value;
    bool none = false;
    bool load(handle src, bool convert) {
        if (src && src.is_none() && convert) {
            none = true;
            return true;
        }
        type_caster<std::string> c;
        if (!c.load(src, convert))
            return false;
        value = c.value;
        return true;
    }
    const char *get() {
        return none ? nullptr : value.c_str();
    }
    static handle cast(const char *s) {
        if (!s)
            return handle(Py_None).inc_ref();
        return type_caster<std::string>::cast(s);
    }
};
// python object wrappers
template <typename T>
struct type_caster<T, std::enable_if_t<std::is_base_of_v<handle, T>>> {
    T value;
    bool load(handle src, bool convert) {
        if constexpr (std::is_same_v<T, handle>) {
            value = src;
            return (bool)value;
        } else {
            return T::verif_load(src, convert, value);
        }
    }
    T &get() {
        return value;
    }
    static handle cast(const handle &h) {
        return h.inc_ref();
    }
};
template <typename P>
struct type_caster<accessor<P>> {
    static handle cast(const accessor<P> &a) {
        return a.get().release();
    }
};

template <typename T>
struct intrinsic {
    typedef bare<T> type;
};
template <size_t N>
struct intrinsic<const char (&)[N]> {
    typedef const char *type;
};
template <size_t N>
struct intrinsic<char (&)[N]> {
    typedef const char *type;
};
template <>
struct intrinsic<char *> {
    typedef const char *type;
};
template <typename T>
handle to_python(T &&x) {
    typedef typename intrinsic<T>::type U;
    handle h = type_caster<U>::cast(std::forward<T>(x));
    if (!h)
        throw error_already_set();
    return h;
}
}  // namespace detail

template <typename T>
object cast(T &&x) {
    return object(detail::to_python(std::forward<T>(x)), object::stolen_t{});
}
template <typename T>
T cast(const handle &h) {
    return h.cast<T>();
}
template <typename T>
T handle::cast() const {
    if constexpr (std::is_same_v<T, object>) {
        return object(*this, object::borrowed_t{});
    } else {
        detail::type_caster<detail::bare<T>> c;
        if (!c.load(*this, true))
            throw cast_error();
        return c.get();
    }
}

// ---------------------------------------------------------------------------------- wrappers
#define VERIF_PYOBJ(Name, Check, Convert)                                              \
    Name(handle h, object::borrowed_t t) : object(h, t) {                              \
    }                                                                                  \
    Name(handle h, object::stolen_t t) : object(h, t) {                                \
    }                                                                                  \
    Name(const object &o) : object() {                                                 \
        if (!o.ptr() || Check(o.ptr())) {                                              \
            object::operator=(o);                                                      \
        } else {                                                                       \
            PyObject *p = Convert(o.ptr());                                            \
            if (!p)                                                                    \
                throw error_already_set();                                             \
            m_ptr = p;                                                                 \
        }                                                                              \
    }                                                                                  \
    template <typename P>                                                              \
    Name(const detail::accessor<P> &a) : Name(a.get()) {                               \
    }                                                                                  \
    static bool check_(handle h) {                                                     \
        return h.ptr() && Check(h.ptr());                                              \
    }                                                                                  \
    static bool verif_load(handle src, bool, Name &out) {                              \
        if (!src.ptr() || !Check(src.ptr()))                                           \
            return false;                                                              \
        static_cast<object &>(out) = object(src, object::borrowed_t{});                \
        return true;                                                                   \
    }
inline PyObject *verif_no_convert(PyObject *) {
    PyErr_SetString(PyExc_TypeError, "object of another type expected");
    return nullptr;
}
inline bool verif_load_object(handle src, object &out) {
    if (!src)
        return false;
    out = object(src, object::borrowed_t{});
    return true;
}
namespace detail {
template <>
struct type_caster<object> {
    object value;
    bool load(handle src, bool) {
        return verif_load_object(src, value);
    }
    object &get() {
        return value;
    }
    static handle cast(const handle &h) {
        return h.inc_ref();
    }
};
}  // namespace detail

class none : public object {
   public:
    none() : object(handle(Py_None), object::borrowed_t{}) {
    }
    static bool verif_load(handle src, bool, none &) {
        return src.is_none();
    }
};
class ellipsis : public object {
   public:
    ellipsis() : object(handle(Py_Ellipsis), object::borrowed_t{}) {
    }
    static bool verif_load(handle src, bool, ellipsis &) {
        return src.ptr() == Py_Ellipsis;
    }
};
class str : public object {
   public:
    VERIF_PYOBJ(str, PyUnicode_Check, PyObject_Str)
    str() : object(PyUnicode_FromString(""), object::stolen_t{}) {
    }
    str(const char *c) : object(PyUnicode_FromString(c), object::stolen_t{}) {
    }
    str(const std::string &c) : object(detail::type_caster<std::string>::cast(c), object::stolen_t{}) {
    }
    operator std::string() const {
        return cast<std::string>();
    }
};
class int_ : public object {
   public:
    VERIF_PYOBJ(int_, PyLong_Check, PyNumber_Long)
    int_() : object(PyLong_FromLong(0), object::stolen_t{}) {
    }
    template <typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0>
    int_(T v) : object(detail::type_caster<T>::cast(v), object::stolen_t{}) {
    }
    template <typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0>
    operator T() const {
        return cast<T>();
    }
};
class float_ : public object {
   public:
    VERIF_PYOBJ(float_, PyFloat_Check, PyNumber_Float)
    float_(double v = 0) : object(PyFloat_FromDouble(v), object::stolen_t{}) {
    }
    operator double() const {
        return PyFloat_AsDouble(m_ptr);
    }
};
class bool_ : public object {
   public:
    VERIF_PYOBJ(bool_, PyBool_Check, verif_no_convert)
    bool_(bool v = false) : object(handle(v ? Py_True : Py_False), object::borrowed_t{}) {
    }
    operator bool() const {
        return m_ptr == Py_True;
    }
};
class iterator : public object {
   public:
    typedef std::input_iterator_tag iterator_category;
    typedef Py_ssize_t difference_type;
    typedef handle value_type;
    typedef const handle *pointer;
    typedef handle reference;
    iterator() = default;
    iterator(object o) : object(std::move(o)) {
        advance();
    }
    iterator &operator++() {
        advance();
        return *this;
    }
    handle operator*() const {
        return cur;
    }
    friend bool operator==(const iterator &a, const iterator &b) {
        return a.cur.ptr() == b.cur.ptr();
    }
    friend bool operator!=(const iterator &a, const iterator &b) {
        return a.cur.ptr() != b.cur.ptr();
    }

   private:
    void advance() {
        cur = object(PyIter_Next(m_ptr), object::stolen_t{});
        if (!cur && PyErr_Occurred())
            throw error_already_set();
    }
    object cur;
};
inline iterator iter(handle h) {
    return iterator(steal_or_throw(PyObject_GetIter(h.ptr())));
}
inline size_t len(handle h) {
    Py_ssize_t n = PyObject_Length(h.ptr());
    if (n < 0)
        throw error_already_set();
    return (size_t)n;
}
#define VERIF_ITERABLE                                             \
    iterator begin() const {                                       \
        return iter(*this);                                        \
    }                                                              \
    iterator end() const {                                         \
        return iterator();                                         \
    }
class tuple : public object {
   public:
    VERIF_PYOBJ(tuple, PyTuple_Check, PySequence_Tuple)
    explicit tuple(size_t n = 0) : object(PyTuple_New((Py_ssize_t)n), object::stolen_t{}) {
    }
    size_t size() const {
        return (size_t)PyTuple_Size(m_ptr);
    }
    bool empty() const {
        return size() == 0;
    }
    detail::accessor<detail::sequence_item> operator[](size_t k) const {
        return {*this, k};
    }
    VERIF_ITERABLE
};
class list : public object {
   public:
    VERIF_PYOBJ(list, PyList_Check, PySequence_List)
    explicit list(size_t n = 0) : object(PyList_New((Py_ssize_t)n), object::stolen_t{}) {
        for (size_t k = 0; k < n; k++)
            PyList_SET_ITEM(m_ptr, (Py_ssize_t)k, Py_NewRef(Py_None));
    }
    size_t size() const {
        return (size_t)PyList_Size(m_ptr);
    }
    bool empty() const {
        return size() == 0;
    }
    detail::accessor<detail::sequence_item> operator[](size_t k) const {
        return {*this, k};
    }
    template <typename T>
    void append(T &&v) {
        object o(detail::to_python(std::forward<T>(v)), object::stolen_t{});
        if (PyList_Append(m_ptr, o.ptr()) != 0)
            throw error_already_set();
    }
    VERIF_ITERABLE
};
class sequence : public object {
   public:
    VERIF_PYOBJ(sequence, PySequence_Check, PySequence_List)
    sequence() = default;
    size_t size() const {
        return len(*this);
    }
    detail::accessor<detail::sequence_item> operator[](size_t k) const {
        return {*this, k};
    }
    VERIF_ITERABLE
};
class iterable : public object {
   public:
    static PyObject *conv(PyObject *o) {
        return PyObject_GetIter(o);
    }
    static bool chk(PyObject *o) {
        PyObject *i = PyObject_GetIter(o);
        if (!i) {
            PyErr_Clear();
            return false;
        }
        Py_DECREF(i);
        return true;
    }
    VERIF_PYOBJ(iterable, chk, conv)
    iterable() = default;
    VERIF_ITERABLE
};
class set : public object {
   public:
    VERIF_PYOBJ(set, PySet_Check, PySet_New)
    set() : object(PySet_New(nullptr), object::stolen_t{}) {
    }
    size_t size() const {
        return (size_t)PySet_Size(m_ptr);
    }
    template <typename T>
    bool add(T &&v) {
        object o(detail::to_python(std::forward<T>(v)), object::stolen_t{});
        return PySet_Add(m_ptr, o.ptr()) == 0;
    }
    VERIF_ITERABLE
};
class bytes : public object {
   public:
    VERIF_PYOBJ(bytes, PyBytes_Check, PyObject_Bytes)
    bytes(const std::string &s = "") : object(PyBytes_FromStringAndSize(s.data(), (Py_ssize_t)s.size()), object::stolen_t{}) {
    }
    operator std::string() const {
        return std::string(PyBytes_AsString(m_ptr), (size_t)PyBytes_Size(m_ptr));
    }
};
class type : public object {
   public:
    VERIF_PYOBJ(type, PyType_Check, verif_no_convert)
    type() = default;
    static type of(handle h) {
        return type(handle((PyObject *)Py_TYPE(h.ptr())), object::borrowed_t{});
    }
};
class function : public object {
   public:
    VERIF_PYOBJ(function, PyCallable_Check, verif_no_convert)
    function() = default;
};
class args : public tuple {
   public:
    using tuple::tuple;
};

// ---------------------------------------------------------------------------------- arguments
struct arg {
    std::string name;
    bool flag_noconvert = false, flag_none = true;
    constexpr explicit arg(const char *n = nullptr) : name(n ? n : "") {
    }
    template <typename T>
    arg_v operator=(T &&v) const;
    arg &noconvert(bool f = true) {
        flag_noconvert = f;
        return *this;
    }
    arg &none(bool f = true) {
        flag_none = f;
        return *this;
    }
};
struct arg_v : arg {
    object value;
    template <typename T>
    arg_v(const arg &a, T &&v, const char * = nullptr) : arg(a), value(detail::to_python(std::forward<T>(v)), object::stolen_t{}) {
    }
    template <typename T>
    arg_v(const char *n, T &&v, const char * = nullptr) : arg(n), value(detail::to_python(std::forward<T>(v)), object::stolen_t{}) {
    }
};
template <typename T>
arg_v arg::operator=(T &&v) const {
    return arg_v(*this, std::forward<T>(v));
}
struct kw_only {};
struct pos_only {};
struct is_method {
    handle h;
};
enum class return_value_policy : uint8_t {
    automatic,
    automatic_reference,
    take_ownership,
    copy,
    move,
    reference,
    reference_internal
};
template <size_t A, size_t B>
struct keep_alive {};
template <typename... T>
struct call_guard {};
struct gil_scoped_release {
    PyThreadState *s;
    gil_scoped_release() : s(PyEval_SaveThread()) {
    }
    ~gil_scoped_release() {
        PyEval_RestoreThread(s);
    }
};
struct gil_scoped_acquire {
    PyGILState_STATE s;
    gil_scoped_acquire() : s(PyGILState_Ensure()) {
    }
    ~gil_scoped_acquire() {
        PyGILState_Release(s);
    }
};
inline namespace literals {
inline arg operator""_a(const char *n, size_t) {
    return arg(n);
}
inline str operator""_s(const char *n, size_t k) {
    return str(std::string(n, k));
}
}  // namespace literals

class dict : public object {
   public:
    static PyObject *conv(PyObject *o) {
        return PyObject_CallOneArg((PyObject *)&PyDict_Type, o);
    }
    VERIF_PYOBJ(dict, PyDict_Check, conv)
    template <typename... A, std::enable_if_t<(std::is_same_v<std::decay_t<A>, arg_v> && ...), int> = 0>
    explicit dict(A &&...a) : object(PyDict_New(), object::stolen_t{}) {
        (put(a), ...);
    }
    size_t size() const {
        return (size_t)PyDict_Size(m_ptr);
    }
    bool empty() const {
        return size() == 0;
    }
    template <typename T>
    bool contains(T &&k) const {
        object o(detail::to_python(std::forward<T>(k)), object::stolen_t{});
        return PyDict_Contains(m_ptr, o.ptr()) == 1;
    }
    class iterator {
       public:
        typedef std::forward_iterator_tag iterator_category;
        typedef std::pair<handle, handle> value_type;
        typedef ssize_t difference_type;
        typedef const value_type *pointer;
        typedef value_type reference;
        iterator() = default;
        explicit iterator(PyObject *d) : d(d) {
            ++*this;
        }
        reference operator*() const {
            return kv;
        }
        pointer operator->() const {
            return &kv;
        }
        iterator &operator++() {
            PyObject *k, *v;
            if (!PyDict_Next(d, &pos, &k, &v)) {
                d = nullptr;
                pos = 0;
            } else {
                kv = {handle(k), handle(v)};
            }
            return *this;
        }
        bool operator==(const iterator &o) const {
            return d == o.d && pos == o.pos;
        }
        bool operator!=(const iterator &o) const {
            return !(*this == o);
        }

       private:
        PyObject *d = nullptr;
        Py_ssize_t pos = 0;
        value_type kv;
    };
    iterator begin() const {
        return iterator(m_ptr);
    }
    iterator end() const {
        return iterator();
    }
    void clear() {
        PyDict_Clear(m_ptr);
    }

   private:
    void put(const arg_v &a) {
        PyDict_SetItemString(m_ptr, a.name.c_str(), a.value.ptr());
    }
};
class kwargs : public dict {
   public:
    using dict::dict;
};

template <typename... A>
tuple make_tuple(A &&...a) {
    object items[] = {object(detail::to_python(std::forward<A>(a)), object::stolen_t{})..., object()};
    tuple t(sizeof...(A));
    for (size_t k = 0; k < sizeof...(A); k++)
        PyTuple_SET_ITEM(t.ptr(), (Py_ssize_t)k, items[k].release().ptr());
    return t;
}

namespace detail {
template <typename T>
void collect(list &pos, dict &kw, T &&x) {
    if constexpr (std::is_same_v<std::decay_t<T>, arg_v>)
        PyDict_SetItemString(kw.ptr(), x.name.c_str(), x.value.ptr());
    else
        pos.append(std::forward<T>(x));
}
template <typename Policy>
accessor<str_attr> accessor<Policy>::attr(const char *name) const {
    return accessor<str_attr>(get(), name);
}
template <typename Policy>
template <typename K>
auto accessor<Policy>::operator[](K &&k) const {
    object key(to_python(std::forward<K>(k)), object::stolen_t{});
    return accessor<generic_item>(get(), key);
}
template <typename Policy>
template <typename T>
void accessor<Policy>::operator=(T &&v) && {
    object o(to_python(std::forward<T>(v)), object::stolen_t{});
    Policy::set(obj, key, o);
}
template <typename Policy>
template <typename T>
void accessor<Policy>::operator=(T &&v) & {
    object o(to_python(std::forward<T>(v)), object::stolen_t{});
    Policy::set(obj, key, o);
}
}  // namespace detail

inline detail::accessor<detail::str_attr> handle::attr(const char *name) const {
    return {*this, name};
}
inline detail::accessor<detail::generic_item> handle::operator[](handle key) const {
    return {*this, object(key, object::borrowed_t{})};
}
inline detail::accessor<detail::generic_item> handle::operator[](const char *key) const {
    return {*this, str(key)};
}
template <typename... Args>
object handle::operator()(Args &&...a) const {
    list pos;
    dict kw;
    (detail::collect(pos, kw, std::forward<Args>(a)), ...);
    tuple t = reinterpret_steal<tuple>(PyList_AsTuple(pos.ptr()));
    return steal_or_throw(PyObject_Call(m_ptr, t.ptr(), kw.ptr()));
}
template <typename T>
bool handle::contains(T &&item) const {
    object o(detail::to_python(std::forward<T>(item)), object::stolen_t{});
    int r = PySequence_Contains(m_ptr, o.ptr());
    if (r < 0)
        throw error_already_set();
    return r == 1;
}

inline bool isinstance(handle o, handle t) {
    int r = PyObject_IsInstance(o.ptr(), t.ptr());
    if (r < 0)
        throw error_already_set();
    return r == 1;
}
template <typename T>
bool isinstance(handle o) {
    if constexpr (std::is_base_of_v<object, T>) {
        return T::check_(o);
    } else {
        detail::type_caster<T> c;
        return c.load(o, false);
    }
}
inline bool hasattr(handle o, const char *n) {
    return PyObject_HasAttrString(o.ptr(), n) == 1;
}
inline object getattr(handle o, const char *n) {
    return o.attr(n);
}
inline void setattr(handle o, const char *n, handle v) {
    if (PyObject_SetAttrString(o.ptr(), n, v.ptr()) != 0)
        throw error_already_set();
}
template <typename... A>
void print(A &&...a) {
    object b = steal_or_throw(PyImport_ImportModule("builtins"));
    b.attr("print")(std::forward<A>(a)...);
}

class capsule : public object {
   public:
    static bool chk(PyObject *o) {
        return PyCapsule_CheckExact(o);
    }
    VERIF_PYOBJ(capsule, chk, verif_no_convert)
    capsule() = default;
    capsule(const void *value, void (*destructor)(void *)) {
        m_ptr = PyCapsule_New(const_cast<void *>(value), nullptr, [](PyObject *o) {
            auto d = (void (*)(void *))PyCapsule_GetContext(o);
            d(PyCapsule_GetPointer(o, nullptr));
        });
        if (!m_ptr || PyCapsule_SetContext(m_ptr, (void *)destructor) != 0)
            throw error_already_set();
    }
    explicit capsule(void (*destructor)()) : capsule((void *)destructor, [](void *p) {
                                                 ((void (*)())p)();
                                             }) {
    }
    template <typename T>
    operator T *() const {
        return (T *)PyCapsule_GetPointer(m_ptr, nullptr);
    }
};

// ---------------------------------------------------------------------------------- functions
namespace detail {
struct argrec {
    std::string name;
    object dflt;
    bool convert = true, none = true;
};
struct overload {
    std::string name;
    size_t nargs = 0;
    bool is_method = false, has_kw_only = false, has_pos_only = false, has_args = false, has_kwargs = false;
    size_t n_before_kw_only = 0;
    std::vector<argrec> args;  // named arguments ("self" first for methods if any are named)
    std::function<PyObject *(std::vector<handle> &, std::vector<bool> &, bool &)> call;
    std::string doc;
};
struct funrec {
    std::vector<overload> overloads;
    PyMethodDef def{};
    std::string name;
};

inline void translate(std::exception_ptr ep) {
    try {
        std::rethrow_exception(ep);
    } catch (error_already_set &e) {
        e.restore();
    } catch (const cast_error &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
    } catch (const value_error &e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const type_error &e) {
        PyErr_SetString(PyExc_TypeError, e.what());
    } catch (const index_error &e) {
        PyErr_SetString(PyExc_IndexError, e.what());
    } catch (const key_error &e) {
        PyErr_SetString(PyExc_KeyError, e.what());
    } catch (const attribute_error &e) {
        PyErr_SetString(PyExc_AttributeError, e.what());
    } catch (const import_error &e) {
        PyErr_SetString(PyExc_ImportError, e.what());
    } catch (const buffer_error &e) {
        PyErr_SetString(PyExc_BufferError, e.what());
    } catch (const std::bad_alloc &e) {
        PyErr_SetString(PyExc_MemoryError, e.what());
    } catch (const std::domain_error &e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::invalid_argument &e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::length_error &e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::out_of_range &e) {
        PyErr_SetString(PyExc_IndexError, e.what());
    } catch (const std::range_error &e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::overflow_error &e) {
        PyErr_SetString(PyExc_OverflowError, e.what());
    } catch (const std::exception &e) {
        PyErr_SetString(PyExc_RuntimeError, e.what());
    } catch (...) {
        PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
    }
}

// Lays out the arguments of one call for an overload; false if they do not fit its signature.
inline bool bind_args(const overload &o, PyObject *a, PyObject *kw, std::vector<handle> &out, std::vector<bool> &conv) {
    size_t npos = (size_t)PyTuple_GET_SIZE(a);
    size_t nfix = o.nargs;
    out.assign(nfix, handle());
    conv.assign(nfix, true);
    size_t pos_limit = o.has_kw_only ? o.n_before_kw_only : nfix;
    if (npos > pos_limit)
        return false;
    for (size_t k = 0; k < npos; k++)
        out[k] = PyTuple_GET_ITEM(a, (Py_ssize_t)k);
    size_t used_kw = 0;
    for (size_t k = 0; k < nfix; k++) {
        if (k < o.args.size()) {
            const argrec &r = o.args[k];
            conv[k] = r.convert;
            PyObject *v = kw && !r.name.empty() ? PyDict_GetItemString(kw, r.name.c_str()) : nullptr;
            if (v) {
                if (out[k])
                    return false;
                out[k] = v;
                used_kw++;
            }
            if (!out[k] && r.dflt)
                out[k] = r.dflt;
            if (out[k] && out[k].is_none() && !r.none)
                return false;
        }
        if (!out[k])
            return false;
    }
    return used_kw == (kw ? (size_t)PyDict_Size(kw) : 0);
}

inline PyObject *dispatch(PyObject *self, PyObject *a, PyObject *kw) {
    funrec *f = (funrec *)PyCapsule_GetPointer(self, "verif.funrec");
    if (!f)
        return nullptr;
    try {
        for (int pass = 0; pass < 2; pass++) {
            if (pass == 0 && f->overloads.size() == 1)
                continue;
            for (auto &o : f->overloads) {
                std::vector<handle> hs;
                std::vector<bool> conv;
                if (!bind_args(o, a, kw, hs, conv))
                    continue;
                if (pass == 0)
                    conv.assign(conv.size(), false);
                bool fits = true;
                PyObject *r = o.call(hs, conv, fits);
                if (fits)
                    return r;
            }
        }
    } catch (...) {
        translate(std::current_exception());
        return nullptr;
    }
    std::string msg = f->name + "(): incompatible function arguments.";
    PyErr_SetString(PyExc_TypeError, msg.c_str());
    return nullptr;
}

inline void process(overload &o, const arg &a) {
    if (o.is_method && o.args.empty())
        o.args.push_back({"self", object(), true, false});
    argrec r;
    r.name = a.name;
    r.convert = !a.flag_noconvert;
    r.none = a.flag_none;
    o.args.push_back(r);
}
inline void process(overload &o, const arg_v &a) {
    process(o, static_cast<const arg &>(a));
    o.args.back().dflt = a.value;
}
inline void process(overload &o, const kw_only &) {
    if (o.is_method && o.args.empty())
        o.args.push_back({"self", object(), true, false});
    o.has_kw_only = true;
    o.n_before_kw_only = o.args.size();
}
inline void process(overload &o, const pos_only &) {
    for (auto &a : o.args)
        a.name.clear();
}
inline void process(overload &o, const char *d) {
    o.doc = d;
}
inline void process(overload &, const return_value_policy &) {
}
template <size_t A, size_t B>
void process(overload &, const keep_alive<A, B> &) {
}
template <typename... G>
void process(overload &, const call_guard<G...> &) {
}

template <typename A>
decltype(auto) pass_arg(type_caster<bare<A>> &c) {
    if constexpr (std::is_lvalue_reference_v<A> || std::is_pointer_v<A>)
        return (c.get());
    else
        return bare<A>(c.get());
}
template <typename A>
struct caster_for {
    typedef type_caster<bare<A>> type;
};
template <typename F, typename R, typename... A, size_t... I>
PyObject *invoke(F &f, std::vector<handle> &hs, std::vector<bool> &conv, bool &fits, std::index_sequence<I...>) {
    std::tuple<type_caster<bare<A>>...> cs;
    (void)hs;
    (void)conv;
    fits = (std::get<I>(cs).load(hs[I], conv[I]) && ... && true);
    if (!fits)
        return nullptr;
    if constexpr (std::is_void_v<R>) {
        f(std::forward<A>(std::get<I>(cs).get())...);
        Py_RETURN_NONE;
    } else {
        return to_python(f(std::forward<A>(std::get<I>(cs).get())...)).ptr();
    }
}
template <typename R, typename... A, typename F>
overload make_overload(F f, R (*)(A...)) {
    overload o;
    o.nargs = sizeof...(A);
    o.call = [f](std::vector<handle> &hs, std::vector<bool> &conv, bool &fits) mutable -> PyObject * {
        return invoke<F, R, A...>(f, hs, conv, fits, std::index_sequence_for<A...>{});
    };
    return o;
}
template <typename T>
struct lambda_sig;
template <typename C, typename R, typename... A>
struct lambda_sig<R (C::*)(A...) const> {
    typedef R type(A...);
};
template <typename C, typename R, typename... A>
struct lambda_sig<R (C::*)(A...)> {
    typedef R type(A...);
};
template <typename C, typename R, typename... A>
struct lambda_sig<R (C::*)(A...) const noexcept> {
    typedef R type(A...);
};
template <typename C, typename R, typename... A>
struct lambda_sig<R (C::*)(A...) noexcept> {
    typedef R type(A...);
};
template <typename R, typename... A>
overload wrap(R (*f)(A...)) {
    return make_overload<R, A...>(f, (R(*)(A...)) nullptr);
}
template <typename R, typename C, typename... A>
overload wrap(R (C::*f)(A...)) {
    return make_overload<R, C &, A...>(
        [f](C &c, A... a) -> R {
            return (c.*f)(std::forward<A>(a)...);
        },
        (R(*)(C &, A...)) nullptr);
}
template <typename R, typename C, typename... A>
overload wrap(R (C::*f)(A...) const) {
    return make_overload<R, const C &, A...>(
        [f](const C &c, A... a) -> R {
            return (c.*f)(std::forward<A>(a)...);
        },
        (R(*)(const C &, A...)) nullptr);
}
template <typename F, typename R, typename... A>
overload wrap_lambda(F f, R (*)(A...)) {
    return make_overload<R, A...>(std::move(f), (R(*)(A...)) nullptr);
}
template <typename F, std::enable_if_t<std::is_class_v<std::decay_t<F>>, int> = 0>
overload wrap(F &&f) {
    typedef typename lambda_sig<decltype(&std::decay_t<F>::operator())>::type S;
    return wrap_lambda(std::decay_t<F>(std::forward<F>(f)), (S *)nullptr);
}

// Adds an overload to scope.name, creating the function if it is new.
inline void add_function(handle scope, const std::string &name, overload o, bool method) {
    o.name = name;
    PyObject *dictobj = PyType_Check(scope.ptr()) ? ((PyTypeObject *)scope.ptr())->tp_dict : PyModule_GetDict(scope.ptr());
    static auto *table = new std::map<std::pair<PyObject *, std::string>, funrec *>();
    auto key = std::make_pair(dictobj, name);
    auto it = table->find(key);
    if (it != table->end()) {
        it->second->overloads.push_back(std::move(o));
        return;
    }
    funrec *f = new funrec();
    f->name = name;
    f->overloads.push_back(std::move(o));
    f->def.ml_name = f->name.c_str();
    f->def.ml_meth = (PyCFunction)(void *)(PyCFunctionWithKeywords)&dispatch;
    f->def.ml_flags = METH_VARARGS | METH_KEYWORDS;
    (*table)[key] = f;
    object cap = steal_or_throw(PyCapsule_New(f, "verif.funrec", nullptr));
    object fn = steal_or_throw(PyCFunction_NewEx(&f->def, cap.ptr(), nullptr));
    if (method)
        fn = steal_or_throw(PyInstanceMethod_New(fn.ptr()));
    if (PyObject_SetAttrString(scope.ptr(), name.c_str(), fn.ptr()) != 0)
        throw error_already_set();
}
}  // namespace detail

class cpp_function : public function {
   public:
    cpp_function() = default;
    template <typename F, typename... E>
    cpp_function(F &&f, const E &...e) {
        auto o = detail::wrap(std::forward<F>(f));
        (detail::process(o, e), ...);
        auto *rec = new detail::funrec();
        rec->name = "function";
        rec->overloads.push_back(std::move(o));
        rec->def.ml_name = rec->name.c_str();
        rec->def.ml_meth = (PyCFunction)(void *)(PyCFunctionWithKeywords)&detail::dispatch;
        rec->def.ml_flags = METH_VARARGS | METH_KEYWORDS;
        object cap = steal_or_throw(PyCapsule_New(rec, "verif.funrec", nullptr));
        m_ptr = PyCFunction_NewEx(&rec->def, cap.ptr(), nullptr);
    }
};

class module_ : public object {
   public:
    module_() = default;
    module_(handle h, object::borrowed_t t) : object(h, t) {
    }
    module_(handle h, object::stolen_t t) : object(h, t) {
    }
    module_(const object &o) : object(o) {
    }
    static module_ import(const char *name) {
        return module_(steal_or_throw(PyImport_ImportModule(name)));
    }
    template <typename F, typename... E>
    module_ &def(const char *name, F &&f, const E &...e) {
        auto o = detail::wrap(std::forward<F>(f));
        (detail::process(o, e), ...);
        detail::add_function(*this, name, std::move(o), false);
        return *this;
    }
    module_ def_submodule(const char *name, const char * = nullptr) {
        std::string full = std::string(PyModule_GetName(m_ptr)) + "." + name;
        module_ m(handle(PyImport_AddModule(full.c_str())), object::borrowed_t{});
        attr(name) = m;
        return m;
    }
    const char *&doc() {
        static const char *d = "";
        return d;
    }
};
typedef module_ module;

namespace detail {
template <typename... A>
struct init_tag {};
template <typename F>
struct init_factory {
    F f;
};
}  // namespace detail
template <typename... A>
detail::init_tag<A...> init() {
    return {};
}
template <typename F>
detail::init_factory<std::decay_t<F>> init(F &&f) {
    return {std::forward<F>(f)};
}

namespace detail {
// `self` slot of __init__
struct raw_instance {
    instance *i = nullptr;
};
template <>
struct type_caster<raw_instance> {
    raw_instance v;
    bool load(handle src, bool) {
        v.i = (instance *)src.ptr();
        return true;
    }
    raw_instance &get() {
        return v;
    }
};
}  // namespace detail

template <typename T, typename... Opt>
class class_ : public object {
   public:
    typedef T type_;
    template <typename... E>
    class_(handle scope, const char *name, const E &...) {
        static PyType_Slot slots[] = {
            {Py_tp_new, (void *)(newfunc)[](PyTypeObject * t, PyObject *, PyObject *)->PyObject * {
                 detail::instance *i = (detail::instance *)t->tp_alloc(t, 0);
                 if (i) {
                     i->value = nullptr;
                     i->deleter = nullptr;
                 }
                 return (PyObject *)i;
             }},
            {Py_tp_dealloc, (void *)(destructor)[](PyObject * o) {
                 detail::instance *i = (detail::instance *)o;
                 if (i->value && i->deleter)
                     i->deleter(i->value);
                 PyTypeObject *t = Py_TYPE(o);
                 t->tp_free(o);
                 Py_DECREF(t);
             }},
            {0, nullptr}};
        const char *mn = PyModule_Check(scope.ptr()) ? PyModule_GetName(scope.ptr()) : "verif";
        auto *full = new std::string(std::string(mn) + "." + name);
        auto *spec = new PyType_Spec{full->c_str(), (int)sizeof(detail::instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
        m_ptr = PyType_FromSpec(spec);
        if (!m_ptr)
            throw error_already_set();
        detail::registered_types()[std::type_index(typeid(T))] = (PyTypeObject *)m_ptr;
        if (PyObject_SetAttrString(scope.ptr(), name, m_ptr) != 0)
            throw error_already_set();
    }
    template <typename... A, typename... E>
    class_ &def(const detail::init_tag<A...> &, const E &...e) {
        auto o = detail::wrap([](detail::raw_instance s, A... a) {
            T *p;
            if constexpr (std::is_constructible_v<T, A...>)
                p = new T(std::forward<A>(a)...);
            else
                p = new T{std::forward<A>(a)...};
            store(s.i, p);
        });
        return finish("__init__", std::move(o), e...);
    }
    template <typename F, typename... E>
    class_ &def(const detail::init_factory<F> &fac, const E &...e) {
        return def_factory(fac.f, &F::operator(), e...);
    }
    template <typename F, typename... E>
    class_ &def(const char *name, F &&f, const E &...e) {
        return finish(name, detail::wrap(std::forward<F>(f)), e...);
    }
    template <typename F, typename... E>
    class_ &def_static(const char *name, F &&f, const E &...e) {
        auto o = detail::wrap(std::forward<F>(f));
        (detail::process(o, e), ...);
        detail::add_function(*this, name, std::move(o), false);
        return *this;
    }
    template <typename F, typename... E>
    class_ &def_property_readonly(const char *name, F &&f, const E &...) {
        cpp_function g(std::forward<F>(f));
        object prop = handle((PyObject *)&PyProperty_Type)(g);
        if (PyObject_SetAttrString(m_ptr, name, prop.ptr()) != 0)
            throw error_already_set();
        return *this;
    }
    template <typename D>
    class_ &def_readonly(const char *name, D T::*pm) {
        return def_property_readonly(name, [pm](const T &x) -> D {
            return x.*pm;
        });
    }
    template <typename G, typename S, typename... E>
    class_ &def_property(const char *name, G &&g, S &&set, const E &...) {
        cpp_function a(std::forward<G>(g)), b(std::forward<S>(set));
        object prop = handle((PyObject *)&PyProperty_Type)(a, b);
        if (PyObject_SetAttrString(m_ptr, name, prop.ptr()) != 0)
            throw error_already_set();
        return *this;
    }
    template <typename D>
    class_ &def_readwrite(const char *name, D T::*pm) {
        return def_property(
            name,
            [pm](const T &x) -> D {
                return x.*pm;
            },
            [pm](T &x, const D &v) {
                x.*pm = v;
            });
    }

   private:
    static void store(detail::instance *i, T *p) {
        if (i->value && i->deleter)
            i->deleter(i->value);
        i->value = p;
        i->deleter = [](void *q) {
            delete (T *)q;
        };
    }
    template <typename F, typename R, typename... A, typename... E>
    class_ &def_factory(F f, R (F::*)(A...) const, const E &...e) {
        auto o = detail::wrap([f](detail::raw_instance s, A... a) {
            if constexpr (std::is_pointer_v<R>)
                store(s.i, f(std::forward<A>(a)...));
            else
                store(s.i, new T(f(std::forward<A>(a)...)));
        });
        return finish("__init__", std::move(o), e...);
    }
    template <typename... E>
    class_ &finish(const char *name, detail::overload o, const E &...e) {
        o.is_method = true;
        (detail::process(o, e), ...);
        detail::add_function(*this, name, std::move(o), true);
        return *this;
    }
};

template <typename T>
class enum_ : public class_<T> {
   public:
    template <typename... E>
    enum_(handle scope, const char *name, const E &...) : class_<T>(scope, name) {
    }
    enum_ &value(const char *name, T v, const char * = nullptr) {
        object o(detail::to_python(v), object::stolen_t{});
        PyObject_SetAttrString(this->m_ptr, name, o.ptr());
        return *this;
    }
};

namespace detail {
template <typename A, typename B>
struct type_caster<std::pair<A, B>> {
    std::pair<A, B> value;
    bool load(handle src, bool convert) {
        if (!src || !PySequence_Check(src.ptr()) || PySequence_Size(src.ptr()) != 2) {
            PyErr_Clear();
            return false;
        }
        object x = steal_or_throw(PySequence_GetItem(src.ptr(), 0)), y = steal_or_throw(PySequence_GetItem(src.ptr(), 1));
        type_caster<A> a;
        type_caster<B> b;
        if (!a.load(x, convert) || !b.load(y, convert))
            return false;
        value = {a.get(), b.get()};
        return true;
    }
    std::pair<A, B> &get() {
        return value;
    }
    static handle cast(const std::pair<A, B> &p) {
        return make_tuple(p.first, p.second).release();
    }
};
template <typename... A>
struct type_caster<std::tuple<A...>> {
    static handle cast(const std::tuple<A...> &t) {
        return std::apply(
            [](const A &...a) {
                return make_tuple(a...).release();
            },
            t);
    }
};
}  // namespace detail

}  // namespace pybind11

#define PYBIND11_MODULE(name, variable, ...)                                          \
    static void verif_pybind_init_##name(pybind11::module_ &);                        \
    extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##name() {     \
        static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr}; \
        PyObject *m = PyModule_Create(&def);                                          \
        if (!m)                                                                       \
            return nullptr;                                                           \
        try {                                                                         \
            pybind11::module_ mod(pybind11::handle(m), pybind11::object::borrowed_t{}); \
            verif_pybind_init_##name(mod);                                            \
        } catch (...) {                                                               \
            pybind11::detail::translate(std::current_exception());                    \
            Py_DECREF(m);                                                             \
            return nullptr;                                                           \
        }                                                                             \
        return m;                                                                     \
    }                                                                                 \
    static void verif_pybind_init_##name(pybind11::module_ &variable)

#endif
