#ifndef VERIF_MINI_PYBIND11_NUMPY_H
#define VERIF_MINI_PYBIND11_NUMPY_H
#include "pybind11/pybind11.h"

// Implemented in verif_numpy.cc, the only file that includes numpy's headers.
namespace verif_np {
enum Kind { K_BOOL, K_I8, K_U8, K_I16, K_U16, K_I32, K_U32, K_I64, K_U64, K_F32, K_F64 };
bool is_array(PyObject *o);
bool is_array_of(PyObject *o, Kind k);
PyObject *from_any(PyObject *o, Kind k, bool c_style);  // forcecast; null with a Python error on failure
PyObject *as_array(PyObject *o);
PyObject *make(Kind k, const std::vector<Py_ssize_t> &shape, const void *data, PyObject *base,
               const std::vector<Py_ssize_t> *strides = nullptr);
PyObject *resize(PyObject *a, const std::vector<Py_ssize_t> &shape, bool refcheck);
PyObject *reshape(PyObject *a, const std::vector<Py_ssize_t> &shape);
void *data(PyObject *a);
Py_ssize_t ndim(PyObject *a), size(PyObject *a), itemsize(PyObject *a), nbytes(PyObject *a);
Py_ssize_t dim(PyObject *a, Py_ssize_t k), stride(PyObject *a, Py_ssize_t k);
bool writeable(PyObject *a);
const Py_ssize_t *dims(PyObject *a), *strides(PyObject *a);
}  // namespace verif_np

namespace pybind11 {
namespace detail {
template <typename T>
constexpr verif_np::Kind np_kind() {
    if constexpr (std::is_same_v<T, bool>)
        return verif_np::K_BOOL;
    else if constexpr (std::is_floating_point_v<T>)
        return sizeof(T) == 4 ? verif_np::K_F32 : verif_np::K_F64;
    else if constexpr (sizeof(T) == 1)
        return std::is_signed_v<T> ? verif_np::K_I8 : verif_np::K_U8;
    else if constexpr (sizeof(T) == 2)
        return std::is_signed_v<T> ? verif_np::K_I16 : verif_np::K_U16;
    else if constexpr (sizeof(T) == 4)
        return std::is_signed_v<T> ? verif_np::K_I32 : verif_np::K_U32;
    else
        return std::is_signed_v<T> ? verif_np::K_I64 : verif_np::K_U64;
}
}  // namespace detail

struct buffer_info {
    void *ptr = nullptr;
    ssize_t itemsize = 0, size = 0, ndim = 0;
    std::vector<ssize_t> shape, strides;
    bool readonly = false;
};

namespace detail {
struct shape_container : std::vector<ssize_t> {
    shape_container(std::initializer_list<ssize_t> l) : std::vector<ssize_t>(l) {
    }
    template <typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
    shape_container(I n) : std::vector<ssize_t>{(ssize_t)n} {
    }
    template <typename C, std::enable_if_t<std::is_convertible_v<decltype(*std::begin(std::declval<const C &>())), ssize_t>, int> = 0>
    shape_container(const C &c) : std::vector<ssize_t>(std::begin(c), std::end(c)) {
    }
};
// As in pybind11, not constructible from a single integer.
struct strides_container : std::vector<ssize_t> {
    template <typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
    strides_container(std::initializer_list<I> l) : std::vector<ssize_t>(l.begin(), l.end()) {
    }
    template <typename C, std::enable_if_t<std::is_convertible_v<decltype(*std::begin(std::declval<const C &>())), ssize_t>, int> = 0>
    strides_container(const C &c) : std::vector<ssize_t>(std::begin(c), std::end(c)) {
    }
};
template <typename T, ssize_t Dims, bool Mutable>
class unchecked_ref {
   public:
    unchecked_ref(void *d, PyObject *a) : base((char *)d) {
        ssize_t n = verif_np::ndim(a);
        for (ssize_t k = 0; k < n; k++) {
            sh.push_back(verif_np::dim(a, k));
            st.push_back(verif_np::stride(a, k));
        }
    }
    typedef std::conditional_t<Mutable, T &, const T &> ref;
    template <typename... Ix>
    ref operator()(Ix... ix) const {
        static_assert(Dims < 0 || sizeof...(Ix) == (size_t)Dims, "Invalid number of indices for unchecked array reference");
        ssize_t i[] = {(ssize_t)ix..., 0};
        ssize_t off = 0;
        for (size_t k = 0; k < sizeof...(Ix); k++) {
            // The real thing does not check either; an access outside the array would be undefined behaviour there.
            if (i[k] < 0 || i[k] >= sh[k]) {
                fprintf(stderr, "ERROR: AddressSanitizer: out-of-bounds array access (index %zd of %zd)\n", i[k], sh[k]);
                abort();
            }
            off += i[k] * st[k];
        }
        return *(T *)(base + off);
    }
    ref operator[](ssize_t k) const {
        return (*this)(k);
    }
    ssize_t ndim() const {
        return (ssize_t)sh.size();
    }
    ssize_t shape(ssize_t k) const {
        return sh[(size_t)k];
    }
    ssize_t size() const {
        ssize_t n = 1;
        for (auto x : sh)
            n *= x;
        return n;
    }
    ssize_t itemsize() const {
        return sizeof(T);
    }
    ssize_t nbytes() const {
        return size() * (ssize_t)sizeof(T);
    }
    template <typename... Ix>
    auto data(Ix... ix) const {
        return &(*this)(ix...);
    }
    template <typename... Ix>
    T *mutable_data(Ix... ix) const {
        return const_cast<T *>(&(*this)(ix...));
    }

   private:
    char *base;
    std::vector<ssize_t> sh, st;
};
}  // namespace detail

class array : public object {
   public:
    enum { c_style = 1, f_style = 2, forcecast = 16 };
    static bool chk(PyObject *o) {
        return verif_np::is_array(o);
    }
    VERIF_PYOBJ(array, chk, verif_np::as_array)
    array() : object(verif_np::make(verif_np::K_F64, {0}, nullptr, nullptr), object::stolen_t{}) {
    }
    ssize_t ndim() const {
        return verif_np::ndim(m_ptr);
    }
    ssize_t size() const {
        return verif_np::size(m_ptr);
    }
    ssize_t itemsize() const {
        return verif_np::itemsize(m_ptr);
    }
    ssize_t nbytes() const {
        return verif_np::nbytes(m_ptr);
    }
    ssize_t shape(ssize_t k) const {
        if (k >= ndim())
            throw index_error("invalid axis: " + std::to_string(k) + " (ndim = " + std::to_string(ndim()) + ")");
        return verif_np::dim(m_ptr, k);
    }
    ssize_t strides(ssize_t k) const {
        if (k >= ndim())
            throw index_error("invalid axis");
        return verif_np::stride(m_ptr, k);
    }
    const ssize_t *shape() const {
        return verif_np::dims(m_ptr);
    }
    const ssize_t *strides() const {
        return verif_np::strides(m_ptr);
    }
    bool writeable() const {
        return verif_np::writeable(m_ptr);
    }
    buffer_info request(bool writable = false) const {
        if (writable && !writeable())
            throw std::domain_error("array is not writeable");
        buffer_info b;
        b.ptr = verif_np::data(m_ptr);
        b.itemsize = itemsize();
        b.size = size();
        b.ndim = ndim();
        for (ssize_t k = 0; k < b.ndim; k++) {
            b.shape.push_back(verif_np::dim(m_ptr, k));
            b.strides.push_back(verif_np::stride(m_ptr, k));
        }
        return b;
    }
    void resize(detail::shape_container shape, bool refcheck = true) {
        object n = steal_or_throw(verif_np::resize(m_ptr, shape, refcheck));
        if (verif_np::is_array(n.ptr()))
            static_cast<object &>(*this) = std::move(n);
    }
    array reshape(detail::shape_container shape) {
        return array(verif_np::reshape(m_ptr, shape), object::stolen_t{});
    }

   protected:
    struct verif_null {};
    array(verif_null) : object() {
    }
};

template <typename T, int Flags = array::forcecast>
class array_t : public array {
   public:
    typedef T value_type;
    array_t() : array(verif_null{}) {
        m_ptr = verif_np::make(detail::np_kind<T>(), {0}, nullptr, nullptr);
    }
    array_t(handle h, object::borrowed_t t) : array(h, t) {
    }
    array_t(handle h, object::stolen_t t) : array(h, t) {
    }
    array_t(const object &o) : array(verif_null{}) {
        m_ptr = verif_np::from_any(o.ptr(), detail::np_kind<T>(), (Flags & array::c_style) != 0);
        if (!m_ptr)
            throw error_already_set();
    }
    template <typename P>
    array_t(const detail::accessor<P> &a) : array_t(a.get()) {
    }
    array_t(const array_t &) = default;
    array_t(array_t &&) = default;
    array_t &operator=(const array_t &) = default;
    array_t &operator=(array_t &&) = default;
    explicit array_t(detail::shape_container shape, const T *ptr = nullptr, handle base = handle()) : array(verif_null{}) {
        m_ptr = verif_np::make(detail::np_kind<T>(), shape, ptr, base.ptr());
        if (!m_ptr)
            throw error_already_set();
    }
    array_t(detail::strides_container shape, detail::strides_container strides, const T *ptr = nullptr, handle base = handle())
        : array(verif_null{}) {
        const std::vector<ssize_t> &st = strides;
        m_ptr = verif_np::make(detail::np_kind<T>(), shape, ptr, base.ptr(), st.empty() ? nullptr : &st);
        if (!m_ptr)
            throw error_already_set();
    }
    template <typename I, std::enable_if_t<std::is_integral_v<I>, int> = 0>
    explicit array_t(I count, const T *ptr = nullptr, handle base = handle())
        : array_t(detail::shape_container{(ssize_t)count}, ptr, base) {
    }
    static array_t ensure(handle h) {
        array_t r((handle()), object::stolen_t{});
        r.m_ptr = verif_np::from_any(h.ptr(), detail::np_kind<T>(), (Flags & array::c_style) != 0);
        if (!r.m_ptr)
            PyErr_Clear();
        return r;
    }
    static bool check_(handle h) {
        return verif_np::is_array_of(h.ptr(), detail::np_kind<T>());
    }
    static bool verif_load(handle src, bool convert, array_t &out) {
        if (!convert && !check_(src))
            return false;
        array_t r = ensure(src);
        if (!r)
            return false;
        out = std::move(r);
        return true;
    }
    template <typename... Ix>
    const T *data(Ix... ix) const {
        return (const T *)((const char *)verif_np::data(m_ptr) + offset(ix...));
    }
    template <typename... Ix>
    T *mutable_data(Ix... ix) {
        if (!writeable())
            throw std::domain_error("array is not writeable");
        return (T *)((char *)verif_np::data(m_ptr) + offset(ix...));
    }
    template <typename... Ix>
    const T &at(Ix... ix) const {
        if (sizeof...(Ix) != (size_t)ndim())
            throw index_error("index dimension mismatch");
        return *data(ix...);
    }
    template <typename... Ix>
    T &mutable_at(Ix... ix) {
        if (sizeof...(Ix) != (size_t)ndim())
            throw index_error("index dimension mismatch");
        return *mutable_data(ix...);
    }
    template <ssize_t D = -1>
    detail::unchecked_ref<T, D, false> unchecked() const {
        dims(D);
        return {verif_np::data(m_ptr), m_ptr};
    }
    template <ssize_t D = -1>
    detail::unchecked_ref<T, D, true> mutable_unchecked() {
        dims(D);
        if (!writeable())
            throw std::domain_error("array is not writeable");
        return {verif_np::data(m_ptr), m_ptr};
    }

   private:
    void dims(ssize_t d) const {
        if (d >= 0 && ndim() != d)
            throw std::domain_error("array has incorrect number of dimensions: " + std::to_string(ndim()) + "; expected " +
                                    std::to_string(d));
    }
    template <typename... Ix>
    ssize_t offset(Ix... ix) const {
        ssize_t i[] = {(ssize_t)ix..., 0};
        ssize_t off = 0;
        for (size_t k = 0; k < sizeof...(Ix); k++) {
            if (i[k] >= verif_np::dim(m_ptr, (ssize_t)k))
                throw index_error("index out of bounds");
            off += i[k] * verif_np::stride(m_ptr, (ssize_t)k);
        }
        return off;
    }
};
}  // namespace pybind11
#endif
