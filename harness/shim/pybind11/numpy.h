// Stand-in for pybind11/numpy.h: arrays of doubles, vectorised functions of two numbers.
#pragma once
#include "stl.h"

namespace pybind11
{
namespace detail
{
// Memory that something else owns.
struct memory {
    PyObject_HEAD
    void *data;
    ssize_t size;
    PyObject *base;
};
inline PyTypeObject *memory_type()
{
    static PyTypeObject *t = nullptr;
    if (!t) {
        static PyType_Slot slots[] = {
            {Py_tp_dealloc, reinterpret_cast<void *>(+[](PyObject *o) {
                 auto *tp = Py_TYPE(o);
                 Py_XDECREF(reinterpret_cast<memory *>(o)->base);
                 tp->tp_free(o);
                 Py_DECREF(tp);
             })},
            {Py_bf_getbuffer, reinterpret_cast<void *>(+[](PyObject *o, Py_buffer *v, int flags) {
                 auto *m = reinterpret_cast<memory *>(o);
                 return PyBuffer_FillInfo(v, o, m->data, m->size, 0, flags);
             })},
            {0, nullptr}};
        static PyType_Spec spec = {"pybind11_standin_memory", sizeof(memory), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_DISALLOW_INSTANTIATION, slots};
        t = reinterpret_cast<PyTypeObject *>(PyType_FromSpec(&spec));
        if (!t) {
            throw error_already_set();
        }
    }
    return t;
}
inline object new_memory(const void *data, ssize_t size, const object &base)
{
    auto *m = PyObject_New(memory, memory_type());
    if (!m) {
        throw error_already_set();
    }
    m->data = const_cast<void *>(data), m->size = size, m->base = Py_XNewRef(base.ptr());
    return object::steal(reinterpret_cast<PyObject *>(m));
}
} // namespace detail
struct buffer_info {
    void *ptr = nullptr;
    ssize_t itemsize = 0, size = 0, ndim = 0;
    std::vector<ssize_t> shape, strides;
};
struct array : object {
    using ShapeContainer = std::vector<ssize_t>;
    using StridesContainer = std::vector<ssize_t>;
    enum { c_style = 1, f_style = 2, forcecast = 16 };
    array() = default;
    explicit array(object o) : object(std::move(o)) {}
    [[nodiscard]] ssize_t ndim() const
    {
        return object(attr("ndim")).cast<long>();
    }
    [[nodiscard]] ssize_t size() const
    {
        return object(attr("size")).cast<long>();
    }
    [[nodiscard]] ssize_t itemsize() const
    {
        return object(attr("itemsize")).cast<long>();
    }
    [[nodiscard]] ssize_t nbytes() const
    {
        return size() * itemsize();
    }
    [[nodiscard]] ssize_t shape(ssize_t i) const
    {
        return object(tuple(object(attr("shape")))[i]).cast<long>();
    }
    [[nodiscard]] ssize_t strides(ssize_t i) const
    {
        return object(tuple(object(attr("strides")))[i]).cast<long>();
    }
    [[nodiscard]] buffer_info request(bool = false) const
    {
        buffer_info r;
        r.ptr = reinterpret_cast<void *>(object(attr("ctypes").attr("data")).cast<unsigned long>());
        r.itemsize = itemsize(), r.size = size(), r.ndim = ndim();
        for (ssize_t i = 0; i < r.ndim; ++i) {
            r.shape.push_back(shape(i)), r.strides.push_back(strides(i));
        }
        return r;
    }
    [[nodiscard]] array reshape(const ShapeContainer &s) const
    {
        return array(object(attr("reshape")(s)));
    }
    [[nodiscard]] array squeeze() const
    {
        return array(object(attr("squeeze")()));
    }
};
// Access to the items by their indices.
template <typename T>
struct unchecked_items {
    explicit unchecked_items(buffer_info b) : m_b(std::move(b)) {}
    template <typename... I>
    T &operator()(I... i) const
    {
        const ssize_t k[] = {static_cast<ssize_t>(i)...};
        auto *p = static_cast<char *>(m_b.ptr);
        for (std::size_t j = 0; j < sizeof...(I); ++j) {
            p += k[j] * m_b.strides[j];
        }
        return *reinterpret_cast<T *>(p);
    }
    T &operator[](ssize_t i) const
    {
        return (*this)(i);
    }
    [[nodiscard]] ssize_t shape(ssize_t i) const
    {
        return m_b.shape[static_cast<std::size_t>(i)];
    }
    [[nodiscard]] ssize_t size() const
    {
        return m_b.size;
    }
    [[nodiscard]] ssize_t ndim() const
    {
        return m_b.ndim;
    }
    T *mutable_data() const
    {
        return static_cast<T *>(m_b.ptr);
    }

private:
    buffer_info m_b;
};
template <typename T, int Flags = array::forcecast>
struct array_t : array {
    static_assert(std::is_same_v<T, double>);
    array_t() : array_t(ShapeContainer{0}) {}
    explicit array_t(object o) : array(std::move(o)) {}
    // New memory.
    explicit array_t(const ShapeContainer &shape) : array(object(module_::import("numpy").attr("zeros")(shape))) {}
    explicit array_t(ssize_t n) : array_t(ShapeContainer{n}) {}
    explicit array_t(std::size_t n) : array_t(ShapeContainer{static_cast<ssize_t>(n)}) {}
    explicit array_t(int n) : array_t(ShapeContainer{n}) {}
    array_t(const ShapeContainer &shape, const T *data) : array_t(shape)
    {
        std::copy(data, data + size(), mutable_data());
    }
    array_t(ssize_t n, const T *data) : array_t(ShapeContainer{n}, data) {}
    array_t(ssize_t n, const T *data, const object &base) : array_t(ShapeContainer{n}, data, base) {}
    T *mutable_data()
    {
        return static_cast<T *>(request().ptr);
    }
    [[nodiscard]] const T *data() const
    {
        return static_cast<const T *>(request().ptr);
    }
    template <typename... I>
    [[nodiscard]] const T &at(I... i) const
    {
        return unchecked_items<const T>(request())(i...);
    }
    template <typename... I>
    T &mutable_at(I... i)
    {
        return unchecked_items<T>(request())(i...);
    }
    template <ssize_t = -1>
    [[nodiscard]] unchecked_items<const T> unchecked() const
    {
        return unchecked_items<const T>(request());
    }
    template <ssize_t = -1>
    unchecked_items<T> mutable_unchecked()
    {
        return unchecked_items<T>(request());
    }
    // The data stay with their owner, as in pybind11: the array is a view that keeps the base alive.
    array_t(const ShapeContainer &shape, const T *data, const object &base)
    {
        ssize_t n = 1;
        auto t = object::steal(PyTuple_New(static_cast<ssize_t>(shape.size())));
        for (std::size_t i = 0; i < shape.size(); ++i) {
            n *= shape[i];
            PyTuple_SET_ITEM(t.ptr(), static_cast<ssize_t>(i), PyLong_FromSsize_t(shape[i]));
        }
        auto np = module_::import("numpy");
        object flat = n ? object(np.attr("frombuffer")(detail::new_memory(data, n * static_cast<ssize_t>(sizeof(T)), base), np.attr("float64")))
                        : object(np.attr("zeros")(static_cast<long>(0)));
        static_cast<object &>(*this) = object(flat.attr("reshape")(t));
    }
};
template <typename T, int Flags>
struct caster<array_t<T, Flags>> : value_caster<array_t<T, Flags>> {
    bool load(handle h, bool)
    {
        auto np = module_::import("numpy");
        try {
            object a = np.attr((Flags & array::c_style) ? "ascontiguousarray" : "asarray")(object::borrow(h.ptr()), np.attr("float64"));
            this->value = array_t<T, Flags>(a);
        } catch (const error_already_set &) {
            return false;
        }
        return true;
    }
};
struct vectorized {
    std::function<double(double, double)> f;
    object operator()(const object &a, const object &b) const
    {
        auto np = module_::import("numpy");
        auto l = np.attr("broadcast_arrays")(a, b);
        object x = object::steal(PySequence_GetItem(l.ptr(), 0)), y = object::steal(PySequence_GetItem(l.ptr(), 1));
        object shape = x.attr("shape");
        auto xs = cast<std::vector<double>>(x.attr("flatten")()), ys = cast<std::vector<double>>(y.attr("flatten")());
        for (std::size_t i = 0; i < xs.size(); ++i) {
            xs[i] = f(xs[i], ys[i]);
        }
        if (len(shape) == 0) {
            return to_object(xs[0]);
        }
        return np.attr("array")(xs, np.attr("float64")).attr("reshape")(shape);
    }
};
template <typename F>
vectorized vectorize(F &&f)
{
    return {std::forward<F>(f)};
}
} // namespace pybind11
