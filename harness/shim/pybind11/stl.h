// Stand-in for pybind11/stl.h: standard containers.
#pragma once
#include "pybind11.h"

namespace pybind11
{
inline bool is_list_like(handle h)
{
    return PySequence_Check(h.ptr()) && !PyUnicode_Check(h.ptr()) && !PyBytes_Check(h.ptr());
}
template <typename T>
object make_list(const T &v, return_value_policy p, handle parent)
{
    auto l = object::steal(PyList_New(static_cast<ssize_t>(v.size())));
    ssize_t i = 0;
    for (const auto &x : v) {
        PyList_SET_ITEM(l.ptr(), i++, to_python(x, p, parent).release());
    }
    return l;
}
template <typename T>
bool load_item(handle seq, ssize_t i, bool convert, T &out)
{
    PyObject *x = PySequence_GetItem(seq.ptr(), i);
    if (!x) {
        PyErr_Clear();
        return false;
    }
    auto o = object::steal(x);
    caster<T> c;
    if (!c.load(o, convert)) {
        return false;
    }
    out = c.template get<T>();
    return true;
}
template <typename T>
struct caster<std::vector<T>> : value_caster<std::vector<T>> {
    bool load(handle h, bool convert)
    {
        if (!is_list_like(h)) {
            return false;
        }
        ssize_t n = PySequence_Size(h.ptr());
        if (n < 0) {
            PyErr_Clear();
            return false;
        }
        std::vector<T> v(static_cast<std::size_t>(n));
        for (ssize_t i = 0; i < n; ++i) {
            if (!load_item(h, i, convert, v[static_cast<std::size_t>(i)])) {
                return false;
            }
        }
        this->value = std::move(v);
        return true;
    }
    static object make(const std::vector<T> &v, return_value_policy p, handle parent)
    {
        return make_list(v, p, parent);
    }
};
template <typename T, std::size_t N>
struct caster<std::array<T, N>> : value_caster<std::array<T, N>> {
    bool load(handle h, bool convert)
    {
        if (!is_list_like(h)) {
            return false;
        }
        ssize_t n = PySequence_Size(h.ptr());
        if (n != static_cast<ssize_t>(N)) {
            PyErr_Clear();
            return false;
        }
        std::array<T, N> v{};
        for (std::size_t i = 0; i < N; ++i) {
            if (!load_item(h, static_cast<ssize_t>(i), convert, v[i])) {
                return false;
            }
        }
        this->value = v;
        return true;
    }
    static object make(const std::array<T, N> &v, return_value_policy p, handle parent)
    {
        return make_list(v, p, parent);
    }
};
template <typename... T>
struct caster<std::tuple<T...>> : value_caster<std::tuple<T...>> {
    template <std::size_t... I>
    static object make_i(const std::tuple<T...> &v, return_value_policy p, handle parent, std::index_sequence<I...>)
    {
        auto t = object::steal(PyTuple_New(sizeof...(T)));
        (PyTuple_SET_ITEM(t.ptr(), I, to_python(std::get<I>(v), p, parent).release()), ...);
        return t;
    }
    static object make(const std::tuple<T...> &v, return_value_policy p, handle parent)
    {
        return make_i(v, p, parent, std::index_sequence_for<T...>());
    }
};
template <typename A, typename B>
struct caster<std::pair<A, B>> : value_caster<std::pair<A, B>> {
    static object make(const std::pair<A, B> &v, return_value_policy p, handle parent)
    {
        return object::steal(PyTuple_Pack(2, to_python(v.first, p, parent).ptr(), to_python(v.second, p, parent).ptr()));
    }
};
template <typename T>
struct caster<std::optional<T>> : value_caster<std::optional<T>> {
    static object make(const std::optional<T> &v, return_value_policy p, handle parent)
    {
        return v ? to_python(*v, p, parent) : none();
    }
};
template <typename... T>
struct caster<std::variant<T...>> : value_caster<std::variant<T...>> {
    template <typename X>
    bool one(handle h, bool convert)
    {
        caster<X> c;
        if (!c.load(h, convert)) {
            return false;
        }
        this->value = std::variant<T...>(c.template get<X>());
        return true;
    }
    bool load(handle h, bool convert)
    {
        return (one<T>(h, false) || ...) || (convert && (one<T>(h, true) || ...));
    }
};
} // namespace pybind11
