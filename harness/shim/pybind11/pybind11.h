// Stand-in for the parts of pybind11 that pykep's bindings use, written from pybind11's documentation. It exists so that
// /repo/pykep can be built and run where pybind11 is not installed; the repository's own Python tests pass against it.
#pragma once
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include <array>
#include <chrono>
#include <cmath>
#include <complex>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <typeindex>
#include <utility>
#include <variant>
#include <vector>

#ifndef PYBIND11_HIDDEN
#define PYBIND11_HIDDEN
#endif

namespace pybind11
{
using ssize_t = Py_ssize_t;

class error_already_set : public std::exception
{
public:
    error_already_set()
    {
        m_exc = PyErr_GetRaisedException();
    }
    error_already_set(const error_already_set &o) : m_exc(Py_XNewRef(o.m_exc)) {}
    ~error_already_set() override
    {
        Py_XDECREF(m_exc);
    }
    void restore() const
    {
        PyErr_SetRaisedException(Py_XNewRef(m_exc));
    }
    [[nodiscard]] const char *what() const noexcept override
    {
        return "a Python exception";
    }

private:
    PyObject *m_exc;
};
class cast_error : public std::runtime_error
{
    using std::runtime_error::runtime_error;
};

template <typename T>
struct caster;
class object;
class accessor;

class handle
{
public:
    handle() = default;
    handle(PyObject *p) : m_ptr(p) {}
    [[nodiscard]] PyObject *ptr() const
    {
        return m_ptr;
    }
    [[nodiscard]] bool is_none() const
    {
        return m_ptr == Py_None;
    }
    [[nodiscard]] accessor attr(const char *) const;
    template <typename... A>
    object operator()(A &&...a) const;
    template <typename T>
    [[nodiscard]] T cast() const;
    [[nodiscard]] bool equal(const handle &o) const
    {
        int r = PyObject_RichCompareBool(m_ptr, o.ptr(), Py_EQ);
        if (r < 0) {
            throw error_already_set();
        }
        return r == 1;
    }
    [[nodiscard]] bool not_equal(const handle &o) const
    {
        return !equal(o);
    }
    [[nodiscard]] bool is(const handle &o) const
    {
        return m_ptr == o.ptr();
    }
    [[nodiscard]] accessor attr(const handle &) const;
    [[nodiscard]] accessor operator[](const char *) const;
    [[nodiscard]] accessor operator[](const handle &) const;
    template <typename T>
    [[nodiscard]] bool contains(T &&) const;
    [[nodiscard]] object get_type() const;
    [[nodiscard]] class iterator begin() const;
    [[nodiscard]] class iterator end() const;
    const handle &inc_ref() const
    {
        Py_XINCREF(m_ptr);
        return *this;
    }
    const handle &dec_ref() const
    {
        Py_XDECREF(m_ptr);
        return *this;
    }
    explicit operator bool() const
    {
        return m_ptr != nullptr;
    }

protected:
    PyObject *m_ptr = nullptr;
};
class object : public handle
{
public:
    object() = default;
    object(const object &o) : handle(Py_XNewRef(o.m_ptr)) {}
    object(object &&o) noexcept : handle(std::exchange(o.m_ptr, nullptr)) {}
    object &operator=(object o) noexcept
    {
        std::swap(m_ptr, o.m_ptr);
        return *this;
    }
    ~object()
    {
        Py_XDECREF(m_ptr);
    }
    static object steal(PyObject *p)
    {
        if (!p) {
            throw error_already_set();
        }
        object o;
        o.m_ptr = p;
        return o;
    }
    static object borrow(PyObject *p)
    {
        return steal(Py_XNewRef(p));
    }
    PyObject *release()
    {
        return std::exchange(m_ptr, nullptr);
    }
};
template <typename T>
T reinterpret_borrow(handle h)
{
    return T(object::borrow(h.ptr()));
}
template <typename T>
T reinterpret_steal(handle h)
{
    return T(object::steal(h.ptr()));
}
template <typename T>
object to_object(T &&x);

class accessor
{
public:
    accessor(object o, object key, bool item) : m_o(std::move(o)), m_key(std::move(key)), m_item(item) {}
    [[nodiscard]] object get() const
    {
        return object::steal(m_item ? PyObject_GetItem(m_o.ptr(), m_key.ptr()) : PyObject_GetAttr(m_o.ptr(), m_key.ptr()));
    }
    operator object() const
    {
        return get();
    }
    template <typename T>
    void operator=(T &&x)
    {
        auto v = to_object(std::forward<T>(x));
        if (m_item && PyTuple_CheckExact(m_o.ptr()) && PyLong_Check(m_key.ptr())) {
            // The items of a new tuple, before anyone else sees it.
            auto i = PyLong_AsSsize_t(m_key.ptr());
            if (i < 0 || i >= PyTuple_GET_SIZE(m_o.ptr())) {
                PyErr_SetString(PyExc_IndexError, "tuple index out of range");
                throw error_already_set();
            }
            Py_XDECREF(PyTuple_GET_ITEM(m_o.ptr(), i));
            PyTuple_SET_ITEM(m_o.ptr(), i, v.release());
            return;
        }
        if ((m_item ? PyObject_SetItem(m_o.ptr(), m_key.ptr(), v.ptr()) : PyObject_SetAttr(m_o.ptr(), m_key.ptr(), v.ptr())) < 0) {
            throw error_already_set();
        }
    }
    template <typename... A>
    object operator()(A &&...a) const
    {
        return get()(std::forward<A>(a)...);
    }
    template <typename T>
    [[nodiscard]] T cast() const
    {
        return get().cast<T>();
    }
    [[nodiscard]] accessor attr(const char *s) const
    {
        return get().attr(s);
    }
    [[nodiscard]] accessor operator[](const char *s) const
    {
        return get()[s];
    }
    [[nodiscard]] bool is_none() const
    {
        return get().is_none();
    }
    [[nodiscard]] bool is(const handle &o) const
    {
        return get().is(o);
    }
    [[nodiscard]] bool equal(const handle &o) const
    {
        return get().equal(o);
    }
    [[nodiscard]] bool not_equal(const handle &o) const
    {
        return !get().equal(o);
    }
    // The container keeps the item alive in the uses made of this.
    [[nodiscard]] PyObject *ptr() const
    {
        m_kept = get();
        return m_kept.ptr();
    }

private:
    object m_o, m_key;
    bool m_item;
    mutable object m_kept;
};
inline accessor handle::attr(const char *s) const
{
    return {object::borrow(m_ptr), object::steal(PyUnicode_FromString(s)), false};
}

struct none : object {
    none() : object(object::borrow(Py_None)) {}
};
inline accessor handle::attr(const handle &k) const
{
    return {object::borrow(m_ptr), object::borrow(k.ptr()), false};
}
inline accessor handle::operator[](const char *s) const
{
    return {object::borrow(m_ptr), object::steal(PyUnicode_FromString(s)), true};
}
inline accessor handle::operator[](const handle &k) const
{
    return {object::borrow(m_ptr), object::borrow(k.ptr()), true};
}
inline object handle::get_type() const
{
    return object::borrow(reinterpret_cast<PyObject *>(Py_TYPE(m_ptr)));
}
class iterator
{
public:
    using value_type = object;
    using difference_type = ssize_t;
    using reference = const object &;
    using pointer = const object *;
    using iterator_category = std::input_iterator_tag;
    iterator() = default;
    explicit iterator(object it) : m_it(std::move(it))
    {
        ++*this;
    }
    iterator &operator++()
    {
        auto *p = PyIter_Next(m_it.ptr());
        if (!p && PyErr_Occurred()) {
            throw error_already_set();
        }
        m_value = p ? object::steal(p) : object();
        return *this;
    }
    reference operator*() const
    {
        return m_value;
    }
    pointer operator->() const
    {
        return &m_value;
    }
    friend bool operator==(const iterator &a, const iterator &b)
    {
        return a.m_value.ptr() == b.m_value.ptr();
    }
    friend bool operator!=(const iterator &a, const iterator &b)
    {
        return !(a == b);
    }

private:
    object m_it, m_value;
};
inline iterator handle::begin() const
{
    return iterator(object::steal(PyObject_GetIter(m_ptr)));
}
inline iterator handle::end() const
{
    return {};
}
struct float_ : object {
    float_(double d = 0.) : object(object::steal(PyFloat_FromDouble(d))) {}
    explicit float_(const object &o) : object(object::steal(PyNumber_Float(o.ptr()))) {}
    operator double() const
    {
        return PyFloat_AsDouble(ptr());
    }
};
struct int_ : object {
    int_() : int_(0) {}
    template <typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0>
    int_(T v) : object(object::steal(std::is_signed_v<T> ? PyLong_FromLongLong(static_cast<long long>(v)) : PyLong_FromUnsignedLongLong(static_cast<unsigned long long>(v))))
    {
    }
    explicit int_(const object &o) : object(object::steal(PyNumber_Long(o.ptr()))) {}
    template <typename T, std::enable_if_t<std::is_integral_v<T>, int> = 0>
    operator T() const
    {
        return static_cast<T>(PyLong_AsLongLong(ptr()));
    }
};
struct bool_ : object {
    bool_(bool b = false) : object(object::borrow(b ? Py_True : Py_False)) {}
    explicit bool_(const object &o) : object(object::borrow(PyObject_IsTrue(o.ptr()) == 1 ? Py_True : Py_False)) {}
    operator bool() const
    {
        return ptr() == Py_True;
    }
};
struct str : object {
    str() : str("") {}
    str(const char *s) : object(object::steal(PyUnicode_FromString(s))) {}
    str(const std::string &s) : object(object::steal(PyUnicode_DecodeUTF8(s.data(), static_cast<ssize_t>(s.size()), nullptr))) {}
    explicit str(const handle &o) : object(object::steal(PyObject_Str(o.ptr()))) {}
    operator std::string() const
    {
        ssize_t n = 0;
        const char *s = PyUnicode_AsUTF8AndSize(ptr(), &n);
        if (!s) {
            throw error_already_set();
        }
        return {s, static_cast<std::size_t>(n)};
    }
    template <typename... A>
    [[nodiscard]] str format(A &&...a) const;
};
inline object repr(const handle &o)
{
    return object::steal(PyObject_Repr(o.ptr()));
}
struct bytes : object {
    bytes() : bytes(std::string()) {}
    bytes(const char *s) : bytes(std::string(s)) {}
    bytes(const char *s, std::size_t n) : bytes(std::string(s, n)) {}
    bytes(const std::string &s) : object(object::steal(PyBytes_FromStringAndSize(s.data(), static_cast<ssize_t>(s.size())))) {}
    explicit bytes(object o) : object(std::move(o)) {}
    operator std::string() const
    {
        return {PyBytes_AS_STRING(ptr()), static_cast<std::size_t>(PyBytes_GET_SIZE(ptr()))};
    }
};
struct type : object {
    explicit type(object o) : object(std::move(o)) {}
    static type of(const handle &h)
    {
        return type(h.get_type());
    }
    static handle handle_of(const handle &h)
    {
        return reinterpret_cast<PyObject *>(Py_TYPE(h.ptr()));
    }
};
// Containers; the conversion from another container is explicit, as in Python.
template <typename D>
struct sequence_like : object {
    sequence_like() = default;
    explicit sequence_like(object o) : object(std::move(o)) {}
    using object::operator[];
    accessor operator[](ssize_t i) const
    {
        return {*this, object::steal(PyLong_FromSsize_t(i)), true};
    }
    accessor operator[](std::size_t i) const
    {
        return (*this)[static_cast<ssize_t>(i)];
    }
    accessor operator[](int i) const
    {
        return (*this)[static_cast<ssize_t>(i)];
    }
    accessor operator[](unsigned i) const
    {
        return (*this)[static_cast<ssize_t>(i)];
    }
    [[nodiscard]] std::size_t size() const
    {
        auto n = PyObject_Size(ptr());
        if (n < 0) {
            throw error_already_set();
        }
        return static_cast<std::size_t>(n);
    }
    [[nodiscard]] bool empty() const
    {
        return size() == 0u;
    }
};
struct sequence : sequence_like<sequence> {
    using sequence_like::sequence_like;
};
struct list : sequence_like<list> {
    explicit list(std::size_t n = 0) : sequence_like(object::steal(PyList_New(static_cast<ssize_t>(n))))
    {
        for (std::size_t i = 0; i < n; ++i) {
            PyList_SET_ITEM(ptr(), static_cast<ssize_t>(i), Py_NewRef(Py_None));
        }
    }
    explicit list(object o) : sequence_like(PyList_Check(o.ptr()) ? o : object::steal(PySequence_List(o.ptr()))) {}
    template <typename T>
    void append(T &&x) const
    {
        if (PyList_Append(ptr(), to_object(std::forward<T>(x)).ptr()) < 0) {
            throw error_already_set();
        }
    }
};
struct dict : object {
    dict() : object(object::steal(PyDict_New())) {}
    explicit dict(object o) : object(std::move(o)) {}
    [[nodiscard]] std::size_t size() const
    {
        return static_cast<std::size_t>(PyDict_Size(ptr()));
    }
};
struct tuple : sequence_like<tuple> {
    explicit tuple(std::size_t n = 0) : sequence_like(object::steal(PyTuple_New(static_cast<ssize_t>(n))))
    {
        for (std::size_t i = 0; i < n; ++i) {
            PyTuple_SET_ITEM(ptr(), static_cast<ssize_t>(i), Py_NewRef(Py_None));
        }
    }
    explicit tuple(object o) : sequence_like(PyTuple_Check(o.ptr()) ? o : object::steal(PySequence_Tuple(o.ptr()))) {}
};
struct function : object {
    explicit function(object o) : object(std::move(o)) {}
};
struct gil_scoped_acquire {
    gil_scoped_acquire() : m_s(PyGILState_Ensure()) {}
    gil_scoped_acquire(const gil_scoped_acquire &) = delete;
    ~gil_scoped_acquire()
    {
        PyGILState_Release(m_s);
    }

private:
    PyGILState_STATE m_s;
};
struct gil_scoped_release {
    gil_scoped_release() : m_s(PyEval_SaveThread()) {}
    gil_scoped_release(const gil_scoped_release &) = delete;
    ~gil_scoped_release()
    {
        PyEval_RestoreThread(m_s);
    }

private:
    PyThreadState *m_s;
};
#define STANDIN_EXCEPTION(name, py)                                                                                    \
    struct name : std::runtime_error {                                                                                 \
        explicit name(const std::string &s = "") : std::runtime_error(s) {}                                            \
        static PyObject *python()                                                                                      \
        {                                                                                                              \
            return py;                                                                                                 \
        }                                                                                                              \
    };
STANDIN_EXCEPTION(stop_iteration, PyExc_StopIteration)
STANDIN_EXCEPTION(index_error, PyExc_IndexError)
STANDIN_EXCEPTION(key_error, PyExc_KeyError)
STANDIN_EXCEPTION(value_error, PyExc_ValueError)
STANDIN_EXCEPTION(type_error, PyExc_TypeError)
STANDIN_EXCEPTION(buffer_error, PyExc_BufferError)
STANDIN_EXCEPTION(import_error, PyExc_ImportError)
STANDIN_EXCEPTION(attribute_error, PyExc_AttributeError)
#undef STANDIN_EXCEPTION
struct capsule : object {
    capsule(void *p, void (*del)(void *)) : object(object::steal(PyCapsule_New(p, nullptr, &destroy)))
    {
        PyCapsule_SetContext(ptr(), reinterpret_cast<void *>(del));
    }
    static void destroy(PyObject *c)
    {
        reinterpret_cast<void (*)(void *)>(PyCapsule_GetContext(c))(PyCapsule_GetPointer(c, nullptr));
    }
};
template <typename H>
std::size_t len(const H &o)
{
    auto n = PyObject_Size(o.ptr());
    if (n < 0) {
        throw error_already_set();
    }
    return static_cast<std::size_t>(n);
}
inline bool isinstance(const handle &o, const object &t)
{
    int r = PyObject_IsInstance(o.ptr(), t.ptr());
    if (r < 0) {
        throw error_already_set();
    }
    return r == 1;
}
inline bool hasattr(const handle &o, const char *s)
{
    return PyObject_HasAttrString(o.ptr(), s) == 1;
}
inline object getattr(const handle &o, const char *s)
{
    return object::steal(PyObject_GetAttrString(o.ptr(), s));
}
template <typename D>
object getattr(const handle &o, const char *s, D &&d)
{
    return hasattr(o, s) ? getattr(o, s) : to_object(std::forward<D>(d));
}
template <typename V>
void setattr(const handle &o, const char *s, V &&v)
{
    o.attr(s) = std::forward<V>(v);
}

// ---- Exposed classes.
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

struct instance {
    PyObject_HEAD void *ptr;
    void (*del)(void *); // null: not owned
    PyObject *parent;
};
inline PyTypeObject *base_type()
{
    static PyTypeObject *t = [] {
        static PyType_Slot slots[]
            = {{Py_tp_dealloc, reinterpret_cast<void *>(+[](PyObject *o) {
                    auto *i = reinterpret_cast<instance *>(o);
                    if (i->ptr && i->del) {
                        i->del(i->ptr);
                    }
                    Py_XDECREF(i->parent);
                    auto *tp = Py_TYPE(o);
                    tp->tp_free(o);
                    Py_DECREF(tp);
                })},
               {Py_tp_new, reinterpret_cast<void *>(+[](PyTypeObject *tp, PyObject *, PyObject *) -> PyObject * { return tp->tp_alloc(tp, 0); })},
               {Py_tp_init, reinterpret_cast<void *>(+[](PyObject *o, PyObject *, PyObject *) -> int {
                    PyErr_Format(PyExc_TypeError, "%s: No constructor defined!", Py_TYPE(o)->tp_name);
                    return -1;
                })},
               {0, nullptr}};
        static PyType_Spec spec = {"standin.object", sizeof(instance), 0, Py_TPFLAGS_DEFAULT | Py_TPFLAGS_BASETYPE, slots};
        auto *p = PyType_FromSpec(&spec);
        if (!p) {
            throw error_already_set();
        }
        return reinterpret_cast<PyTypeObject *>(p);
    }();
    return t;
}
inline std::map<std::type_index, object> &types()
{
    static auto *m = new std::map<std::type_index, object>;
    return *m;
}
template <typename T>
object type_of()
{
    auto it = types().find(typeid(T));
    if (it == types().end()) {
        throw cast_error(std::string("Unable to convert a C++ type without a Python class: ") + typeid(T).name());
    }
    return it->second;
}
template <typename T>
void delete_it(void *p)
{
    delete static_cast<T *>(p);
}
template <typename T>
object wrap(T *p, bool owned, handle parent)
{
    auto t = type_of<T>();
    auto o = object::steal(reinterpret_cast<PyTypeObject *>(t.ptr())->tp_alloc(reinterpret_cast<PyTypeObject *>(t.ptr()), 0));
    auto *i = reinterpret_cast<instance *>(o.ptr());
    i->ptr = const_cast<std::remove_const_t<T> *>(p);
    i->del = owned ? &delete_it<T> : nullptr;
    i->parent = Py_XNewRef(parent.ptr());
    return o;
}

// ---- Conversions. load() keeps the value, get<A>() passes it as an argument of type A; make() goes to Python.
template <typename T>
struct value_caster {
    std::optional<T> value;
    template <typename A>
    A get()
    {
        static_assert(!std::is_pointer_v<A>);
        if constexpr (std::is_lvalue_reference_v<A>) {
            return *value;
        } else {
            return std::move(*value);
        }
    }
};
// Classes.
template <typename T>
struct caster {
    T *value = nullptr;
    bool load(handle h, bool)
    {
        auto it = types().find(typeid(T));
        if (it == types().end() || PyObject_IsInstance(h.ptr(), it->second.ptr()) != 1) {
            return false;
        }
        value = static_cast<T *>(reinterpret_cast<instance *>(h.ptr())->ptr);
        return value != nullptr;
    }
    template <typename A>
    A get()
    {
        if constexpr (std::is_pointer_v<A>) {
            return value;
        } else {
            return *value;
        }
    }
    template <typename U>
    static object make(U &&x, return_value_policy, handle)
    {
        return wrap<T>(new T(std::forward<U>(x)), true, nullptr);
    }
};
template <typename T>
using bare = std::remove_cv_t<std::remove_pointer_t<std::remove_cv_t<std::remove_reference_t<T>>>>;
template <typename T>
object to_python(T &&x, return_value_policy p, handle parent)
{
    using D = std::remove_cv_t<std::remove_reference_t<T>>;
    if constexpr (std::is_same_v<D, const char *> || std::is_array_v<std::remove_reference_t<T>>) {
        return object::steal(PyUnicode_FromString(x));
    } else if constexpr (std::is_pointer_v<D>) {
        if (!x) {
            return none();
        }
        bool inside = p == return_value_policy::reference_internal;
        if (p == return_value_policy::copy || p == return_value_policy::move) {
            return wrap<bare<T>>(new bare<T>(*x), true, handle());
        }
        return wrap<bare<T>>(x, p == return_value_policy::automatic || p == return_value_policy::take_ownership, inside ? parent : handle());
    } else if constexpr (std::is_base_of_v<object, D>) {
        return object::borrow(x.ptr());
    } else if constexpr (std::is_same_v<D, accessor>) {
        return x.get();
    } else {
        return caster<D>::make(std::forward<T>(x), p, parent);
    }
}
template <typename T>
object to_object(T &&x)
{
    return to_python(std::forward<T>(x), return_value_policy::automatic, nullptr);
}
template <typename T>
T cast(const object &o)
{
    if constexpr (std::is_same_v<T, object>) {
        return o;
    } else {
        caster<T> c;
        if (!c.load(o, true)) {
            PyErr_Clear();
            throw cast_error("Unable to cast Python instance to C++ type");
        }
        return c.template get<T>();
    }
}
template <typename T>
T cast(const accessor &a)
{
    return cast<T>(a.get());
}
template <typename T, std::enable_if_t<!std::is_base_of_v<handle, std::decay_t<T>> && !std::is_same_v<accessor, std::decay_t<T>>, int> = 0>
object cast(T &&x, return_value_policy p = return_value_policy::automatic_reference, handle parent = handle())
{
    return to_python(std::forward<T>(x), p, parent);
}
template <typename T>
bool isinstance(const handle &o)
{
    if constexpr (std::is_same_v<T, str>) {
        return PyUnicode_Check(o.ptr());
    } else if constexpr (std::is_same_v<T, bytes>) {
        return PyBytes_Check(o.ptr());
    } else if constexpr (std::is_same_v<T, float_>) {
        return PyFloat_Check(o.ptr());
    } else if constexpr (std::is_same_v<T, int_>) {
        return PyLong_Check(o.ptr());
    } else if constexpr (std::is_same_v<T, bool_>) {
        return PyBool_Check(o.ptr());
    } else if constexpr (std::is_same_v<T, list>) {
        return PyList_Check(o.ptr());
    } else if constexpr (std::is_same_v<T, tuple>) {
        return PyTuple_Check(o.ptr());
    } else if constexpr (std::is_same_v<T, dict>) {
        return PyDict_Check(o.ptr());
    } else if constexpr (std::is_same_v<T, sequence>) {
        return PySequence_Check(o.ptr());
    } else if constexpr (std::is_same_v<T, function>) {
        return PyCallable_Check(o.ptr());
    } else if constexpr (std::is_same_v<T, none>) {
        return o.is_none();
    } else if constexpr (std::is_same_v<T, type>) {
        return PyType_Check(o.ptr());
    } else if constexpr (std::is_same_v<T, object>) {
        return true;
    } else {
        auto it = types().find(typeid(T));
        return it != types().end() && PyObject_IsInstance(o.ptr(), it->second.ptr()) == 1;
    }
}
template <typename T>
bool handle::contains(T &&x) const
{
    int r = PySequence_Contains(m_ptr, to_object(std::forward<T>(x)).ptr());
    if (r < 0) {
        throw error_already_set();
    }
    return r == 1;
}
template <typename... A>
str str::format(A &&...a) const
{
    return str(object(attr("format")(std::forward<A>(a)...)));
}
template <typename T>
T handle::cast() const
{
    return pybind11::cast<T>(object::borrow(m_ptr));
}
template <typename... A>
object handle::operator()(A &&...a) const
{
    auto t = object::steal(PyTuple_New(sizeof...(a)));
    ssize_t i = 0;
    (void)std::initializer_list<int>{0, (PyTuple_SET_ITEM(t.ptr(), i++, to_object(std::forward<A>(a)).release()), 0)...};
    return object::steal(PyObject_CallObject(m_ptr, t.ptr()));
}
template <typename... A>
tuple make_tuple(A &&...a)
{
    auto t = object::steal(PyTuple_New(sizeof...(a)));
    ssize_t i = 0;
    (void)std::initializer_list<int>{0, (PyTuple_SET_ITEM(t.ptr(), i++, to_object(std::forward<A>(a)).release()), 0)...};
    return tuple(t);
}

// Numbers, strings, Python objects.
template <>
struct caster<double> : value_caster<double> {
    bool load(handle h, bool convert)
    {
        if (!convert && !PyFloat_Check(h.ptr())) {
            return false;
        }
        double d = PyFloat_AsDouble(h.ptr());
        if (d == -1. && PyErr_Occurred()) {
            PyErr_Clear();
            return false;
        }
        value = d;
        return true;
    }
    static object make(double d, return_value_policy, handle)
    {
        return object::steal(PyFloat_FromDouble(d));
    }
};
template <typename T>
struct int_caster : value_caster<T> {
    bool load(handle h, bool convert)
    {
        if (PyFloat_Check(h.ptr()) || (!convert && !PyLong_Check(h.ptr()) && !PyIndex_Check(h.ptr()))) {
            return false;
        }
        PyObject *n = PyIndex_Check(h.ptr()) ? PyNumber_Index(h.ptr()) : (convert && PyNumber_Check(h.ptr()) ? PyNumber_Long(h.ptr()) : nullptr);
        if (!n) {
            PyErr_Clear();
            return false;
        }
        long long v = PyLong_AsLongLong(n);
        Py_DECREF(n);
        if ((v == -1 && PyErr_Occurred()) || v < static_cast<long long>(std::numeric_limits<T>::min())
            || (v > 0 && static_cast<unsigned long long>(v) > static_cast<unsigned long long>(std::numeric_limits<T>::max()))) {
            PyErr_Clear();
            return false;
        }
        this->value = static_cast<T>(v);
        return true;
    }
    static object make(T d, return_value_policy, handle)
    {
        return object::steal(std::is_signed_v<T> ? PyLong_FromLongLong(static_cast<long long>(d))
                                                 : PyLong_FromUnsignedLongLong(static_cast<unsigned long long>(d)));
    }
};
template <>
struct caster<int> : int_caster<int> {
};
template <>
struct caster<unsigned> : int_caster<unsigned> {
};
template <>
struct caster<long> : int_caster<long> {
};
template <>
struct caster<unsigned long> : int_caster<unsigned long> {
};
template <>
struct caster<bool> : value_caster<bool> {
    bool load(handle h, bool convert)
    {
        if (h.ptr() == Py_True || h.ptr() == Py_False) {
            value = h.ptr() == Py_True;
            return true;
        }
        std::string n = Py_TYPE(h.ptr())->tp_name;
        if (!convert && n != "numpy.bool" && n != "numpy.bool_") {
            return false;
        }
        if (h.is_none()) {
            value = false;
            return true;
        }
        auto *num = Py_TYPE(h.ptr())->tp_as_number;
        if (!num || !num->nb_bool) {
            return false;
        }
        int r = num->nb_bool(h.ptr());
        if (r < 0) {
            PyErr_Clear();
            return false;
        }
        value = r == 1;
        return true;
    }
    static object make(bool b, return_value_policy, handle)
    {
        return object::borrow(b ? Py_True : Py_False);
    }
};
template <>
struct caster<std::string> : value_caster<std::string> {
    bool load(handle h, bool)
    {
        if (PyUnicode_Check(h.ptr())) {
            ssize_t n = 0;
            const char *s = PyUnicode_AsUTF8AndSize(h.ptr(), &n);
            if (!s) {
                PyErr_Clear();
                return false;
            }
            value = std::string(s, static_cast<std::size_t>(n));
            return true;
        }
        if (PyBytes_Check(h.ptr())) {
            value = std::string(PyBytes_AS_STRING(h.ptr()), static_cast<std::size_t>(PyBytes_GET_SIZE(h.ptr())));
            return true;
        }
        return false;
    }
    static object make(const std::string &s, return_value_policy, handle)
    {
        return object::steal(PyUnicode_DecodeUTF8(s.data(), static_cast<ssize_t>(s.size()), nullptr));
    }
};
template <>
struct caster<object> : value_caster<object> {
    bool load(handle h, bool)
    {
        value = object::borrow(h.ptr());
        return true;
    }
};
template <typename T, bool (*Check)(PyObject *)>
struct object_caster : value_caster<T> {
    bool load(handle h, bool)
    {
        if (!Check(h.ptr())) {
            return false;
        }
        this->value = T(object::borrow(h.ptr()));
        return true;
    }
};
inline bool check_tuple(PyObject *o)
{
    return PyTuple_Check(o);
}
inline bool check_list(PyObject *o)
{
    return PyList_Check(o);
}
inline bool check_dict(PyObject *o)
{
    return PyDict_Check(o);
}
inline bool check_str(PyObject *o)
{
    return PyUnicode_Check(o);
}
inline bool check_bytes(PyObject *o)
{
    return PyBytes_Check(o);
}
inline bool check_float(PyObject *o)
{
    return PyFloat_Check(o);
}
inline bool check_int(PyObject *o)
{
    return PyLong_Check(o);
}
inline bool check_sequence(PyObject *o)
{
    return PySequence_Check(o);
}
inline bool check_callable(PyObject *o)
{
    return PyCallable_Check(o);
}
inline bool check_type(PyObject *o)
{
    return PyType_Check(o);
}
template <>
struct caster<tuple> : object_caster<tuple, check_tuple> {
};
template <>
struct caster<list> : object_caster<list, check_list> {
};
template <>
struct caster<dict> : object_caster<dict, check_dict> {
};
template <>
struct caster<str> : object_caster<str, check_str> {
};
template <>
struct caster<bytes> : object_caster<bytes, check_bytes> {
};
template <>
struct caster<float_> : object_caster<float_, check_float> {
};
template <>
struct caster<int_> : object_caster<int_, check_int> {
};
template <>
struct caster<sequence> : object_caster<sequence, check_sequence> {
};
template <>
struct caster<function> : object_caster<function, check_callable> {
};
template <>
struct caster<type> : object_caster<type, check_type> {
};
template <>
struct caster<handle> : value_caster<handle> {
    bool load(handle h, bool)
    {
        value = h;
        return true;
    }
};
template <>
struct caster<float> : value_caster<float> {
    bool load(handle h, bool convert)
    {
        caster<double> c;
        if (!c.load(h, convert)) {
            return false;
        }
        value = static_cast<float>(*c.value);
        return true;
    }
    static object make(float f, return_value_policy, handle)
    {
        return object::steal(PyFloat_FromDouble(static_cast<double>(f)));
    }
};
template <>
struct caster<long long> : int_caster<long long> {
};
template <>
struct caster<unsigned long long> : int_caster<unsigned long long> {
};
template <>
struct caster<short> : int_caster<short> {
};
template <>
struct caster<unsigned short> : int_caster<unsigned short> {
};

// ---- Functions.
struct arg_v {
    std::string name;
    object value;
};
struct arg {
    std::string name;
    explicit arg(const char *s) : name(s) {}
    arg &noconvert(bool = true)
    {
        return *this;
    }
    arg &none(bool = true)
    {
        return *this;
    }
    template <typename T>
    arg_v operator=(T &&x) const
    {
        return {name, to_object(std::forward<T>(x))};
    }
};
struct dynamic_attr {
};
struct is_operator {
};
struct kw_only {
};
struct pos_only {
};
struct module_local {
    explicit module_local(bool = true) {}
};
struct doc {
    explicit doc(const char *s) : text(s) {}
    const char *text;
};
template <std::size_t, std::size_t>
struct keep_alive {
};
template <typename...>
struct call_guard {
};
namespace literals
{
inline arg operator""_a(const char *s, std::size_t)
{
    return arg(s);
}
} // namespace literals
struct options {
    options &enable_function_signatures()
    {
        return *this;
    }
    options &disable_user_defined_docstrings()
    {
        return *this;
    }
    void disable_function_signatures() {}
};

struct overload {
    std::vector<arg_v> args; // names, defaults
    std::size_t n = 0;
    bool method = false;
    return_value_policy policy = return_value_policy::automatic;
    std::string doc;
    // Null (without error) when the arguments do not fit.
    std::function<PyObject *(const std::vector<handle> &, bool)> call;
};
struct function_record {
    std::string name;
    PyMethodDef def{};
    std::vector<overload> overloads;
};
inline void extra(overload &o, const arg &a)
{
    o.args.push_back({a.name, object()});
}
inline void extra(overload &o, const arg_v &a)
{
    o.args.push_back(a);
}
inline void extra(overload &o, const char *d)
{
    o.doc = d;
}
inline void extra(overload &o, return_value_policy p)
{
    o.policy = p;
}
inline void extra(overload &o, const doc &d)
{
    o.doc = d.text;
}
template <typename X>
void extra(overload &, const X &)
{
}
template <typename E>
bool as_python(const std::exception &e)
{
    if (const auto *x = dynamic_cast<const E *>(&e)) {
        PyErr_SetString(E::python(), x->what());
        return true;
    }
    return false;
}
inline PyObject *translate()
{
    try {
        throw;
    } catch (const error_already_set &e) {
        e.restore();
    } catch (const std::bad_alloc &e) {
        PyErr_SetString(PyExc_MemoryError, e.what());
    } catch (const std::domain_error &e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::invalid_argument &e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::length_error &e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::out_of_range &e) {
        PyErr_SetString(PyExc_IndexError, e.what());
    } catch (const std::range_error &e) {
        PyErr_SetString(PyExc_ValueError, e.what());
    } catch (const std::overflow_error &e) {
        PyErr_SetString(PyExc_OverflowError, e.what());
    } catch (const std::exception &e) {
        if (!(as_python<stop_iteration>(e) || as_python<index_error>(e) || as_python<key_error>(e) || as_python<value_error>(e)
              || as_python<type_error>(e) || as_python<buffer_error>(e) || as_python<import_error>(e) || as_python<attribute_error>(e))) {
            PyErr_SetString(PyExc_RuntimeError, e.what());
        }
    } catch (...) {
        PyErr_SetString(PyExc_RuntimeError, "Caught an unknown exception!");
    }
    return nullptr;
}
inline PyObject *dispatch(PyObject *self, PyObject *args, PyObject *kwargs)
{
    auto *f = static_cast<function_record *>(PyCapsule_GetPointer(self, nullptr));
    auto given = static_cast<std::size_t>(PyTuple_GET_SIZE(args));
    for (int pass = f->overloads.size() == 1 ? 1 : 0; pass < 2; ++pass) {
        for (const auto &o : f->overloads) {
            if (given > o.n) {
                continue;
            }
            std::vector<handle> a(o.n);
            for (std::size_t i = 0; i < given; ++i) {
                a[i] = PyTuple_GET_ITEM(args, static_cast<ssize_t>(i));
            }
            std::size_t used = 0, first = o.method ? 1 : 0;
            bool ok = true;
            for (std::size_t i = given; i < o.n && ok; ++i) {
                if (i >= first && i - first < o.args.size()) {
                    const auto &v = o.args[i - first];
                    PyObject *k = kwargs ? PyDict_GetItemString(kwargs, v.name.c_str()) : nullptr;
                    if (k) {
                        ++used;
                        a[i] = k;
                    } else {
                        a[i] = v.value;
                    }
                }
                ok = static_cast<bool>(a[i]);
            }
            if (!ok || (kwargs && static_cast<std::size_t>(PyDict_Size(kwargs)) != used)) {
                continue;
            }
            try {
                PyObject *r = o.call(a, pass == 1);
                if (r) {
                    return r;
                }
                if (PyErr_Occurred()) {
                    PyErr_Clear();
                }
            } catch (...) {
                return translate();
            }
        }
    }
    PyErr_Format(PyExc_TypeError, "%s(): incompatible function arguments.", f->name.c_str());
    return nullptr;
}
template <typename F>
struct traits : traits<decltype(&F::operator())> {
};
template <typename R, typename... A>
struct traits<R (*)(A...)> {
    using sig = R(A...);
};
template <typename R, typename... A>
struct traits<R(A...)> {
    using sig = R(A...);
};
// Lambdas.
template <typename C, typename R, typename... A>
struct traits<R (C::*)(A...) const> {
    using sig = R(A...);
};
template <typename C, typename R, typename... A>
struct traits<R (C::*)(A...)> {
    using sig = R(A...);
};
template <typename C, typename R, typename... A>
struct traits<R (C::*)(A...) const noexcept> {
    using sig = R(A...);
};
template <typename C, typename R, typename... A>
struct traits<R (C::*)(A...) noexcept> {
    using sig = R(A...);
};
template <typename R, typename... A>
struct traits<R (*)(A...) noexcept> {
    using sig = R(A...);
};
template <typename F, typename R, typename... A, std::size_t... I>
std::function<PyObject *(const std::vector<handle> &, bool)> bind_call(F f, R (*)(A...), std::index_sequence<I...>, return_value_policy p)
{
    return [f, p]([[maybe_unused]] const std::vector<handle> &a, [[maybe_unused]] bool convert) mutable -> PyObject * {
        std::tuple<caster<bare<A>>...> c;
        bool ok = true;
        (void)std::initializer_list<int>{0, (ok = ok && std::get<I>(c).load(a[I], convert), 0)...};
        if (!ok) {
            return nullptr;
        }
        if constexpr (std::is_void_v<R>) {
            f(std::get<I>(c).template get<A>()...);
            return Py_NewRef(Py_None);
        } else {
            return to_python(f(std::get<I>(c).template get<A>()...), p, a.empty() ? handle() : a[0]).release();
        }
    };
}
template <typename F, typename R, typename... A>
void fill(overload &o, F f, R (*s)(A...))
{
    o.n = sizeof...(A);
    o.call = bind_call(std::move(f), s, std::index_sequence_for<A...>(), o.policy);
}
// Member functions become functions of the object.
template <typename F>
auto plain(F &&f)
{
    return std::forward<F>(f);
}
template <typename C, typename R, typename... A>
auto plain(R (C::*f)(A...) const)
{
    return [f](const C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
}
template <typename C, typename R, typename... A>
auto plain(R (C::*f)(A...))
{
    return [f](C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
}
template <typename C, typename R, typename... A>
auto plain(R (C::*f)(A...) const noexcept)
{
    return [f](const C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
}
template <typename C, typename R, typename... A>
auto plain(R (C::*f)(A...) noexcept)
{
    return [f](C &c, A... a) -> R { return (c.*f)(std::forward<A>(a)...); };
}
template <typename F, typename... X>
overload make_overload(bool method, F &&f, const X &...x)
{
    overload o;
    o.method = method;
    (void)std::initializer_list<int>{0, (extra(o, x), 0)...};
    auto g = plain(std::forward<F>(f));
    fill(o, g, static_cast<typename traits<decltype(g)>::sig *>(nullptr));
    return o;
}
inline function_record *record_of(PyObject *f)
{
    if (f && PyInstanceMethod_Check(f)) {
        f = PyInstanceMethod_Function(f);
    }
    if (!f || !PyCFunction_Check(f)) {
        return nullptr;
    }
    PyObject *s = PyCFunction_GET_SELF(f);
    return s && PyCapsule_CheckExact(s) ? static_cast<function_record *>(PyCapsule_GetPointer(s, nullptr)) : nullptr;
}
inline object new_function(const std::string &name, overload o, const object &module)
{
    auto *r = new function_record; // lives as long as the process
    r->name = name;
    r->def = {r->name.c_str(), reinterpret_cast<PyCFunction>(reinterpret_cast<void (*)()>(&dispatch)), METH_VARARGS | METH_KEYWORDS, nullptr};
    if (!o.doc.empty()) {
        r->def.ml_doc = strdup(o.doc.c_str());
    }
    r->overloads.push_back(std::move(o));
    auto self = object::steal(PyCapsule_New(r, nullptr, nullptr));
    return object::steal(PyCFunction_NewEx(&r->def, self.ptr(), module.ptr()));
}
// Adds an overload to a function of the scope itself (not of a base class), or makes the function.
inline void add_function(const object &scope, const std::string &name, overload o, bool method, const object &module)
{
    auto d = object::steal(PyObject_GetAttrString(scope.ptr(), "__dict__"));
    auto old = PyMapping_HasKeyString(d.ptr(), name.c_str()) ? object::steal(PyMapping_GetItemString(d.ptr(), name.c_str())) : object();
    if (auto *r = record_of(old.ptr())) {
        r->overloads.push_back(std::move(o));
        return;
    }
    auto f = new_function(name, std::move(o), module);
    if (method) {
        f = object::steal(PyInstanceMethod_New(f.ptr()));
    }
    if (PyObject_SetAttrString(scope.ptr(), name.c_str(), f.ptr()) < 0) {
        throw error_already_set();
    }
}

template <typename... A>
struct overload_cast_t {
    template <typename R>
    constexpr auto operator()(R (*f)(A...)) const
    {
        return f;
    }
    template <typename R, typename C>
    constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const
    {
        return f;
    }
    template <typename R, typename C>
    constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const
    {
        return f;
    }
};
constexpr std::true_type const_{};
template <typename... A>
constexpr overload_cast_t<A...> overload_cast{};

class module_ : public object
{
public:
    module_() = default;
    explicit module_(object o) : object(std::move(o)) {}
    accessor doc()
    {
        return attr("__doc__");
    }
    template <typename F, typename... X>
    module_ &def(const char *name, F &&f, const X &...x)
    {
        add_function(*this, name, make_overload(false, std::forward<F>(f), x...), false, attr("__name__"));
        return *this;
    }
    module_ def_submodule(const char *name, const char *d = nullptr)
    {
        auto full = std::string(PyModule_GetName(ptr())) + "." + name;
        auto m = object::borrow(PyImport_AddModule(full.c_str()));
        if (d) {
            m.attr("__doc__") = d;
        }
        attr(name) = m;
        return module_(m);
    }
    template <typename T>
    void add_object(const char *name, T &&x)
    {
        attr(name) = std::forward<T>(x);
    }
    static module_ import(const char *s)
    {
        return module_(object::steal(PyImport_ImportModule(s)));
    }
};
using module = module_;

template <typename... A>
struct init_t {
};
template <typename... A>
init_t<A...> init()
{
    return {};
}
template <typename F>
struct init_f {
    F f;
};
template <typename F>
init_f<std::decay_t<F>> init(F &&f)
{
    return {std::forward<F>(f)};
}
template <typename G, typename S>
struct pickle_t {
    G get;
    S set;
};
template <typename G, typename S>
pickle_t<G, S> pickle(G g, S s)
{
    return {g, s};
}
template <typename T, typename...>
class class_ : public object
{
public:
    using type = T;
    template <typename... X>
    class_(const object &scope, const char *name, const X &...x)
    {
        auto ns = dict();
        bool dyn = (std::is_same_v<X, dynamic_attr> || ...);
        if (!dyn) {
            PyDict_SetItemString(ns.ptr(), "__slots__", object::steal(PyTuple_New(0)).ptr());
        }
        bool nested = PyType_Check(scope.ptr());
        auto mod = object(scope.attr(nested ? "__module__" : "__name__"));
        PyDict_SetItemString(ns.ptr(), "__module__", mod.ptr());
        std::string q = nested ? object(scope.attr("__qualname__")).cast<std::string>() + "." + name : name;
        PyDict_SetItemString(ns.ptr(), "__qualname__", to_object(q).ptr());
        auto bases = object::steal(PyTuple_Pack(1, reinterpret_cast<PyObject *>(base_type())));
        object cls = object::steal(PyObject_CallFunction(reinterpret_cast<PyObject *>(&PyType_Type), "sOO", name, bases.ptr(), ns.ptr()));
        static_cast<object &>(*this) = cls;
        m_module = mod;
        types()[typeid(T)] = cls;
        if (PyObject_SetAttrString(scope.ptr(), name, cls.ptr()) < 0) {
            throw error_already_set();
        }
    }
    template <typename F, typename... X>
    class_ &def(const char *name, F &&f, const X &...x)
    {
        add_function(*this, name, make_overload(true, std::forward<F>(f), x...), true, m_module);
        if (std::strcmp(name, "__eq__") == 0 && !PyMapping_HasKeyString(object(attr("__dict__")).ptr(), "__hash__")) {
            attr("__hash__") = none();
        }
        return *this;
    }
    template <typename... A, typename... X>
    class_ &def(init_t<A...>, const X &...x)
    {
        return constructor([](A... a) -> T * { return new T(std::forward<A>(a)...); }, static_cast<T *(*)(A...)>(nullptr), x...);
    }
    template <typename F, typename... X>
    class_ &def(init_f<F> f, const X &...x)
    {
        return factory(f.f, static_cast<typename traits<F>::sig *>(nullptr), x...);
    }
    template <typename G, typename S>
    class_ &def(pickle_t<G, S> p)
    {
        def("__getstate__", p.get);
        auto set = p.set;
        overload o;
        o.method = true;
        o.n = 2;
        o.call = [set](const std::vector<handle> &a, bool convert) -> PyObject * {
            caster<tuple> c;
            if (!c.load(a[1], convert)) {
                return nullptr;
            }
            put(a[0], new T(set(*c.value)));
            return Py_NewRef(Py_None);
        };
        add_function(*this, "__setstate__", o, true, m_module);
        return *this;
    }
    template <typename F, typename... X>
    class_ &def_static(const char *name, F &&f, const X &...x)
    {
        auto fn = new_function(name, make_overload(false, std::forward<F>(f), x...), m_module);
        attr(name) = object::steal(PyStaticMethod_New(fn.ptr()));
        return *this;
    }
    template <typename D, typename C, typename... X>
    class_ &def_readonly(const char *name, D C::*m, const X &...x)
    {
        return def_property_readonly(name, [m](const T &o) -> const D & { return o.*m; }, x...);
    }
    template <typename D, typename C, typename... X>
    class_ &def_readwrite(const char *name, D C::*m, const X &...x)
    {
        return def_property(name, [m](const T &o) -> const D & { return o.*m; }, [m](T &o, const D &v) { o.*m = v; }, x...);
    }
    // Operators (operators.h).
    template <typename O, std::enable_if_t<O::standin_operator, int> = 0, typename... X>
    class_ &def(O, const X &...)
    {
        return def(O::name, [](const T &a, const typename O::template other<T> &b) { return O::apply(a, b); });
    }
    template <typename G, typename... X>
    class_ &def_property_readonly(const char *name, G &&g, const X &...x)
    {
        auto get = new_function(name, make_overload(true, std::forward<G>(g), x...), m_module);
        attr(name) = object::steal(PyObject_CallFunction(reinterpret_cast<PyObject *>(&PyProperty_Type), "O", get.ptr()));
        return *this;
    }
    template <typename G, typename S, typename... X>
    class_ &def_property(const char *name, G &&g, S &&s, const X &...x)
    {
        auto get = new_function(name, make_overload(true, std::forward<G>(g), x...), m_module);
        auto set = new_function(name, make_overload(true, std::forward<S>(s)), m_module);
        attr(name) = object::steal(PyObject_CallFunction(reinterpret_cast<PyObject *>(&PyProperty_Type), "OO", get.ptr(), set.ptr()));
        return *this;
    }

private:
    static void put(handle self, T *p)
    {
        auto *i = reinterpret_cast<instance *>(self.ptr());
        if (i->ptr && i->del) {
            i->del(i->ptr);
        }
        i->ptr = p;
        i->del = &delete_it<T>;
    }
    template <typename F, typename... A, typename... X>
    class_ &constructor(F f, T *(*)(A...), const X &...x)
    {
        overload o;
        o.method = true;
        (void)std::initializer_list<int>{0, (extra(o, x), 0)...};
        o.n = sizeof...(A) + 1;
        o.call = make_init<F, A...>(f, std::index_sequence_for<A...>());
        add_function(*this, "__init__", o, true, m_module);
        return *this;
    }
    template <typename F, typename R, typename... A, typename... X>
    class_ &factory(F f, R (*)(A...), const X &...x)
    {
        return constructor(
            [f](A... a) -> T * {
                if constexpr (std::is_pointer_v<R>) {
                    return f(std::forward<A>(a)...);
                } else if constexpr (std::is_same_v<R, std::unique_ptr<T>>) {
                    return f(std::forward<A>(a)...).release();
                } else {
                    return new T(f(std::forward<A>(a)...));
                }
            },
            static_cast<T *(*)(A...)>(nullptr), x...);
    }
    template <typename F, typename... A, std::size_t... I>
    static std::function<PyObject *(const std::vector<handle> &, bool)> make_init(F f, std::index_sequence<I...>)
    {
        return [f](const std::vector<handle> &a, [[maybe_unused]] bool convert) -> PyObject * {
            std::tuple<caster<bare<A>>...> c;
            bool ok = true;
            (void)std::initializer_list<int>{0, (ok = ok && std::get<I>(c).load(a[I + 1], convert), 0)...};
            if (!ok) {
                return nullptr;
            }
            put(a[0], f(std::get<I>(c).template get<A>()...));
            return Py_NewRef(Py_None);
        };
    }
    object m_module;
};

template <typename E>
class enum_ : public class_<E>
{
public:
    template <typename S, typename... X>
    enum_(const S &scope, const char *name, const X &...x) : class_<E>(scope, name), m_scope(scope), m_name(name)
    {
        this->def(init([](long v) { return static_cast<E>(v); }));
        this->def("__int__", [](const E &e) { return static_cast<long>(e); });
        this->def("__index__", [](const E &e) { return static_cast<long>(e); });
        this->def("__hash__", [](const E &e) { return static_cast<long>(e); });
        this->def("__eq__", [](const E &a, const object &b) {
            caster<E> c;
            return c.load(b, false) && a == *c.value;
        });
        this->def("__ne__", [](const E &a, const object &b) {
            caster<E> c;
            return !(c.load(b, false) && a == *c.value);
        });
        auto names = std::make_shared<std::map<long, std::string>>();
        m_names = names;
        std::string n = name;
        this->def_property_readonly("name", [names](const E &e) { return (*names)[static_cast<long>(e)]; });
        this->def_property_readonly("value", [](const E &e) { return static_cast<long>(e); });
        this->def("__repr__", [names, n](const E &e) {
            return "<" + n + "." + (*names)[static_cast<long>(e)] + ": " + std::to_string(static_cast<long>(e)) + ">";
        });
        this->def(pickle([](const E &e) { return make_tuple(static_cast<long>(e)); },
                         [](const tuple &t) { return static_cast<E>(object(t[0]).template cast<long>()); }));
    }
    enum_ &value(const char *name, E e, const char * = nullptr)
    {
        (*m_names)[static_cast<long>(e)] = name;
        this->attr(name) = e;
        return *this;
    }
    enum_ &export_values()
    {
        for (const auto &[v, n] : *m_names) {
            m_scope.attr(n.c_str()) = object(this->attr(n.c_str()));
        }
        return *this;
    }

private:
    object m_scope;
    std::string m_name;
    std::shared_ptr<std::map<long, std::string>> m_names;
};
// Classes that pykep takes from another package (heyoka).
void standin_extra_classes(module_ &m);
} // namespace pybind11

#define PYBIND11_MODULE(name, m)                                                                                       \
    static void standin_init_##name(pybind11::module_ &);                                                              \
    extern "C" __attribute__((visibility("default"))) PyObject *PyInit_##name()                                       \
    {                                                                                                                  \
        static PyModuleDef def = {PyModuleDef_HEAD_INIT, #name, nullptr, -1, nullptr, nullptr, nullptr, nullptr, nullptr}; \
        try {                                                                                                          \
            auto o = pybind11::object::steal(PyModule_Create(&def));                                                   \
            pybind11::module_ mod(o);                                                                                  \
            pybind11::standin_extra_classes(mod);                                                                      \
            standin_init_##name(mod);                                                                                  \
            return o.release();                                                                                        \
        } catch (...) {                                                                                                \
            return pybind11::translate();                                                                              \
        }                                                                                                              \
    }                                                                                                                  \
    static void standin_init_##name(pybind11::module_ &m)
