// Stand-in for pybind11/operators.h: operators between objects of a class, or with another type.
#pragma once
#include "pybind11.h"

namespace pybind11
{
struct self_t {
};
constexpr self_t self{};
template <typename D>
struct other_t {
};
#define STANDIN_OPERATOR(id, op, py)                                                                                   \
    template <typename R>                                                                                              \
    struct op_##id {                                                                                                   \
        static constexpr bool standin_operator = true;                                                                 \
        static constexpr const char *name = py;                                                                        \
        template <typename T>                                                                                          \
        using other = std::conditional_t<std::is_same_v<R, self_t>, T, R>;                                             \
        template <typename A, typename B>                                                                              \
        static auto apply(const A &a, const B &b)                                                                      \
        {                                                                                                              \
            return a op b;                                                                                             \
        }                                                                                                              \
    };                                                                                                                 \
    inline op_##id<self_t> operator op(const self_t &, const self_t &)                                                 \
    {                                                                                                                  \
        return {};                                                                                                     \
    }                                                                                                                  \
    template <typename R>                                                                                              \
    op_##id<R> operator op(const self_t &, const R &)                                                                  \
    {                                                                                                                  \
        return {};                                                                                                     \
    }
STANDIN_OPERATOR(lt, <, "__lt__")
STANDIN_OPERATOR(gt, >, "__gt__")
STANDIN_OPERATOR(le, <=, "__le__")
STANDIN_OPERATOR(ge, >=, "__ge__")
STANDIN_OPERATOR(eq, ==, "__eq__")
STANDIN_OPERATOR(ne, !=, "__ne__")
STANDIN_OPERATOR(add, +, "__add__")
STANDIN_OPERATOR(sub, -, "__sub__")
STANDIN_OPERATOR(mul, *, "__mul__")
STANDIN_OPERATOR(div, /, "__truediv__")
#undef STANDIN_OPERATOR
} // namespace pybind11
