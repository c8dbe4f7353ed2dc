// Stand-in for pybind11/chrono.h: durations, from datetime.timedelta or seconds.
#pragma once
#include "pybind11.h"

#include <datetime.h>

namespace pybind11
{
template <typename R, typename P>
struct caster<std::chrono::duration<R, P>> : value_caster<std::chrono::duration<R, P>> {
    bool load(handle h, bool)
    {
        using namespace std::chrono;
        if (!PyDateTimeAPI) {
            PyDateTime_IMPORT;
        }
        if (PyDelta_Check(h.ptr())) {
            this->value = duration_cast<duration<R, P>>(duration<int, std::ratio<86400>>(PyDateTime_DELTA_GET_DAYS(h.ptr()))
                                                        + seconds(PyDateTime_DELTA_GET_SECONDS(h.ptr()))
                                                        + microseconds(PyDateTime_DELTA_GET_MICROSECONDS(h.ptr())));
            return true;
        }
        if (PyFloat_Check(h.ptr())) {
            this->value = duration_cast<duration<R, P>>(duration<double>(PyFloat_AsDouble(h.ptr())));
            return true;
        }
        return false;
    }
};
} // namespace pybind11
