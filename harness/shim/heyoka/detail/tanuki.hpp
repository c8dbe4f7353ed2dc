// Stand-in for heyoka's copy of tanuki (type-erased value wrappers): what kep3/planet.hpp uses of it, with the same
// meaning. Owning copies, value semantics, reference interface, extraction, serialization of the wrapped value.
#pragma once
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <typeindex>
#include <typeinfo>
#include <utility>

#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/serialization/access.hpp>
#include <boost/serialization/assume_abstract.hpp>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/export.hpp>
#include <boost/serialization/nvp.hpp>
#include <boost/serialization/tracking.hpp>
#include <boost/serialization/unique_ptr.hpp>

namespace tanuki
{
struct no_ref_iface {
    template <typename>
    struct impl {
    };
};

template <typename DefaultValueType = void, typename RefIFace = no_ref_iface>
struct config {
    using default_value_type = DefaultValueType;
    using ref_iface = RefIFace;
    bool invalid_default_ctor = false;
    std::size_t static_size = 48, static_align = alignof(std::max_align_t);
    bool pointer_interface = true;
    int explicit_ctor = 0, semantics = 0;
    bool copyable = true, movable = true, swappable = true;
};
inline constexpr auto default_config = config<>{};

struct invalid_wrap : std::runtime_error {
    using std::runtime_error::runtime_error;
};

// The interface with what the wrapper itself needs.
template <typename IFace>
struct value_iface : IFace {
    virtual std::unique_ptr<value_iface> _clone() const = 0;
    virtual void *_value_ptr() noexcept = 0;
    virtual std::type_index _type() const noexcept = 0;

private:
    friend class boost::serialization::access;
    template <typename Archive>
    void serialize(Archive &, unsigned)
    {
    }
};

template <typename T, typename IFace>
struct holder;
template <typename T, typename IFace>
using holder_base = typename IFace::template impl<value_iface<IFace>, holder<T, IFace>, T>;

template <typename T, typename IFace>
struct holder final : holder_base<T, IFace> {
    T m_value;
    holder() = default;
    template <typename U>
        requires(!std::same_as<holder, std::remove_cvref_t<U>>)
    explicit holder(U &&x) : m_value(std::forward<U>(x))
    {
    }
    std::unique_ptr<value_iface<IFace>> _clone() const override
    {
        return std::make_unique<holder>(m_value);
    }
    void *_value_ptr() noexcept override
    {
        return &m_value;
    }
    std::type_index _type() const noexcept override
    {
        return typeid(T);
    }

private:
    friend class boost::serialization::access;
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar &boost::serialization::base_object<value_iface<IFace>>(*this);
        ar & m_value;
    }
};

template <typename Holder, typename U>
const auto &getval(const U *p)
{
    return static_cast<const Holder *>(p)->m_value;
}
template <typename Holder, typename U>
auto &getval(U *p)
    requires(!std::is_const_v<U>)
{
    return static_cast<Holder *>(p)->m_value;
}

template <typename IFace, auto Cfg = default_config>
class wrap : public std::remove_const_t<decltype(Cfg)>::ref_iface::template impl<wrap<IFace, Cfg>>
{
    using cfg_t = std::remove_const_t<decltype(Cfg)>;
    using def_t = typename cfg_t::default_value_type;
    std::unique_ptr<value_iface<IFace>> m_p;

    friend class boost::serialization::access;
    template <typename Archive>
    void serialize(Archive &ar, unsigned)
    {
        ar & m_p;
    }

public:
    wrap() : m_p(std::make_unique<holder<def_t, IFace>>()) {}
    template <typename T>
        requires(!std::same_as<wrap, std::remove_cvref_t<T>>) && std::copy_constructible<std::remove_cvref_t<T>>
    explicit wrap(T &&x) : m_p(std::make_unique<holder<std::remove_cvref_t<T>, IFace>>(std::forward<T>(x)))
    {
    }
    wrap(const wrap &o) : m_p(o.m_p ? o.m_p->_clone() : nullptr) {}
    wrap(wrap &&) noexcept = default;
    wrap &operator=(wrap &&) noexcept = default;
    wrap &operator=(const wrap &o)
    {
        if (this != &o) {
            *this = wrap(o);
        }
        return *this;
    }
    ~wrap() = default;

    friend void swap(wrap &a, wrap &b) noexcept
    {
        std::swap(a.m_p, b.m_p);
    }
    friend bool is_valid(const wrap &w) noexcept
    {
        return static_cast<bool>(w.m_p);
    }
    friend std::type_index value_type_index(const wrap &w) noexcept
    {
        return w.m_p->_type();
    }
    friend const IFace *iface_ptr(const wrap &w) noexcept
    {
        return w.m_p.get();
    }
    friend IFace *iface_ptr(wrap &w) noexcept
    {
        return w.m_p.get();
    }
    friend const void *raw_value_ptr(const wrap &w) noexcept
    {
        return w.m_p->_value_ptr();
    }
};

template <typename T, typename IFace, auto Cfg>
const T *value_ptr(const wrap<IFace, Cfg> &w) noexcept
{
    return value_type_index(w) == typeid(T) ? static_cast<const T *>(raw_value_ptr(w)) : nullptr;
}
template <typename T, typename IFace, auto Cfg>
T *value_ptr(wrap<IFace, Cfg> &w) noexcept
{
    return const_cast<T *>(value_ptr<T>(std::as_const(w)));
}
template <typename T, typename IFace, auto Cfg>
const T &value_ref(const wrap<IFace, Cfg> &w)
{
    auto *p = value_ptr<T>(w);
    return p ? *p : throw std::bad_cast();
}
template <typename T, typename IFace, auto Cfg>
T &value_ref(wrap<IFace, Cfg> &w)
{
    auto *p = value_ptr<T>(w);
    return p ? *p : throw std::bad_cast();
}
template <typename T, typename IFace, auto Cfg>
bool value_isa(const wrap<IFace, Cfg> &w) noexcept
{
    return value_ptr<T>(w) != nullptr;
}
} // namespace tanuki

#define TANUKI_REF_IFACE_MEMFUN(name)                                                                                  \
    template <typename JustWrap = Wrap, typename... MemFunArgs>                                                        \
    auto name(MemFunArgs &&...args)                                                                                    \
        const->decltype(iface_ptr(*static_cast<const JustWrap *>(this))->name(std::forward<MemFunArgs>(args)...))      \
    {                                                                                                                  \
        return iface_ptr(*static_cast<const JustWrap *>(this))->name(std::forward<MemFunArgs>(args)...);               \
    }

namespace boost::serialization
{
template <typename T, typename IFace>
struct tracking_level<tanuki::holder<T, IFace>> {
    using tag = mpl::integral_c_tag;
    using type = mpl::int_<track_never>;
    static constexpr int value = track_never;
};
} // namespace boost::serialization

#define TANUKI_S11N_WRAP_EXPORT_KEY(T, IFace)                                                                          \
    namespace boost::serialization                                                                                     \
    {                                                                                                                  \
    template <>                                                                                                        \
    struct guid_defined<tanuki::holder<T, IFace>> : boost::mpl::true_ {                                                \
    };                                                                                                                 \
    template <>                                                                                                        \
    inline const char *guid<tanuki::holder<T, IFace>>()                                                                \
    {                                                                                                                  \
        return "tanuki::wrap<" #IFace ">@" #T;                                                                         \
    }                                                                                                                  \
    }
#define TANUKI_S11N_WRAP_EXPORT_IMPLEMENT(T, IFace)                                                                    \
    namespace boost::archive::detail::extra_detail                                                                     \
    {                                                                                                                  \
    template <>                                                                                                        \
    struct init_guid<tanuki::holder<T, IFace>> {                                                                       \
        static guid_initializer<tanuki::holder<T, IFace>> const &g;                                                    \
    };                                                                                                                 \
    guid_initializer<tanuki::holder<T, IFace>> const &init_guid<tanuki::holder<T, IFace>>::g                           \
        = ::boost::serialization::singleton<guid_initializer<tanuki::holder<T, IFace>>>::get_mutable_instance()        \
              .export_guid();                                                                                          \
    }
#define TANUKI_S11N_WRAP_EXPORT(T, IFace)                                                                              \
    TANUKI_S11N_WRAP_EXPORT_KEY(T, IFace)                                                                              \
    TANUKI_S11N_WRAP_EXPORT_IMPLEMENT(T, IFace)
