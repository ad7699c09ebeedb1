// A stand-in for nanobind (which is not available offline): records what a module binds, so that a harness can read and
// assign attributes and call functions as Python would.
#pragma once
#include <any>
#include <cstddef>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <vector>

namespace nanobind {

struct Attribute
{
    std::function<std::any(void*)> get; // the value, by value
    std::function<void(void*, const std::any&)> set; // empty: read only
    std::type_index type = typeid(void);
};
struct Class
{
    std::type_index type = typeid(void);
    bool constructible = false;
    std::function<std::shared_ptr<void>()> make;
    std::map<std::string, Attribute> attributes;
    std::map<std::string, std::function<std::any(void*)>> methods; // without arguments
};
struct Function
{
    // One of the shapes that the library's functions have, where the callable can take it.
    std::vector<std::any> shapes;
};
struct Registry
{
    std::map<std::string, Class> classes;
    std::map<std::string, std::vector<std::any>> functions;
    std::vector<std::string> notes; // what the stand-in does not know
};
inline Registry& registry()
{
    static Registry r;
    return r;
}

struct module_
{
    template <typename F, typename... Extra>
    module_& def(const char* name, F f, const Extra&...);
    module_& attr(const char*) { return *this; }
    template <typename T>
    module_& operator=(const T&) { return *this; }
    const char* doc() const { return ""; }
};

// Values on the Python side. Only their text representation is ever asked for.
struct object
{
    object attr(const char*) const { return {}; }
    template <typename... A>
    object operator()(A&&...) const { return {}; }
};
using handle = object;
using str = object;
template <typename T>
object cast(const T&) { return {}; }
template <typename T, typename = std::enable_if_t<std::is_same<T, std::string>::value>>
std::string cast(const object&) { return "..."; }
inline object repr(const object&) { return {}; }

template <typename... A>
struct init
{
};

template <typename... A>
struct overload_cast_impl
{
    template <typename R>
    constexpr auto operator()(R (*p)(A...)) const { return p; }
    template <typename R, typename C>
    constexpr auto operator()(R (C::*p)(A...), std::false_type = {}) const { return p; }
    template <typename R, typename C>
    constexpr auto operator()(R (C::*p)(A...) const, std::true_type) const { return p; }
};
template <typename... A>
static constexpr overload_cast_impl<A...> overload_cast{};

struct arg
{
    constexpr explicit arg(const char*) {}
    template <typename T>
    const arg& operator=(const T&) const { return *this; }
};
inline namespace literals {
constexpr arg operator""_a(const char* n, size_t) { return arg(n); }
} // namespace literals
enum class rv_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal, none };
template <typename...>
struct call_guard
{
};
struct gil_scoped_release
{
};
template <size_t, size_t>
struct keep_alive
{
};
struct is_operator
{
};
struct dynamic_attr
{
};

template <typename T, typename... Bases>
class class_
{
public:
    template <typename... Extra>
    class_(module_&, const char* name, const Extra&...)
    {
        m_c = &registry().classes[name];
        m_c->type = typeid(T);
        m_c->make = [] { return std::shared_ptr<void>(std::make_shared<T>()); };
    }
    template <typename... A, typename... Extra>
    class_& def(init<A...>, const Extra&...)
    {
        if (sizeof...(A) == 0) m_c->constructible = true;
        return *this;
    }
    template <typename F, typename... Extra>
    class_& def(const char* name, F f, const Extra&...)
    {
        if constexpr (std::is_invocable<F, T&>::value) {
            m_c->methods[name] = [f](void* p) -> std::any {
                if constexpr (std::is_void<decltype(std::invoke(f, *static_cast<T*>(p)))>::value) {
                    std::invoke(f, *static_cast<T*>(p));
                    return {};
                } else {
                    return std::any(std::decay_t<decltype(std::invoke(f, *static_cast<T*>(p)))>(std::invoke(f, *static_cast<T*>(p))));
                }
            };
        } else {
            registry().notes.push_back(std::string("method with arguments: ") + name);
        }
        return *this;
    }
    template <typename C, typename M, typename... Extra>
    class_& def_rw(const char* name, M C::*p, const Extra&...)
    {
        Attribute& a = m_c->attributes[name];
        a.type = typeid(M);
        a.get = [p](void* o) -> std::any { return std::any(static_cast<T*>(o)->*p); };
        a.set = [p](void* o, const std::any& v) { static_cast<T*>(o)->*p = std::any_cast<const M&>(v); };
        return *this;
    }
    template <typename C, typename M, typename... Extra>
    class_& def_ro(const char* name, M C::*p, const Extra&...)
    {
        Attribute& a = m_c->attributes[name];
        a.type = typeid(M);
        a.get = [p](void* o) -> std::any { return std::any(static_cast<T*>(o)->*p); };
        a.set = nullptr;
        return *this;
    }
    template <typename G, typename S, typename... Extra>
    class_& def_prop_rw(const char* name, G g, S s, const Extra&...)
    {
        using V = std::decay_t<decltype(std::invoke(g, std::declval<T&>()))>;
        Attribute& a = m_c->attributes[name];
        a.type = typeid(V);
        a.get = [g](void* o) -> std::any { return std::any(V(std::invoke(g, *static_cast<T*>(o)))); };
        a.set = [s](void* o, const std::any& v) { std::invoke(s, *static_cast<T*>(o), std::any_cast<const V&>(v)); };
        return *this;
    }
    template <typename G, typename... Extra>
    class_& def_prop_ro(const char* name, G g, const Extra&...)
    {
        using V = std::decay_t<decltype(std::invoke(g, std::declval<T&>()))>;
        Attribute& a = m_c->attributes[name];
        a.type = typeid(V);
        a.get = [g](void* o) -> std::any { return std::any(V(std::invoke(g, *static_cast<T*>(o)))); };
        a.set = nullptr;
        return *this;
    }

private:
    Class* m_c;
};

// Shapes of functions that the harness calls; declared by it.
template <typename F>
void record_function(std::vector<std::any>& shapes, F f);

template <typename F, typename... Extra>
module_& module_::def(const char* name, F f, const Extra&...)
{
    record_function(registry().functions[name], f);
    return *this;
}

} // namespace nanobind

#define NB_MODULE(name, m) void verif_bind_module(::nanobind::module_& m)
