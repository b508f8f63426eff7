// A stand-in for pybind11: a module is a table of classes, functions take and give Python-like values.  It has what
// is needed to compile a binding as it is and to call it as Python would: positional and keyword arguments, defaults,
// overloads, additional arguments, None, lists, objects by identity.
#ifndef VERIF_PYBIND11_H
#define VERIF_PYBIND11_H

#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <typeindex>
#include <utility>
#include <vector>

// the error of the interpreter, set by a keyboard interrupt
inline bool &verif_python_error() { static bool set = false; return set; }
extern "C" int PyErr_CheckSignals();
inline void *PyErr_Occurred() { return verif_python_error() ? &verif_python_error() : nullptr; }
inline void PyErr_Clear() { verif_python_error() = false; }

namespace pybind11 {

struct Val {
    enum Kind { None, Bool, Int, Float, Str, List, Obj } kind = None;
    int64_t i = 0;
    double d = 0;
    std::string s;
    std::vector<Val> l;
    std::type_index type = typeid(void);
    std::shared_ptr<void> p;
    Val() = default;
    Val(bool v) : kind(Bool), i(v) {}
    Val(int v) : kind(Int), i(v) {}
    Val(int64_t v) : kind(Int), i(v) {}
    template<class T, std::enable_if_t<std::is_integral<T>::value, int> = 0> Val(T v) : kind(Int), i(int64_t(v)) {}
    Val(std::nullptr_t) {}
    Val(double v) : kind(Float), d(v) {}
    Val(const std::string &v) : kind(Str), s(v) {}
    Val(const char *v) : kind(Str), s(v) {}
    template<class T> Val(const std::vector<T> &v) : kind(List) { for (const auto &x : v) l.push_back(Val(x)); }
    bool operator==(const Val &o) const {
        return kind == o.kind && i == o.i && d == o.d && s == o.s && l == o.l && p == o.p;
    }
    bool operator!=(const Val &o) const { return !(*this == o); }
};
using Vals = std::vector<Val>;
using Kwargs = std::map<std::string, Val>;

struct object : Val { object() = default; object(const Val &v) : Val(v) {} bool is_none() const { return kind == None; } };
struct none : object {};

struct TypeError : std::runtime_error { using std::runtime_error::runtime_error; };
struct error_already_set : std::runtime_error { error_already_set() : std::runtime_error("Python error") { PyErr_Clear(); } };

// additional arguments
struct args : Vals { using Vals::Vals; };
struct kwargs : Kwargs {};

enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };

struct arg_v { const char *name; Val value; };
struct arg {
    const char *name;
    explicit arg(const char *n) : name(n) {}
    arg &noconvert(bool = true) { return *this; }
    arg &none(bool = true) { return *this; }
    arg_v operator=(std::nullptr_t) const { return {name, Val()}; }
    template<class T> arg_v operator=(const T &v) const { return {name, Val(v)}; }
};
inline namespace literals { inline arg operator""_a(const char *n, size_t) { return arg(n); } }

template<class...> struct call_guard {};
template<size_t, size_t> struct keep_alive {};
struct scoped_ostream_redirect {};
struct scoped_estream_redirect {};
struct gil_scoped_release { gil_scoped_release() {} };
struct gil_scoped_acquire { gil_scoped_acquire() {} };
template<class... A> struct overload_cast_t {
    template<class R> constexpr auto operator()(R (*f)(A...)) const { return f; }
    template<class R, class C> constexpr auto operator()(R (C::*f)(A...), std::false_type = {}) const { return f; }
    template<class R, class C> constexpr auto operator()(R (C::*f)(A...) const, std::true_type) const { return f; }
};
static constexpr std::true_type const_{};
template<class... A> static constexpr overload_cast_t<A...> overload_cast{};

namespace detail {

// the objects Python knows: a pointer to one of them is given back as that object, whatever the policy
inline std::map<std::pair<const void *, std::type_index>, std::weak_ptr<void>> &known() {
    static std::map<std::pair<const void *, std::type_index>, std::weak_ptr<void>> r;
    return r;
}
template<class T> std::shared_ptr<T> find_known(const T *p) {
    auto it = known().find({p, typeid(T)});
    return it == known().end() ? nullptr : std::static_pointer_cast<T>(it->second.lock());
}

// values
template<class V, class = void> struct Cast { static const bool value = false; };
template<> struct Cast<bool> {
    static const bool value = true;
    static bool load(const Val &v) { if (v.kind != Val::Bool) throw TypeError("bool expected"); return v.i; }
    static Val cast(bool v) { return Val(v); }
};
template<class V> struct Cast<V, std::enable_if_t<std::is_integral<V>::value && !std::is_same<V, bool>::value>> {
    static const bool value = true;
    static V load(const Val &v) {
        if ((v.kind != Val::Int && v.kind != Val::Bool) || int64_t(V(v.i)) != v.i) throw TypeError("int expected");
        return V(v.i);
    }
    static Val cast(V v) { return Val(int64_t(v)); }
};
template<class V> struct Cast<V, std::enable_if_t<std::is_floating_point<V>::value>> {
    static const bool value = true;
    static V load(const Val &v) {
        if (v.kind == Val::Int) return V(v.i);
        if (v.kind != Val::Float) throw TypeError("float expected");
        return V(v.d);
    }
    static Val cast(V v) { return Val(double(v)); }
};
template<> struct Cast<std::string> {
    static const bool value = true;
    static std::string load(const Val &v) { if (v.kind != Val::Str) throw TypeError("str expected"); return v.s; }
    static Val cast(const std::string &v) { return Val(v); }
};
template<class T> struct Cast<std::vector<T>> {
    static const bool value = true;
    static std::vector<T> load(const Val &v) {
        if (v.kind != Val::List) throw TypeError("list expected");
        std::vector<T> r;
        for (const Val &x : v.l) r.push_back(Cast<T>::load(x));
        return r;
    }
    static Val cast(const std::vector<T> &v) {
        Val r;
        r.kind = Val::List;
        for (const auto &x : v) r.l.push_back(Cast<T>::cast(x));
        return r;
    }
};
template<class T> struct Cast<std::shared_ptr<T>> {
    static const bool value = true;
    static std::shared_ptr<T> load(const Val &v) {
        if (v.kind == Val::None) return nullptr;
        if (v.kind != Val::Obj || v.type != typeid(T)) throw TypeError("other object expected");
        return std::static_pointer_cast<T>(v.p);
    }
    static Val cast(const std::shared_ptr<T> &v) {
        Val r;
        if (!v) return r;
        r.kind = Val::Obj;
        r.type = typeid(T);
        r.p = v;
        known()[{v.get(), typeid(T)}] = r.p;
        return r;
    }
};
template<> struct Cast<Val> {
    static const bool value = true;
    static Val load(const Val &v) { return v; }
    static Val cast(const Val &v) { return v; }
};

template<> struct Cast<object> {
    static const bool value = true;
    static object load(const Val &v) { return v; }
    static Val cast(const object &v) { return v; }
};

template<class T> T *object_of(const Val &v) {
    if (v.kind != Val::Obj || v.type != typeid(T)) throw TypeError("object of another class");
    return static_cast<T *>(v.p.get());
}

// arguments as the function wants them
template<class A, class = void> struct Load {           // reference to an object
    std::remove_reference_t<A> *p;
    explicit Load(const Val &v) : p(object_of<std::decay_t<A>>(v)) {}
    A get() { return static_cast<A>(*p); }
};
template<class A> struct Load<A, std::enable_if_t<Cast<std::decay_t<A>>::value>> {
    std::decay_t<A> v;
    explicit Load(const Val &x) : v(Cast<std::decay_t<A>>::load(x)) {}
    A get() { return static_cast<A>(v); }
};
template<class A> struct Load<A, std::enable_if_t<std::is_pointer<std::decay_t<A>>::value>> {
    std::decay_t<A> p;
    explicit Load(const Val &v) : p(v.kind == Val::None ? nullptr : object_of<std::remove_cv_t<std::remove_pointer_t<std::decay_t<A>>>>(v)) {}
    A get() { return static_cast<A>(p); }
};

template<class A> struct is_args : std::is_same<std::decay_t<A>, args> {};
template<class A> struct is_kwargs : std::is_same<std::decay_t<A>, kwargs> {};

struct Fn {
    std::vector<std::pair<std::string, std::unique_ptr<Val>>> params;   // names and defaults
    size_t count = 0;                                                   // arguments without self, args and kwargs
    bool method = false, more = false, more_named = false;
    return_value_policy policy = return_value_policy::automatic;
    std::function<Val(Fn &, Vals &, args &, kwargs &)> run;
};

template<class R, class = void> struct Ret {             // objects by value or reference
    static Val cast(const Fn &, const R &r) { return Cast<std::shared_ptr<std::decay_t<R>>>::cast(std::make_shared<std::decay_t<R>>(r)); }
};
template<class R> struct Ret<R, std::enable_if_t<Cast<std::decay_t<R>>::value>> {
    static Val cast(const Fn &, const std::decay_t<R> &r) { return Cast<std::decay_t<R>>::cast(r); }
};
template<class R> struct Ret<R, std::enable_if_t<std::is_pointer<std::decay_t<R>>::value>> {
    static Val cast(const Fn &f, R r) {
        using T = std::remove_cv_t<std::remove_pointer_t<std::decay_t<R>>>;
        const bool borrowed = f.policy == return_value_policy::reference || f.policy == return_value_policy::reference_internal ||
                              f.policy == return_value_policy::automatic_reference;
        if (auto same = r ? find_known<T>(r) : nullptr) return Cast<std::shared_ptr<T>>::cast(same);
        return Cast<std::shared_ptr<T>>::cast(!r ? nullptr : borrowed ? std::shared_ptr<T>(const_cast<T *>(r), [](T *) {})
                                                                      : std::shared_ptr<T>(const_cast<T *>(r)));
    }
};

// position of each parameter among the ordinary ones
template<class A> struct Pick {
    static Load<A> from(Vals &v, size_t &k, args &, kwargs &) { return Load<A>(v.at(k++)); }
};
struct Args { args &v; args &get() { return v; } };
struct KwArgs { kwargs &v; kwargs &get() { return v; } };
template<> struct Pick<args> { static Args from(Vals &, size_t &, args &a, kwargs &) { return {a}; } };
template<> struct Pick<kwargs> { static KwArgs from(Vals &, size_t &, args &, kwargs &k) { return {k}; } };
template<class A> using PickOf = Pick<std::conditional_t<is_args<A>::value, args, std::conditional_t<is_kwargs<A>::value, kwargs, A>>>;

inline size_t sum(std::initializer_list<size_t> l) { size_t r = 0; for (size_t x : l) r += x; return r; }

template<class R, class... A> struct Wrap {
    template<class F, size_t... I>
    static Val call(std::false_type, F &f, Fn &rec, Vals &v, args &a, kwargs &k, std::index_sequence<I...>) {
        size_t n = 0;
        std::tuple<decltype(PickOf<A>::from(v, n, a, k))...> t{PickOf<A>::from(v, n, a, k)...};
        return Ret<R>::cast(rec, f(std::get<I>(t).get()...));
    }
    template<class F, size_t... I>
    static Val call(std::true_type, F &f, Fn &, Vals &v, args &a, kwargs &k, std::index_sequence<I...>) {
        size_t n = 0;
        std::tuple<decltype(PickOf<A>::from(v, n, a, k))...> t{PickOf<A>::from(v, n, a, k)...};
        f(std::get<I>(t).get()...);
        return Val();
    }
    template<class F> static std::shared_ptr<Fn> make(F f, bool method) {
        auto r = std::make_shared<Fn>();
        r->method = method;
        r->more = sum({0, size_t(is_args<A>::value)...}) > 0;
        r->more_named = sum({0, size_t(is_kwargs<A>::value)...}) > 0;
        r->count = sizeof...(A) - r->more - r->more_named - method;
        r->run = [f](Fn &rec, Vals &v, args &a, kwargs &k) mutable {
            return call(std::is_void<R>(), f, rec, v, a, k, std::index_sequence_for<A...>());
        };
        return r;
    }
};

template<class T, class F> struct Sig : Sig<T, decltype(&F::operator())> {};
template<class T, class C, class R, class... A> struct Sig<T, R (C::*)(A...)> {
    template<class F> static std::shared_ptr<Fn> callable(F f, bool method) { return Wrap<R, A...>::make(f, method); }
    static std::shared_ptr<Fn> member(R (C::*f)(A...)) {
        return Wrap<R, T &, A...>::make([f](T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); }, true);
    }
};
template<class T, class C, class R, class... A> struct Sig<T, R (C::*)(A...) const> {
    template<class F> static std::shared_ptr<Fn> callable(F f, bool method) { return Wrap<R, A...>::make(f, method); }
    static std::shared_ptr<Fn> member(R (C::*f)(A...) const) {
        return Wrap<R, T &, A...>::make([f](T &self, A... a) -> R { return (self.*f)(std::forward<A>(a)...); }, true);
    }
};
template<class T, class R, class... A> struct Sig<T, R (*)(A...)> {
    template<class F> static std::shared_ptr<Fn> callable(F f, bool method) { return Wrap<R, A...>::make(f, method); }
};
template<class T, class F> std::shared_ptr<Fn> function(std::true_type, F f, bool) { return Sig<T, F>::member(f); }
template<class T, class F> std::shared_ptr<Fn> function(std::false_type, F f, bool method) { return Sig<T, F>::callable(f, method); }

template<class... A> struct Constructor {};
template<class F> struct Factory { F f; };

inline void option(Fn &f, const arg &a) { f.params.emplace_back(a.name, nullptr); }
inline void option(Fn &f, const arg_v &a) { f.params.emplace_back(a.name, std::unique_ptr<Val>(new Val(a.value))); }
inline void option(Fn &f, return_value_policy p) { f.policy = p; }
template<class X> void option(Fn &, const X &) {}
template<class... X> void options(Fn &f, const X &... x) { int unused[] = {0, (option(f, x), 0)...}; (void) unused; }

using Overloads = std::vector<std::shared_ptr<Fn>>;

// as Python does it: positions, names, defaults; the first overload that takes the arguments
inline Val invoke(const std::string &name, const Overloads &fs, const Val *self, const Vals &pos, const Kwargs &named) {
    std::string why = "no such function";
    for (const auto &f : fs) {
        Vals v;
        args more;
        kwargs more_named;
        if (f->method) v.push_back(*self);
        bool ok = pos.size() <= f->count || f->more;
        size_t used = 0;
        for (size_t i = 0; ok && i < f->count; i++) {
            const bool has_name = i < f->params.size();
            if (i < pos.size()) {
                v.push_back(pos[i]);
                if (has_name && named.count(f->params[i].first)) ok = false;
            } else if (has_name && named.count(f->params[i].first)) {
                v.push_back(named.at(f->params[i].first));
                used++;
            } else if (has_name && f->params[i].second) {
                v.push_back(*f->params[i].second);
            } else {
                ok = false;
            }
        }
        for (size_t i = f->count; i < pos.size(); i++) more.push_back(pos[i]);
        if (!ok || (used != named.size() && !f->more_named)) { why = "incompatible arguments"; continue; }
        try {
            return f->run(*f, v, more, more_named);
        } catch (const TypeError &e) {
            why = e.what();
        }
    }
    throw TypeError(name + ": " + why);
}

struct ClassRec {
    std::type_index type = typeid(void);
    std::map<std::string, Overloads> methods, statics;
    Overloads constructors;
};

}

template<class... A> detail::Constructor<A...> init() { return {}; }
template<class F> detail::Factory<F> init(F f) { return {f}; }

struct object_sink { template<class T> object_sink &operator=(const T &) { return *this; } };
class module_ {
public:
    std::map<std::string, detail::ClassRec> classes;
    std::map<std::string, detail::Overloads> functions;
    std::string &doc() { return doc_; }
    object_sink attr(const char *) { return {}; }
    template<class F, class... X> module_ &def(const char *name, F f, const X &... x) {
        auto fn = detail::function<void>(std::is_member_function_pointer<F>(), f, false);
        detail::options(*fn, x...);
        functions[name].push_back(fn);
        return *this;
    }
private:
    std::string doc_;
};
using module = module_;

template<class T, class... Options> class class_ {
public:
    template<class... X> class_(module_ &m, const char *name, const X &...) : rec_(m.classes[name]) { rec_.type = typeid(T); }
    template<class... A, class... X> class_ &def(detail::Constructor<A...>, const X &... x) {
        auto make = [](A... a) { return std::make_shared<T>(std::forward<A>(a)...); };
        auto fn = detail::Wrap<std::shared_ptr<T>, A...>::make(make, false);
        detail::options(*fn, x...);
        rec_.constructors.push_back(fn);
        return *this;
    }
    template<class F, class... X> class_ &def(detail::Factory<F> f, const X &... x) {
        auto fn = detail::function<T>(std::false_type(), f.f, false);
        detail::options(*fn, x...);
        rec_.constructors.push_back(fn);
        return *this;
    }
    template<class F, class... X> class_ &def(const char *name, F f, const X &... x) {
        add(rec_.methods[name], f, true, x...);
        return *this;
    }
    template<class F, class... X> class_ &def_static(const char *name, F f, const X &... x) {
        add(rec_.statics[name], f, false, x...);
        return *this;
    }
private:
    template<class F, class... X> void add(detail::Overloads &to, F f, bool method, const X &... x) {
        auto fn = detail::function<T>(std::is_member_function_pointer<F>(), f, method);
        detail::options(*fn, x...);
        to.push_back(fn);
    }
    detail::ClassRec &rec_;
};

}

#define PYBIND11_MODULE(name, variable) void verif_init_module(::pybind11::module_ &variable)

#endif
