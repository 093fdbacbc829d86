// Registry with the registration interface of pybind11: harnesses call the registered functions with dynamically typed values,
// converted as pybind11 does (integers are range checked, texts and sequences copied, objects passed by reference).
#ifndef SX_STUB_PYBIND11
#define SX_STUB_PYBIND11
#include <cstdint>
#include <functional>
#include <limits>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "utils/custom_types.hpp"
namespace pybind11 {
struct builtin_exception : std::runtime_error { using std::runtime_error::runtime_error; builtin_exception() : std::runtime_error("") {} };
struct type_error : builtin_exception { using builtin_exception::builtin_exception; };
struct cast_error : builtin_exception { using builtin_exception::builtin_exception; };
struct value_error : builtin_exception { using builtin_exception::builtin_exception; };
struct index_error : builtin_exception { using builtin_exception::builtin_exception; };
struct key_error : builtin_exception { using builtin_exception::builtin_exception; };
enum class return_value_policy { automatic, automatic_reference, take_ownership, copy, move, reference, reference_internal };
template <class... T> struct call_guard {}; template <size_t A, size_t B> struct keep_alive {}; struct gil_scoped_release {}; struct gil_scoped_acquire {}; struct module_local {}; struct dynamic_attr {}; struct kw_only {};
struct arg { char const* n; explicit arg(char const* s) : n(s) {} template <class T> arg& operator=(T const&) { return *this; } arg& noconvert(bool = true) { return *this; } };
namespace literals { inline arg operator""_a(char const* s, size_t) { return arg(s); } }
enum Kind { NONE, INT, REAL, STR, LIST, OBJ };
struct Val { Kind k; long i; unsigned long u; bool big; double d; std::string s; std::vector<Val> l; void* p; void const* t; Val() : k(NONE), i(0), u(0), big(false), d(0), p(nullptr), t(nullptr) {} };
template <class T> void const* tag() { static char c; return &c; }
inline Val vint(long i) { Val v; v.k = INT; v.i = i; return v; }
inline Val vreal(double d) { Val v; v.k = REAL; v.d = d; return v; }
inline Val vstr(std::string const& s) { Val v; v.k = STR; v.s = s; return v; }
template <class T> Val vobj(T* p) { Val v; v.k = OBJ; v.p = (void*)p; v.t = tag<T>(); return v; }
// to C++
template <class T, class = void> struct In { static T& get(Val const& v) { if (v.k != OBJ || v.t != tag<T>()) throw type_error("incompatible function arguments"); return *(T*)v.p; } };
template <class T> struct In<T, typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type> { static T get(Val const& v) { if (v.k != INT) throw type_error("incompatible function arguments"); if (std::is_signed<T>::value ? v.i < (long)std::numeric_limits<T>::min() || v.i > (long)std::numeric_limits<T>::max() : v.i < 0 || (sizeof(T) < 8 && v.i > (long)std::numeric_limits<T>::max())) throw type_error("incompatible function arguments"); return (T)v.i; } };
template <> struct In<bool, void> { static bool get(Val const& v) { if (v.k != INT) throw type_error("incompatible function arguments"); return v.i != 0; } };
template <class T> struct In<T, typename std::enable_if<std::is_floating_point<T>::value>::type> { static T get(Val const& v) { if (v.k == INT) return (T)v.i; if (v.k != REAL) throw type_error("incompatible function arguments"); return (T)v.d; } };
template <> struct In<std::string, void> { static std::string get(Val const& v) { if (v.k != STR) throw type_error("incompatible function arguments"); return v.s; } };
template <class T, class A> struct In<std::vector<T, A>, void> { static std::vector<T, A> get(Val const& v) { if (v.k != LIST) throw type_error("incompatible function arguments"); std::vector<T, A> o; for (auto const& x : v.l) o.push_back(In<T>::get(x)); return o; } };
// to Python
template <class T, class = void> struct Out { static Val get(T const& x) { return vobj(new T(x)); } };
template <class T> struct Out<T, typename std::enable_if<std::is_integral<T>::value>::type> { static Val get(T x) { return vint((long)x); } };
template <class T> struct Out<T, typename std::enable_if<std::is_floating_point<T>::value>::type> { static Val get(T x) { return vreal((double)x); } };
template <> struct Out<std::string, void> { static Val get(std::string const& x) { return vstr(x); } };
template <> struct Out<char const*, void> { static Val get(char const* x) { return vstr(x); } };
template <class T, class A> struct Out<std::vector<T, A>, void> { static Val get(std::vector<T, A> const& x) { Val v; v.k = LIST; for (size_t i = 0; i < x.size(); ++i) v.l.push_back(Out<T>::get(x[i])); return v; } };
template <class T> struct IsObj : std::integral_constant<bool, std::is_class<T>::value> {}; template <> struct IsObj<std::string> : std::false_type {}; template <class T, class A> struct IsObj<std::vector<T, A>> : std::false_type {};
template <class T> typename std::enable_if<IsObj<T>::value, Val>::type member(T& x) { return vobj(&x); }
template <class T> typename std::enable_if<!IsObj<T>::value, Val>::type member(T& x) { return Out<T>::get(x); }
using Fn = std::function<Val(std::vector<Val> const&)>;
template <class T> using bare = typename std::remove_cv<typename std::remove_reference<T>::type>::type;
template <class T> using Got = decltype(In<bare<T>>::get(std::declval<Val const&>()));
template <size_t... I> struct Seq {}; template <size_t N, size_t... I> struct Mk : Mk<N - 1, N - 1, I...> {}; template <size_t... I> struct Mk<0, I...> { using type = Seq<I...>; };
template <class R> struct Call { template <class F, class Tup, size_t... I> static Val go(F& f, Tup& t, Seq<I...>) { return Out<bare<R>>::get(f(std::get<I>(t)...)); } };
template <> struct Call<void> { template <class F, class Tup, size_t... I> static Val go(F& f, Tup& t, Seq<I...>) { f(std::get<I>(t)...); return Val(); } };
template <class F, class R, class... A> struct Bound { F f; template <size_t... I> Val call(std::vector<Val> const& v, Seq<I...> q) { std::tuple<Got<A>...> t{In<bare<A>>::get(v[I])...}; (void)v; return Call<R>::go(f, t, q); }
    Val operator()(std::vector<Val> const& v) { if (v.size() != sizeof...(A)) throw type_error("incompatible function arguments"); return call(v, typename Mk<sizeof...(A)>::type()); } };
template <class R, class... A> Fn wrap(R (*f)(A...)) { Bound<R (*)(A...), R, A...> b{f}; return b; }
template <class R, class C, class... A> Fn wrap(R (C::*f)(A...)) { auto g = [f](C& c, A... a) -> R { return (c.*f)(a...); }; Bound<decltype(g), R, C&, A...> b{g}; return b; }
template <class R, class C, class... A> Fn wrap(R (C::*f)(A...) const) { auto g = [f](C& c, A... a) -> R { return (c.*f)(a...); }; Bound<decltype(g), R, C&, A...> b{g}; return b; }
template <class F, class R, class C, class... A> Fn wrapOp(F const& f, R (C::*)(A...) const) { Bound<F, R, A...> b{f}; return b; }
template <class F, class R, class C, class... A> Fn wrapOp(F const& f, R (C::*)(A...)) { Bound<F, R, A...> b{f}; return b; }
template <class F> auto wrap(F const& f) -> decltype(wrapOp(f, &F::operator())) { return wrapOp(f, &F::operator()); }
struct Name { std::string cls, name; Fn fn, get, set; size_t off; int overloads; };
struct Registry { std::vector<Name> names; };
inline Registry*& registry() { static Registry* r = nullptr; return r; }
inline Name* lookup(std::string const& c, std::string const& n) { for (auto& x : registry()->names) if (x.cls == c && x.name == n) return &x; return nullptr; }
inline void reg(std::string const& c, std::string const& n, Fn f) { if (Name* x = lookup(c, n)) { Fn a = x->fn; x->fn = [a, f](std::vector<Val> const& v) -> Val { try { return a(v); } catch (type_error&) { return f(v); } }; return; } Name x; x.cls = c; x.name = n; x.fn = f; x.off = ~(size_t)0; registry()->names.push_back(x); }
template <class... A> struct init_t {}; template <class... A> init_t<A...> init() { return init_t<A...>(); }
template <class F> struct initf_t { F f; }; template <class F> initf_t<F> init(F f) { return initf_t<F>{f}; }
struct handle {}; struct object : handle {};
struct module_ { std::string name; struct Doc { template <class T> Doc& operator=(T const&) { return *this; } }; struct DocF { Doc operator()() const { return Doc(); } } doc; struct At { template <class T> At& operator=(T const&) { return *this; } }; At attr(char const*) { return At(); } template <class F, class... X> module_& def(char const* n, F f, X const&...) { reg("", n, wrap(f)); return *this; } operator object() const { return object(); } };
using module = module_;
template <class T, class... Base> struct class_ {
    std::string n;
    template <class M, class... X> class_(M const&, char const* name, X const&...) : n(name) {}
    template <class F, class... X> class_& def(char const* name, F f, X const&...) { reg(n, name, wrap(f)); return *this; }
    template <class... A, class... X> class_& def(init_t<A...>, X const&...) { auto g = [](A... a) -> T* { return new T{a...}; }; std::string c = n; Bound<decltype(g), T*, A...> b{g}; reg(n, "__init__", [b](std::vector<Val> const& v) mutable -> Val { return ctor(b, v, typename Mk<sizeof...(A)>::type()); }); return *this; }
    template <class F, class... X> class_& def(initf_t<F> i, X const&...) { reg(n, "__init__", wrap(i.f)); return *this; }
    template <class F, class... A, size_t... I> static Val ctor(Bound<F, T*, A...>& b, std::vector<Val> const& v, Seq<I...>) { if (v.size() != sizeof...(A)) throw type_error("incompatible constructor arguments"); return vobj(b.f(In<bare<A>>::get(v[I])...)); }
    template <class F, class... X> class_& def_static(char const* name, F f, X const&...) { reg(n, name, wrap(f)); return *this; }
    Name& prop(char const* name) { if (Name* x = lookup(n, name)) return *x; Name x; x.cls = n; x.name = name; x.off = ~(size_t)0; registry()->names.push_back(x); return registry()->names.back(); }
    template <class C, class M, class... X> class_& def_readwrite(char const* name, M C::*p, X const&... x) { def_readonly(name, p, x...); prop(name).set = [p](std::vector<Val> const& v) -> Val { In<T>::get(v[0]).*p = In<M>::get(v[1]); return Val(); }; return *this; }
    template <class C, class M, class... X> class_& def_readonly(char const* name, M C::*p, X const&...) { Name& x = prop(name); x.off = (size_t)&(((T*)4096)->*p) - 4096; x.get = [p](std::vector<Val> const& v) -> Val { return member(In<T>::get(v[0]).*p); }; return *this; }
    template <class G, class S, class... X> class_& def_property(char const* name, G g, S s, X const&... x) { def_property_readonly(name, g); prop(name).set = wrap(s); return *this; }
    template <class G, class... X> class_& def_property_readonly(char const* name, G g, X const&...) { prop(name).get = wrap(g); return *this; }
};
inline Val call(std::string const& c, std::string const& n, std::vector<Val> const& v) { Name* x = lookup(c, n); if (!x || !x->fn) throw std::logic_error("no such function " + c + "." + n); return x->fn(v); }
inline Val getattr(std::string const& c, std::string const& n, Val const& o) { Name* x = lookup(c, n); if (!x || !x->get) throw std::logic_error("no such attribute " + c + "." + n); return x->get({o}); }
inline void setattr(std::string const& c, std::string const& n, Val const& o, Val const& v) { Name* x = lookup(c, n); if (!x || !x->set) throw std::logic_error("no such writable attribute " + c + "." + n); x->set({o, v}); }
}
#define PYBIND11_MODULE(name, var, ...) static void sx_py_module(pybind11::module_& var)
#endif
