// Just enough of pybind11 to call a module's functions the way Python does: by position and by keyword.
#pragma once
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <tuple>
#include <vector>
namespace pybind11 {
struct Value {                                   // a Python object
  enum Type { None, Bool, Int, Str, List } type = None;
  long i = 0; std::string s; std::vector<std::string> l;
  Value() {}
  Value(bool b) : type(Bool), i(b) {}
  Value(int x) : type(Int), i(x) {}
  Value(const char* x) : type(Str), s(x) {}
  Value(const std::string& x) : type(Str), s(x) {}
  Value(const std::vector<std::string>& x) : type(List), l(x) {}
};
struct type_error : std::runtime_error { using std::runtime_error::runtime_error; };
inline void from(const Value& v, bool& o) { if (v.type != Value::Bool) throw type_error("not a bool"); o = v.i; }
inline void from(const Value& v, std::string& o) { if (v.type != Value::Str) throw type_error("not a str"); o = v.s; }
inline void from(const Value& v, std::vector<std::string>& o) { if (v.type != Value::List) throw type_error("not a list"); o = v.l; }
template <class I, class = std::enable_if_t<std::is_integral<I>::value && !std::is_same<I, bool>::value>> void from(const Value& v, I& o) {
  if (v.type != Value::Int && v.type != Value::Bool) throw type_error("not an int");
  o = (I)v.i;
}
struct arg_v { std::string name; Value v; };
struct arg {
  std::string name;
  explicit arg(const char* n) : name(n) {}
  template <class T> arg_v operator=(T&& v) const { return arg_v{name, Value(std::forward<T>(v))}; }
};
namespace literals { inline arg operator""_a(const char* n, size_t) { return arg(n); } }
struct gil_scoped_release {}; struct gil_scoped_acquire {};
template <class... T> struct call_guard {};
struct Param { std::string name; bool has = false; Value def; };
struct Function { std::vector<Param> params; std::function<void(const std::vector<Value>&)> call; };
struct module_ {
  std::map<std::string, Function> f;
  std::string text;
  std::string& doc() { return text; }
  void take(Function& o, const arg& a) { o.params.push_back(Param{a.name, false, Value()}); }
  void take(Function& o, const arg_v& a) { o.params.push_back(Param{a.name, true, a.v}); }
  template <class T> void take(Function&, const T&) {}
  template <class R, class... A, size_t... I> static void apply(const std::function<R(A...)>& g, const std::vector<Value>& v, std::index_sequence<I...>) {
    std::tuple<std::decay_t<A>...> t;
    (void)std::initializer_list<int>{(from(v[I], std::get<I>(t)), 0)...};
    g(std::forward<A>(std::get<I>(t))...);
  }
  template <class R, class... A> void wrap(Function& o, std::function<R(A...)> g) {
    o.call = [g](const std::vector<Value>& v) { if (v.size() != sizeof...(A)) throw type_error("number of arguments"); apply(g, v, std::index_sequence_for<A...>()); };
    if (o.params.empty()) o.params.resize(sizeof...(A));
  }
  template <class R, class... A> static std::function<R(A...)> as_function(R (*f)(A...)) { return f; }
  template <class L, class R, class... A> static std::function<R(A...)> lambda(const L& f, R (L::*)(A...) const) { return f; }
  template <class L> static auto as_function(const L& f) { return lambda(f, &L::operator()); }
  template <class F, class... E> module_& def(const char* name, F fn, const E&... extra) {
    Function o;
    (void)std::initializer_list<int>{(take(o, extra), 0)...};
    wrap(o, as_function(fn));
    f[name] = o;
    return *this;
  }
  // what the interpreter does with name(*positional, **keywords)
  void call(const std::string& name, const std::vector<Value>& positional, const std::map<std::string, Value>& keywords) {
    auto it = f.find(name);
    if (it == f.end()) throw std::logic_error("AttributeError " + name);
    const Function& o = it->second;
    std::vector<Value> v;
    size_t used = 0;
    if (positional.size() > o.params.size()) throw type_error("too many arguments");
    for (size_t i = 0; i < o.params.size(); i++) {
      auto k = keywords.find(o.params[i].name);
      if (i < positional.size()) { if (k != keywords.end()) throw type_error("given twice"); v.push_back(positional[i]); }
      else if (k != keywords.end()) { v.push_back(k->second); used++; }
      else if (o.params[i].has) v.push_back(o.params[i].def);
      else throw type_error("missing " + o.params[i].name);
    }
    if (used != keywords.size()) throw type_error("unknown keyword");
    o.call(v);
  }
};
typedef module_ module;
}  // namespace pybind11
#define PYBIND11_MODULE(name, m) static void pybind11_module_##name(::pybind11::module_& m)
