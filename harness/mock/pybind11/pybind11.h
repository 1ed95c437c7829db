// Stand-in for pybind11: values without an interpreter, checked array access, and a table of the exported functions.
#ifndef MOCK_PYBIND11_H_
#define MOCK_PYBIND11_H_
#include <functional>
#include <initializer_list>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
#include <algorithm>
#include <sys/types.h>
namespace pybind11
{
typedef ssize_t ssize_t;
struct Val { enum Kind { NONE, ARRAY, LIST, STR, NUM } kind = NONE; std::vector<size_t> shape; std::vector<double> d; std::vector<std::shared_ptr<Val>> items; std::string s; double num = 0; };
typedef std::shared_ptr<Val> VP;
class object { public: VP v; object() : v(new Val) {} explicit object(VP p) : v(p) {} };
typedef object handle;
class list : public object
{
public:
  list() { v->kind = Val::LIST; }
  explicit list(size_t n) { v->kind = Val::LIST; v->items.resize(n); }
  struct Item { VP &p; void operator=(const object &o) { p = o.v; } operator object() const { return object(p); } };
  Item operator[](size_t i) const { if (i >= v->items.size()) throw std::out_of_range("list index"); return Item{v->items[i]}; }
  bool empty() const { return v->items.empty(); }
  void append(const object &o) { v->items.push_back(o.v); }
  size_t size() const { return v->items.size(); }
};
class str : public object { public: str(const std::string &x) { v->kind = Val::STR; v->s = x; } };
inline object cast(const object &o) { return o; }
class none : public object {};
inline size_t len(const object &o) { return o.v->kind == Val::ARRAY ? (o.v->shape.empty() ? 0 : o.v->shape[0]) : o.v->items.size(); }
struct index_error : std::runtime_error { using std::runtime_error::runtime_error; };
struct value_error : std::runtime_error { using std::runtime_error::runtime_error; };

struct arg_v { const char *name; VP v; };
struct arg
{
  const char *name; explicit arg(const char *n) : name(n) {}
  arg &noconvert() { return *this; }
  arg_v operator=(double x) const { VP v(new Val); v->kind = Val::NUM; v->num = x; return arg_v{name, v}; }
  arg_v operator=(int x) const { return *this = (double)x; }
  arg_v operator=(bool x) const { return *this = (double)x; }
  arg_v operator=(const char *x) const { VP v(new Val); v->kind = Val::STR; v->s = x; return arg_v{name, v}; }
};
template <class T, class = void> struct Caster { static T load(const VP &v) { return T(object(v)); } };
template <> struct Caster<std::string> { static std::string load(const VP &v) { if (v->kind != Val::STR) throw value_error("str expected"); return v->s; } };
template <class T> struct Caster<T, typename std::enable_if<std::is_arithmetic<T>::value>::type>
{ static T load(const VP &v) { if (v->kind != Val::NUM) throw value_error("number expected"); if (std::is_integral<T>::value && (double)(long long)v->num != v->num) throw value_error("int expected"); return (T)v->num; } };

struct Fn { size_t arity; std::vector<std::string> names; std::map<size_t, VP> defaults; std::function<object(const std::vector<VP> &)> call; };
class module_
{
public:
  static std::map<std::string, Fn> &table() { static std::map<std::string, Fn> t; return t; }
  module_ &doc() { return *this; }
  template <class R, class... A, class... X> module_ &def(const char *name, R (*f)(A...), const X &...x) { return bind<R, A...>(name, f, std::index_sequence_for<A...>(), x...); }
private:
  static void extra(Fn &f, const arg &a) { f.names.push_back(a.name); }
  static void extra(Fn &f, const arg_v &a) { f.defaults[f.names.size()] = a.v; f.names.push_back(a.name); }
  static void extra(Fn &, const char *) {}
  template <class R, class... A, size_t... I, class... X> module_ &bind(const char *name, R (*f)(A...), std::index_sequence<I...>, const X &...x)
  {
    Fn fn; fn.arity = sizeof...(A);
    int dummy[] = {0, (extra(fn, x), 0)...}; (void)dummy;
    fn.call = [f](const std::vector<VP> &a) -> object {
      std::tuple<typename std::decay<A>::type...> t{Caster<typename std::decay<A>::type>::load(a[I])...};
      return object(f(std::get<I>(t)...).v);
    };
    table()[name] = fn; return *this;
  }
};
typedef module_ module;
}
#define PYBIND11_MODULE(NAME, M) void mock_init_##NAME(pybind11::module_ &M)
#define PYBIND11_PLUGIN(NAME) void mock_init_##NAME()
#endif
