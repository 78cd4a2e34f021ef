// C21: the Python modules of pyexactreal, executed by an embedded interpreter.  cppyy is not available; python/cppyy.py
// stands in for it and reaches the library through call() below.  The cases and the oracle are in python/cases.py.
#define PY_SSIZE_T_CLEAN
#include <Python.h>

#include <cereal/archives/json.hpp>
#include <e-antic/renfxx.h>
#include <e-antic/cereal.hpp>
#include <exact-real/arb.hpp>
#include <exact-real/arf.hpp>
#include <exact-real/cereal.hpp>
#include <exact-real/cppyy.hpp>
#include <exact-real/element.hpp>
#include <exact-real/integer_ring.hpp>
#include <exact-real/module.hpp>
#include <exact-real/number_field.hpp>
#include <exact-real/rational_field.hpp>
#include <exact-real/real_number.hpp>
#include <variant>

#include "common.hpp"

using namespace exactreal;
namespace py = exactreal::cppyy;

namespace verif {
namespace {
using Real = std::shared_ptr<const RealNumber>;
template <typename R>
using Mod = std::shared_ptr<const Module<R>>;
using Field = boost::intrusive_ptr<const eantic::renf_class>;
using Box = std::variant<Real, Mod<IntegerRing>, Mod<RationalField>, Mod<NumberField>, Element<IntegerRing>, Element<RationalField>, Element<NumberField>, Field,
                         eantic::renf_elem_class, Arb, Arf, mpz_class, mpq_class, int, double>;

struct Error : std::runtime_error {
  using std::runtime_error::runtime_error;
};

void destroy(PyObject* c) { delete static_cast<Box*>(PyCapsule_GetPointer(c, "box")); }
PyObject* wrap(Box b) { return PyCapsule_New(new Box(std::move(b)), "box", destroy); }
PyObject* text(const std::string& s) { return PyUnicode_DecodeUTF8(s.data(), static_cast<Py_ssize_t>(s.size()), "replace"); }
PyObject* boolean(bool b) { return PyBool_FromLong(b); }

std::string str_(PyObject* o) {
  Py_ssize_t n;
  const char* s = PyUnicode_AsUTF8AndSize(o, &n);
  if (!s) throw Error("not a string");
  return {s, static_cast<size_t>(n)};
}

// What is passed to the library: a box, an integer, a double, or a pair of "z" or "q" and the digits.
Box unwrap(PyObject* o) {
  if (PyCapsule_CheckExact(o)) return *static_cast<Box*>(PyCapsule_GetPointer(o, "box"));
  if (PyLong_Check(o)) {
    int overflow = 0;
    const long v = PyLong_AsLongAndOverflow(o, &overflow);
    if (overflow || v != static_cast<int>(v)) throw Error("integer too large for the stand-in");
    return static_cast<int>(v);
  }
  if (PyFloat_Check(o)) return PyFloat_AsDouble(o);
  if (PyTuple_Check(o) && PyTuple_GET_SIZE(o) == 2) {
    const std::string kind = str_(PyTuple_GET_ITEM(o, 0)), value = str_(PyTuple_GET_ITEM(o, 1));
    if (kind == "z") return mpz_class(value);
    mpq_class q(value);
    q.canonicalize();
    return q;
  }
  throw Error("argument that the stand-in does not understand");
}
template <typename T>
T get(PyObject* o) {
  Box b = unwrap(o);
  if (auto* t = std::get_if<T>(&b)) return std::move(*t);
  throw Error("argument of another type");
}
template <typename C>
C number(PyObject* o) {
  return std::visit([](const auto& x) -> C {
    if constexpr (std::is_constructible_v<C, decltype(x)> && !std::is_same_v<std::decay_t<decltype(x)>, double>) return C(x);
    else throw Error("not a coefficient"); }, unwrap(o));
}

struct Args {
  PyObject* t;
  PyObject* operator[](int i) const {
    if (i + 1 >= PyTuple_GET_SIZE(t)) throw Error("missing argument");
    return PyTuple_GET_ITEM(t, i + 1);
  }
  int size() const { return static_cast<int>(PyTuple_GET_SIZE(t)) - 1; }
};

PyObject* maybe(PyObject* x) { return x; }
template <typename T>
PyObject* result(const T& x) {
  if constexpr (std::is_same_v<T, mpz_class> || std::is_same_v<T, mpq_class>) return text(x.get_str());
  else if constexpr (std::is_same_v<T, bool>) return boolean(x);
  else return wrap(x);
}
template <typename T>
PyObject* result(const std::optional<T>& x) {
  // A list of at most one.
  PyObject* l = PyList_New(0);
  if (x) {
    PyObject* v = result(*x);
    PyList_Append(l, v);
    Py_DECREF(v);
  }
  return l;
}

// The helpers of exact-real/cppyy.hpp.
template <typename S, typename T>
PyObject* arithmetic(const std::string& op, const S& a, const T& b) {
  if (op == "add" || op == "sub") {
    if constexpr (std::is_same_v<S, T>) return op == "add" ? result(py::add(a, b)) : result(py::sub(a, b));
    else throw Error("no such sum");
  }
  if (op == "mul") return result(py::mul(a, b));
  throw Error("no operation " + op);
}
template <typename R>
PyObject* elementArithmetic(const std::string& op, PyObject* x, PyObject* y) {
  using E = Element<R>;
  return std::visit([&](const auto& a, const auto& b) -> PyObject* {
    using A = std::decay_t<decltype(a)>;
    using B = std::decay_t<decltype(b)>;
    constexpr bool ea = std::is_same_v<A, E>, eb = std::is_same_v<B, E>;
    constexpr bool sa = std::is_same_v<A, int> || std::is_same_v<A, mpz_class> || (std::is_same_v<A, mpq_class> && !std::is_same_v<R, IntegerRing>) || (std::is_same_v<A, eantic::renf_elem_class> && std::is_same_v<R, NumberField>);
    constexpr bool sb = std::is_same_v<B, int> || std::is_same_v<B, mpz_class> || (std::is_same_v<B, mpq_class> && !std::is_same_v<R, IntegerRing>) || (std::is_same_v<B, eantic::renf_elem_class> && std::is_same_v<R, NumberField>);
    if constexpr ((ea && (eb || sb)) || (sa && eb)) {
      if constexpr (ea) {
        if (op == "truediv") return result(py::truediv(a, b));
      }
      return arithmetic(op, a, b);
    } else throw Error("no such operation"); }, unwrap(x), unwrap(y));
}

template <typename R>
PyObject* ofRing(const std::string& op, const Args& a) {
  using E = Element<R>;
  using C = typename R::ElementClass;
  using M = Mod<R>;
  if (op == "module") {
    typename Module<R>::Basis b;
    for (Py_ssize_t i = 0; i < PyList_Size(a[0]); i++) b.push_back(get<Real>(PyList_GET_ITEM(a[0], i)));
    if constexpr (std::is_same_v<R, NumberField>) return wrap(Module<R>::make(b, a.size() > 1 && a[1] != Py_None ? NumberField(get<Field>(a[1])) : NumberField()));
    else return wrap(Module<R>::make(b, R()));
  }
  if (op == "element") {
    if (a.size() == 0) return wrap(E());
    std::vector<C> c;
    for (Py_ssize_t i = 0; i < PyList_Size(a[1]); i++) c.push_back(number<C>(PyList_GET_ITEM(a[1], i)));
    return wrap(E(get<M>(a[0]), c));
  }
  if (op == "add" || op == "sub" || op == "mul" || op == "truediv") return elementArithmetic<R>(op, a[0], a[1]);
  if (op == "loadmodule") return wrap(py::deserialize<M, cereal::JSONInputArchive>(str_(a[0])));
  if (op == "loadelement") return wrap(py::deserialize<E, cereal::JSONInputArchive>(str_(a[0])));
  Box b = unwrap(a[0]);
  if (auto* m = std::get_if<M>(&b)) {
    if (op == "gen") return wrap((*m)->gen(static_cast<size_t>(get<int>(a[1]))));
    if (op == "zero") return wrap((*m)->zero());
    if (op == "one") return wrap((*m)->one());
    if (op == "rank") return PyLong_FromUnsignedLong((*m)->rank());
    if (op == "basis") {
      PyObject* l = PyList_New(0);
      for (auto& g : (*m)->basis()) {
        PyObject* v = wrap(g);
        PyList_Append(l, v);
        Py_DECREF(v);
      }
      return l;
    }
    if (op == "eq") return boolean(**m == *get<M>(a[1]));
    if (op == "address") return PyLong_FromVoidPtr(const_cast<Module<R>*>(m->get()));
    if (op == "str") return text(str(**m));
    if (op == "serialize") return text(py::serialize<M, cereal::JSONOutputArchive>(*m));
  }
  if (auto* e = std::get_if<E>(&b)) {
    if (op == "neg") return wrap(py::neg(*e));
    if (op == "moduleof") return wrap(e->module());
    if (op == "floor") return text(e->floor().get_str());
    if (op == "ceil") return text(e->ceil().get_str());
    if (op == "floordiv") return text(e->floordiv(get<E>(a[1])).get_str());
    if (op == "unit") return boolean(e->unit());
    if (op == "simplify") {
      // in place, as the method of the library
      std::get<E>(*static_cast<Box*>(PyCapsule_GetPointer(a[0], "box"))).simplify();
      Py_RETURN_NONE;
    }
    if (op == "coefficients") {
      PyObject* l = PyList_New(0);
      for (auto& c : e->coefficients()) {
        PyObject* v = result(c);
        PyList_Append(l, v);
        Py_DECREF(v);
      }
      return l;
    }
    if (op == "hash") return PyLong_FromSize_t(std::hash<E>()(*e));
    if (op == "double") return PyFloat_FromDouble(static_cast<double>(*e));
    if (op == "bool") return boolean(static_cast<bool>(*e));
    if (op == "str") return text(str(*e));
    if (op == "optional_integer") return result(py::optional_integer(*e));
    if (op == "optional_rational") return result(py::optional_rational(*e));
    if (op == "lt" || op == "eq" || op == "gt")
      return std::visit([&](const auto& y) -> PyObject* {
        using Y = std::decay_t<decltype(y)>;
        if constexpr (std::is_same_v<Y, E> || std::is_same_v<Y, int> || std::is_same_v<Y, mpz_class> || std::is_same_v<Y, mpq_class>) return boolean(op == "lt" ? *e < y : op == "gt" ? *e > y : *e == y);
        else throw Error("no such comparison"); }, unwrap(a[1]));
    if (op == "serialize") return text(py::serialize<E, cereal::JSONOutputArchive>(*e));
  }
  throw Error("no operation " + op);
}

template <typename T>
Arf arf(const T& x) {
  if constexpr (std::is_constructible_v<Arf, const T&>) return Arf(x);
  else throw Error("not a float");
}

PyObject* real(const std::string& op, const Args& a) {
  if (op == "rational") return wrap(RealNumber::rational(number<mpq_class>(a[0])));
  if (op == "random") {
    if (a.size() == 0) return wrap(RealNumber::random());
    auto toArf = [&](PyObject* o) { return std::visit([](const auto& x) { return arf(x); }, unwrap(o)); };
    if (a.size() == 2) return wrap(RealNumber::random(toArf(a[0]), toArf(a[1])));
    Box b = unwrap(a[0]);
    return wrap(RealNumber::random(std::holds_alternative<int>(b) ? std::get<int>(b) : std::get<double>(b)));
  }
  if (op == "load") return wrap(py::deserialize<Real, cereal::JSONInputArchive>(str_(a[0])));
  const Real x = get<Real>(a[0]);
  if (op == "mul") return wrap(*x * *get<Real>(a[1]));
  if (op == "str") return text(str(*x));
  if (op == "double") return PyFloat_FromDouble(static_cast<double>(*x));
  if (op == "bool") return boolean(static_cast<bool>(*x));
  if (op == "address") return PyLong_FromVoidPtr(const_cast<RealNumber*>(x.get()));
  if (op == "serialize") return text(py::serialize<Real, cereal::JSONOutputArchive>(x));
  if (op == "approximation") {
    // mantissa and exponent
    const Arf f = x->arf(get<int>(a[1]));
    fmpz_t m, e;
    fmpz_init(m);
    fmpz_init(e);
    arf_get_fmpz_2exp(m, e, f.arf_t());
    char* s = fmpz_get_str(nullptr, 10, m);
    PyObject* r = Py_BuildValue("(sl)", s, static_cast<long>(fmpz_get_si(e)));
    flint_free(s);
    fmpz_clear(m);
    fmpz_clear(e);
    return r;
  }
  if (op == "lt" || op == "eq")
    return std::visit([&](const auto& y) -> PyObject* {
      using Y = std::decay_t<decltype(y)>;
      if constexpr (std::is_same_v<Y, Real>) return boolean(op == "lt" ? *x < *y : *x == *y);
      else if constexpr (std::is_same_v<Y, int> || std::is_same_v<Y, mpz_class> || std::is_same_v<Y, mpq_class> || std::is_same_v<Y, Arf>) return boolean(op == "lt" ? *x < y : *x == y);
      else throw Error("no such comparison"); }, unwrap(a[1]));
  throw Error("no operation " + op);
}

// Floats and balls; one operation at a time.
PyObject* ball(const std::string& op, const Args& a) {
  if (op == "make")
    return std::visit([&](const auto& x) -> PyObject* {
      using X = std::decay_t<decltype(x)>;
      if constexpr (std::is_same_v<X, mpq_class>) return wrap(Arb(x, static_cast<prec>(get<int>(a[1]))));
      else if constexpr (std::is_same_v<X, int> || std::is_same_v<X, mpz_class> || std::is_same_v<X, Arf>) return wrap(Arb(x));
      else throw Error("no such ball"); }, unwrap(a[0]));
  if (op == "add" || op == "sub" || op == "mul" || op == "truediv") {
    const auto p = static_cast<prec>(get<int>(a[2]));
    return std::visit([&](const auto& x, const auto& y) -> PyObject* {
      using X = std::decay_t<decltype(x)>;
      using Y = std::decay_t<decltype(y)>;
      if constexpr ((std::is_same_v<X, Arb> && (std::is_same_v<Y, Arb> || std::is_same_v<Y, int>)) || (std::is_same_v<X, int> && std::is_same_v<Y, Arb>)) {
        if (op == "add") return wrap(py::eval(py::add(x, y), p));
        if (op == "sub") return wrap(py::eval(py::sub(x, y), p));
        if (op == "mul") return wrap(py::eval(py::mul(x, y), p));
        return wrap(py::eval(py::truediv(x, y), p));
      } else throw Error("no such operation"); }, unwrap(a[0]), unwrap(a[1]));
  }
  const Arb x = get<Arb>(a[0]);
  if (op == "neg") return wrap(py::neg(x));
  if (op == "round") return wrap(py::eval(x, static_cast<prec>(get<int>(a[1]))));
  if (op == "str") return text(str(x));
  if (op == "bounds") {
    arf_t l, u;
    arf_init(l);
    arf_init(u);
    arb_get_interval_arf(l, u, x.arb_t(), 200);
    PyObject* r = PyList_New(0);
    for (arf_ptr f : {l, u}) {
      fmpq_t q;
      fmpq_init(q);
      PyObject* s;
      if (arf_is_finite(f)) {
        arf_get_fmpq(q, f);
        char* d = fmpq_get_str(nullptr, 10, q);
        s = text(d);
        flint_free(d);
      } else s = text("");
      fmpq_clear(q);
      PyList_Append(r, s);
      Py_DECREF(s);
    }
    arf_clear(l);
    arf_clear(u);
    return r;
  }
  return std::visit([&](const auto& y) -> PyObject* {
    using Y = std::decay_t<decltype(y)>;
    if constexpr (std::is_same_v<Y, Arb> || std::is_same_v<Y, int>) {
      return op == "lt" ? result(std::optional<bool>(x < y)) : op == "le" ? result(std::optional<bool>(x <= y)) : op == "gt" ? result(std::optional<bool>(x > y)) : op == "ge" ? result(std::optional<bool>(x >= y)) : op == "eq" ? result(std::optional<bool>(x == y)) : op == "ne" ? result(std::optional<bool>(x != y)) : throw Error("no operation " + op);
    } else throw Error("no such comparison"); }, unwrap(a[1]));
}

std::string dyadic(const Arf& f) {
  fmpq_t q;
  fmpq_init(q);
  arf_get_fmpq(q, f.arf_t());
  char* d = fmpq_get_str(nullptr, 10, q);
  const std::string r = d;
  flint_free(d);
  fmpq_clear(q);
  return r;
}
PyObject* floating(const std::string& op, const Args& a) {
  if (op == "make") return std::visit([](const auto& x) { return wrap(arf(x)); }, unwrap(a[0]));
  if (op == "add" || op == "sub" || op == "mul" || op == "truediv") {
    const auto p = static_cast<prec>(get<int>(a[2]));
    const auto r = static_cast<Arf::Round>(get<int>(a[3]));
    return std::visit([&](const auto& x, const auto& y) -> PyObject* {
      using X = std::decay_t<decltype(x)>;
      using Y = std::decay_t<decltype(y)>;
      if constexpr ((std::is_same_v<X, Arf> && (std::is_same_v<Y, Arf> || std::is_same_v<Y, int>)) || (std::is_same_v<X, int> && std::is_same_v<Y, Arf>)) {
        if (op == "add") return wrap(py::eval(py::add(x, y), p, r));
        if (op == "sub") return wrap(py::eval(py::sub(x, y), p, r));
        if (op == "mul") return wrap(py::eval(py::mul(x, y), p, r));
        return wrap(py::eval(py::truediv(x, y), p, r));
      } else throw Error("no such operation"); }, unwrap(a[0]), unwrap(a[1]));
  }
  const Arf x = get<Arf>(a[0]);
  if (op == "neg") return wrap(py::neg(x));
  if (op == "round") return wrap(py::eval(x, static_cast<prec>(get<int>(a[1])), static_cast<Arf::Round>(get<int>(a[2]))));
  if (op == "value") return text(dyadic(x));
  if (op == "str") return text(str(x));
  return std::visit([&](const auto& y) -> PyObject* {
    using Y = std::decay_t<decltype(y)>;
    if constexpr (std::is_same_v<Y, Arf> || std::is_same_v<Y, int>) return boolean(op == "lt" ? x < y : op == "le" ? x <= y : op == "gt" ? x > y : op == "ge" ? x >= y : op == "eq" ? x == y : op == "ne" ? x != y : throw Error("no operation " + op));
    else throw Error("no such comparison"); }, unwrap(a[1]));
}

PyObject* field(const std::string& op, const Args& a) {
  if (op == "make") return wrap(eantic::renf_class::make(str_(a[0]), str_(a[1]), str_(a[2])));
  const Field K = get<Field>(a[0]);
  if (op == "elem") {
    std::vector<mpq_class> c;
    for (Py_ssize_t i = 0; i < PyList_Size(a[1]); i++) c.push_back(number<mpq_class>(PyList_GET_ITEM(a[1], i)));
    return wrap(eantic::renf_elem_class(*K, c));
  }
  throw Error("no operation " + op);
}
PyObject* fieldElement(const std::string& op, const Args& a) {
  const auto x = get<eantic::renf_elem_class>(a[0]);
  if (op == "coefficients") {
    PyObject* l = PyList_New(0);
    const mpz_class den = x.den();
    for (auto& n : x.num_vector()) {
      mpq_class q(n, den);
      q.canonicalize();
      PyObject* v = text(q.get_str());
      PyList_Append(l, v);
      Py_DECREF(v);
    }
    return l;
  }
  throw Error("no operation " + op);
}

PyObject* call(PyObject*, PyObject* t) {
  try {
    const std::string name = str_(PyTuple_GET_ITEM(t, 0));
    const auto dot = name.find('.');
    const std::string on = name.substr(0, dot), op = name.substr(dot + 1);
    const Args a{t};
    at(name);
    tally("calls of the library from Python");
    if (on == "real") return real(op, a);
    if (on == "Z") return ofRing<IntegerRing>(op, a);
    if (on == "Q") return ofRing<RationalField>(op, a);
    if (on == "K") return ofRing<NumberField>(op, a);
    if (on == "ball") return ball(op, a);
    if (on == "float") return floating(op, a);
    if (on == "rounding") return PyLong_FromLong(static_cast<long>(op == "DOWN" ? Arf::Round::DOWN : op == "UP" ? Arf::Round::UP : op == "FLOOR" ? Arf::Round::FLOOR : op == "CEIL" ? Arf::Round::CEIL : Arf::Round::NEAR));
    if (on == "field") return field(op, a);
    if (on == "fieldElement") return fieldElement(op, a);
    throw Error("no operation " + name);
  } catch (const Error& e) {
    PyErr_SetString(PyExc_TypeError, e.what());
  } catch (const std::logic_error& e) {
    PyErr_SetString(PyExc_ValueError, e.what());
  } catch (const std::exception& e) {
    PyErr_SetString(PyExc_RuntimeError, e.what());
  }
  return nullptr;
}
PyObject* tally_(PyObject*, PyObject* t) {
  tally(str_(PyTuple_GET_ITEM(t, 0)));
  Py_RETURN_NONE;
}

PyMethodDef methods[] = {{"call", call, METH_VARARGS, ""}, {"tally", tally_, METH_VARARGS, ""}, {nullptr, nullptr, 0, nullptr}};
PyModuleDef definition = {PyModuleDef_HEAD_INIT, "_bridge", "", -1, methods, nullptr, nullptr, nullptr, nullptr};
PyObject* create() { return PyModule_Create(&definition); }

std::string attribute(PyObject* o, const char* name) {
  PyObject* v = PyObject_GetAttrString(o, name);
  const char* s = v ? PyUnicode_AsUTF8(v) : nullptr;
  std::string r = s ? s : "?";
  Py_XDECREF(v);
  PyErr_Clear();
  return r;
}

PyObject* cases() {
  static PyObject* run = [] {
    const char* repo = getenv("VERIF_SOURCES");
    const std::string here = __FILE__, dir = here.substr(0, here.rfind('/')) + "/python", sources = std::string(repo ? repo : "/repo") + "/pyexactreal/src";
    PyImport_AppendInittab("_bridge", create);
    PyConfig config;
    PyConfig_InitIsolatedConfig(&config);
    config.write_bytecode = 0;
    config.install_signal_handlers = 0;
    config.site_import = 0;
    config.use_hash_seed = 1;
    config.hash_seed = 1;
    const PyStatus status = Py_InitializeFromConfig(&config);
    PyConfig_Clear(&config);
    if (PyStatus_Exception(status)) {
      fprintf(stderr, "cannot start Python\n");
      _exit(2);
    }
    PyObject* path = PySys_GetObject("path");
    int i = 0;
    for (auto& p : {dir, sources}) {
      PyObject* s = text(p);
      PyList_Insert(path, i++, s);
      Py_DECREF(s);
    }
    PyObject* module = PyImport_ImportModule("cases");
    if (!module) {
      PyErr_Print();
      fflush(stderr);
      _exit(2);
    }
    return PyObject_GetAttrString(module, "run");
  }();
  return run;
}
}  // namespace

PROPERTY(C21) {
  PyObject* r = PyObject_CallFunction(cases(), "sl", (std::to_string(rng.next())).c_str(), index);
  if (!r) {
    PyObject *type, *value, *trace;
    PyErr_Fetch(&type, &value, &trace);
    PyErr_NormalizeException(&type, &value, &trace);
    const std::string key = attribute(value, "key"), detail = attribute(value, "detail");
    Py_XDECREF(type);
    Py_XDECREF(value);
    Py_XDECREF(trace);
    fail(key, detail);
  }
  const std::string what = str_(r);
  Py_DECREF(r);
  cover(hstr(what));
  if (index < 40 && index % 8 == 0) sample(what.substr(0, 300));
}
}  // namespace verif
