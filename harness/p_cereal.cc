// C17: serialization, in this process and into a fresh one.
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/types/string.hpp>
#include <cereal/types/utility.hpp>
#include <cereal/types/vector.hpp>
#include <exact-real/cereal.hpp>
#include <exact-real/cppyy.hpp>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cstdio>
#include <fstream>

#include "elements.hpp"

namespace verif {
namespace {

enum Kind { JSON, BINARY, PORTABLE };
const char* kindName(int k) { return k == JSON ? "JSON" : k == BINARY ? "binary" : "portable binary"; }

template <typename... T>
std::string store(int kind, const T&... x) {
  std::ostringstream os;
  if (kind == JSON) {
    cereal::JSONOutputArchive a(os);
    a(x...);
  } else if (kind == BINARY) {
    cereal::BinaryOutputArchive a(os);
    a(x...);
  } else {
    cereal::PortableBinaryOutputArchive a(os);
    a(x...);
  }
  return os.str();
}
template <typename... T>
void restore(int kind, const std::string& s, T&... x) {
  std::istringstream is(s);
  if (kind == JSON) {
    cereal::JSONInputArchive a(is);
    a(x...);
  } else if (kind == BINARY) {
    cereal::BinaryInputArchive a(is);
    a(x...);
  } else {
    cereal::PortableBinaryInputArchive a(is);
    a(x...);
  }
}

// ------------------------------------------------ what a fresh process sees
std::string describe(const Arf& x) { return str(dy(x.arf_t())); }
std::string describe(const Arb& x) { return show(x.arb_t()); }
std::string describe(const RealPtr& x) {
  if (!x) return "null";
  if (auto q = static_cast<std::optional<mpq_class>>(*x)) return "rational " + str(*q);
  return "real " + str(Dy(x->arf(200).arf_t() ? dy(x->arf(200).arf_t()) : Dy()));
}
std::string describe(const IntegerRing&) { return "Z"; }
std::string describe(const RationalField&) { return "Q"; }
std::string describe(const NumberField& K) {
  const auto& all = Field::all();
  for (size_t i = 0; i < all.size(); i++)
    if (K == NumberField(all[i].K)) return "K" + str(i);
  return K == NumberField() ? "trivial" : "unknown field";
}
template <typename R>
std::string describe(const std::shared_ptr<const Module<R>>& M) {
  if (!M) return "null";
  std::string r = describe(M->ring()) + " " + str(M->rank()) + "\n";
  for (auto& g : M->basis()) r += describe(g) + "\n";
  return r;
}
std::string describe(const mpz_class& c) { return str(c); }
std::string describe(const mpq_class& c) { return str(c); }
std::string describe(const eantic::renf_elem_class& c) {
  if (c.is_rational()) return str(static_cast<mpq_class>(c));
  std::string r = describe(NumberField(c.parent()));
  for (auto& n : c.num_vector()) r += "," + str(n);
  return r + "/" + str(c.den());
}
template <typename R>
std::string describe(const Element<R>& x) {
  std::string r = "element " + describe(x.module()->ring()) + " " + str(x.module()->rank()) + "\n";
  for (exactreal::size i = 0; i < x.module()->rank(); i++) r += describe(x[i]) + " * " + describe(x.module()->basis()[static_cast<size_t>(i)]) + "\n";
  return r;
}

// The line that describes a generator (or number), by value.
std::optional<Mono> locate(World& w, const std::set<Mono>& candidates, const std::string& s) {
  if (s.rfind("rational ", 0) == 0) return mpq_class(s.substr(9)) == w.constant ? std::optional<Mono>(w.one()) : std::nullopt;
  if (s.rfind("real ", 0) != 0) return std::nullopt;
  for (auto& m : candidates)
    if (deg(m) && s == describe(w.real(m))) return m;
  // approximations might depend on the order of factors
  auto parse = [&]() -> mpq_class {
    auto t = s.substr(5);
    auto star = t.find("*2^");
    if (star == std::string::npos) return mpq_class(t);
    return Dy(mpz_class(t.substr(0, star)), mpz_class(t.substr(star + 3))).q();
  };
  mpq_class v = parse();
  for (auto& m : candidates) {
    if (!deg(m)) continue;
    IV i = w.value(m, 230);
    mpq_class slack = absq(i.lo) * pow2(-190);
    if (i.lo - slack <= v && v <= i.hi + slack) return m;
  }
  return std::nullopt;
}

struct Parcel {
  std::string type;
  int kind;
  std::string data;
  std::function<void(const std::vector<std::string>&)> check;  // the lines printed by the other process
};
std::string hex(const std::string& s) {
  std::string r;
  char b[3];
  for (unsigned char c : s) snprintf(b, sizeof b, "%02x", c), r += b;
  return r;
}
std::string unhex(const std::string& s) {
  std::string r;
  for (size_t i = 0; i + 1 < s.size(); i += 2) r += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
  return r;
}

template <typename T>
std::string receive(int kind, const std::string& data) {
  T x;
  restore(kind, data, x);
  return describe(x);
}
template <typename T>
std::string receiveMany(int kind, const std::string& data) {
  std::vector<T> xs;
  restore(kind, data, xs);
  std::string r;
  for (auto& x : xs) r += describe(x) + "\n";
  return r;
}

// Sends parcels to a fresh process which first creates (or loads) some numbers
// in an order of its own.
void deliver(const std::vector<Parcel>& parcels) {
  static int n = 0;
  std::string base = scratch() + "/parcel-" + str(n++);
  {
    std::ofstream os(base + ".in");
    for (auto& p : parcels) os << p.type << " " << p.kind << " " << hex(p.data) << "\n";
  }
  pid_t pid = fork();
  if (pid < 0) throw std::logic_error("harness: fork");
  if (pid == 0) {
    setenv("VERIF_PARCEL", base.c_str(), 1);
    int fd = open((base + ".log").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 1);
    dup2(fd, 2);
    execl(self_exe().c_str(), self_exe().c_str(), "--prop", "C17-receive", "--cases", "1", "--cpu", "60", "--out", (base + ".json").c_str(), static_cast<char*>(nullptr));
    _exit(99);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  std::ifstream is(base + ".out");
  std::vector<std::vector<std::string>> answers;
  std::string line;
  while (std::getline(is, line)) {
    if (line == "=== parcel") answers.emplace_back();
    else if (!answers.empty() && !line.empty()) answers.back().push_back(line);
  }
  std::ifstream ls(base + ".log");
  std::string log((std::istreambuf_iterator<char>(ls)), std::istreambuf_iterator<char>());
  for (auto* suffix : {".in", ".out", ".log", ".json"}) unlink((base + suffix).c_str());
  if (WIFEXITED(status) && WEXITSTATUS(status) == 99) throw std::logic_error("harness: exec");
  if (!WIFEXITED(status) || WEXITSTATUS(status) != 0 || answers.size() != parcels.size())
    fail("receiver", "a fresh process failed to load parcel #" + str(answers.size()) + " (" + (answers.size() && answers.size() <= parcels.size() ? parcels[answers.size() - 1].type : "?") + "), status " + str(status) + ": " + log.substr(0, 1500));
  for (size_t i = 0; i < parcels.size(); i++) {
    parcels[i].check(answers[i]);
    tally("objects checked in a fresh process");
  }
}

PROPERTY(C17Receive);
static Register registerReceive("C17-receive", case_C17Receive);
void case_C17Receive(Rng&, long) {
  const char* base = getenv("VERIF_PARCEL");
  std::ifstream is(std::string(base) + ".in");
  std::ofstream os(std::string(base) + ".out");
  std::string type, data;
  int kind;
  std::vector<RealPtr> keep;
  while (is >> type >> kind >> data) {
    data = unhex(data);
    os << "=== parcel" << std::endl;
    std::string r;
    if (type == "keep") {
      std::vector<RealPtr> xs;
      restore(kind, data, xs);
      keep.insert(keep.end(), xs.begin(), xs.end());
    } else if (type == "Arf") r = receive<Arf>(kind, data);
    else if (type == "Arb") r = receive<Arb>(kind, data);
    else if (type == "reals") r = receiveMany<RealPtr>(kind, data);
    else if (type == "MZ") r = receive<std::shared_ptr<const Module<IntegerRing>>>(kind, data);
    else if (type == "MQ") r = receive<std::shared_ptr<const Module<RationalField>>>(kind, data);
    else if (type == "MK") r = receive<std::shared_ptr<const Module<NumberField>>>(kind, data);
    else if (type == "EZ") r = receive<Element<IntegerRing>>(kind, data);
    else if (type == "EQ") r = receive<Element<RationalField>>(kind, data);
    else if (type == "EK") r = receive<Element<NumberField>>(kind, data);
    else if (type == "EsZ") r = receiveMany<Element<IntegerRing>>(kind, data);
    else if (type == "EsQ") r = receiveMany<Element<RationalField>>(kind, data);
    else if (type == "EsK") r = receiveMany<Element<NumberField>>(kind, data);
    else throw std::logic_error("harness: unknown parcel");
    os << r << std::endl;
  }
  cover(1);
}

std::string fieldName(World& w) { return describe(NumberField(w.F->K)); }

// Check the description of an element, starting at line pos.
template <typename R>
void checkElement(World& w, Elements<R>& E, const Elem<R>& x, const std::vector<std::string>& lines, size_t& pos, const std::string& what) {
  using C = Co<R>;
  auto context = [&] {
    std::string r = what + " of " + E.show(x) + w.legend() + " arrived as:";
    for (auto& l : lines) r += "\n  " + l;
    return r;
  };
  size_t n = x.basis.size();
  std::string ring = std::is_same_v<R, IntegerRing> ? "Z" : std::is_same_v<R, RationalField> ? "Q" : x.e.module()->rank() && !w.mixed ? fieldName(w) : describe(x.e.module()->ring());
  CHECK(pos < lines.size() && lines[pos] == "element " + ring + " " + str(n), "element", context());
  pos++;
  std::set<Mono> todo(x.basis.begin(), x.basis.end());
  for (size_t i = 0; i < n; i++, pos++) {
    CHECK(pos < lines.size(), "element", context());
    auto star = lines[pos].find(" * ");
    CHECK(star != std::string::npos, "element", context());
    auto m = locate(w, todo, lines[pos].substr(star + 3));
    CHECK(m, "generator", context());
    todo.erase(*m);
    std::string c = lines[pos].substr(0, star), expected = describe(C::lib(x.p[*m]));
    CHECK(c == expected, "coefficient", context() << "\nso the coefficient of " << w.name(*m) << " changed from " << expected << " to " << c);
  }
}

template <typename R>
void cerealize(Rng& rng, long index) {
  using C = Co<R>;
  const std::string suffix = C::name;
  World w(rng, static_cast<int>(rng.range(1, 4)));
  w.rationalGenerator(rng);
  Elements<R> E(w, rng);
  const bool remote = index % 8 == static_cast<long>(base_seed() % 8) && !borrowed();
  std::vector<Parcel> parcels;
  uint64_t h = 17;
  if (remote && rng.chance(2, 3)) {
    // the other process knows (some of) the numbers already
    std::vector<RealPtr> xs;
    for (auto& v : w.vars)
      if (rng.chance(3, 4)) xs.push_back(v->x);
    for (size_t i = xs.size(); i > 1; i--) std::swap(xs[i - 1], xs[rng.below(i)]);
    parcels.push_back({"keep", BINARY, store(BINARY, xs), [](auto&) {}});
  }
  for (int rep = 0; rep < 4; rep++) {
    int kind = static_cast<int>(rng.below(3));
    std::string how = std::string(" through a ") + kindName(kind) + " archive";
    // floats
    {
      Dy d;
      switch (rng.below(8)) {
        case 0: d = Dy::special(rng.of({Dy::PINF, Dy::NINF, Dy::NAN_})); break;
        case 1: d = Dy(randInt(rng, 100), randInt(rng, 90)); break;
        case 2: d = Dy(randInt(rng, 60), rng.range(-1200, 1100)); break;
        default: d = randDy(rng, 100, 2000);
      }
      at(str(d) + how);
      Arf x = mkArf(d), y;
      auto s = store(kind, x);
      restore(kind, s, y);
      CHECK(dy(y.arf_t()) == d, "Arf", d << how << " becomes " << dy(y.arf_t()));
      CHECK(dy(x.arf_t()) == d, "Arf", d << " changed when saved");
      tally("floats restored");
      if (remote) parcels.push_back({"Arf", kind, s, [=](auto& l) { CHECK(l.size() == 1 && l[0] == describe(x), "Arf", d << how << " becomes " << (l.empty() ? "nothing" : l[0]) << " in a fresh process"); }});
      h = hcomb(h, hashDy(d));
    }
    // balls
    {
      Arb x, y;
      Dy m = rng.chance(1, 10) ? Dy::special(rng.of({Dy::PINF, Dy::NINF, Dy::NAN_})) : randDy(rng, 300, 500);
      Dy r = rng.chance(1, 6) ? Dy::special(Dy::PINF) : rng.chance(1, 4) ? Dy() : Dy(static_cast<long>(rng.below(1 << 30)), rng.range(-400, 300));
      setBall(x.arb_t(), m, r);
      at(show(x.arb_t()) + how);
      auto s = store(kind, x);
      restore(kind, s, y);
      CHECK(arb_equal(x.arb_t(), y.arb_t()) || (m.k == Dy::NAN_ && mag_equal(arb_radref(x.arb_t()), arb_radref(y.arb_t())) && arf_is_nan(arb_midref(y.arb_t()))), "Arb", show(x.arb_t()) << how << " becomes " << show(y.arb_t()));
      tally("balls restored");
      if (remote) parcels.push_back({"Arb", kind, s, [=](auto& l) { CHECK(l.size() == 1 && l[0] == describe(x), "Arb", describe(x) << how << " becomes " << (l.empty() ? "nothing" : l[0]) << " in a fresh process"); }});
      h = hcomb(h, hashDy(m));
    }
    // real numbers, with repetitions
    {
      std::vector<RealPtr> xs;
      std::vector<Mono> ms;
      std::vector<std::string> rationals;
      int n = static_cast<int>(rng.range(1, 5));
      for (int i = 0; i < n; i++) {
        Mono m = w.randomMono(4);
        ms.push_back(m);
        if (rng.chance(1, 20)) {
          // exponents that do not fit into 32 bits
          const long e = rng.of({-1, 1}) * rng.range(1L << 31, rng.of({1L << 32, 1L << 50}));
          const Dy l(rng.of({-1, 1}) * rng.range(10, 99), e);
          xs.push_back(RealNumber::random(mkArf(l), mkArf(add(l, Dy(rng.range(1, 9), e - rng.range(0, 9)), EXACT, Rnd::NEAR)), Seed(freshSeed(rng))));
          if (rng.chance(1, 4)) xs.back() = *xs.back() * *xs.back();
          rationals.push_back(describe(xs.back()));
          tally("numbers with exponents of more than 32 bits");
        } else if (rng.chance(1, 20)) {
          // a power
          m[rng.below(m.size())] += static_cast<int>(rng.range(100, 400));
          ms.back() = m;
          xs.push_back(w.real(m));
          rationals.push_back("");
          tally("products of high degree restored");
        } else if (rng.chance(1, 6)) {
          mpq_class q = randQ(rng, 80);
          xs.push_back(RealNumber::rational(q));
          rationals.push_back("rational " + str(q));
        } else if (rng.chance(1, 12)) {
          xs.push_back(nullptr);
          rationals.push_back("null");
        } else {
          xs.push_back(w.real(m));
          rationals.push_back("");
        }
        h = hcomb(h, hstr(w.name(m)));
      }
      std::string d;
      for (size_t i = 0; i < xs.size(); i++) d += (rationals[i].empty() ? w.name(ms[i]) : rationals[i]) + ", ";
      d += w.legend() + how;
      at(d);
      auto s = store(kind, xs);
      std::vector<RealPtr> ys;
      restore(kind, s, ys);
      CHECK(ys == xs, "RealNumber", d << " are not the same numbers anymore");
      auto one = store(kind, xs[0]);
      RealPtr y;
      restore(kind, one, y);
      CHECK(y == xs[0], "RealNumber", d << ": the first one is not the same number anymore");
      tally("real numbers restored", xs.size());
      if (remote)
        parcels.push_back({"reals", kind, s, [=, &w](auto& l) {
                             CHECK(l.size() == xs.size(), "RealNumber", d << " became " << l.size() << " numbers");
                             for (size_t i = 0; i < l.size(); i++) {
                               if (!rationals[i].empty()) CHECK(l[i] == rationals[i], "RealNumber", d << ": #" << i << " becomes " << l[i] << " in a fresh process");
                               else CHECK(locate(w, {ms[i]}, l[i]) == ms[i], "RealNumber", d << ": #" << i << " becomes " << l[i] << " in a fresh process");
                             }
                           }});
    }
    // modules
    {
      auto basis = E.randomBasis(4, 3, 90);
      if (basis.size() > 36) tally("modules of large rank restored");
      auto M = E.module(basis);
      std::shared_ptr<const Module<R>> N, N2;
      std::string d = "module " + str(*M) + w.legend() + how;
      at(d);
      auto s = store(kind, M);
      restore(kind, s, N);
      CHECK(N == M, "Module", d << " becomes " << *N);
      // twice in the same archive
      auto t = store(kind, M, M);
      N = nullptr;
      restore(kind, t, N, N2);
      CHECK(N == M && N2 == M, "Module", d << " stored twice");
      CHECK(kind == JSON || t.size() < s.size() + 16, "sharing", d << " stored twice takes " << t.size() << " bytes instead of " << s.size());
      tally("modules restored");
      if (remote) {
        std::string ring = describe(M->ring());
        parcels.push_back({"M" + suffix, kind, s, [=, &w](auto& l) {
                             std::string got;
                             for (auto& x : l) got += "\n  " + x;
                             CHECK(!l.empty() && l[0] == ring + " " + str(basis.size()) && l.size() == basis.size() + 1, "Module", d << " arrived as:" << got);
                             std::set<Mono> todo(basis.begin(), basis.end());
                             for (size_t i = 1; i < l.size(); i++) {
                               auto m = locate(w, todo, l[i]);
                               CHECK(m, "Module", d << " arrived as:" << got);
                               todo.erase(*m);
                             }
                           }});
      }
    }
    // elements
    {
      int n = static_cast<int>(rng.chance(1, 30) ? rng.range(20, 90) : rng.range(1, 4));
      peak("elements in an archive", n);
      std::vector<Elem<R>> xs;
      for (int i = 0; i < n; i++) xs.push_back(i && rng.chance(1, 2) ? E.random(xs[rng.below(xs.size())].basis) : E.random(E.randomBasis(4, 3)));
      std::vector<Element<R>> es, fs;
      std::string d;
      for (auto& x : xs) es.push_back(x.e), d += E.show(x) + ", ", h = hcomb(h, E.hash(x));
      d += w.legend() + how;
      at(d);
      auto s = store(kind, es);
      restore(kind, s, fs);
      CHECK(fs.size() == es.size(), "Element", d << ": number of elements");
      for (size_t i = 0; i < es.size(); i++) {
        E.verify({fs[i], xs[i].p, xs[i].basis}, E.show(xs[i]) + how);
        CHECK(fs[i].module() == es[i].module() && fs[i] == es[i], "Element", d << ": #" << i << " is " << fs[i]);
      }
      // together with its module and some generators
      auto M = es[0].module();
      RealPtr g = M->rank() ? M->basis()[0] : RealNumber::rational(1), g2;
      std::shared_ptr<const Module<R>> M2;
      Element<R> e2;
      switch (rng.below(3)) {
        case 0: restore(kind, store(kind, es[0], M, g), e2, M2, g2); break;
        case 1: restore(kind, store(kind, g, M, es[0]), g2, M2, e2); break;
        default: restore(kind, store(kind, M, es[0], g), M2, e2, g2);
      }
      CHECK(e2 == es[0] && e2.module() == M && M2 == M && g2 == g, "shared", d << ": with its module and a generator");
      if (kind == JSON) {
        std::string t = exactreal::cppyy::serialize<Element<R>, cereal::JSONOutputArchive>(es[0]);
        Element<R> e3 = exactreal::cppyy::deserialize<Element<R>, cereal::JSONInputArchive>(t);
        CHECK(e3 == es[0] && e3.module() == M, "Element", d << ": through the helpers for Python");
        tally("elements restored by the helpers for Python");
      }
      tally("elements restored", es.size());
      if (remote) {
        parcels.push_back({"Es" + suffix, kind, s, [=, &w](auto& l) {
                             Rng r2(1);
                             Elements<R> E2(w, r2);
                             size_t pos = 0;
                             for (auto& x : xs) checkElement(w, E2, x, l, pos, "transfer" + how);
                           }});
        auto one = store(kind, es[0]);
        parcels.push_back({"E" + suffix, kind, one, [=, &w](auto& l) {
                             Rng r2(1);
                             Elements<R> E2(w, r2);
                             size_t pos = 0;
                             checkElement(w, E2, xs[0], l, pos, "transfer" + how);
                           }});
      }
      if (index < 2 && rep == 0) sample(d);
    }
    // damaged archives are rejected
    if (rng.chance(1, 4)) {
      std::string s = "{\"value0\": {\"data\": \"what is this?\", \"approximation\": 0.0}}";
      Arf x;
      Arb y;
      must_throw<std::exception>("malformed", [&] { restore(JSON, s, x); }, "loading a malformed Arf");
      must_throw<std::exception>("malformed", [&] { restore(JSON, s, y); }, "loading a malformed Arb");
      RealPtr z;
      must_throw<std::exception>("malformed", [&] { restore(JSON, "{\"value0\": {\"shared\": 2147483649, \"kind\": \"imaginary\"}}", z); }, "loading an unknown kind of real number");
      auto t = store(kind, E.random({w.one(), w.var(0)}).e);
      t.resize(rng.below(t.size() - 1));
      Element<R> e;
      must_throw<std::exception>("malformed", [&] { restore(kind, t, e); }, "loading a truncated element from a " + std::string(kindName(kind)) + " archive");
    }
  }
  if (remote) {
    at("transfer to a fresh process" + w.legend());
    deliver(parcels);
  }
  cover(h);
}
PROPERTY(C17) {
  anyRing(rng, [&](auto* tag) { cerealize<std::remove_pointer_t<decltype(tag)>>(rng, index); });
}

}  // namespace
}  // namespace verif
