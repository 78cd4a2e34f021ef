// C11
#include "elements.hpp"

namespace verif {
namespace {

template <typename R>
void modules(Rng& rng, long index) {
  using C = Co<R>;
  World w(rng, static_cast<int>(rng.range(1, 4)));
  Elements<R> E(w, rng);
  struct Known {
    std::shared_ptr<const Module<R>> M;
    std::vector<Mono> basis;
    const Field* field;
  };
  std::vector<Known> known;
  auto make = [&](const std::vector<Mono>& basis, const Field* field) {
    typename Module<R>::Basis b;
    for (auto& m : basis) b.push_back(w.real(m));
    for (size_t i = b.size(); i > 1; i--) std::swap(b[i - 1], b[rng.below(i)]);
    if (field) return Module<R>::make(b, C::ring(field));
    return Module<R>::make(b);
  };
  auto name = [&](const Known& k) {
    std::string r;
    for (auto& m : k.basis) r += w.name(m) + ",";
    return std::string(C::name) + (k.field ? "(" + k.field->poly + " at " + k.field->emb + ")" : "") + "<" + r + ">" + w.legend();
  };
  auto inspect = [&](const Known& k, const char* what) {
    const auto& b = k.M->basis();
    CHECK(static_cast<size_t>(k.M->rank()) == b.size() && b.size() == k.basis.size(), "rank", what << " " << name(k) << " has rank " << k.M->rank());
    std::set<Mono> s;
    for (size_t i = 0; i < b.size(); i++) {
      auto it = w.monos.find(b[i].get());
      CHECK(it != w.monos.end(), "generator", what << " " << name(k) << " has generator " << *b[i]);
      s.insert(it->second);
      if (i) CHECK(b[i - 1]->deglex(*b[i]), "order", what << " " << name(k) << " is not sorted: " << *k.M);
    }
    CHECK(s == std::set<Mono>(k.basis.begin(), k.basis.end()), "basis", what << " " << name(k) << " is " << *k.M);
    if constexpr (std::is_same_v<R, NumberField>) {
      NumberField expected = k.field ? C::ring(k.field) : NumberField();
      CHECK(k.M->ring() == expected, "ring", what << " " << name(k) << " is over another ring");
    }
    // the same module again
    CHECK(make(k.basis, k.field) == k.M, "not-unique", what << " " << name(k) << " created once more");
    tally("modules checked");
  };
  const bool isK = std::is_same_v<R, NumberField>;
  const int n = static_cast<int>(rng.range(3, 7));
  uint64_t h = 11;
  for (int s = 0; s < n; s++) {
    Known k{nullptr, E.randomBasis(4, 3, 70), nullptr};
    if (isK && rng.chance(3, 4)) k.field = rng.chance(5, 6) ? w.F : rng.chance(1, 2) ? &Field::any(rng) : &w.F->conjugate();
    if (!known.empty() && rng.chance(1, 3)) {
      // almost the same as another module
      k.basis = known[rng.below(known.size())].basis;
      if (!k.basis.empty() && rng.chance(1, 2)) k.basis.erase(k.basis.begin() + static_cast<long>(rng.below(k.basis.size())));
    }
    if (rng.chance(1, 12)) k.basis.clear();
    if (isK && !known.empty() && rng.chance(1, 4)) {
      // the same generators over another field
      const Known& other = known[rng.below(known.size())];
      k.basis = other.basis;
      tally(k.basis.empty() ? "trivial modules over different fields" : "modules over different fields");
    }
    at("make " + name(k));
    k.M = make(k.basis, k.field);
    inspect(k, "make");
    h = hcomb(h, hstr(name(k)));
    known.push_back(k);
  }
  // modules are the same if and only if they look the same
  for (auto& a : known)
    for (auto& b : known) {
      bool same = std::set<Mono>(a.basis.begin(), a.basis.end()) == std::set<Mono>(b.basis.begin(), b.basis.end()) && a.field == b.field;
      CHECK((a.M == b.M) == same && (*a.M == *b.M) == same && (*a.M != *b.M) != same, "equality", name(a) << " == " << name(b));
      bool sub = std::includes(b.basis.begin(), b.basis.end(), a.basis.begin(), a.basis.end());
      CHECK(a.M->submodule(*b.M) == sub, "submodule", name(a) << " in " << name(b));
      tally(sub ? "submodules" : "not submodules");
      at("span of " + name(a) + " and " + name(b));
      if (!a.basis.empty() && !b.basis.empty() && a.field && b.field && a.field != b.field) {
        tally("spans over different fields");
        must_throw<std::logic_error>("span", [&] { (void)Module<R>::span(a.M, b.M); }, "span of " + name(a) + " and " + name(b));
        continue;
      }
      Known c{Module<R>::span(a.M, b.M), unite(a.basis, b.basis), a.field ? a.field : b.field};
      if (a.basis.empty()) c.field = b.field;
      else if (b.basis.empty()) c.field = a.field;
      inspect(c, "span");
      CHECK(Module<R>::span(b.M, a.M) == c.M || (a.basis.empty() && b.basis.empty()), "span", name(a) << " and " << name(b) << ": depends on the order");
      tally("spans");
    }
  // special elements
  for (auto& k : known) {
    at("elements of " + name(k));
    CHECK(!k.M->zero() && k.M->zero().module() == k.M, "zero", name(k) << "->zero() is " << k.M->zero());
    for (exactreal::size i = 0; i < k.M->rank(); i++) {
      auto g = k.M->gen(i);
      CHECK(g.module() == k.M, "gen", name(k) << "->gen(" << i << ") lives elsewhere");
      for (exactreal::size j = 0; j < k.M->rank(); j++) CHECK(g[j] == (i == j ? 1 : 0), "gen", name(k) << "->gen(" << i << ") is " << g);
      CHECK(g == *k.M->basis()[static_cast<size_t>(i)], "gen", name(k) << "->gen(" << i << ") is " << g);
      tally("generators");
    }
    bool has = std::count(k.basis.begin(), k.basis.end(), w.one()) != 0;
    if (has) {
      auto one = k.M->one();
      auto q = static_cast<std::optional<mpq_class>>(one);
      CHECK(q && *q == 1 && one.module() == k.M && one == 1, "one", name(k) << "->one() is " << one);
      tally("ones");
    } else must_throw<std::logic_error>("one", [&] { (void)k.M->one(); }, name(k) + "->one()");
  }
  // other rational generators
  {
    mpq_class q = rng.chance(1, 2) ? mpq_class(rng.of({1, -1}), rng.range(1, 9)) : randQ(rng, 20);
    q.canonicalize();
    if (q != 0) {
      typename Module<R>::Basis b{RealNumber::rational(q)};
      if (rng.chance(1, 2)) b.push_back(w.real(w.var(0)));
      at("module with generator " + str(q));
      auto M = Module<R>::make(b);
      bool has = !std::is_same_v<R, IntegerRing> || abs(q.get_num()) == 1;
      if (has) {
        auto one = M->one();
        auto v = static_cast<std::optional<mpq_class>>(one);
        CHECK(v && *v == 1 && one.module() == M, "one", "of " << *M << " is " << one);
        tally("ones");
      } else must_throw<std::logic_error>("one", [&] { (void)M->one(); }, str(*M) + "->one()");
      // at most one rational generator
      auto bad = b;
      bad.push_back(RealNumber::rational(q + 1));
      must_throw<std::logic_error>("two-rationals", [&] { (void)Module<R>::make(bad); }, "module with generators " + str(q) + " and " + str(mpq_class(q + 1)));
    }
    auto basis = E.randomBasis(3, 2);
    if (!basis.empty()) {
      typename Module<R>::Basis b;
      for (auto& m : basis) b.push_back(w.real(m));
      b.push_back(b[rng.below(b.size())]);
      std::swap(b.back(), b[rng.below(b.size())]);
      must_throw<std::logic_error>("duplicate", [&] { (void)Module<R>::make(b); }, "module with a repeated generator");
    }
  }
  // forget some modules, flush the cache of recent modules; the others are still the same.
  if (rng.chance(1, 6)) {
    for (size_t i = 0; i < known.size(); i++)
      if (rng.chance(1, 2)) known[i].M.reset();
    if (rng.chance(1, 4)) {
      auto x = w.real(w.var(0));
      for (int i = 2; i < 1100; i++) (void)Module<R>::make({RealNumber::rational(mpq_class(i, 7)), x});
      tally("caches flushed");
    }
    for (auto& k : known) {
      if (!k.M) k.M = make(k.basis, k.field);
      inspect(k, "after others were dropped:");
      tally("modules created again");
    }
  }
  // products that have been forgotten give the same module again
  if (rng.chance(1, 3)) {
    Mono m = w.one();
    m[0] = static_cast<int>(7 + rng.below(5));
    std::shared_ptr<const Module<R>> M = make({m, w.var(0)}, nullptr), N;
    w.monos.erase(w.reals.at(m).get());
    w.reals.erase(m);
    N = make({m, w.var(0)}, nullptr);
    CHECK(M == N, "not-unique", "module with a product that is only referenced by the module");
    tally("products kept alive by modules");
  }
  cover(h);
  if (index < 3) sample(str(n) + " modules such as " + name(known[0]));
}
PROPERTY(C11) {
  anyRing(rng, [&](auto* tag) { modules<std::remove_pointer_t<decltype(tag)>>(rng, index); });
}

}  // namespace
}  // namespace verif
