// C25: the switches LIBEXACTREAL_NOCHECK and LIBEXACTREAL_NOASSERT.
//
// They are read once per process, so every case starts a fresh one with some
// setting of the variables.  That process runs cases of other monitors, whose
// models say what the results should be, and, when no switch is on, checks that
// invalid arguments are refused.
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include <fstream>

#include "elements.hpp"

namespace verif {
namespace {
const char* const CASES[] = {"C05", "C06", "C08", "C10", "C12", "C14", "C15", "C23"};

// Arguments that are documented to be refused; `asserts` for those only refused unless LIBEXACTREAL_NOASSERT is set.
template <typename R>
void refusals(Rng& rng, bool asserts) {
  using C = Co<R>;
  World w(rng, 2);
  Elements<R> E(w, rng);
  const auto x = E.random({w.one(), w.var(0)}, 20);
  const Element<R> zero = E.of(Poly<C>(w.F), true).e;
  const std::string what = E.show(x) + w.legend();
  at(what);
  must_throw<std::invalid_argument>("not-refused", [&] { (void)x.e.truediv(zero); }, what + " divided by zero");
  must_throw<std::invalid_argument>("not-refused", [&] { (void)x.e.floordiv(zero); }, what + " divided by zero, rounded");
  must_throw<std::invalid_argument>("not-refused", [&] { (void)x.e.truediv(Element<R>()); }, what + " divided by the default element");
  tally("arguments refused", 3);
  if (asserts) {
    auto M = E.module({w.var(1)});
    auto y = E.of(x.p + [&] {
      Poly<C> p(w.F);
      p.add(w.var(0) * w.var(0), C::of(w.F, 1));
      return p;
    }());
    must_throw<std::logic_error>("not-refused", [&] { (void)Element<R>(y.e).promote(M); }, E.show(y) + " in the span of x1");
    std::vector<typename R::ElementClass> cs(2, C::lib(C::of(w.F, 1)));
    must_throw<std::logic_error>("not-refused", [&] { (void)Element<R>(M, cs); }, "element with two coefficients in a module of rank 1");
    tally("arguments refused by assertions", 2);
  }
}
}  // namespace

PROPERTY(C25Child);
static Register registerChild("C25-child", case_C25Child);
void case_C25Child(Rng& rng, long index) {
  const std::string how = getenv("VERIF_SWITCHES");
  if (index < 12) {
    if (how.find('c') == std::string::npos) anyRing(rng, [&](auto* tag) { refusals<std::remove_pointer_t<decltype(tag)>>(rng, how.find('a') == std::string::npos); });
    return;
  }
  const char* name = CASES[rng.below(sizeof CASES / sizeof *CASES)];
  CaseFn fn = findCase(name);
  if (!fn) throw std::logic_error("harness: no case " + std::string(name));
  fn(rng, 1);
}

PROPERTY(C25) {
  static const std::vector<std::string> OFF = {"0", "no", "NO", "No", "false", "FALSE", "False", " 0", "0 ", " no ", "\tfalse\n"}, ON = {"1", "yes", "true", "on", "YES", "2", " 1 ", "nope", "00", "falsey"};
  // Which of the switches are set, and which are on.
  std::optional<std::string> check, assert_;
  bool c = false, a = false;
  auto draw = [&](std::optional<std::string>& v, bool& on) {
    switch (rng.below(3)) {
      case 0: break;
      case 1: v = rng.pick(OFF); break;
      default: v = rng.pick(ON), on = true;
    }
  };
  draw(check, c);
  draw(assert_, a);
  const std::string desc = "LIBEXACTREAL_NOCHECK" + (check ? "='" + *check + "'" : std::string(" not set")) + ", LIBEXACTREAL_NOASSERT" + (assert_ ? "='" + *assert_ + "'" : std::string(" not set"));
  at(desc);
  cover(hcomb(hstr(desc), index));
  if (index < 4) sample(desc);
  const std::string base = scratch() + "/switches-" + str(index), seed = str(rng.next() >> 1);
  pid_t pid = fork();
  if (pid < 0) throw std::logic_error("harness: fork");
  if (pid == 0) {
    if (check) setenv("LIBEXACTREAL_NOCHECK", check->c_str(), 1);
    if (assert_) setenv("LIBEXACTREAL_NOASSERT", assert_->c_str(), 1);
    setenv("VERIF_SWITCHES", (std::string(c ? "c" : "") + (a ? "a" : "")).c_str(), 1);
    int fd = open((base + ".log").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 1);
    dup2(fd, 2);
    execl(self_exe().c_str(), self_exe().c_str(), "--prop", "C25-child", "--seed", seed.c_str(), "--cases", "80", "--cpu", "60", "--scratch", scratch().c_str(), "--out", (base + ".json").c_str(), static_cast<char*>(nullptr));
    _exit(99);
  }
  int status = 0;
  waitpid(pid, &status, 0);
  auto slurp = [&](const std::string& f) {
    std::ifstream is(base + f);
    return std::string((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
  };
  const std::string log = slurp(".log"), json = slurp(".json");
  for (auto* suffix : {".log", ".json", ".json.cov"}) unlink((base + suffix).c_str());
  if (WIFEXITED(status) && WEXITSTATUS(status) == 99) throw std::logic_error("harness: exec");
  if (!WIFEXITED(status) || WEXITSTATUS(status) != 0) {
    const size_t v = json.find("\"violations\":[");
    fail("switches", "with " + desc + " (seed " + seed + ") a process failed, status " + str(status) + ": " + (v == std::string::npos ? "" : json.substr(v, 1500)) + log.substr(0, 800));
  }
  // What did it do?
  auto count = [&](const std::string& name) -> uint64_t {
    const size_t p = json.find("\"" + name + "\":");
    return p == std::string::npos ? 0 : std::stoull(json.substr(p + name.size() + 3));
  };
  tally("cases of other monitors", 68);
  tally("arguments refused", count("arguments refused"));
  tally("arguments refused by assertions", count("arguments refused by assertions"));
  tally("elements checked", count("elements checked"));
  tally("approximations checked", count("approximations checked"));
  tally(std::string("processes with checks ") + (c ? "off" : "on") + " and assertions " + (a || c ? "off" : "on"));
}
}  // namespace verif
