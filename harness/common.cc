#include "common.hpp"

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>

namespace verif {
namespace {

struct Progress {
  long index;
  char what[4000];
};

struct Violation {
  std::string key, detail;
  long index;
};

std::string prop, out, scratch_dir, exe;
uint64_t seed = 1;
bool thorough_ = false, borrowed_ = false;
Progress* progress = nullptr;
std::map<std::string, uint64_t> tallies;
std::map<std::string, double> peaks;
std::unordered_set<uint64_t> covered;
std::vector<std::string> samples;
std::vector<Violation> violations;
long evaluations = 0, tried = 0;
long current = -1;
long shard_ = 0;

std::map<std::string, CaseFn>& registry() {
  static std::map<std::string, CaseFn> r;
  return r;
}

std::string esc(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += static_cast<char>(c);
    } else if (c < 32) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += static_cast<char>(c);
    }
  }
  return r + "\"";
}

void write_out() {
  if (out.empty()) return;
  std::ofstream f(out);
  f << "{\"evaluations\":" << std::max(evaluations, tried) << ",\"distinct\":" << covered.size() << ",\"tallies\":{";
  bool first = true;
  for (auto& [k, v] : tallies) {
    f << (first ? "" : ",") << esc(k) << ":" << v;
    first = false;
  }
  f << "},\"peaks\":{";
  first = true;
  for (auto& [k, v] : peaks) {
    f << (first ? "" : ",") << esc(k) << ":" << v;
    first = false;
  }
  f << "},\"samples\":[";
  first = true;
  for (auto& s : samples) {
    f << (first ? "" : ",") << esc(s);
    first = false;
  }
  f << "],\"violations\":[";
  first = true;
  for (auto& v : violations) {
    f << (first ? "" : ",") << "{\"key\":" << esc(v.key) << ",\"index\":" << v.index << ",\"detail\":" << esc(v.detail) << "}";
    first = false;
  }
  f << "]}\n";
  f.close();
  std::ofstream h(out + ".cov", std::ios::binary);
  for (uint64_t c : covered) h.write(reinterpret_cast<const char*>(&c), sizeof c);
}

void on_hang(int) {
  // Only async-signal-safe calls here.
  const char msg[] = "VERIF-HANG: a single case exceeded its CPU budget\n";
  (void)!write(2, msg, sizeof msg - 1);
  _exit(98);
}

void arm(long seconds) {
  struct itimerval t = {{0, 0}, {seconds, 0}};
  setitimer(ITIMER_PROF, &t, nullptr);
}

}  // namespace

Register::Register(const char* name, CaseFn fn) { registry()[name] = fn; }

uint64_t hstr(const std::string& s) {
  uint64_t h = 1469598103934665603ULL;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
  return mix(h);
}

void fail(const std::string& key, const std::string& detail) {
  if (!borrowed_) violations.push_back({key, detail.substr(0, 3000), current});
  throw Fail{};
}

void tally(const std::string& name, uint64_t n) {
  if (!borrowed_) tallies[name] += n;
}
void peak(const std::string& name, double v) {
  if (borrowed_) return;
  auto& p = peaks[name];
  if (v > p) p = v;
}
void cover(uint64_t h) {
  if (borrowed_) return;
  tried++;
  if (covered.size() < 400000) covered.insert(h);
}
void sample(const std::string& s) {
  if (borrowed_) return;
  if (samples.size() < 4) samples.push_back(s.substr(0, 600));
}
void at(const std::string& what) {
  if (progress) {
    size_t n = std::min(what.size(), sizeof(progress->what) - 1);
    memcpy(progress->what, what.data(), n);
    progress->what[n] = 0;
  }
}
CaseFn findCase(const std::string& name) {
  auto it = registry().find(name);
  return it == registry().end() ? nullptr : it->second;
}
bool borrowed() { return borrowed_; }
void setBorrowed(bool on) { borrowed_ = on; }
bool thorough() { return thorough_; }
uint64_t base_seed() { return seed; }
const std::string& scratch() { return scratch_dir; }
const std::string& self_exe() { return exe; }

int run(int argc, char** argv) {
  exe = argv[0];
  long cases = 100, shards = 1, only = -1, upto = -1, cpu = 60;
  std::string progress_file;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--prop") prop = v;
    else if (a == "--seed") seed = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--cases") cases = atol(v.c_str());
    else if (a == "--shard") shard_ = atol(v.c_str());
    else if (a == "--shards") shards = atol(v.c_str());
    else if (a == "--only") only = atol(v.c_str());
    else if (a == "--upto") upto = atol(v.c_str());
    else if (a == "--out") out = v;
    else if (a == "--scratch") scratch_dir = v;
    else if (a == "--progress") progress_file = v;
    else if (a == "--cpu") cpu = atol(v.c_str());
    else if (a == "--tier") thorough_ = v == "thorough";
    else {
      std::cerr << "unknown option " << a << std::endl;
      return 2;
    }
  }
  auto it = registry().find(prop);
  if (it == registry().end()) {
    std::cerr << "no such property " << prop << std::endl;
    return 2;
  }
  if (!progress_file.empty()) {
    int fd = open(progress_file.c_str(), O_RDWR | O_CREAT, 0600);
    if (fd < 0 || ftruncate(fd, sizeof(Progress))) return 2;
    progress = static_cast<Progress*>(mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    if (progress == MAP_FAILED) return 2;
  }
  signal(SIGPROF, on_hang);
  for (long i = shard_; i < cases; i += shards) {
    if (only >= 0 && i != only) continue;
    if (upto >= 0 && i > upto) break;
    current = i;
    if (progress) {
      progress->index = i;
      progress->what[0] = 0;
    }
    Rng rng(hcomb(hcomb(seed, hstr(prop)), static_cast<uint64_t>(i)));
    arm(cpu);
    try {
      it->second(rng, i);
    } catch (const Fail&) {
    } catch (const std::exception& e) {
      violations.push_back({std::string("unexpected-exception"), std::string(typeid(e).name()) + ": " + e.what() + (progress ? std::string(" during ") + progress->what : std::string()), i});
    }
    evaluations++;
    if (violations.size() >= 3) break;
  }
  arm(0);
  if (progress) progress->index = -2;
  write_out();
  return violations.empty() ? 0 : 97;
}

}  // namespace verif

int main(int argc, char** argv) { return verif::run(argc, argv); }
