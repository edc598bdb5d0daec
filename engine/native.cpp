// Native runtime of the contract intrinsics: replays one valuation, or searches random small ones, against the real code.
//   native <contract> replay <values.txt>          one run with the given inputs
//   native <contract> search <seed> <trials> <secs> random inputs; stops at the first violation and prints its inputs
// values.txt: lines "name kind value", or "name mem leaf v0 v1 ..."
#include "vf.h"
#include <cfenv>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <vector>

struct skip {};
static std::map<std::string, std::string> given;
static std::map<std::string, std::pair<size_t, std::vector<uint64_t>>> given_mem;
static bool replaying;
static std::mt19937_64 rng;
static std::vector<std::pair<std::string, std::string>> log_;
static std::map<std::string, std::string> memo;
static bool violated;
static std::string first_label;
static size_t bigness;
static std::vector<size_t> dict;      // constants of the code under check (VF_DICT), used in some of the trials
static bool big_dict;
static std::vector<double> magn;      // floating-point constants of the code far from 1 (VF_MAGN)
static double scale_ = 1;             // magnitude of the signals of a filter contract (vf_signal)
// huge: a sparse mapping that starts as zeros; init then holds its first bytes only
struct region { uint8_t* p; size_t n; std::vector<uint8_t> init; std::string name; size_t leaf; bool huge; };
static std::vector<region> regions;
static std::map<std::pair<int, const void*>, bool> ghost;

static void dump(FILE* f) {
  for (auto& kv : log_) fprintf(f, "INPUT %s %s\n", kv.first.c_str(), kv.second.c_str());
  for (auto& r : regions) {
    fprintf(f, "INPUT %s mem %zu", r.name.c_str(), r.leaf);
    for (size_t i = 0; i + r.leaf <= r.init.size() && i < 512 * r.leaf; i += r.leaf) {
      uint64_t v = 0;
      memcpy(&v, &r.init[i], r.leaf < 8 ? r.leaf : 8);
      fprintf(f, " %llu", (unsigned long long)v);
    }
    fprintf(f, "\n");
  }
  fflush(f);
}
// a trial that does not end: measured in processor time, so that a busy machine does not look like an endless loop
static void cpu_limit(int secs) {
  struct itimerval tv = {{0, 0}, {secs, 0}};
  setitimer(ITIMER_PROF, &tv, nullptr);
}
extern "C" void __asan_set_death_callback(void (*)()) __attribute__((weak));
static void on_death() { fprintf(stdout, "CRASH sanitizer\n"); dump(stdout); }
static void on_sig(int s) { fprintf(stdout, "CRASH signal %d\n", s); dump(stdout); fflush(stdout); _exit(3); }

static std::string pick(const char* name, const char* kind, std::string (*gen)(size_t, size_t), size_t lo, size_t hi) {
  auto m = memo.find(name);
  if (m != memo.end()) return m->second;
  std::string v;
  if (replaying) {
    auto it = given.find(name);
    v = it != given.end() ? it->second : std::to_string(lo);
  } else {
    v = gen(lo, hi);
  }
  memo[name] = v;
  log_.push_back({name, std::string(kind) + " " + v});
  return v;
}
static uint64_t rbits(unsigned w) {
  uint64_t v = rng();
  switch (rng() % 8) {
    case 0: v &= 0xff; break;
    case 1: v >>= rng() % 64; break;
    case 2: v = ~(v >> rng() % 64); break;
    case 3: v = uint64_t(1) << rng() % 64; break;
    case 4: v = (uint64_t(1) << rng() % 64) - 1; break;
    case 5: v = ~uint64_t(0) << rng() % 64; break;
    case 6: if (!dict.empty()) v = dict[rng() % dict.size()] + rng() % 3 - 1; break;
  }
  return w == 64 ? v : v & ((uint64_t(1) << w) - 1);
}
static std::string gbits(size_t w, size_t) { return std::to_string(rbits(w)); }
static std::string gbool(size_t, size_t) { return std::to_string(rng() % 2); }
static std::string gidx(size_t lo, size_t hi) {
  size_t span = hi - lo, b = bigness;
  if (!dict.empty() && big_dict) {     // sizes about the constants of the code
    size_t v = dict[rng() % dict.size()] * (rng() % 4 ? 1 : 2) + rng() % 3 - 1;
    if (rng() % 2 && v >= lo && v <= hi) return std::to_string(v);
    b = 2 * dict.back() + 20;
  }
  if (span > b) span = b;
  return std::to_string(lo + rng() % (span + 1));
}
static bool wide;
static std::string greal(size_t, size_t) {
  int n = int(rng() % 41) - 20, d[] = {1, 2, 4, 5, 8, 10};
  char buf[64];
  double v = n / double(d[rng() % 6]);
  if (wide && rng() % 3 == 0) v = (rng() % 2 ? 1 : -1) * (double(rng() % 900 + 100) / 1000) * std::pow(10.0, double(int(rng() % 11) - 8));   // other magnitudes
  if (wide && !magn.empty() && rng() % 6 == 0) v = (rng() % 2 ? 1 : -1) * magn[rng() % magn.size()] * (double(rng() % 1000 + 1) / 500);
  snprintf(buf, sizeof buf, "%.17g", v);
  return buf;
}
// a power of two, so that everything scales exactly
static std::string gscale(size_t, size_t) {
  int e = 0;
  if (rng() % 4 == 0) e = -int(rng() % 60);
  if (!magn.empty() && rng() % 2) e = std::ilogb(magn[rng() % magn.size()]) + int(rng() % 9) - 6;
  char buf[64];
  snprintf(buf, sizeof buf, "%.17g", std::ldexp(1.0, std::max(-110, std::min(40, e))));
  return buf;
}
static std::string gf64(size_t, size_t) {
  static const double s[] = {0.0, -0.0, 1.0, -1.0, 2.0, 0.5, NAN, INFINITY, -INFINITY, 1e300, 1e-310};
  double d = rng() % 2 ? s[rng() % 11] : double(int64_t(rng())) / 1024;
  uint64_t u;
  memcpy(&u, &d, 8);
  return std::to_string(u);
}
static uint64_t U(const std::string& s) { return strtoull(s.c_str(), nullptr, 10); }

// Real-number contracts run in floating point here, so a candidate violation counts only when it stands out of the rounding noise: the
// same inputs are run again under other rounding modes and with minute perturbations, and the spread of each vf_req difference is its noise.
static double tolerance, perturb;
static bool numeric, divisors;
static std::vector<double> diffs, noise;
static std::set<std::string> bad_labels;
static double noisy(const char* n, double v) {
  numeric = true;
  if (perturb == 0) return v;
  double u = double(std::hash<std::string>()(std::string(n) + std::to_string(perturb)) % 2001) / 1000 - 1;
  return v * (1 + perturb * u);
}

extern "C" {
uint8_t vf_u8(const char* n) { return U(pick(n, "bv8", gbits, replaying ? 0 : 8, 0)); }
uint16_t vf_u16(const char* n) { return U(pick(n, "bv16", gbits, replaying ? 0 : 16, 0)); }
uint32_t vf_u32(const char* n) { return U(pick(n, "bv32", gbits, replaying ? 0 : 32, 0)); }
uint64_t vf_u64(const char* n) { return U(pick(n, "bv64", gbits, replaying ? 0 : 64, 0)); }
bool vf_bool(const char* n) { return U(pick(n, "bool", gbool, 0, 0)); }
size_t vf_idx(const char* n, size_t lo, size_t hi) {
  size_t v = U(pick(n, "int", gidx, lo, hi));
  if (v < lo || v > hi) throw skip();
  return v;
}
double vf_real(const char* n) { return noisy(n, strtod(pick(n, "real", greal, 0, 0).c_str(), nullptr)); }
double vf_f64(const char* n) {
  uint64_t u = U(pick(n, "f64", gf64, 0, 0));
  double d;
  memcpy(&d, &u, 8);
  return d;
}
// Memory of the sizes that only a counter-model asks for is mapped without being reserved.  A run that would need much of it (or
// much time) is given up, it shows nothing.
static void give_up(int) {
  static int ticks;
  struct rusage u;
  getrusage(RUSAGE_SELF, &u);
  if (++ticks > 500 || u.ru_maxrss > 1500000) { static const char m[] = "REPLAY skipped (huge)\n"; (void)!write(1, m, sizeof m - 1); _exit(0); }
}
static void* mkhuge(const char* name, size_t bytes, size_t leaf) {
  if (!replaying || bytes > (size_t(1) << 45)) throw skip();
  signal(SIGALRM, give_up);
  struct itimerval tv = {{0, 20000}, {0, 20000}};
  setitimer(ITIMER_REAL, &tv, nullptr);
  size_t const page = 4096, len = (bytes + page - 1) / page * page;
  auto m = static_cast<uint8_t*>(mmap(nullptr, len + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  if (m == MAP_FAILED) throw skip();
  if (mprotect(m + page, len, PROT_READ | PROT_WRITE)) throw skip();
  uint8_t* p = m + page;
  std::vector<uint8_t> init;
  auto it = given_mem.find(name);
  if (it != given_mem.end()) {
    init.resize(it->second.second.size() * leaf);
    for (size_t i = 0; i < it->second.second.size() && (i + 1) * leaf <= bytes; ++i) memcpy(&init[i * leaf], &it->second.second[i], leaf < 8 ? leaf : 8);
    memcpy(p, init.data(), init.size());
  }
  regions.push_back({p, bytes, init, name, leaf, true});
  return p;
}
static void* mkmem(const char* name, size_t bytes, size_t leaf, size_t align = 16) {
  if (bytes > (size_t(1) << 24)) return mkhuge(name, bytes, leaf);
  uint8_t* p = static_cast<uint8_t*>(malloc(bytes));
  if (p && reinterpret_cast<uintptr_t>(p) % align) {
    void* q = nullptr;
    free(p);
    p = posix_memalign(&q, align, bytes) == 0 ? static_cast<uint8_t*>(q) : nullptr;
  }
  if (!p && bytes) throw skip();
  for (size_t i = 0; i < bytes; ++i) p[i] = uint8_t(rng());
  if (replaying) {
    auto it = given_mem.find(name);
    if (it != given_mem.end())
      for (size_t i = 0; i < it->second.second.size() && (i + 1) * leaf <= bytes; ++i) memcpy(p + i * leaf, &it->second.second[i], leaf < 8 ? leaf : 8);
  } else if (leaf == 1 && rng() % 2) {
    for (size_t i = 0; i < bytes; ++i)
      if (rng() % 3) p[i] |= 0x80;
  }
  regions.push_back({p, bytes, std::vector<uint8_t>(p, p + bytes), name, leaf, false});
  return p;
}
void* vf_mem(const char* name, size_t count, size_t cell, size_t leaf) { return mkmem(name, count * cell, leaf, cell % 32 ? 16 : 32); }
uint8_t* vf_buf(const char* name, size_t len) { return static_cast<uint8_t*>(mkmem(name, len, 1)); }
static void old(const void* p, void* out, size_t n) {
  auto q = static_cast<const uint8_t*>(p);
  for (auto& r : regions)
    if (q >= r.p && q + n <= r.p + r.n) {
      memset(out, 0, n);
      size_t const o = q - r.p;
      if (o + n <= r.init.size()) memcpy(out, &r.init[o], n);
      return;
    }
  throw skip();
}
uint8_t vf_old8(const void* p) { uint8_t v; old(p, &v, 1); return v; }
uint16_t vf_old16(const void* p) { uint16_t v; old(p, &v, 2); return v; }
uint32_t vf_old32(const void* p) { uint32_t v; old(p, &v, 4); return v; }
uint64_t vf_old64(const void* p) { uint64_t v; old(p, &v, 8); return v; }
void vf_assume(bool c) { if (!c) throw skip(); }
void vf_ensure(const char* label, bool c) {
  if (!c) bad_labels.insert(label);
  if (!c && !violated) { violated = true; first_label = label; }
}
void vf_ensure_inv(const char*, bool) {}
void vf_expect(const char*) {}
void vf_reach(const char*) {}
void vf_note(const char*) {}
bool vf_symbolic() { return false; }
void vf_assume_divisors() { divisors = true; }
void vf_any_reals(const char* name, void* p, size_t n, size_t elem, double keep) {
  size_t k = 0;
  for (size_t i = 0; i + elem <= n; i += elem) {
    double v;
    float w;
    char* q = static_cast<char*>(p) + i;
    if (elem == 8) memcpy(&v, q, 8); else { memcpy(&w, q, 4); v = w; }
    // other members of the object: an address is a tiny denormal as a double, and has one as its upper half as a pair of floats
    if (elem == 4) {
      uint64_t word;
      size_t const at = i / 8 * 8;
      if (at + 8 <= n) memcpy(&word, static_cast<char*>(p) + at, 8); else word = 0;
      if ((word >> 32) != 0 && (word >> 48) == 0) continue;
    }
    if ((v != 0 && std::fabs(v) < 1e-200) || v == keep) continue;
    char nm[64];
    snprintf(nm, sizeof nm, "%s%02zu", name, k++);
    v = noisy(nm, strtod(pick(strdup(nm), "real", greal, 0, 0).c_str(), nullptr));
    if (name[0] == 's') { scale_ = strtod(pick("vf_scale", "real", gscale, 1, 1).c_str(), nullptr); v *= scale_; }   // a delay line
    if (elem == 8) memcpy(q, &v, 8); else { w = v; memcpy(q, &w, 4); }
  }
}
void vf_record(const char* name, double v) { printf("RECORD %s %a\n", name, v); }
void* vf_opaque(void* p) { return p; }
size_t vf_ite(bool c, size_t a, size_t b) { return c ? a : b; }
bool vf_and(bool a, bool b) { return a && b; }
bool vf_or(bool a, bool b) { return a || b; }
bool vf_implies(bool a, bool b) { return !a || b; }
bool vf_bytes_eq(const void* p, const void* q, size_t n) { return memcmp(p, q, n) == 0; }
void vf_tolerance(double t) { tolerance = t; }
void vf_wide() { wide = true; }
double vf_signal(const char* n) {
  scale_ = strtod(pick("vf_scale", "real", gscale, 1, 1).c_str(), nullptr);
  return scale_ * vf_real(n);
}
bool vf_req(double a, double b) {
  // b is the expected value: only its own singularities and ill-conditioned magnitudes are skipped
  if (!std::isfinite(b) || std::fabs(b) > 1e7) throw skip();
  if (!std::isfinite(a)) { if (divisors) throw skip(); diffs.push_back(0); return false; }
  size_t i = diffs.size();
  diffs.push_back(a - b);
  return std::fabs(a - b) <= tolerance * std::max(std::min(1.0, scale_), std::max(std::fabs(a), std::fabs(b))) + (i < noise.size() ? noise[i] : 0);
}
void vf_ghost_ring(int chan, const void* base, size_t cell, size_t first, size_t n, size_t cap) {
  for (size_t i = 0; i < n; ++i) {
    size_t k = first + i >= cap ? first + i - cap : first + i;
    ghost[{chan, static_cast<const uint8_t*>(base) + k * cell}] = true;
  }
}
bool vf_ghost_get(int chan, const void* p, size_t) {
  auto it = ghost.find({chan, p});
  return it != ghost.end() && it->second;
}
void vf_ghost_set(int chan, const void* p, size_t, bool v) { ghost[{chan, p}] = v; }
}

#ifdef VF_WATCH
//   native <contract> watch <seed> <secs> a:<function> .. g:<variable> ..   does the function allocate, does the variable change?
#include <execinfo.h>
#include <link.h>
static std::vector<std::string> watch_fn;
static volatile bool watching;
static void on_alloc() {
  if (!watching) return;
  watching = false;
  void* f[12];
  int n = backtrace(f, 12);
  for (int i = 0; i < n; ++i) {
    Dl_info d;
    if (!dladdr(f[i], &d) || !d.dli_sname) continue;
    if (strstr(d.dli_sname, "cxa_allocate_exception") || strncmp(d.dli_sname, "vf_", 3) == 0) break;
    for (auto& w : watch_fn)
      if (w == d.dli_sname) { printf("VIOLATED %s calls an allocator\n", w.c_str()); dump(stdout); _exit(1); }
  }
  watching = true;
}
extern "C" void* __libc_malloc(size_t);
extern "C" void __libc_free(void*);
extern "C" void* malloc(size_t n) { on_alloc(); return __libc_malloc(n); }
extern "C" void free(void* p) { if (p) on_alloc(); __libc_free(p); }
static int watch(void (*fn)(), int argc, char** argv) {
  struct var { std::string name; const char* p; std::vector<char> old; };
  std::vector<var> vars;
  for (int i = 5; i < argc; ++i) {
    if (argv[i][0] == 'a') watch_fn.push_back(argv[i] + 2);
    else if (void* p = dlsym(RTLD_DEFAULT, argv[i] + 2)) {
      Dl_info d;
      ElfW(Sym)* e = nullptr;
      size_t n = dladdr1(p, &d, reinterpret_cast<void**>(&e), RTLD_DL_SYMENT) && e ? e->st_size : 1;
      auto q = static_cast<const char*>(p);
      vars.push_back({argv[i] + 2, q, std::vector<char>(q, q + n)});
    }
  }
  void* warm[4];
  backtrace(warm, 4);
  uint64_t seed = strtoull(argv[3], nullptr, 10);
  double secs = atof(argv[4]);
  auto t0 = std::chrono::steady_clock::now();
  for (uint64_t n = 0; std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < secs; ++n) {
    rng.seed(seed * 1000003 + n);
    bigness = n % 4 == 0 ? 2 : n % 4 == 1 ? 4 : n % 4 == 2 ? 8 : 20;
    cpu_limit(20);
    log_.clear(); memo.clear(); ghost.clear(); regions.clear();
    watching = !watch_fn.empty();
    try { fn(); } catch (...) {}
    watching = false;
    for (auto& v : vars)
      if (memcmp(v.p, v.old.data(), v.old.size())) { printf("VIOLATED the static variable %s changes\n", v.name.c_str()); dump(stdout); return 1; }
  }
  printf("SEARCH clean\n");
  return 0;
}
#endif

static bool pass(void (*fn)(), uint64_t seed) {
  rng.seed(seed);
  log_.clear(); memo.clear(); ghost.clear();
  for (auto& r : regions)
    if (!r.huge) free(r.p);
  regions.clear();
  violated = false; first_label.clear(); tolerance = 1e-6; divisors = wide = false; scale_ = 1;
  diffs.clear(); bad_labels.clear();
  try { fn(); } catch (skip const&) { return violated; } catch (...) { violated = true; first_label = "an exception escaped the contract"; bad_labels.insert(first_label); }
  return true;
}
static bool once(void (*fn)(), uint64_t seed) {
  noise.clear(); perturb = 0; numeric = false;
  bool done = pass(fn, seed);
  if (violated && numeric) {
    static const int modes[] = {FE_TONEAREST, FE_UPWARD, FE_DOWNWARD, FE_TOWARDZERO};
    static const double perts[] = {0, 1e-12, 1.7e-12, 2.3e-12};
    std::vector<double> lo = diffs, hi = diffs;
    std::set<std::string> labels = bad_labels;
    int same = 0, all = 0;
    for (double q : perts)
      for (int m : modes) {
        perturb = q;
        fesetround(m);
        bool ran = pass(fn, seed);
        fesetround(FE_TONEAREST);
        if (++all && (!ran || diffs.size() != lo.size())) continue;
        ++same;
        for (size_t i = 0; i < lo.size(); ++i) lo[i] = std::min(lo[i], diffs[i]), hi[i] = std::max(hi[i], diffs[i]);
        for (auto it = labels.begin(); it != labels.end();) it = bad_labels.count(*it) ? std::next(it) : labels.erase(it);
      }
    perturb = 0;
    for (size_t i = 0; i < lo.size(); ++i) noise.push_back(1e3 * (hi[i] - lo[i]));
    pass(fn, seed);
    for (auto it = labels.begin(); it != labels.end();) it = bad_labels.count(*it) ? std::next(it) : labels.erase(it);
    violated = !labels.empty() && same * 2 > all;
    if (violated) first_label = *labels.begin();
    else done = false;
  }
  if (violated) { printf("VIOLATED %s\n", first_label.c_str()); dump(stdout); }
  return done;
}

int main(int argc, char** argv) {
  auto fn = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, argv[1]));
  if (!fn) { printf("NOCONTRACT\n"); return 4; }
  if (&__asan_set_death_callback) __asan_set_death_callback(on_death);
  signal(SIGABRT, on_sig); signal(SIGALRM, on_sig); signal(SIGPROF, on_sig);
  std::string mode = argv[2];
  if (mode == "replay") {
    replaying = true;
    std::ifstream in(argv[3]);
    std::string line;
    while (std::getline(in, line)) {
      std::istringstream s(line);
      std::string n, k, v;
      s >> n >> k;
      if (k == "mem") {
        size_t leaf; s >> leaf;
        auto& g = given_mem[n];
        g.first = leaf;
        while (s >> v) g.second.push_back(U(v));
      } else { s >> v; given[n] = v; }
    }
    alarm(20);
    bool done = once(fn, 5489);
    printf(violated ? "REPLAY violated\n" : done ? "REPLAY holds\n" : "REPLAY skipped\n");
    return violated ? 1 : 0;
  }
#ifdef VF_WATCH
  if (mode == "watch") return watch(fn, argc, argv);
#endif
  if (auto d = getenv("VF_MAGN")) { std::istringstream s(d); double v; while (s >> v) magn.push_back(v); }
  if (auto d = getenv("VF_DICT")) { std::istringstream s(d); size_t v; while (s >> v) dict.push_back(v); }
  uint64_t seed = strtoull(argv[3], nullptr, 10), trials = strtoull(argv[4], nullptr, 10);
  double secs = atof(argv[5]);
  auto t0 = std::chrono::steady_clock::now();
  uint64_t n = 0, ran = 0;
  for (; n < trials; ++n) {
    bigness = n % 4 == 0 ? 2 : n % 4 == 1 ? 4 : n % 4 == 2 ? 8 : 20;
    big_dict = n % 8 == 7;
    cpu_limit(20);
    ran += once(fn, seed * 1000003 + n);
    if (violated) { printf("SEARCH violated trial %llu\n", (unsigned long long)n); return 1; }
    if (n % 16 == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
  }
  printf("SEARCH clean trials %llu effective %llu\n", (unsigned long long)n, (unsigned long long)ran);
  return 0;
}
