// Native execution of a contract harness: replays a counterexample file or
// samples the universally quantified inputs at random.
//   prog <harness> replay <file>
//   prog <harness> random <seed> <iterations> <ms> <dumpfile>
// exit 0: contract held; 42: a v_assert failed; 43: crash / sanitizer report;
// 44: replay file does not satisfy the precondition.
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <map>
#include <string>
#include <tuple>
#include <sys/time.h>
#include <unistd.h>
#include <vector>
#include <cstdint>

namespace {
typedef std::pair<std::string, uint64_t> Key;
struct Rec { std::string name; uint64_t idx, occ, val; };
std::map<Key, uint64_t>* occ;
std::map<std::tuple<std::string, uint64_t, uint64_t>, uint64_t>* given;
std::map<std::string, std::vector<std::pair<uint64_t, uint64_t>>>* garr;
std::vector<Rec>* trace;
std::vector<Rec>* atrace;
std::map<std::string, std::vector<uint64_t>>* arrs;
std::vector<void*>* allocs;
bool replay;
uint64_t rng;
std::string* dumpfile;
jmp_buf jb;
bool in_run;
uint64_t covers;
int style;

uint64_t rnd() {
  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
  return rng * 0x2545F4914F6CDD1DULL;
}
void dump(const char* why) {
  if (!dumpfile || dumpfile->empty()) return;
  FILE* f = fopen(dumpfile->c_str(), "w");
  if (!f) return;
  fprintf(f, "# %s\n", why);
  for (auto& r : *trace) fprintf(f, "in %s %llu %llu %llu\n", r.name.c_str(), (unsigned long long)r.idx, (unsigned long long)r.occ, (unsigned long long)r.val);
  for (auto& r : *atrace) fprintf(f, "arr %s %llu %llu\n", r.name.c_str(), (unsigned long long)r.idx, (unsigned long long)r.val);
  fclose(f);
}
void on_sig(int s) {
  char b[64];
  snprintf(b, sizeof b, "crash: signal %d", s);
  if (in_run) dump(b);
  const char m[] = "NATIVE crash\n";
  ssize_t w = write(1, m, sizeof m - 1);
  (void)w;
  _exit(43);
}
uint64_t biased(uint64_t bits) {
  uint64_t m = bits >= 64 ? ~0ULL : (1ULL << bits) - 1;
  uint64_t r = rnd(), t = rnd();
  switch (style == 0 ? r % 10 : style == 1 ? 8 : r % 12) {
    case 0: return 0;
    case 1: return m;
    case 2: return t & 1;
    case 3: return (1ULL << (t % bits)) & m;
    case 4: return ((1ULL << (t % bits)) - 1) & m;
    case 5: return (m - (t & 3)) & m;
    case 6: return t & 15 & m;
    case 7: { uint64_t k = 1 + rnd() % bits; return (k >= 64 ? t : t & ((1ULL << k) - 1)) & m; }
    default: return t & m;
  }
}
uint64_t get(const char* name, uint64_t idx, uint64_t bits, bool rangeq, int64_t lo, int64_t hi) {
  uint64_t o = (*occ)[Key(name, idx)]++;
  uint64_t v = 0;
  if (replay) {
    auto it = given->find(std::make_tuple(std::string(name), idx, o));
    if (it != given->end()) v = it->second;
    else if (rangeq) v = (uint64_t)lo;
  } else if (rangeq) {
    uint64_t span = (uint64_t)hi - (uint64_t)lo;  // inclusive
    uint64_t r = rnd();
    if (span == ~0ULL) v = rnd();
    else switch (r % 8) {
      case 0: v = (uint64_t)lo; break;
      case 1: v = (uint64_t)hi; break;
      case 2: v = (uint64_t)lo + (span ? rnd() % (span < 3 ? span + 1 : 3) : 0); break;
      case 3: { uint64_t k = rnd() % 64; uint64_t t = rnd() & ((2ULL << k) - 1); v = (uint64_t)lo + t % (span + 1); break; }
      default: v = (uint64_t)lo + rnd() % (span + 1);
    }
    if (lo < 0 && hi > 0 && (r >> 8) % 4 == 0) { int64_t s = (int64_t)(rnd() % 5) - 2; if (s >= lo && s <= hi) v = (uint64_t)s; }
  } else {
    v = biased(bits);
  }
  if (bits < 64) v &= (1ULL << bits) - 1;
  trace->push_back(Rec{name, idx, o, v});
  return v;
}
}  // namespace

extern "C" {
uint64_t v_nondet(const char* name, uint64_t idx, uint64_t bits) { return get(name, idx, bits, false, 0, 0); }
uint64_t v_range(const char* name, uint64_t idx, uint64_t bits, uint64_t lo, uint64_t hi) {
  uint64_t v = get(name, idx, bits, true, (int64_t)lo, (int64_t)hi);
  if (v < lo || v > hi) longjmp(jb, 1);
  return v;
}
int64_t v_srange(const char* name, uint64_t idx, uint64_t bits, int64_t lo, int64_t hi) {
  uint64_t u = get(name, idx, bits, true, lo, hi);
  int64_t v = bits < 64 ? (int64_t)(u << (64 - bits)) >> (64 - bits) : (int64_t)u;
  if (v < lo || v > hi) longjmp(jb, 1);
  return v;
}
uint64_t v_case(const char* name, uint64_t lo, uint64_t hi) { return v_range(name, 0, 64, lo, hi); }
uint64_t v_determined(uint64_t v) { return v; }
void v_assume(bool c) { if (!c) longjmp(jb, 1); }
void v_assert(bool c, const char* name) {
  if (c) return;
  std::string w = std::string("failed contract: ") + name;
  dump(w.c_str());
  printf("NATIVE FAIL %s\n", name);
  fflush(stdout);
  _exit(42);
}
void v_lemma(bool c, const char* name) { v_assert(c, name); }
void v_cover(const char*) { ++covers; }
bool v_native() { return true; }
uint64_t v_concrete(uint64_t v, uint64_t, uint64_t) { return v; }
void v_invariant(bool) {}
__attribute__((weak)) void v_index(uint64_t, uint64_t) {}
void* v_array(const char* name, uint64_t es, uint64_t count) {
  if (count > (1u << 24)) longjmp(jb, 1);
  char* p = (char*)malloc(es * count + 1);
  p = (char*)realloc(p, es * count ? es * count : 1);
  allocs->push_back(p);
  if (replay) {
    memset(p, 0, es * count);
    for (auto& kv : (*garr)[name])
      if (kv.first < count) memcpy(p + kv.first * es, &kv.second, es);
  } else {
    // the same name denotes the same values
    std::vector<uint64_t>& known = (*arrs)[name];
    for (uint64_t i = 0; i < count; ++i) {
      if (i >= known.size()) {
        known.push_back(biased(8 * es));
        atrace->push_back(Rec{name, i, 0, known.back()});
      }
      memcpy(p + i * es, &known[i], es);
    }
  }
  return p;
}
void* v_alloc(uint64_t bytes, uint64_t) {
  if (bytes > (1u << 26)) longjmp(jb, 1);
  void* p = malloc(bytes ? bytes : 1);
  memset(p, 0xA5, bytes);
  allocs->push_back(p);
  return p;
}
// Quantifiers are checked by sampling one instance.
uint64_t v_bound(uint64_t lo, uint64_t hi) {
  if (lo >= hi) return lo;
  return lo + rnd() % (hi - lo);
}
bool v_forall_close(uint64_t, uint64_t lo, uint64_t hi, bool r) { return lo >= hi ? true : r; }
bool v_exists_close(uint64_t, uint64_t, uint64_t, bool) { return true; }
void __asan_on_error() { if (in_run) dump("address sanitizer report"); }
void __ubsan_on_report() { if (in_run) dump("undefined behaviour report"); }
void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
}

static void death() { printf("NATIVE crash\n"); fflush(stdout); _exit(43); }

int main(int argc, char** argv) {
  if (argc < 4) return 2;
  std::string h = std::string("h_") + argv[1];
  typedef void (*Fn)();
  Fn fn = (Fn)dlsym(RTLD_DEFAULT, h.c_str());
  if (!fn) { fprintf(stderr, "no harness %s\n", h.c_str()); return 3; }
  occ = new std::map<Key, uint64_t>; given = new std::map<std::tuple<std::string, uint64_t, uint64_t>, uint64_t>;
  garr = new std::map<std::string, std::vector<std::pair<uint64_t, uint64_t>>>;
  trace = new std::vector<Rec>; atrace = new std::vector<Rec>; arrs = new std::map<std::string, std::vector<uint64_t>>; allocs = new std::vector<void*>; dumpfile = new std::string;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGTRAP}) signal(s, on_sig);
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
  replay = !strcmp(argv[2], "replay");
  uint64_t seed = 1, iters = 1, ms = 1000;
  if (replay) {
    FILE* f = fopen(argv[3], "r");
    if (!f) return 3;
    char k[16], n[128], line[512];
    while (fgets(line, sizeof line, f)) {
      unsigned long long a, b, c;
      if (sscanf(line, "in %127s %llu %llu %llu", n, &a, &b, &c) == 4) (*given)[std::make_tuple(std::string(n), a, b)] = c;
      else if (sscanf(line, "arr %127s %llu %llu", n, &a, &b) == 3) (*garr)[n].push_back({a, b});
    }
    (void)k;
    fclose(f);
  } else {
    seed = strtoull(argv[3], 0, 10);
    iters = strtoull(argv[4], 0, 10);
    ms = strtoull(argv[5], 0, 10);
    if (argc > 6) *dumpfile = argv[6];
  }
  struct timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  volatile uint64_t done = 0, ok = 0;
  for (volatile uint64_t i = 0; i < iters; i = i + 1) {
    rng = (seed * 0x9E3779B97F4A7C15ULL) ^ (i * 0xD1B54A32D192ED03ULL + 0x1234567);
    if (!rng) rng = 1;
    rnd(); rnd();
    style = i % 3;
    occ->clear(); trace->clear(); atrace->clear(); arrs->clear();
    in_run = true;
    struct itimerval tv = {{0, 0}, {60, 0}};  // one run takes at most 60 s of processor time
    setitimer(ITIMER_PROF, &tv, NULL);
    signal(SIGPROF, on_sig);
    if (setjmp(jb) == 0) { fn(); ok = ok + 1; }
    in_run = false;
    for (void* p : *allocs) free(p);
    allocs->clear();
    done = done + 1;
    if (replay) break;
    if ((i & 15) == 0) {
      clock_gettime(CLOCK_MONOTONIC, &t1);
      if ((t1.tv_sec - t0.tv_sec) * 1000 + (t1.tv_nsec - t0.tv_nsec) / 1000000 > (long)ms) break;
    }
  }
  printf("NATIVE OK iterations=%llu satisfied=%llu\n", (unsigned long long)done, (unsigned long long)ok);
  if (replay && ok == 0) return 44;
  return 0;
}
