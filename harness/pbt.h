// A small property-based-testing engine used by every check in /verif.
//
// Every random decision of a case is a draw from a Gen; the resolved values of
// the draws form the case's "tape".  A case is a pure function of its tape, so
//   * RANDOM mode derives the draws from (seed, facet, case index),
//   * TAPE   mode replays a recorded tape (missing entries are 0),
//   * BYTES  mode decodes libFuzzer input into draws,
// and shrinking is editing of the tape (deleting, zeroing, lowering entries).
// Cases run in forked children, so a crash, a sanitizer report, an unexpected
// exit() or a CPU-time overrun of the code under test is an ordinary failure.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H

#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <climits>
#include <cmath>
#include <iomanip>
#include <limits>
#include <sstream>
#include <string>
#include <utility>
#include <vector>

namespace pbt {

typedef uint64_t u64;
typedef int64_t i64;

enum { TAPE_MAX = 1 << 17, MSG_MAX = 6000, MAX_FACETS = 64, MAX_LABELS = 96 };

struct LabelSlot {
  char name[56];
  volatile u64 n;
};

struct FacetStats {
  volatile u64 evals, nontrivial, distinct, discards, max_ms;
  volatile u64 sample_idx[4];
  volatile u64 nsamples;
};

// one per running child
struct Slot {
  volatile u64 case_idx;
  volatile u64 tape_len;
  volatile int overflow;
  volatile int status;  // 0 running, 1 assertion, 2 cpu overrun, 3 unexpected exit, 4 exception
  char msg[MSG_MAX];
  u64 tape[TAPE_MAX];
};

struct Global {
  FacetStats facet[MAX_FACETS];
  LabelSlot label[MAX_LABELS];
};

static const u64 HT_SIZE = 1ull << 25;

struct Engine {
  Slot* slot;
  Global* glob;
  u64* ht;
  bool verbose;
  int notes_fd;
  bool fuzz;
  int cur_facet;
  bool in_case;
  volatile int expect_exit;
  volatile int exit_code;
  jmp_buf jb;
  Engine()
      : slot(0), glob(0), ht(0), verbose(false), notes_fd(-1), fuzz(false), cur_facet(0),
        in_case(false), expect_exit(0), exit_code(0) {}
};
inline Engine& E() {
  static Engine* e = new Engine;
  return *e;
}

inline u64 mix(u64 x) {
  x += 0x9e3779b97f4a7c15ull;
  x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
  x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
  return x ^ (x >> 31);
}
inline u64 hash_str(const char* s) {
  u64 h = 1469598103934665603ull;
  for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull;
  return mix(h);
}

// ---------------------------------------------------------------- failing
__attribute__((noreturn)) inline void fail(const std::string& m) {
  Engine& e = E();
  if (e.fuzz) {
    fprintf(stderr, "PBT-FAIL: %s\n", m.c_str());
    __builtin_trap();
  }
  if (e.slot) {
    snprintf(e.slot->msg, MSG_MAX, "%s", m.c_str());
    e.slot->status = 1;
  }
  _exit(77);
}

inline void put_note(const std::string& s) {  // written at once: a crash loses nothing
  std::string l = s + "\n";
  if (write(E().notes_fd, l.data(), l.size())) {}
}
struct Msg {
  std::ostringstream os;
  __attribute__((noinline, cold)) Msg(const char* f, int l, const char* c) {
    os << std::setprecision(17) << f << ":" << l << ": " << (*c ? "failed: " : "") << c;
  }
  __attribute__((noinline, cold)) Msg() { os << std::setprecision(17); }
  template <class T>
  __attribute__((noinline, cold)) Msg& operator<<(const T& t) {
    os << t;
    return *this;
  }
  __attribute__((noinline, cold)) Msg& operator<<(const char* t) {
    os << t;
    return *this;
  }
  __attribute__((noinline, cold)) ~Msg() {}
  __attribute__((noinline, cold)) operator std::string() const { return os.str(); }
};
__attribute__((noreturn, noinline, cold)) inline void fail_msg(const Msg& m);
#define PBT_FAIL(m) ::pbt::fail_msg(::pbt::Msg(__FILE__, __LINE__, "") << m)
#define CHECK(c, m)                                                                     \
  do {                                                                                  \
    if (__builtin_expect(!(c), 0)) ::pbt::fail_msg(::pbt::Msg(__FILE__, __LINE__, #c "; ") << m); \
  } while (0)
inline void fail_msg(const Msg& m) { fail(m); }
#define NOTE(m)                                                           \
  do {                                                                    \
    if (::pbt::E().verbose) ::pbt::put_note(::pbt::Msg() << m);           \
  } while (0)

inline std::string quote(const std::string& s) {
  std::string r = "\"";
  char b[8];
  for (size_t i = 0; i < s.size(); i++) {
    unsigned char c = s[i];
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char)c;
    } else if (c < 32 || c >= 127) {
      snprintf(b, sizeof b, "\\x%02x", c);
      r += b;
    } else
      r += (char)c;
  }
  return r + "\"";
}

// ---------------------------------------------------------------- generator
class Gen {
 public:
  enum Mode { RANDOM, TAPE, BYTES };
  Gen(u64 seed) : mode(RANDOM), st(seed), pos(0), nt(false) {}
  Gen(const std::vector<u64>& t) : mode(TAPE), st(0), tape(t), pos(0), nt(false) {}
  Gen(const uint8_t* d, size_t n)
      : mode(BYTES), st(0), pos(0), data(d), dlen(n), nt(false) {}

  // uniform in [0,n); n==0 means the full 64-bit range
  u64 draw(u64 n) {
    u64 v;
    if (n == 1) return 0;
    if (mode == RANDOM) {
      st += 0x9e3779b97f4a7c15ull;
      v = mixst(st);
      if (n) v = (u64)(((unsigned __int128)v * n) >> 64);
    } else if (mode == TAPE) {
      v = pos < tape.size() ? tape[pos] : 0;
      pos++;
      if (n && v >= n) v = n - 1;
    } else {
      int nb = n == 0 ? 8 : n <= 256 ? 1 : n <= 65536 ? 2 : n <= (1ull << 32) ? 4 : 8;
      v = 0;
      for (int i = 0; i < nb; i++) {
        v <<= 8;
        if (pos < dlen) v |= data[pos];
        pos++;
      }
      if (n) v %= n;
    }
    Slot* s = E().slot;
    if (s) {
      if (s->tape_len < TAPE_MAX) {
        s->tape[s->tape_len] = v;
        s->tape_len = s->tape_len + 1;
      } else
        s->overflow = 1;
    }
    return v;
  }
  bool exhausted() const {
    return (mode == BYTES && pos >= dlen) || (mode == TAPE && pos >= tape.size());
  }
  bool flag() { return draw(2) != 0; }
  // true with probability num/den; shrinks to false
  bool chance(u64 num, u64 den) { return draw(den) >= den - num; }
  // [lo,hi], shrinks to lo
  i64 range(i64 lo, i64 hi) { return lo + (i64)draw((u64)hi - (u64)lo + 1); }
  // [lo,hi] containing 0, shrinks towards 0
  i64 zrange(i64 lo, i64 hi) {
    u64 neg = (u64)0 - (u64)lo, posn = (u64)hi;
    u64 v = draw(neg + posn + 1);
    u64 m = std::min(neg, posn);
    if (v <= 2 * m) return (v & 1) ? -(i64)((v + 1) / 2) : (i64)(v / 2);
    return neg > posn ? -(i64)(v - m) : (i64)(v - m);
  }
  template <class T>
  const T& pick(const std::vector<T>& v) {
    return v[draw(v.size())];
  }
  template <class T, size_t N>
  const T& pick(const T (&v)[N]) {
    return v[draw(N)];
  }
  // all of int64 restricted to [lo,hi], biased to small values, powers of two
  // and the ends of the range
  i64 integer(i64 lo, i64 hi) {
    u64 k = draw(16);
    i64 v;
    if (k < 4) v = zr(8);
    else if (k < 7) v = zr(100);
    else if (k < 9) v = zr(100000);
    else if (k < 12) {
      u64 b = draw(63);
      i64 p = (i64)(1ull << b);
      v = p + (i64)draw(3) - 1;
      if (draw(2)) v = -v;
    } else if (k < 14) {
      u64 d = draw(4);
      v = draw(2) ? lo + (i64)d : hi - (i64)d;
      if (v < lo || v > hi) v = lo;
      return v;
    } else {
      return lo + (i64)draw((u64)hi - (u64)lo + 1);
    }
    if (v < lo || v > hi) {  // fold into the range
      u64 span = (u64)hi - (u64)lo + 1;
      if (span == 0) return v;
      v = lo + (i64)(((u64)v - (u64)lo) % span);
    }
    return v;
  }
  int int32() { return (int)integer(INT_MIN, INT_MAX); }

  // ---- bookkeeping
  void label(const char* name);
  void nontrivial() { nt = true; }
  void nontrivial(bool b) { nt = nt || b; }

  Mode mode;
  u64 st;
  std::vector<u64> tape;
  size_t pos;
  const uint8_t* data;
  size_t dlen;
  bool nt;

 private:
  i64 zr(i64 m) { return zrange(-m, m); }
  static u64 mixst(u64 x) {
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
  }
};

inline void Gen::label(const char* name) {
  Global* gl = E().glob;
  if (!gl || E().fuzz) return;
  u64 h = hash_str(name) % MAX_LABELS;
  for (int i = 0; i < MAX_LABELS; i++) {
    LabelSlot& l = gl->label[(h + i) % MAX_LABELS];
    if (l.name[0] == 0 && __sync_bool_compare_and_swap(&l.name[0], 0, '\1')) {
      strncpy(l.name + 1, name + 1, sizeof(l.name) - 2);
      __sync_synchronize();
      l.name[0] = name[0];
    }
    while (*(volatile char*)&l.name[0] == '\1') {}
    if (strncmp(l.name, name, sizeof(l.name) - 1) == 0) {
      __sync_fetch_and_add(&l.n, 1);
      return;
    }
  }
}

// A shrink-friendly loop: each iteration costs one draw, 0 stops.
struct Loop {
  Gen& g;
  u64 avg;
  u64 max, n;
  Loop(Gen& g_, u64 avg_, u64 max_ = 100000) : g(g_), avg(avg_), max(max_), n(0) {}
  bool next() {
    if (n >= max) return false;
    if (g.draw(avg + 1) == 0) return false;
    n++;
    return true;
  }
};
// how often a history is observed: after every step, now and then, or only at its end (observing may
// itself complete work that was put off, and so hide what happens without it)
struct Watch {
  Gen& g;
  u64 mode;
  explicit Watch(Gen& g_) : g(g_), mode(g_.draw(4)) {}
  bool now() { return mode < 2 ? true : mode == 2 ? g.draw(5) == 0 : false; }
};
// average length drawn from a mix of classes up to about `big`
inline u64 len_class(Gen& g, u64 big) {
  static const u64 cls[] = {3, 3, 6, 6, 12, 12, 25, 25, 50, 50, 100, 200, 400, 800};
  u64 n = 0;
  while (n < sizeof(cls) / sizeof(cls[0]) && cls[n] <= big) n++;
  if (n == 0) return big ? big : 1;
  return cls[g.draw(n)];
}
inline std::string gen_string(Gen& g, const std::string& alphabet, u64 big) {
  std::string s;
  Loop l(g, len_class(g, big));
  while (l.next()) s += alphabet[g.draw(alphabet.size())];
  return s;
}
inline std::string gen_bytes(Gen& g, u64 big) {
  std::string s;
  static const unsigned char hot[] = {0, 255, 128, 127, '%', '+', '=', '/', ' ', '"', '\\', 'A', '\n'};
  u64 style = g.draw(4);
  Loop l(g, len_class(g, big));
  while (l.next()) {
    if (style == 0) s += (char)('a' + g.draw(26));
    else if (style == 1) s += (char)g.draw(256);
    else if (style == 2) s += (char)hot[g.draw(sizeof hot)];
    else s += g.flag() ? (char)g.draw(256) : (char)hot[g.draw(sizeof hot)];
  }
  return s;
}

// ---------------------------------------------------------------- exit()
}  // namespace pbt

extern "C" {
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int) __attribute__((noreturn));
time_t __real_time(time_t*);
time_t __wrap_time(time_t*);
void __real___assert_fail(const char*, const char*, unsigned, const char*) __attribute__((noreturn));
void __wrap___assert_fail(const char*, const char*, unsigned, const char*) __attribute__((noreturn));
}
namespace pbt {
enum { ASSERTED = -134 };  // pseudo exit status: ended in a failing assert()
inline time_t& fake_time() {
  static time_t t = 1500000000;
  return t;
}
inline long stderr_pos() {
  fflush(stderr);
  if (E().fuzz) return 0;
  return (long)lseek(2, 0, SEEK_CUR);
}
}  // namespace pbt
extern "C" inline void verif_on_exit(int code) {
  pbt::Engine& e = pbt::E();
  if (e.in_case) {
    if (e.expect_exit) {
      e.exit_code = code;
      e.expect_exit = 0;
      _longjmp(e.jb, 1);
    }
    if (e.fuzz) {
      fprintf(stderr, "PBT-FAIL: unexpected exit(%d)\n", code);
      __builtin_trap();
    }
    if (e.slot) {
      snprintf(e.slot->msg, pbt::MSG_MAX, "code under test called exit(%d) on valid input", code);
      e.slot->status = 3;
    }
    _exit(77);
  }
}
#define PBT_DEFINE_WRAPS                                          \
  extern "C" void __wrap_exit(int code) {                         \
    verif_on_exit(code);                                          \
    __real_exit(code);                                            \
  }                                                               \
  extern "C" time_t __wrap_time(time_t* t) {                      \
    if (!pbt::E().in_case) return __real_time(t);                 \
    if (t) *t = pbt::fake_time();                                 \
    return pbt::fake_time();                                      \
  }                                                               \
  extern "C" void __wrap___assert_fail(const char* a, const char* f, unsigned l, const char* n) { \
    if (pbt::E().in_case && pbt::E().expect_exit) verif_on_exit(pbt::ASSERTED); \
    __real___assert_fail(a, f, l, n);                             \
  }

namespace pbt {
// Runs f; returns true when it ended in exit().  Objects alive across the jump
// are leaked by the caller on purpose (in reality the process is gone).
struct DeathInfo {
  bool died;
  int code;
  bool wrote;
};
template <class F>
__attribute__((noinline)) DeathInfo run_may_exit(F f) {
  Engine& e = E();
  DeathInfo d;
  d.died = false;
  d.code = 0;
  d.wrote = false;
  volatile long before = stderr_pos();
  if (_setjmp(e.jb) == 0) {
    e.expect_exit = 1;
    f();
    e.expect_exit = 0;
    return d;
  }
  d.died = true;
  d.code = e.exit_code;
  d.wrote = e.fuzz || stderr_pos() > before;
  return d;
}
// f must terminate with exit(EXIT_FAILURE) and a diagnostic on stderr
template <class F>
void must_error(const std::string& what, F f) {
  NOTE("must be rejected: " << what);
  DeathInfo d = run_may_exit(f);
  if (!d.died) PBT_FAIL(what << ": must terminate with an error, but it returned");
  if (d.code != EXIT_FAILURE) PBT_FAIL(what << ": exit status " << d.code << ", not EXIT_FAILURE");
  if (!d.wrote) PBT_FAIL(what << ": no diagnostic on stderr");
}
// the same, but a failing assert() (abort with a diagnostic) is an error report too
template <class F>
void must_error_or_assert(const std::string& what, F f) {
  NOTE("must be rejected: " << what);
  DeathInfo d = run_may_exit(f);
  if (!d.died) PBT_FAIL(what << ": must terminate with an error, but it returned");
  if (d.code == ASSERTED) return;
  if (d.code != EXIT_FAILURE) PBT_FAIL(what << ": exit status " << d.code << ", not EXIT_FAILURE");
  if (!d.wrote) PBT_FAIL(what << ": no diagnostic on stderr");
}
// f either returns (true) or terminates with a clean error (false)
template <class F>
bool returns_or_errors(const std::string& what, F f) {
  DeathInfo d = run_may_exit(f);
  if (!d.died) return true;
  if (d.code != EXIT_FAILURE) PBT_FAIL(what << ": exit status " << d.code << ", not EXIT_FAILURE");
  if (!d.wrote) PBT_FAIL(what << ": no diagnostic on stderr");
  return false;
}

// ---------------------------------------------------------------- facets
typedef void (*FacetFn)(Gen&);
struct Facet {
  const char* name;
  u64 cases;  // at scale 1
  FacetFn fn;
  const char* known;  // id of a known finding, or 0
};
std::vector<Facet>& facets();

struct CaseResult {
  bool failed;
  int kind;  // 1 assertion 2 cpu 3 exit 4 exception 5 crash
  std::string msg;
  std::vector<u64> tape;
};

inline void run_one(const Facet& f, Gen& g) {
  E().in_case = true;
  try {
    f.fn(g);
  } catch (const std::exception& ex) {
    E().in_case = false;
    fail(std::string("uncaught exception: ") + ex.what());
  } catch (...) {
    E().in_case = false;
    fail("uncaught exception of unknown type");
  }
  E().in_case = false;
}

#ifndef PBT_FUZZ
inline void on_prof(int) {
  Slot* s = E().slot;
  if (s) {
    s->status = 2;
    snprintf(s->msg, MSG_MAX, "the case used more than its CPU-time budget (non-termination)");
  }
  _exit(78);
}
// CPU seconds: for a case in the search, and before it is said not to end
#ifndef PBT_CASE_CPU
#define PBT_CASE_CPU 10
#define PBT_LONG_CPU 45
#endif
const double CASE_CPU = PBT_CASE_CPU, LONG_CPU = PBT_LONG_CPU;
inline void arm(double cpu_s) {
  struct itimerval it;
  memset(&it, 0, sizeof it);
  it.it_value.tv_sec = (time_t)cpu_s;
  it.it_value.tv_usec = (suseconds_t)((cpu_s - (time_t)cpu_s) * 1e6);
  setitimer(ITIMER_PROF, &it, 0);
}
inline double now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}

struct Runner {
  u64 seed;
  double scale, time_cap, shrink_cap;
  int workers;
  std::string out, replay_dir, property, only;
  std::vector<Slot*> slots;
  std::vector<int> errfd;
  std::string samples_json;
  u64 unconfirmed;
  bool cap_hit;
  u64 chunks_skipped;

  Runner()
      : seed(1), scale(1), time_cap(1e9), shrink_cap(30), workers(8), unconfirmed(0),
        cap_hit(false), chunks_skipped(0) {}

  u64 case_seed(int fi, u64 idx) const {
    return mix(mix(seed * 0x1000193ull + 7) ^ hash_str(facets()[fi].name) ^ mix(idx * 2 + 1));
  }
  static void* shm(size_t n) {
    void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
      perror("mmap");
      _exit(2);
    }
    return p;
  }
  void init() {
    E().glob = (Global*)shm(sizeof(Global));
    E().ht = (u64*)shm(HT_SIZE * sizeof(u64));
    for (int i = 0; i < workers + 1; i++) {
      slots.push_back((Slot*)shm(sizeof(Slot)));
      int fd = memfd_create("err", 0);
      errfd.push_back(fd);
    }
  }
  void child_setup(int s) {
    E().slot = slots[s];
    int dn = open("/dev/null", O_RDWR);
    dup2(dn, 0);
    dup2(dn, 1);
    if (ftruncate(errfd[s], 0)) {}
    lseek(errfd[s], 0, SEEK_SET);
    dup2(errfd[s], 2);
    signal(SIGPROF, on_prof);
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
  }
  std::string read_err(int s) {
    std::string r;
    char b[8192];
    off_t off = 0;
    ssize_t n;
    while (r.size() < 200000 && (n = pread(errfd[s], b, sizeof b, off)) > 0) {
      r.append(b, n);
      off += n;
    }
    return r;
  }
  void reset_slot(int s) {
    slots[s]->status = 0;
    slots[s]->tape_len = 0;
    slots[s]->overflow = 0;
    slots[s]->msg[0] = 0;
    slots[s]->case_idx = 0;
  }
  void account(int fi, Gen& g, u64 idx) {
    FacetStats& st = E().glob->facet[fi];
    __sync_fetch_and_add(&st.evals, 1);
    if (g.nt) {
      __sync_fetch_and_add(&st.nontrivial, 1);
      Slot* s = E().slot;
      u64 h = mix(fi + 1);
      for (u64 i = 0; i < s->tape_len; i++) h = mix(h ^ s->tape[i]);
      if (!h) h = 1;
      u64 p = h % HT_SIZE;
      for (int tries = 0; tries < 64; tries++, p = (p + 1) % HT_SIZE) {
        u64 cur = E().ht[p];
        if (cur == h) break;
        if (cur == 0) {
          if (__sync_bool_compare_and_swap(&E().ht[p], 0, h)) {
            __sync_fetch_and_add(&st.distinct, 1);
            u64 k = st.nsamples;
            if (k < 3 && s->tape_len >= 4) {
              st.sample_idx[k] = idx;
              st.nsamples = k + 1;
            }
            break;
          }
        }
      }
    }
  }
  void run_cases(int fi, u64 lo, u64 hi, double cpu) {
    for (u64 i = lo; i < hi; i++) {
      Slot* s = E().slot;
      s->case_idx = i;
      s->tape_len = 0;
      s->overflow = 0;
      arm(cpu);
      clock_t c0 = clock();
      Gen g(case_seed(fi, i));
      run_one(facets()[fi], g);
      if (E().glob) {
        u64 ms = (u64)(clock() - c0) / (CLOCKS_PER_SEC / 1000);
        if (ms > E().glob->facet[fi].max_ms) E().glob->facet[fi].max_ms = ms;
        account(fi, g, i);
      }
    }
    arm(0);
  }
  static std::string crash_summary(const std::string& err, int st) {
    std::string r;
    if (WIFSIGNALED(st)) {
      r = std::string("killed by signal ") + strsignal(WTERMSIG(st)) + "; ";
    }
    size_t p = err.find("ERROR: AddressSanitizer");
    if (p == std::string::npos) p = err.find("ERROR: ");
    if (p == std::string::npos) p = err.find("SUMMARY:");
    if (p == std::string::npos) p = err.size() > 600 ? err.size() - 600 : 0;
    r += err.substr(p, 1500);
    return r;
  }
  CaseResult decode(int s, int st) {
    CaseResult c;
    c.failed = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    c.kind = 0;
    if (c.failed) {
      c.kind = slots[s]->status ? slots[s]->status : 5;
      c.msg = slots[s]->msg;
      if (c.kind == 5 || c.kind == 3) {
        std::string cs = crash_summary(read_err(s), st);
        c.msg = c.msg.empty() ? "crash: " + cs : c.msg + "; stderr: " + cs;
      }
    }
    c.tape.assign(slots[s]->tape, slots[s]->tape + slots[s]->tape_len);
    return c;
  }
  // run one tape in a forked child
  CaseResult run_tape(int fi, const std::vector<u64>& tape, double cpu) {
    int s = workers;
    reset_slot(s);
    pid_t p = fork();
    if (p == 0) {
      child_setup(s);
      E().glob = 0;
      arm(cpu);
      Gen g(tape);
      run_one(facets()[fi], g);
      _exit(0);
    }
    return decode(s, wait_child(p, 300));
  }
  CaseResult run_bytes(int fi, const std::string& bytes, double cpu) {
    int s = workers;
    reset_slot(s);
    pid_t p = fork();
    if (p == 0) {
      child_setup(s);
      E().glob = 0;
      arm(cpu);
      Gen g((const uint8_t*)bytes.data(), bytes.size());
      run_one(facets()[fi], g);
      _exit(0);
    }
    return decode(s, wait_child(p, 300));
  }
  CaseResult run_prefix(int fi, u64 lo, u64 hi, double cpu) {
    int s = workers;
    reset_slot(s);
    pid_t p = fork();
    if (p == 0) {
      child_setup(s);
      E().glob = 0;
      run_cases(fi, lo, hi, cpu);
      _exit(0);
    }
    return decode(s, wait_child(p, 300));
  }
  // a child that sleeps forever is killed after `wall` seconds: no result
  int wait_child(pid_t p, double wall) {
    int st = 0;
    double t0 = now();
    useconds_t us = 100;
    while (true) {
      pid_t r = waitpid(p, &st, WNOHANG);
      if (r == p) return st;
      if (now() - t0 > wall) {
        kill(p, SIGKILL);
        waitpid(p, &st, 0);
        return 0;
      }
      usleep(us);
      if (us < 2000) us = us + us / 2;
    }
  }
  std::string verbose_notes(int fi, const std::vector<u64>* tape, u64 idx, size_t cap) {
    int pfd = memfd_create("notes", 0);
    int s = workers;
    reset_slot(s);
    pid_t p = fork();
    if (p == 0) {
      child_setup(s);
      E().glob = 0;
      E().verbose = true;
      E().notes_fd = pfd;
      arm(4);
      if (tape) {
        Gen g(*tape);
        run_one(facets()[fi], g);
      } else {
        Gen g(case_seed(fi, idx));
        run_one(facets()[fi], g);
      }
      _exit(0);
    }
    wait_child(p, 60);
    std::string r;
    char b[65536];
    ssize_t n;
    off_t off = 0;
    while (r.size() < cap && (n = pread(pfd, b, sizeof b, off)) > 0) {
      r.append(b, n);
      off += n;
    }
    close(pfd);
    if (r.size() > cap) r.resize(cap);
    return r;
  }
  static std::string jstr(const std::string& s) {
    std::string r = "\"";
    char b[8];
    for (size_t i = 0; i < s.size(); i++) {
      unsigned char c = s[i];
      if (c == '"' || c == '\\') {
        r += '\\';
        r += (char)c;
      } else if (c < 32 || c >= 127) {
        snprintf(b, sizeof b, "\\u%04x", c);
        r += b;
      } else
        r += (char)c;
    }
    return r + "\"";
  }

  CaseResult shrink(int fi, CaseResult best) {
    double t0 = now();
    std::vector<u64> t = best.tape;
    const bool slow = best.kind == 2;  // a case that runs too long stays one, any other never becomes one
    double cpu = slow ? 4.0 : 12.0;
    bool changed = true;
    while (changed && now() - t0 < shrink_cap) {
      changed = false;
      // delete blocks
      for (size_t k = t.size() / 2 ? t.size() / 2 : 1; k >= 1; k = k > 4 ? k / 2 : k - 1) {
        for (size_t i = t.size() >= k ? t.size() - k : 0;; i = i >= k ? i - k : (i > 0 ? 0 : (size_t)-1)) {
          if (i == (size_t)-1 || now() - t0 > shrink_cap) break;
          if (i + k <= t.size()) {
            std::vector<u64> c(t.begin(), t.begin() + i);
            c.insert(c.end(), t.begin() + i + k, t.end());
            CaseResult r = run_tape(fi, c, cpu);
            if (r.failed && (r.kind == 2) == slow) {
              best = r;
              t = r.tape.size() <= c.size() ? r.tape : c;
              best.tape = t;
              changed = true;
            }
          }
          if (i == 0) break;
        }
        if (k == 1) break;
      }
      // zero blocks, then single entries lowered
      for (size_t i = 0; i < t.size() && now() - t0 < shrink_cap; i++) {
        if (t[i] == 0) continue;
        u64 orig = t[i];
        u64 cand[6] = {0, 1, orig / 2, orig - orig / 4, orig - 1, 2};
        for (int j = 0; j < 6; j++) {
          if (cand[j] >= t[i]) continue;
          std::vector<u64> c = t;
          c[i] = cand[j];
          CaseResult r = run_tape(fi, c, cpu);
          if (r.failed && (r.kind == 2) == slow) {
            best = r;
            t = r.tape.size() <= c.size() ? r.tape : c;
            best.tape = t;
            changed = true;
            if (i < t.size() && t[i] != 0 && cand[j] >= 2) j = -1;
            if (i >= t.size() || t[i] == 0) break;
          }
        }
      }
      // delete one entry and lower an earlier one
      for (size_t i = 0; i + 1 < t.size() && t.size() < 60 && now() - t0 < shrink_cap; i++) {
        if (t[i] == 0) continue;
        for (size_t d = 1; d <= 3 && i + d < t.size(); d++) {
          std::vector<u64> c = t;
          c[i]--;
          c.erase(c.begin() + i + 1, c.begin() + i + 1 + d);
          CaseResult r = run_tape(fi, c, cpu);
          if (r.failed && (r.kind == 2) == slow && r.tape.size() < t.size()) {
            best = r;
            t = r.tape;
            changed = true;
            break;
          }
        }
      }
    }
    best.tape = t;
    return best;
  }

  std::string write_replay(int fi, const CaseResult& c, bool prefix, u64 lo, u64 hi) {
    std::string path = replay_dir + "/" + property + "-" + facets()[fi].name + ".replay";
    FILE* f = fopen(path.c_str(), "w");
    if (!f) {
      perror(path.c_str());
      return path;
    }
    fprintf(f, "property %s\nfacet %s\n", property.c_str(), facets()[fi].name);
    if (prefix) {
      fprintf(f, "prefix %llu %llu %llu\n", (unsigned long long)seed, (unsigned long long)lo,
              (unsigned long long)hi);
    } else {
      fprintf(f, "tape");
      for (size_t i = 0; i < c.tape.size(); i++) fprintf(f, " %llu", (unsigned long long)c.tape[i]);
      fprintf(f, "\n");
    }
    fprintf(f, "---\n%s\n", c.msg.c_str());
    if (!prefix) {
      fprintf(f, "--- the case\n%s", verbose_notes(fi, &c.tape, 0, 20000).c_str());
    }
    fclose(f);
    return path;
  }

  // true when confirmed
  bool handle_failure(int fi, CaseResult c, u64 chunk_lo, std::string* path, CaseResult* out_c) {
    // running too long counts only when it goes on far beyond the budget of the search
    const bool slow = c.kind == 2;
    const double cpu = LONG_CPU;
    const int times = slow ? 1 : 3;
    int n = 0;
    for (; n < times; n++)
      if (!run_tape(fi, c.tape, cpu).failed) break;
    if (n == times) {
      CaseResult s = shrink(fi, c);
      bool ok = true;
      for (int i = 0; i < times; i++) {
        CaseResult r = run_tape(fi, s.tape, cpu);
        if (!r.failed) ok = false;
        else s.msg = r.msg;
      }
      if (!ok) s = c;
      *path = write_replay(fi, s, false, 0, 0);
      *out_c = s;
      return true;
    }
    if (slow || chunk_lo == (u64)-1) return false;
    u64 idx = last_case_idx;
    CaseResult r;
    for (n = 0; n < 3; n++) {
      r = run_prefix(fi, chunk_lo, idx + 1, cpu);
      if (!r.failed) return false;
    }
    *path = write_replay(fi, r, true, chunk_lo, idx + 1);
    *out_c = r;
    return true;
  }
  u64 last_case_idx;

  struct Chunk {
    int fi;
    u64 lo, hi;
  };
  struct Found {
    int fi;
    std::string path;
    CaseResult c;
  };

  int run() {
    init();
    double t0 = now();
    std::vector<Facet>& F = facets();
    std::vector<Found> found;
    std::vector<std::pair<std::string, bool> > known;  // id, still failing
    // chunk lists, interleaved over the facets
    std::vector<std::vector<Chunk> > per(F.size());
    size_t maxn = 0;
    for (size_t i = 0; i < F.size(); i++) {
      if (F[i].known) continue;
      if (!only.empty() && only != F[i].name) continue;
      u64 n = (u64)(F[i].cases * scale);
      if (n < 1) n = 1;
      u64 cs = n / 64 + 1;
      if (cs > 1000) cs = 1000;
      for (u64 lo = 0; lo < n; lo += cs) {
        Chunk c = {(int)i, lo, std::min(n, lo + cs)};
        per[i].push_back(c);
      }
      maxn = std::max(maxn, per[i].size());
    }
    std::vector<Chunk> todo;
    for (size_t k = 0; k < maxn; k++)
      for (size_t i = 0; i < F.size(); i++) {
        // spread the shorter lists evenly
        size_t a = per[i].size() * k / maxn, b = per[i].size() * (k + 1) / maxn;
        for (size_t j = a; j < b; j++) todo.push_back(per[i][j]);
      }
    std::vector<bool> facet_done(F.size(), false);
    std::vector<pid_t> pid(workers, 0);
    std::vector<Chunk> cur(workers);
    std::vector<double> started(workers, 0);
    size_t nexti = 0;
    bool stop = false;
    int alive = 0;
    while (true) {
      for (int w = 0; w < workers && !stop; w++) {
        if (pid[w]) continue;
        if (now() - t0 > time_cap && nexti < todo.size()) {
          cap_hit = true;
          chunks_skipped = todo.size() - nexti;
          nexti = todo.size();
        }
        while (nexti < todo.size() && facet_done[todo[nexti].fi]) nexti++;
        if (nexti >= todo.size()) break;
        cur[w] = todo[nexti++];
        reset_slot(w);
        pid_t p = fork();
        if (p == 0) {
          child_setup(w);
          run_cases(cur[w].fi, cur[w].lo, cur[w].hi, CASE_CPU);
          _exit(0);
        }
        pid[w] = p;
        started[w] = now();
        alive++;
      }
      if (alive == 0) break;
      int st;
      pid_t p = waitpid(-1, &st, WNOHANG);
      if (p <= 0) {
        for (int w = 0; w < workers; w++)
          if (pid[w] && now() - started[w] > 400) {  // asleep: inconclusive
            kill(pid[w], SIGKILL);
          }
        usleep(500);
        continue;
      }
      for (int w = 0; w < workers; w++) {
        if (pid[w] != p) continue;
        pid[w] = 0;
        alive--;
        CaseResult c = decode(w, st);
        if (!c.failed || stop) continue;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
          unconfirmed++;
          continue;
        }
        Found fd;
        fd.fi = cur[w].fi;
        last_case_idx = slots[w]->case_idx;
        if (handle_failure(cur[w].fi, c, cur[w].lo, &fd.path, &fd.c)) {
          found.push_back(fd);
          stop = true;
          for (int v = 0; v < workers; v++)
            if (pid[v]) kill(pid[v], SIGKILL);
        } else {
          unconfirmed++;
          fprintf(stderr, "note: unconfirmed failure in facet %s: %s\n", F[cur[w].fi].name,
                  c.msg.substr(0, 300).c_str());
        }
      }
    }
    for (size_t i = 0; i < F.size(); i++) {
      if (!F[i].known) continue;
      CaseResult r = run_prefix((int)i, 0, (u64)F[i].cases, 5);
      known.push_back(std::make_pair(std::string(F[i].known), r.failed));
    }
    double wall = now() - t0;
    // result file
    std::ostringstream o;
    u64 ev = 0, nt = 0, ds = 0;
    o << "{\"facets\":{";
    bool first = true;
    for (size_t i = 0; i < F.size(); i++) {
      FacetStats& s = E().glob->facet[i];
      if (F[i].known) continue;
      ev += s.evals;
      nt += s.nontrivial;
      ds += s.distinct;
      if (!first) o << ",";
      first = false;
      o << jstr(F[i].name) << ":{\"evaluations\":" << s.evals << ",\"nontrivial\":" << s.nontrivial
        << ",\"distinct_nontrivial\":" << s.distinct << ",\"slowest_case_cpu_ms\":" << s.max_ms << "}";
    }
    o << "},\"evaluations\":" << ev << ",\"nontrivial\":" << nt << ",\"distinct_nontrivial\":" << ds;
    o << ",\"labels\":{";
    first = true;
    for (int i = 0; i < MAX_LABELS; i++) {
      LabelSlot& l = E().glob->label[i];
      if (!l.name[0]) continue;
      if (!first) o << ",";
      first = false;
      o << jstr(l.name) << ":" << l.n;
    }
    o << "},\"samples\":[";
    first = true;
    for (size_t i = 0; i < F.size(); i++) {
      FacetStats& s = E().glob->facet[i];
      for (u64 k = 0; k < s.nsamples && k < 2; k++) {
        std::string n = verbose_notes((int)i, 0, s.sample_idx[k], 700);
        if (!first) o << ",";
        first = false;
        o << "{\"facet\":" << jstr(F[i].name) << ",\"case\":" << s.sample_idx[k] << ",\"trace\":" << jstr(n)
          << "}";
      }
    }
    o << "],\"unconfirmed\":" << unconfirmed << ",\"time_cap_hit\":" << (cap_hit ? "true" : "false")
      << ",\"chunks_skipped\":" << chunks_skipped << ",\"search_wall_s\":" << wall << ",\"known\":{";
    for (size_t i = 0; i < known.size(); i++)
      o << (i ? "," : "") << jstr(known[i].first) << ":" << (known[i].second ? "true" : "false");
    o << "},\"violations\":[";
    for (size_t i = 0; i < found.size(); i++)
      o << (i ? "," : "") << "{\"facet\":" << jstr(F[found[i].fi].name) << ",\"replay\":" << jstr(found[i].path)
        << ",\"message\":" << jstr(found[i].c.msg.substr(0, 1500)) << "}";
    o << "]}";
    write_out(o.str());
    return found.empty() ? 0 : 1;
  }
  void write_out(const std::string& s) {
    if (out.empty()) {
      printf("%s\n", s.c_str());
      return;
    }
    FILE* f = fopen(out.c_str(), "w");
    if (!f) {
      perror(out.c_str());
      _exit(2);
    }
    fwrite(s.data(), 1, s.size(), f);
    fclose(f);
  }
  static std::string slurp(const std::string& p) {
    FILE* f = fopen(p.c_str(), "r");
    if (!f) {
      perror(p.c_str());
      _exit(2);
    }
    std::string r;
    char b[4096];
    size_t n;
    while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n);
    fclose(f);
    return r;
  }
  int find_facet(const std::string& n) {
    for (size_t i = 0; i < facets().size(); i++)
      if (n == facets()[i].name) return (int)i;
    fprintf(stderr, "no such facet: %s\n", n.c_str());
    _exit(2);
  }
  // exit 1 when the replay still fails
  int replay(const std::string& file) {
    init();
    std::istringstream is(slurp(file));
    std::string line;
    int fi = 0;
    std::vector<u64> tape;
    bool pre = false;
    u64 lo = 0, hi = 0;
    while (std::getline(is, line) && line != "---") {
      std::istringstream ls(line);
      std::string k;
      ls >> k;
      if (k == "facet") {
        std::string n;
        ls >> n;
        fi = find_facet(n);
      } else if (k == "tape") {
        u64 v;
        while (ls >> v) tape.push_back(v);
      } else if (k == "prefix") {
        pre = true;
        ls >> seed >> lo >> hi;
      }
    }
    CaseResult r = pre ? run_prefix(fi, lo, hi, LONG_CPU) : run_tape(fi, tape, LONG_CPU);
    if (!pre) printf("%s", verbose_notes(fi, &tape, 0, 100000).c_str());
    printf("%s\n%s\n", r.failed ? "FAILS" : "passes", r.msg.c_str());
    return r.failed ? 1 : 0;
  }
  // a libFuzzer artifact: confirm, shrink, write a replay; exit 1 when it fails here too
  int bytes(const std::string& file, const std::string& facet) {
    init();
    int fi = find_facet(facet);
    std::string b = slurp(file);
    CaseResult c = run_bytes(fi, b, LONG_CPU);
    std::ostringstream o;
    if (!c.failed) {
      write_out("{\"violations\":[]}");
      return 0;
    }
    std::string path;
    CaseResult oc;
    if (!handle_failure(fi, c, (u64)-1, &path, &oc)) {
      write_out("{\"violations\":[]}");
      return 0;
    }
    o << "{\"violations\":[{\"facet\":" << jstr(facet) << ",\"replay\":" << jstr(path)
      << ",\"message\":" << jstr(oc.msg.substr(0, 1500)) << "}]}";
    write_out(o.str());
    return 1;
  }
};

inline int pbt_main(int argc, char** argv) {
  Runner r;
  std::string rep, byt, fac;
  for (int i = 1; i + 1 < argc + 1; i++) {
    std::string a = argv[i];
    if (a == "--list") {
      for (size_t k = 0; k < facets().size(); k++)
        printf("%s %llu %s\n", facets()[k].name, (unsigned long long)facets()[k].cases,
               facets()[k].known ? facets()[k].known : "-");
      return 0;
    }
    if (i + 1 >= argc) break;
    std::string v = argv[++i];
    if (a == "--seed") r.seed = strtoull(v.c_str(), 0, 10);
    else if (a == "--scale") r.scale = atof(v.c_str());
    else if (a == "--time-cap") r.time_cap = atof(v.c_str());
    else if (a == "--shrink-cap") r.shrink_cap = atof(v.c_str());
    else if (a == "--workers") r.workers = atoi(v.c_str());
    else if (a == "--out") r.out = v;
    else if (a == "--replay-dir") r.replay_dir = v;
    else if (a == "--property") r.property = v;
    else if (a == "--only") r.only = v;
    else if (a == "--replay") rep = v;
    else if (a == "--bytes") byt = v;
    else if (a == "--facet") fac = v;
    else {
      fprintf(stderr, "unknown option %s\n", a.c_str());
      return 2;
    }
  }
  if (r.replay_dir.empty()) r.replay_dir = ".";
  if (!rep.empty()) return r.replay(rep);
  if (!byt.empty()) return r.bytes(byt, fac);
  return r.run();
}
#define PBT_MAIN(...)                                                  \
  PBT_DEFINE_WRAPS                                                     \
  std::vector<pbt::Facet>& pbt::facets() {                             \
    static pbt::Facet pbt_f_[] = {__VA_ARGS__}; \
    static std::vector<pbt::Facet> v(pbt_f_, pbt_f_ + sizeof(pbt_f_) / sizeof(pbt_f_[0])); \
    return v;                                                          \
  }                                                                    \
  int main(int argc, char** argv) { return pbt::pbt_main(argc, argv); }
#else  // PBT_FUZZ
#define PBT_MAIN(...)                                                       \
  PBT_DEFINE_WRAPS                                                          \
  std::vector<pbt::Facet>& pbt::facets() {                                  \
    static pbt::Facet pbt_f_[] = {__VA_ARGS__}; \
    static std::vector<pbt::Facet> v(pbt_f_, pbt_f_ + sizeof(pbt_f_) / sizeof(pbt_f_[0]));      \
    return v;                                                               \
  }                                                                         \
  extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {       \
    static int fi = -1;                                                     \
    if (fi < 0) {                                                           \
      const char* e = getenv("PBT_FACET");                                  \
      fi = 0;                                                               \
      for (size_t i = 0; e && i < pbt::facets().size(); i++)                \
        if (!strcmp(pbt::facets()[i].name, e)) fi = (int)i;                 \
      pbt::E().fuzz = true;                                                 \
    }                                                                       \
    pbt::Gen g(d, n);                                                       \
    pbt::run_one(pbt::facets()[fi], g);                                     \
    return 0;                                                               \
  }
#endif

}  // namespace pbt
#endif
