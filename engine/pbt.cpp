#include "pbt.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <math.h>
#include <errno.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <algorithm>
#include <map>
#include <set>

extern "C" size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));

namespace pbt {

/* ------------------------------------------------------------------ state */
static const unsigned MAX_CHOICES = 1 << 17;
static const unsigned MAX_LABELS  = 96;
static const unsigned LABEL_LEN   = 48;
static const unsigned MSG_LEN     = 4096;
static const unsigned NOTE_LEN    = 1 << 14;
static const unsigned SLOTS       = 8;
static const unsigned BATCH       = 200;
static const unsigned COV_BITS    = 16;
static const unsigned COV_SIZE    = 1 << COV_BITS;
static const unsigned NEWCOV_MAX  = 64;
static const unsigned NEWCOV_POOL = 1 << 17;

struct Slot {
  uint64_t case_idx;
  uint32_t n_choices;
  uint64_t choices[MAX_CHOICES];
  char     msg[MSG_LEN];
  uint32_t evaluated, discarded;
  // labels
  uint32_t n_labels;
  char     label[MAX_LABELS][LABEL_LEN];
  uint64_t label_n[MAX_LABELS];
  // nontrivial case hashes for this batch
  uint32_t n_nt;
  uint64_t nt[BATCH + 8];
  // samples
  uint32_t n_samples;
  char     sample[3][2048];
  // new coverage from this batch
  uint32_t n_new;
  struct { uint32_t off, len; } newcov[NEWCOV_MAX];
  uint32_t pool_used;
  uint64_t pool[NEWCOV_POOL];
  uint8_t  cov[COV_SIZE];
};

static Slot*    SLOT = nullptr;      // all slots (shared)
static Slot*    me   = nullptr;      // the slot of this child
static uint8_t* virgin = nullptr;    // parent-owned accumulated coverage; children read it copy-on-write
static uint8_t  cov_now[COV_SIZE];
static bool     cov_on = false;
static bool     TIER_THOROUGH = false;

// current case
static bool     c_replaying = false;
static const uint64_t* c_replay = nullptr;
static uint32_t c_replay_n = 0;
static bool     c_tail_random = false;
static uint64_t c_rng[2];
static bool     c_nontrivial = false;
static bool     c_trace = false;
static uint32_t c_label_mask[(MAX_LABELS + 31) / 32];
static char     c_notes[NOTE_LEN];
static uint32_t c_notes_n = 0;
static jmp_buf  c_discard;
static uint32_t hang_seconds = 10;

static std::vector<Target>& targets() {  static std::vector<Target> t;  return t;  }
Reg::Reg(const Target& t) {  targets().push_back(t);  }

/* ------------------------------------------------------------------ rng */
static uint64_t splitmix(uint64_t& x) {
  uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
static void rng_seed(uint64_t s) {  c_rng[0] = splitmix(s);  c_rng[1] = splitmix(s);  }
static uint64_t rng_next() {
  const uint64_t s0 = c_rng[0];
  uint64_t s1 = c_rng[1];
  const uint64_t r = s0 + s1;
  s1 ^= s0;
  c_rng[0] = ((s0 << 55) | (s0 >> 9)) ^ s1 ^ (s1 << 14);
  c_rng[1] = (s1 << 36) | (s1 >> 28);
  return r;
}
uint64_t fnv(const void* p, size_t n, uint64_t h) {
  const uint8_t* b = (const uint8_t*) p;
  for (size_t i = 0; i < n; i++) {  h ^= b[i];  h *= 1099511628211ULL;  }
  return h;
}

/* ------------------------------------------------------------------ coverage (gcc -fsanitize-coverage=trace-pc) */
extern "C" __attribute__((no_sanitize("address", "undefined"))) void __sanitizer_cov_trace_pc(void) {
  static uintptr_t prev = 0;
  if (cov_on) {
    uintptr_t pc = (uintptr_t) __builtin_return_address(0);
    uintptr_t h = (pc * 2654435761u);
    h ^= (h >> 15);
    uint32_t idx = (uint32_t) ((h ^ prev) & (COV_SIZE - 1));
    if (cov_now[idx] != 255) {  cov_now[idx]++;  }
    prev = (h >> 1);
  }
}
static uint8_t bucket(uint8_t v) {
  if (v == 0) return 0;
  if (v == 1) return 1;
  if (v == 2) return 2;
  if (v == 3) return 4;
  if (v < 8) return 8;
  if (v < 16) return 16;
  if (v < 32) return 32;
  if (v < 128) return 64;
  return 128;
}

/* ------------------------------------------------------------------ Src */
uint64_t Src::draw(uint64_t max) {
  uint64_t v = 0;
  const uint32_t n = me->n_choices;
  if (c_replaying && (n < c_replay_n)) {
    v = c_replay[n];
    if (v > max) {  v = (max == UINT64_MAX) ? v : (v % (max + 1));  }
  }
  else if (c_replaying && !c_tail_random) {
    v = 0;
  }
  else {
    const uint64_t r = rng_next();
    if (max == UINT64_MAX) {        v = r;  }
    else if (max < 0xFFFFFFFFULL) { v = ((r >> 32) * (max + 1)) >> 32;  }
    else {                          v = r % (max + 1);  }
  }
  if (n < MAX_CHOICES) {  me->choices[n] = v;  me->n_choices = n + 1;  }
  else {  discard();  }
  return v;
}

uint32_t Src::size(uint32_t hi) {
  if (0 == hi) return 0;
  // Half of the time in the low eighth of the range.
  const uint32_t cls = (uint32_t) draw(7);
  uint32_t lim = hi;
  if (cls < 3) lim = std::max<uint32_t>(1, hi / 16);
  else if (cls < 5) lim = std::max<uint32_t>(1, hi / 4);
  return (uint32_t) draw(std::min(lim, hi));
}

uint64_t Src::word(unsigned bits) {
  const uint64_t M = (bits >= 64) ? UINT64_MAX : ((1ULL << bits) - 1);
  switch (draw(5)) {
    case 0:  return draw(std::min<uint64_t>(M, 32));
    case 1: {   // around a power of two
      const unsigned sh = (unsigned) draw(bits - 1);
      const uint64_t p = 1ULL << sh;
      switch (draw(4)) {
        case 0: return p & M;
        case 1: return (p - 1) & M;
        case 2: return (p + 1) & M;
        case 3: return (M - p) & M;
        default: return (~p + 1) & M;
      }
    }
    case 2:  return M - draw(std::min<uint64_t>(M, 4));
    case 3: {   // signed extremes
      const uint64_t h = 1ULL << (bits - 1);
      return (h + draw(4) - 2) & M;
    }
    case 4: {   // random magnitude
      const unsigned w = 1 + (unsigned) draw(bits - 1);
      return draw((w >= 64) ? UINT64_MAX : ((1ULL << w) - 1));
    }
    default: return draw(M);
  }
}
int64_t Src::sword(unsigned bits) {
  const uint64_t v = word(bits);
  if (bits >= 64) return (int64_t) v;
  const uint64_t h = 1ULL << (bits - 1);
  return (v & h) ? (int64_t) (v | ~((1ULL << bits) - 1)) : (int64_t) v;
}
float Src::f32(bool specials) {
  switch (draw(specials ? 6 : 4)) {
    case 0: return (float) i(-20, 20);
    case 1: return (float) ((double) i(-1000000, 1000000) / 1000.0);
    case 2: return (float) sword(32);
    case 3: {  // any finite bit pattern
      uint32_t w = (uint32_t) word(32);
      float f;  memcpy(&f, &w, 4);
      if (!isfinite(f)) {  w &= 0xBFFFFFFF;  memcpy(&f, &w, 4);  }
      return f;
    }
    case 4: return (float) (i(0, 4096) - 2048) / 256.0f;
    case 5: { uint32_t w = (uint32_t) draw(0xFFFFFFFF); float f; memcpy(&f, &w, 4); return f; }
    default: return pick<float>({INFINITY, -INFINITY, NAN, -0.0f, 1e-45f, 3.4028234e38f, -3.4028234e38f});
  }
}
double Src::f64(bool specials) {
  switch (draw(specials ? 6 : 4)) {
    case 0: return (double) i(-20, 20);
    case 1: return (double) i(-1000000000LL, 1000000000LL) / 1000.0;
    case 2: return (double) sword(64);
    case 3: {
      uint64_t w = word(64);
      double f;  memcpy(&f, &w, 8);
      if (!isfinite(f)) {  w &= 0xBFFFFFFFFFFFFFFFULL;  memcpy(&f, &w, 8);  }
      return f;
    }
    case 4: return (double) (i(0, 4096) - 2048) / 256.0;
    case 5: { uint64_t w = draw(UINT64_MAX); double f; memcpy(&f, &w, 8); return f; }
    default: return pick<double>({(double) INFINITY, -(double) INFINITY, (double) NAN, -0.0, 1.7976931348623157e308});
  }
}
unsigned Src::weighted(std::initializer_list<unsigned> w) {
  uint64_t total = 0;
  for (unsigned x : w) total += x;
  if (0 == total) return 0;
  uint64_t r = draw(total - 1);
  unsigned idx = 0;
  for (unsigned x : w) {  if (r < x) return idx;  r -= x;  idx++;  }
  return idx - 1;
}
std::string Src::bytes(uint32_t len) {
  std::string r(len, '\0');
  for (uint32_t k = 0; k < len; k++) r[k] = (char) draw(255);
  return r;
}
std::string Src::text(uint32_t len, const char* alphabet) {
  const uint32_t N = (uint32_t) strlen(alphabet);
  std::string r(len, alphabet[0]);
  for (uint32_t k = 0; k < len; k++) r[k] = alphabet[u(N)];
  return r;
}
uint32_t Src::large(uint32_t hi) {
  static const uint32_t MARK[] = {128, 256, 512, 1024, 4096, 16384, 32768, 65536, 131072};
  unsigned N = 0;
  while ((N < 9) && (MARK[N] + 3 <= hi)) N++;
  if ((0 == N) || !b(60)) return u(hi + 1);
  return MARK[u(N)] - 3 + u(7);
}
std::string Src::filler(uint32_t len, const char* alphabet) {
  uint64_t x = draw(0xFFFFFFFFULL) * 0x9E3779B97F4A7C15ULL + 0x1234567;
  const uint32_t N = (nullptr == alphabet) ? 256 : (uint32_t) strlen(alphabet);
  std::string r(len, '\0');
  for (uint32_t k = 0; k < len; k++) {
    x ^= x << 13;  x ^= x >> 7;  x ^= x << 17;
    const uint32_t v = (uint32_t) ((x >> 24) % N);
    r[k] = (nullptr == alphabet) ? (char) v : alphabet[v];
  }
  return r;
}
bool more(Src& s, unsigned& n, unsigned max, unsigned mean) {
  if (n >= max) return false;
  n++;
  return s.draw(mean) != 0;
}

/* ------------------------------------------------------------------ case reporting */
static void flush_notes_to(char* dst, uint32_t cap) {
  uint32_t n = std::min(cap - 1, c_notes_n);
  memcpy(dst, c_notes, n);
  dst[n] = 0;
}
void fail(const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(me->msg, MSG_LEN, fmt, ap);
  va_end(ap);
  if (c_trace) {  fwrite(c_notes, 1, c_notes_n, stderr);  fprintf(stderr, "FAIL: %s\n", me->msg);  fflush(stderr);  }
  _exit(77);
}
void discard() {
  longjmp(c_discard, 1);
}
static int label_slot(const char* name) {
  for (uint32_t k = 0; k < me->n_labels; k++) {  if (0 == strncmp(me->label[k], name, LABEL_LEN - 1)) return (int) k;  }
  if (me->n_labels >= MAX_LABELS) return -1;
  const uint32_t k = me->n_labels++;
  snprintf(me->label[k], LABEL_LEN, "%s", name);
  me->label_n[k] = 0;
  return (int) k;
}
void label(const char* name) {
  const int k = label_slot(name);
  if (k < 0) return;
  if (c_label_mask[k / 32] & (1u << (k % 32))) return;
  c_label_mask[k / 32] |= (1u << (k % 32));
  me->label_n[k]++;
}
void excluded(const char* id) {
  char buf[LABEL_LEN];
  snprintf(buf, sizeof(buf), "excluded:%s", id);
  label(buf);
}
void nontrivial() {  c_nontrivial = true;  }
bool tracing() {     return c_trace;       }
bool thorough() {    return TIER_THOROUGH; }
void note(const char* fmt, ...) {
  if (!c_trace) return;
  if (c_notes_n + 2 >= NOTE_LEN) return;
  va_list ap;
  va_start(ap, fmt);
  int n = vsnprintf(c_notes + c_notes_n, NOTE_LEN - c_notes_n - 1, fmt, ap);
  va_end(ap);
  if (n > 0) {
    c_notes_n = std::min<uint32_t>(NOTE_LEN - 2, c_notes_n + (uint32_t) n);
    c_notes[c_notes_n++] = '\n';
  }
}
std::string hex(const void* p, size_t n, size_t max) {
  static const char* D = "0123456789abcdef";
  std::string r;
  for (size_t k = 0; k < n && k < max; k++) {
    r += D[((const uint8_t*) p)[k] >> 4];
    r += D[((const uint8_t*) p)[k] & 15];
  }
  if (n > max) r += "...";
  return r;
}
std::string quote(const std::string& s, size_t max) {
  std::string r = "\"";
  for (size_t k = 0; k < s.size() && k < max; k++) {
    const unsigned char c = (unsigned char) s[k];
    if (c == '"' || c == '\\') {  r += '\\';  r += (char) c;  }
    else if (c >= 32 && c < 127) {  r += (char) c;  }
    else {  char b[8];  snprintf(b, 8, "\\x%02x", c);  r += b;  }
  }
  r += "\"";
  if (s.size() > max) r += "+" + std::to_string(s.size() - max);
  return r;
}

static void on_prof(int) {
  static const char M[] = "the code under test did not return (CPU budget for one case exhausted)";
  memcpy(me->msg, M, sizeof(M));
  _exit(78);
}
static void on_sig(int sig) {
  char b[64];
  // Async-signal safety is good enough here: we are about to exit.
  int n = snprintf(b, sizeof(b), "killed by signal %d", sig);
  memcpy(me->msg, b, (size_t) n + 1);
  _exit(79);
}
static void arm(uint32_t sec) {
  struct itimerval it;
  memset(&it, 0, sizeof(it));
  it.it_value.tv_sec = sec;
  setitimer(ITIMER_PROF, &it, nullptr);
}

/* Run one case in this process. Returns false if it was discarded. */
static bool run_case(const Target& t, uint64_t seed, const uint64_t* rep, uint32_t rep_n, bool tail_random) {
  me->n_choices = 0;
  c_replaying   = (nullptr != rep);
  c_replay      = rep;
  c_replay_n    = rep_n;
  c_tail_random = tail_random;
  c_nontrivial  = false;
  c_notes_n     = 0;
  memset(c_label_mask, 0, sizeof(c_label_mask));
  rng_seed(seed);
  platform_reset();
  arm(hang_seconds);
  const bool LEAK = (t.flags & F_LEAK) && __sanitizer_get_current_allocated_bytes;
  const size_t before = LEAK ? __sanitizer_get_current_allocated_bytes() : 0;
  if (0 != setjmp(c_discard)) {
    cov_on = false;
    arm(0);
    return false;
  }
  Src s;
  cov_on = true;
  t.fn(s);
  cov_on = false;
  arm(0);
  if (LEAK) {
    size_t after = __sanitizer_get_current_allocated_bytes();
    if (after > before) {
      // Might be a lazily allocated static. A real leak repeats on each execution.
      static uint64_t copy[MAX_CHOICES];
      const uint32_t n = me->n_choices;
      memcpy(copy, me->choices, n * sizeof(uint64_t));
      bool leaks = true;
      size_t d = 0;
      for (int k = 0; leaks && (k < 3); k++) {
        const size_t b0 = __sanitizer_get_current_allocated_bytes();
        me->n_choices = 0;
        c_replaying = true;  c_replay = copy;  c_replay_n = n;  c_tail_random = false;
        const uint32_t notes_n = c_notes_n;
        platform_reset();
        arm(hang_seconds);
        if (0 == setjmp(c_discard)) {  Src s2;  t.fn(s2);  }
        arm(0);
        c_notes_n = notes_n;
        const size_t a0 = __sanitizer_get_current_allocated_bytes();
        d = (a0 > b0) ? (a0 - b0) : 0;
        leaks = (a0 > b0);
      }
      if (leaks) {  fail("memory leak: %u bytes stay allocated after the case (on every execution)", (unsigned) d);  }
    }
  }
  return true;
}

/* ------------------------------------------------------------------ child body */
static void child_setup(Slot* sl) {
  me = sl;
  me->msg[0] = 0;
  struct sigaction sa;
  memset(&sa, 0, sizeof(sa));
  sa.sa_handler = on_prof;
  sigaction(SIGPROF, &sa, nullptr);
  sa.sa_handler = on_sig;
  sigaction(SIGABRT, &sa, nullptr);
  if (!c_trace) {
    int fd = open("/dev/null", O_WRONLY);
    if (fd >= 0) {  dup2(fd, 1);  if (nullptr == getenv("PBT_STDERR")) dup2(fd, 2);  close(fd);  }
  }
}

struct Entry { std::vector<uint64_t> c; };

static uint64_t case_seed(uint64_t seed, const Target& t, uint64_t phase, uint64_t idx) {
  uint64_t h = fnv(t.name, strlen(t.name));
  h = fnv(t.prop, strlen(t.prop), h);
  h ^= seed * 0x9E3779B97F4A7C15ULL;
  h ^= (phase + 1) * 0xD1B54A32D192ED03ULL;
  h += idx * 0x2545F4914F6CDD1DULL;
  return splitmix(h);
}

static std::vector<uint64_t> mutate(const std::vector<Entry>& corpus, uint64_t& rs) {
  auto R = [&rs](uint64_t n) -> uint64_t {  return n ? (splitmix(rs) % n) : 0;  };
  std::vector<uint64_t> v = corpus[R(corpus.size())].c;
  const unsigned K = 1 + (unsigned) R(5);
  for (unsigned k = 0; k < K; k++) {
    switch (R(8)) {
      case 0: case 1: case 2:
        if (!v.empty()) {
          uint64_t& x = v[R(v.size())];
          switch (R(6)) {
            case 0: x = R(4); break;
            case 1: x = x + 1; break;
            case 2: x = x ? x - 1 : 0; break;
            case 3: x ^= (1ULL << R(32)); break;
            case 4: x = R(256); break;
            default: x = splitmix(rs); break;
          }
        }
        break;
      case 3:   // delete
        if (v.size() > 1) {
          size_t a = R(v.size()), n = 1 + R(std::min<size_t>(16, v.size() - a));
          v.erase(v.begin() + a, v.begin() + std::min(v.size(), a + n));
        }
        break;
      case 4:   // duplicate a chunk
        if (!v.empty() && v.size() < 4096) {
          size_t a = R(v.size()), n = 1 + R(std::min<size_t>(32, v.size() - a));
          std::vector<uint64_t> ch(v.begin() + a, v.begin() + std::min(v.size(), a + n));
          v.insert(v.begin() + R(v.size() + 1), ch.begin(), ch.end());
        }
        break;
      case 5:   // truncate; the tail is drawn afresh
        if (v.size() > 1) v.resize(1 + R(v.size()));
        break;
      case 6: {  // splice
          const std::vector<uint64_t>& o = corpus[R(corpus.size())].c;
          if (!o.empty() && !v.empty()) {
            size_t a = R(v.size()), b = R(o.size());
            v.resize(a);
            v.insert(v.end(), o.begin() + b, o.end());
            if (v.size() > 8192) v.resize(8192);
          }
        }
        break;
      default:  // insert
        if (v.size() < 4096) v.insert(v.begin() + R(v.size() + 1), R(2) ? R(8) : splitmix(rs));
        break;
    }
  }
  return v;
}

/* Runs cases [start, start+count). In phase 1 they are mutations of corpus entries. */
static void batch_child(const Target& t, uint64_t seed, int phase, uint64_t start, uint32_t count, const std::vector<Entry>* corpus, bool want_samples) {
  const bool guide = !(t.flags & F_NOGUIDE);
  std::vector<uint64_t> mut;
  for (uint32_t k = 0; k < count; k++) {
    const uint64_t idx = start + k;
    me->case_idx = idx;
    const uint64_t cs = case_seed(seed, t, (uint64_t) phase, idx);
    if (guide) memset(cov_now, 0, COV_SIZE);
    c_trace = want_samples && (me->n_samples < 3) && (k < 150);
    bool ok;
    if (phase && corpus && !corpus->empty()) {
      uint64_t rs = cs;
      mut = mutate(*corpus, rs);
      ok = run_case(t, cs ^ 0x5555, mut.data(), (uint32_t) mut.size(), true);
    }
    else {
      ok = run_case(t, cs, nullptr, 0, false);
    }
    me->evaluated++;
    if (!ok) {  me->discarded++;  continue;  }
    if (c_nontrivial && (me->n_nt < BATCH)) {
      me->nt[me->n_nt++] = fnv(me->choices, me->n_choices * sizeof(uint64_t));
      if (c_trace && c_notes_n) {
        flush_notes_to(me->sample[me->n_samples], 1600);
        me->n_samples++;
      }
    }
    if (guide) {
      bool fresh = false;
      for (uint32_t j = 0; j < COV_SIZE; j += 4) {
        if (0 == *(uint32_t*) (cov_now + j)) continue;
        for (uint32_t q = j; q < j + 4; q++) {
          const uint8_t bk = bucket(cov_now[q]);
          if (bk & ~virgin[q]) {  virgin[q] |= bk;  me->cov[q] |= bk;  fresh = true;  }
        }
      }
      if (fresh && (me->n_new < NEWCOV_MAX) && (me->pool_used + me->n_choices < NEWCOV_POOL)) {
        me->newcov[me->n_new].off = me->pool_used;
        me->newcov[me->n_new].len = me->n_choices;
        memcpy(me->pool + me->pool_used, me->choices, me->n_choices * sizeof(uint64_t));
        me->pool_used += me->n_choices;
        me->n_new++;
      }
    }
  }
}

/* Single replay in a forked child. Returns true if it failed. */
static bool replay_fails(const Target& t, const std::vector<uint64_t>& c, std::string* msg, std::vector<uint64_t>* actual) {
  Slot* sl = &SLOT[0];
  sl->msg[0] = 0;
  sl->n_labels = 0;
  sl->n_choices = 0;
  fflush(stdout);  fflush(stderr);
  pid_t p = fork();
  if (0 == p) {
    child_setup(sl);
    run_case(t, 0, c.data(), (uint32_t) c.size(), false);
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  const bool failed = !(WIFEXITED(st) && (0 == WEXITSTATUS(st)));
  if (failed) {
    if (msg) {
      if (sl->msg[0]) *msg = sl->msg;
      else if (WIFSIGNALED(st)) *msg = "killed by signal " + std::to_string(WTERMSIG(st));
      else *msg = "aborted by the sanitizer runtime (exit " + std::to_string(WEXITSTATUS(st)) + ")";
    }
    if (actual) actual->assign(sl->choices, sl->choices + sl->n_choices);
  }
  return failed;
}

/* The batch replay: for failures that need the state left by earlier cases of the same process. */
static bool batch_fails(const Target& t, uint64_t seed, int phase, uint64_t start, uint32_t count, std::string* msg) {
  Slot* sl = &SLOT[0];
  sl->msg[0] = 0;
  sl->n_labels = 0;
  sl->n_new = sl->pool_used = sl->n_nt = sl->n_samples = 0;
  fflush(stdout);  fflush(stderr);
  pid_t p = fork();
  if (0 == p) {
    child_setup(sl);
    batch_child(t, seed, phase, start, count, nullptr, false);
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  const bool failed = !(WIFEXITED(st) && (0 == WEXITSTATUS(st)));
  if (failed && msg) *msg = sl->msg[0] ? sl->msg : "aborted by a signal or the sanitizer runtime";
  return failed;
}

static double now_s() {
  struct timespec ts;
  syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
  return (double) ts.tv_sec + (double) ts.tv_nsec / 1e9;
}

static std::vector<uint64_t> shrink(const Target& t, std::vector<uint64_t> best, double budget_s, unsigned* execs) {
  const double T0 = now_s();
  unsigned n = 0;
  auto attempt = [&](const std::vector<uint64_t>& cand) -> bool {
    if ((now_s() - T0) > budget_s || n > 6000) return false;
    n++;
    std::vector<uint64_t> act;
    if (!replay_fails(t, cand, nullptr, &act)) return false;
    // Normalise to what was actually consumed.
    while (!act.empty() && 0 == act.back()) act.pop_back();
    if (act.size() < best.size() || (act.size() == best.size() && act < best)) {  best = act;  return true;  }
    if (cand.size() < best.size() || (cand.size() == best.size() && cand < best)) {  best = cand;  return true;  }
    return false;
  };
  bool improved = true;
  while (improved && (now_s() - T0) < budget_s) {
    improved = false;
    // delete chunks
    for (size_t ch : {64, 32, 16, 8, 6, 5, 4, 3, 2, 1}) {
      for (size_t i = best.size(); i-- > 0;) {
        if (i + ch > best.size()) continue;
        std::vector<uint64_t> c(best);
        c.erase(c.begin() + i, c.begin() + i + ch);
        if (attempt(c)) {  improved = true;  if (i > best.size()) i = best.size();  }
        if ((now_s() - T0) > budget_s) break;
      }
    }
    // delete one element and decrement an earlier one (lengths)
    for (size_t i = 0; i < best.size() && i < 200; i++) {
      if (best[i] == 0 || best[i] > 64) continue;
      for (size_t j = i + 1; j < best.size() && j < i + 40; j++) {
        std::vector<uint64_t> c(best);
        c[i]--;
        c.erase(c.begin() + j);
        if (attempt(c)) {  improved = true;  break;  }
      }
      if ((now_s() - T0) > budget_s) break;
    }
    // zero chunks
    for (size_t ch : {8, 4, 2}) {
      for (size_t i = 0; i + ch <= best.size(); i += ch) {
        bool any = false;
        for (size_t j = i; j < i + ch; j++) any |= (0 != best[j]);
        if (!any) continue;
        std::vector<uint64_t> c(best);
        for (size_t j = i; j < i + ch; j++) c[j] = 0;
        if (attempt(c)) improved = true;
      }
    }
    // lower individual values
    for (size_t i = 0; i < best.size(); i++) {
      if (0 == best[i]) continue;
      std::vector<uint64_t> c(best);
      c[i] = 0;
      if (attempt(c)) {  improved = true;  continue;  }
      uint64_t lo = 0;
      while (i < best.size() && lo + 1 < best[i]) {
        const uint64_t mid = lo + (best[i] - lo) / 2;
        c = best;  c[i] = mid;
        const uint64_t was = best[i];
        if (attempt(c)) {  improved = true;  if (i >= best.size() || best[i] >= was) break;  }
        else lo = mid;
        if ((now_s() - T0) > budget_s) break;
      }
      if (i < best.size() && best[i] > 0) {
        c = best;  c[i]--;
        if (attempt(c)) improved = true;
      }
      if ((now_s() - T0) > budget_s) break;
    }
  }
  if (execs) *execs = n;
  return best;
}

/* ------------------------------------------------------------------ JSON helpers */
static std::string jstr(const std::string& s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {  r += '\\';  r += (char) c;  }
    else if (c == '\n') r += "\\n";
    else if (c == '\t') r += "\\t";
    else if (c < 32 || c >= 127) {  char b[8];  snprintf(b, 8, "\\u%04x", c);  r += b;  }
    else r += (char) c;
  }
  return r + "\"";
}

static std::string sanitize_file(std::string s) {
  for (char& c : s) if (!isalnum((unsigned char) c)) c = '_';
  return s;
}

struct TResult {
  std::string name;
  uint64_t evaluated = 0, discarded = 0, nontrivial = 0, cov = 0, corpus = 0;
  std::map<std::string, uint64_t> labels;
  std::vector<std::string> samples;
  bool   violated = false;
  std::string msg, replay;
  unsigned shrink_execs = 0;
  bool   timed_out = false;
  uint64_t unreproduced = 0;
  std::string kf;
  bool   kf_hit = false;
  double wall = 0;
};

static std::string save_replay(const Target& t, const std::string& dir, const std::vector<uint64_t>& c, const std::string& msg, const std::string& head) {
  uint64_t h = fnv(c.data(), c.size() * sizeof(uint64_t));
  h = fnv(head.data(), head.size(), h);
  char hx[20];
  snprintf(hx, sizeof(hx), "%08x", (unsigned) (h ^ (h >> 32)));
  std::string path = dir + "/" + t.prop + "-" + sanitize_file(t.name) + "-" + hx + ".replay";
  FILE* f = fopen(path.c_str(), "w");
  if (f) {
    fprintf(f, "prop %s\ntarget %s\n", t.prop, t.name);
    if (!head.empty()) fprintf(f, "%s\n", head.c_str());
    else {
      fprintf(f, "choices %u\n", (unsigned) c.size());
      for (uint64_t v : c) fprintf(f, "%llu\n", (unsigned long long) v);
    }
    std::string m = msg;
    for (char& ch : m) if (ch == '\n') ch = ' ';
    fprintf(f, "# %s\n", m.c_str());
    fclose(f);
  }
  return path;
}

/* A failure was observed. Confirm, shrink, save. Returns true if confirmed. */
static bool confirm(const Target& t, TResult& R, const std::string& dir, std::vector<uint64_t> c, const std::string& msg0, uint64_t seed, int phase, uint64_t batch_start, uint64_t fail_idx) {
  std::string msg = msg0;
  std::vector<uint64_t> act;
  hang_seconds = 10;
  if (replay_fails(t, c, &msg, &act)) {
    if (act.size() && act.size() <= c.size()) c = act;
    const bool hang = (std::string::npos != msg.find("did not return"));
    if (hang) hang_seconds = 3;
    c = shrink(t, c, hang ? 60.0 : 45.0, &R.shrink_execs);
    hang_seconds = 10;
    bool all = true;
    for (int k = 0; k < 3; k++) all &= replay_fails(t, c, &msg, nullptr);
    if (all) {
      R.violated = true;
      R.msg = msg;
      R.replay = save_replay(t, dir, c, msg, "");
      return true;
    }
  }
  if (0 == phase) {
    bool all = true;
    for (int k = 0; k < 3; k++) all &= batch_fails(t, seed, phase, batch_start, (uint32_t) (fail_idx - batch_start + 1), &msg);
    if (all) {
      R.violated = true;
      R.msg = msg + " (needs the state left by earlier cases)";
      char head[128];
      snprintf(head, sizeof(head), "batch %llu %llu %llu", (unsigned long long) seed, (unsigned long long) batch_start, (unsigned long long) (fail_idx - batch_start + 1));
      R.replay = save_replay(t, dir, c, R.msg, head);
      return true;
    }
  }
  R.unreproduced++;
  return false;
}

static void merge_slot(Slot* sl, TResult& R, std::set<uint64_t>& nt, std::vector<Entry>& corpus) {
  R.evaluated += sl->evaluated;
  R.discarded += sl->discarded;
  for (uint32_t k = 0; k < sl->n_nt; k++) nt.insert(sl->nt[k]);
  for (uint32_t k = 0; k < sl->n_labels; k++) R.labels[sl->label[k]] += sl->label_n[k];
  for (uint32_t k = 0; k < sl->n_samples && R.samples.size() < 3; k++) R.samples.push_back(sl->sample[k]);
  for (uint32_t k = 0; k < sl->n_new; k++) {
    Entry e;
    e.c.assign(sl->pool + sl->newcov[k].off, sl->pool + sl->newcov[k].off + sl->newcov[k].len);
    if (corpus.size() < 4000) corpus.push_back(e);
  }
  for (uint32_t j = 0; j < COV_SIZE; j++) virgin[j] |= sl->cov[j];
}

static TResult run_target(const Target& t, uint64_t seed, uint64_t cases, const std::string& dir, double deadline, unsigned workers) {
  TResult R;
  R.name = t.name;
  const double T0 = now_s();
  memset(virgin, 0, COV_SIZE);
  std::set<uint64_t> nt;
  std::vector<Entry> corpus;
  const bool guide = !(t.flags & F_NOGUIDE) && (cases >= 2000);
  const uint64_t N0 = guide ? (cases * 6 / 10) : cases;
  for (int phase = 0; phase < 2 && !R.violated; phase++) {
    const uint64_t TOTAL = (0 == phase) ? N0 : (cases - N0);
    if (0 == TOTAL) break;
    if ((1 == phase) && corpus.empty()) break;
    uint64_t next = 0;
    // Rounds: every batch of a round sees the same corpus and coverage, and the results are merged in batch order,
    // so that a run depends only on the seed, and not on how the workers were scheduled.
    while ((next < TOTAL) && !R.violated) {
      if (now_s() > deadline) {  R.timed_out = true;  break;  }
      struct Job { pid_t pid; uint64_t start; uint32_t count; int st; };
      std::vector<Job> jobs;
      fflush(stdout);  fflush(stderr);
      for (unsigned w = 0; (w < workers) && (next < TOTAL); w++) {
        Slot* sl = &SLOT[w];
        sl->evaluated = sl->discarded = 0;
        sl->n_labels = sl->n_nt = sl->n_samples = sl->n_new = sl->pool_used = sl->n_choices = 0;
        sl->msg[0] = 0;
        sl->case_idx = next;
        memset(sl->cov, 0, COV_SIZE);
        const uint32_t cnt = (uint32_t) std::min<uint64_t>(BATCH, TOTAL - next);
        const bool samples = (0 == next) && (0 == phase);
        pid_t p = fork();
        if (0 == p) {
          child_setup(sl);
          batch_child(t, seed, phase, next, cnt, &corpus, samples);
          _exit(0);
        }
        jobs.push_back({p, next, cnt, 0});
        next += cnt;
      }
      for (Job& j : jobs) waitpid(j.pid, &j.st, 0);
      for (unsigned w = 0; w < jobs.size(); w++) {
        Slot* sl = &SLOT[w];
        const bool failed = !(WIFEXITED(jobs[w].st) && (0 == WEXITSTATUS(jobs[w].st)));
        if (failed) {
          sl->evaluated++;
          std::vector<uint64_t> c(sl->choices, sl->choices + sl->n_choices);
          const uint64_t fidx = sl->case_idx;
          std::string m = sl->msg[0] ? sl->msg : (WIFSIGNALED(jobs[w].st) ? "killed by a signal" : "aborted by the sanitizer runtime");
          merge_slot(sl, R, nt, corpus);
          if (confirm(t, R, dir, c, m, seed, phase, jobs[w].start, fidx)) break;
        }
        else {
          merge_slot(sl, R, nt, corpus);
        }
      }
    }
  }
  R.nontrivial = nt.size();
  R.corpus = corpus.size();
  for (uint32_t j = 0; j < COV_SIZE; j++) R.cov += (0 != virgin[j]);
  R.wall = now_s() - T0;
  return R;
}

static int do_replay(const char* path) {
  FILE* f = fopen(path, "r");
  if (!f) {  fprintf(stderr, "cannot open %s\n", path);  return 2;  }
  char line[512], prop[128] = "", name[128] = "";
  std::vector<uint64_t> c;
  bool batch = false;
  unsigned long long bs = 0, b0 = 0, bn = 0;
  while (fgets(line, sizeof(line), f)) {
    if (1 == sscanf(line, "prop %127s", prop)) continue;
    if (1 == sscanf(line, "target %127s", name)) continue;
    if (0 == strncmp(line, "choices", 7)) continue;
    if (3 == sscanf(line, "batch %llu %llu %llu", &bs, &b0, &bn)) {  batch = true;  continue;  }
    if (line[0] == '#') continue;
    c.push_back(strtoull(line, nullptr, 10));
  }
  fclose(f);
  for (const Target& t : targets()) {
    if (0 == strcmp(t.prop, prop) && 0 == strcmp(t.name, name)) {
      std::string msg;
      bool failed;
      if (batch) {  failed = batch_fails(t, bs, 0, b0, (uint32_t) bn, &msg);  }
      else {        c_trace = true;  failed = replay_fails(t, c, &msg, nullptr);  }
      printf("%s %s/%s: %s\n", failed ? "FAILS" : "passes", prop, name, msg.c_str());
      return failed ? 1 : 0;
    }
  }
  fprintf(stderr, "no target %s/%s\n", prop, name);
  return 2;
}

}  // namespace pbt

using namespace pbt;

int main(int argc, char** argv) {
  const char* prop = nullptr;
  const char* only = nullptr;
  const char* out  = nullptr;
  std::string dir  = ".";
  uint64_t seed = 1;
  double scale = 1.0, budget = 600;
  unsigned workers = SLOTS;
  SLOT = (Slot*) mmap(nullptr, sizeof(Slot) * SLOTS, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (MAP_FAILED == (void*) SLOT) {  perror("mmap");  return 2;  }
  virgin = (uint8_t*) mmap(nullptr, COV_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  me = &SLOT[0];
  for (int k = 1; k < argc; k++) {
    std::string a = argv[k];
    auto val = [&]() -> const char* {  return (k + 1 < argc) ? argv[++k] : "";  };
    if (a == "--prop") prop = val();
    else if (a == "--only") only = val();
    else if (a == "--tier") TIER_THOROUGH = (0 == strcmp(val(), "thorough"));
    else if (a == "--seed") seed = strtoull(val(), nullptr, 10);
    else if (a == "--out") out = val();
    else if (a == "--dir") dir = val();
    else if (a == "--scale") scale = atof(val());
    else if (a == "--budget") budget = atof(val());
    else if (a == "--workers") workers = std::min<unsigned>(SLOTS, (unsigned) atoi(val()));
    else if (a == "--replay") return do_replay(val());
    else if (a == "--list") {
      for (const Target& t : targets()) printf("%s %s %llu %llu\n", t.prop, t.name, (unsigned long long) t.quick, (unsigned long long) t.thorough);
      return 0;
    }
  }
  if (!prop) {  fprintf(stderr, "--prop needed\n");  return 2;  }
  const double T0 = now_s();
  std::vector<TResult> res;
  // Single-shot cases first (regressions and recorded findings), then the searches.
  std::vector<const Target*> order;
  for (const Target& t : targets()) if (0 == strcmp(t.prop, prop) && (t.quick <= 1)) order.push_back(&t);
  for (const Target& t : targets()) if (0 == strcmp(t.prop, prop) && (t.quick > 1))  order.push_back(&t);
  if (order.empty()) {  fprintf(stderr, "no targets for %s\n", prop);  return 2;  }
  bool stop = false;
  for (const Target* t : order) {
    if (stop) break;
    if (only && 0 != strcmp(only, t->name)) continue;
    if (t->kf) {
      TResult R;
      R.name = t->name;  R.kf = t->kf;  R.evaluated = 1;
      std::vector<uint64_t> none;
      if (replay_fails(*t, none, &R.msg, nullptr)) {
        R.kf_hit = true;
        R.replay = save_replay(*t, dir, none, R.msg, "");
      }
      res.push_back(R);
      continue;
    }
    uint64_t n = TIER_THOROUGH ? t->thorough : t->quick;
    if (n > 1) n = std::max<uint64_t>(1, (uint64_t) ((double) n * scale));
    /* No target may use up the time of those that come after it. */
    size_t left = 0;
    for (const Target* y : order) if ((y == t) || left) left++;
    const double remaining = T0 + budget - now_s();
    const double deadline = now_s() + std::max(1.0, std::min(remaining, 1.5 * remaining / (double) std::max<size_t>(1, left)));
    res.push_back(run_target(*t, seed, n, dir, deadline, workers));
    if (res.back().violated) stop = true;
  }
  std::string j = "{\"targets\":[";
  bool first = true;
  for (const TResult& R : res) {
    if (!first) j += ",";
    first = false;
    j += "{\"name\":" + jstr(R.name);
    j += ",\"evaluated\":" + std::to_string(R.evaluated);
    j += ",\"discarded\":" + std::to_string(R.discarded);
    j += ",\"nontrivial\":" + std::to_string(R.nontrivial);
    j += ",\"coverage_points\":" + std::to_string(R.cov);
    j += ",\"corpus\":" + std::to_string(R.corpus);
    j += ",\"wall\":" + std::to_string(R.wall);
    j += ",\"timed_out\":" + std::string(R.timed_out ? "true" : "false");
    j += ",\"unreproduced\":" + std::to_string(R.unreproduced);
    j += ",\"violated\":" + std::string(R.violated ? "true" : "false");
    j += ",\"kf\":" + jstr(R.kf) + ",\"kf_hit\":" + std::string(R.kf_hit ? "true" : "false");
    j += ",\"msg\":" + jstr(R.msg) + ",\"replay\":" + jstr(R.replay);
    j += ",\"shrink_execs\":" + std::to_string(R.shrink_execs);
    j += ",\"labels\":{";
    bool f2 = true;
    for (auto& kv : R.labels) {  if (!f2) j += ",";  f2 = false;  j += jstr(kv.first) + ":" + std::to_string(kv.second);  }
    j += "},\"samples\":[";
    f2 = true;
    for (auto& sm : R.samples) {  if (!f2) j += ",";  f2 = false;  j += jstr(sm);  }
    j += "]}";
  }
  j += "]}\n";
  if (out) {
    FILE* f = fopen(out, "w");
    if (!f) {  perror(out);  return 2;  }
    fputs(j.c_str(), f);
    fclose(f);
  }
  else fputs(j.c_str(), stdout);
  return stop ? 1 : 0;
}
