/*
* G01 (utilities), G02 (logger), U01 (UUIDs), V01 (vectors and quaternions).
*/
#include "pbt.h"
#include "CppPotpourri.h"
#include "AbstractPlatform.h"
#include "StringBuilder.h"
#include "C3PLogger.h"
#include "Vector3.h"
#include "Quaternion.h"
#include "uuid.h"
#include <math.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <limits>
#include <type_traits>
using namespace pbt;

static std::string flat(StringBuilder* b) {
  const int n = b->length();
  if (n <= 0) return std::string();
  std::string r((size_t) n, '\0');
  b->copyToBuffer((uint8_t*) &r[0], (uint32_t) n);
  return r;
}

/*******************************************************************************
* G01
*******************************************************************************/
static bool leap(int y) {  return ((y % 4) == 0) && (((y % 100) != 0) || ((y % 400) == 0));  }
static int month_len(int y, int m) {
  static const int L[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  return (m == 2 && leap(y)) ? 29 : L[m - 1];
}
static uint64_t ref_epoch(int y, int m, int d, int h, int mi, int se) {
  uint64_t days = 0;
  for (int i = 1970; i < y; i++) days += leap(i) ? 366 : 365;
  for (int i = 1; i < m; i++) days += month_len(y, i);
  days += d - 1;
  return ((days * 24 + h) * 60 + mi) * 60 + se;
}

TARGET(G01, timestamps, 12000, 150000) {
  setenv("TZ", "UTC0", 1);
  tzset();
  const int y = (int) s.i(1970, 2099);
  const int m = s.b(25) ? (int) s.i(1, 3) : (int) s.i(1, 12);
  int d = (int) s.i(1, month_len(y, m));
  if (s.b(20)) d = month_len(y, m);
  const int h  = s.b(20) ? 23 : (int) s.i(0, 23);
  const int mi = s.b(20) ? 59 : (int) s.i(0, 59);
  const int se = s.b(20) ? 59 : (int) s.i(0, 59);
  char buf[64];
  // The end of the string is not bounded by a terminator in the function's contract: give it exactly 20 bytes.
  snprintf(buf, sizeof(buf), "%04d-%02d-%02dT%02d:%02d:%02dZ", y, m, d, h, mi, se);
  char* exact = (char*) malloc(20);
  memcpy(exact, buf, 20);
  note("%s", buf);
  const uint64_t got  = stringToTimestamp(exact);
  const uint64_t want = ref_epoch(y, m, d, h, mi, se);
  CHECK(0 == memcmp(exact, buf, 20), "stringToTimestamp() changed its argument");
  CHECK(got == want, "stringToTimestamp(\"%s\") = %llu, expected %llu", buf, (unsigned long long) got, (unsigned long long) want);
  if (leap(y)) label("leap year");
  if (m <= 2) label("before March");
  // The other way.
  if (want < 0x7FFFFFFF || sizeof(time_t) > 4) {
    StringBuilder out;
    timestampToString(&out, want);
    char exp[64];
    snprintf(exp, sizeof(exp), "%02d:%02d:%02d %04d-%02d-%02d", h, mi, se, y, m, d);
    CHECK(flat(&out) == exp, "timestampToString(%llu) = %s, expected %s", (unsigned long long) want, quote(flat(&out)).c_str(), exp);
  }
  else label("beyond time_t");
  // Fields out of range are refused.
  int f[6] = {y, m, d, h, mi, se};
  const unsigned which = s.u(6);
  switch (which) {
    case 0:  f[0] = (int) s.i(0, 1969);  break;
    case 1:  f[1] = s.b(50) ? 0 : (int) s.i(13, 99);   break;
    case 2:  f[2] = (int) s.i(32, 99);   break;
    case 3:  f[3] = (int) s.i(24, 99);   break;
    case 4:  f[4] = (int) s.i(60, 99);   break;
    default: f[5] = (int) s.i(60, 99);   break;
  }
  snprintf(buf, sizeof(buf), "%04d-%02d-%02dT%02d:%02d:%02dZ", f[0], f[1], f[2], f[3], f[4], f[5]);
  memcpy(exact, buf, 20);
  const uint64_t bad = stringToTimestamp(exact);
  CHECK(bad == 0, "stringToTimestamp(\"%s\") = %llu, expected refusal (0)", buf, (unsigned long long) bad);
  free(exact);
  nontrivial();
}

template <class T> static std::string num(T v) {
  char b[64];
  if (std::is_floating_point<T>::value) snprintf(b, sizeof(b), "%.17g", (double) v);
  else if (std::is_signed<T>::value) snprintf(b, sizeof(b), "%lld", (long long) v);
  else snprintf(b, sizeof(b), "%llu", (unsigned long long) v);
  return b;
}
template <class T, int BITS> static T gen_num(Src& s) {
  if (std::is_same<T, float>::value)  return (T) s.f32();
  if (std::is_same<T, double>::value) return (T) s.f64();
  if (std::is_signed<T>::value) return (T) s.sword(BITS);
  return (T) s.word(BITS);
}
TARGET(G01, minmax, 20000, 200000) {
  // Distances are only asked for where they are representable.
  #define KIND(T, BITS) { \
    T a = gen_num<T, BITS>(s), b = s.b(15) ? a : gen_num<T, BITS>(s), c = gen_num<T, BITS>(s); \
    note(#T " %s %s %s", num(a).c_str(), num(b).c_str(), num(c).c_str()); \
    const T mx = strict_max(a, b), mn = strict_min(a, b); \
    CHECK(mx == (a < b ? b : a), "strict_max<" #T ">(%s, %s) = %s", num(a).c_str(), num(b).c_str(), num(mx).c_str()); \
    CHECK(mn == (b < a ? b : a), "strict_min<" #T ">(%s, %s) = %s", num(a).c_str(), num(b).c_str(), num(mn).c_str()); \
    T x = a, y = b; \
    strict_swap(&x, &y); \
    CHECK(x == b && y == a, "strict_swap<" #T ">(%s, %s) left %s, %s", num(a).c_str(), num(b).c_str(), num(x).c_str(), num(y).c_str()); \
    const T lo = (a < b ? a : b), hi = (a < b ? b : a); \
    bool rep = true; \
    if (std::is_integral<T>::value && std::is_signed<T>::value && lo < 0) rep = (hi <= (T) (std::numeric_limits<T>::max() + lo)); \
    if (rep) { \
      const T d = strict_abs_delta(a, b); \
      CHECK(d == (T) (hi - lo), "strict_abs_delta<" #T ">(%s, %s) = %s", num(a).c_str(), num(b).c_str(), num(d).c_str()); \
    } \
    const T rb = strict_range_bind(c, lo, hi); \
    CHECK(rb == (c < lo ? lo : (c > hi ? hi : c)), "strict_range_bind<" #T ">(%s, %s, %s) = %s", num(c).c_str(), num(lo).c_str(), num(hi).c_str(), num(rb).c_str()); \
    if (c < lo || c > hi) label("out of range"); \
    if (a != b) nontrivial(); \
  } break;
  switch (s.u(10)) {
    case 0: KIND(uint8_t, 8)
    case 1: KIND(int8_t, 8)
    case 2: KIND(uint16_t, 16)
    case 3: KIND(int16_t, 16)
    case 4: KIND(uint32_t, 32)
    case 5: KIND(int32_t, 32)
    case 6: KIND(uint64_t, 64)
    case 7: KIND(int64_t, 64)
    case 8: KIND(float, 32)
    default: KIND(double, 64)
  }
  // Displacement on a wrapping clockface.
  switch (s.u(4)) {
    #define WRAP(T, BITS) { \
      const T now = (T) s.word(BITS), then = (T) s.word(BITS); \
      const T d = delta_assume_wrap(now, then); \
      CHECK(d == (T) (now - then), "delta_assume_wrap<" #T ">(%s, %s) = %s", num(now).c_str(), num(then).c_str(), num(d).c_str()); \
      if (then > now) label("wrapped"); \
    } break;
    case 0: WRAP(uint8_t, 8)
    case 1: WRAP(uint16_t, 16)
    case 2: WRAP(uint32_t, 32)
    default: WRAP(uint64_t, 64)
  }
}

TARGET(G01, refcount, 6000, 60000) {
  const uint16_t start = s.b(40) ? (uint16_t) s.i(63990, 64000) : (uint16_t) s.i(0, 6);
  C3PRefCounter rc(start);
  unsigned model = start, n = 0;
  bool hit0 = false, hitmax = false;
  note("start %u", start);
  while (more(s, n, 60, 20)) {
    if (s.b(50)) {
      const bool r = rc.refTake();
      const bool w = model < 64000;
      if (w) model++; else hitmax = true;
      note("take %d", r);
      CHECK(r == w, "refTake() = %d with %u references", r, model);
    }
    else {
      const bool r = rc.refRelease();
      if (model) model--; else hit0 = true;
      note("release %d", r);
      CHECK(r == (model == 0), "refRelease() = %d leaving %u references", r, model);
    }
    CHECK(rc.refCount() == model, "refCount() = %u, expected %u", rc.refCount(), model);
  }
  if (hit0) label("released at zero");
  if (hitmax) label("refused at the limit");
  if (n > 4) nontrivial();
}

TARGET(G01, random_art, 6000, 60000) {
  const std::string dg = s.bytes((uint32_t) s.i(0, s.b(20) ? 200 : 40));
  const std::string title = s.text((uint32_t) s.i(0, 14), "ABCabc 019-");
  StringBuilder out;
  const std::string pre = s.b(30) ? s.text(5, "xyz") : "";
  if (pre.size()) out.concat(pre.c_str());
  note("digest %s title %s", hex(dg.data(), dg.size()).c_str(), quote(title).c_str());
  std::string heap = dg;
  uint8_t* d = (uint8_t*) malloc(dg.size() ? dg.size() : 1);
  memcpy(d, dg.data(), dg.size());
  const int r = randomArt(d, (unsigned) dg.size(), title.c_str(), &out);
  CHECK(0 == memcmp(d, dg.data(), dg.size()), "randomArt() changed the digest");
  free(d);
  if (dg.empty()) {
    CHECK(r != 0, "randomArt() accepted an empty digest");
    CHECK(flat(&out) == pre, "randomArt() wrote output for an empty digest");
    return;
  }
  CHECK(r == 0, "randomArt() = %d", r);
  int cnt[9][17];
  memset(cnt, 0, sizeof(cnt));
  int x = 8, y = 4;
  bool over = false;
  for (size_t i = 0; i < dg.size(); i++) {
    uint8_t b = (uint8_t) dg[i];
    for (int k = 0; k < 4; k++, b >>= 2) {
      const int ox = x, oy = y;
      x += (b & 1) ? 1 : -1;  if (x < 0) x = 0;  if (x > 16) x = 16;
      y += (b & 2) ? 1 : -1;  if (y < 0) y = 0;  if (y > 8) y = 8;
      if (x != ox || y != oy) {  if (++cnt[y][x] >= 17) over = true;  }
    }
  }
  char head[128];
  snprintf(head, sizeof(head), "+--[%10s ]--+\n", title.c_str());
  std::string want = pre + head;
  static const char* SYM = " .-:+=R^v<>*&#XoO";
  for (int j = 0; j < 9; j++) {
    want += '|';
    for (int i = 0; i < 17; i++) {
      if (j == 4 && i == 8) want += 'o';
      else if (j == y && i == x) want += 'O';
      else want += SYM[(cnt[j][i] & 0xFF) % 17];
    }
    want += "|\n";
  }
  want += "+-----------------+\n";
  CHECK(flat(&out) == want, "randomArt(): got\n%s\nexpected\n%s", flat(&out).c_str(), want.c_str());
  if (over) label("cell visited over 16 times");
  if (dg.size() > 4) nontrivial();
}

struct RefPcg {
  uint64_t state, inc;
  RefPcg(uint64_t seed, uint64_t seq) : state(0), inc((seq << 1) | 1) {  next(); state += seed; next();  }
  uint32_t next() {
    const uint64_t o = state;
    state = o * 6364136223846793005ULL + inc;
    const uint32_t x = (uint32_t) (((o >> 18) ^ o) >> 27), r = (uint32_t) (o >> 59);
    return (x >> r) | (x << ((32 - r) & 31));
  }
};
TARGET(G01, prng, 6000, 60000) {
  uint64_t seed = s.word(64);
  if (!seed) seed = 1;
  C3P_pRNG a, b;
  CHECK(a.init(seed) == 0, "init()");
  if (s.b(50)) {  uint8_t junk[9];  b.fill(junk, 9);  }
  b.init(seed);
  RefPcg ref(seed, 7);
  unsigned n = 0;
  note("seed %llu", (unsigned long long) seed);
  bool tail = false;
  while (more(s, n, 12, 5)) {
    const uint32_t len = s.b(50) ? (uint32_t) s.i(0, 9) : (uint32_t) s.i(0, 70);
    uint8_t* pa = (uint8_t*) malloc(len + 8);
    uint8_t* pb = (uint8_t*) malloc(len ? len : 1);
    memset(pa, 0xA5, len + 8);
    note("fill %u", len);
    CHECK(a.fill(pa + 4, len) == 0, "fill()");
    CHECK(b.fill(pb, len) == 0, "fill()");
    for (int k = 0; k < 4; k++) {
      CHECK(pa[k] == 0xA5 && pa[4 + len + k] == 0xA5, "fill(%u) wrote outside of the buffer", len);
    }
    CHECK(0 == memcmp(pa + 4, pb, len), "two generators with one seed disagree");
    uint32_t i = 0;
    while (i + 4 <= len) {
      const uint32_t w = ref.next();
      CHECK(0 == memcmp(pa + 4 + i, &w, 4), "fill(%u): word at %u is not PCG32's", len, i);
      i += 4;
    }
    uint32_t w = ref.next();
    if (i < len) tail = true;
    for (; i < len; i++, w >>= 8) {
      CHECK(pa[4 + i] == (uint8_t) w, "fill(%u): byte at %u is not PCG32's", len, i);
    }
    free(pa);
    free(pb);
  }
  if (s.b(50)) {
    uint8_t v1 = b.randomUInt8();    a.randomUInt8();
    uint16_t v2 = b.randomUInt16();  uint16_t w2 = a.randomUInt16();
    uint32_t v4 = b.randomUInt32();  uint32_t w4 = a.randomUInt32();
    uint64_t v8 = b.randomUInt64();  uint64_t w8 = a.randomUInt64();
    (void) v1;
    CHECK(v2 == w2 && v4 == w4 && v8 == w8, "typed draws of two generators with one seed disagree");
  }
  if (tail) label("slack bytes");
  if (n > 1) nontrivial();
}

/*******************************************************************************
* G02: logger
*******************************************************************************/
class FlakySink : public BufferAccepter {
  public:
    std::string taken;
    int32_t budget = 0;      // How many bytes it takes at the next push.
    int pushes = 0;
    int8_t pushBuffer(StringBuilder* b) override {
      pushes++;
      const int32_t len = b->length();
      if (budget <= 0) return -1;
      if (len <= budget) {
        taken += flat(b);
        b->clear();
        budget -= len;
        return 1;
      }
      taken += flat(b).substr(0, (size_t) budget);
      b->cull(budget);
      budget = 0;
      return 0;
    }
    int32_t bufferAvailable() override {  return budget;  }
};

static const char* SEV[8] = {"EMERGENCY ", "ALERT     ", "CRITICAL  ", "ERROR     ", "WARNING   ", "NOTICE    ", "INFO      ", "DEBUG     "};

TARGET_F(G02, logger, 8000, 80000, F_LEAK) {
  const uint8_t flags0 = (uint8_t) s.u(8);
  const bool huge = s.b(4);       // Many kilobytes of backlog.
  FlakySink sink;
  bool with_sink = s.b(65);
  C3PLogger log(flags0, with_sink ? &sink : nullptr);
  bool f_level = flags0 & LOGGER_FLAG_PRINT_LEVEL, f_time = flags0 & LOGGER_FLAG_PRINT_TIME, f_tag = flags0 & LOGGER_FLAG_PRINT_TAG;
  unsigned limit = LOG_LEV_DEBUG, n = 0, lines = 0, filtered = 0, partial = 0;
  std::string expect, fetched;    // Everything accepted; everything that came out by fetchLog().
  std::string out;                // What came out of sink and fetch, in order.
  size_t seen = 0;
  while (more(s, n, 30, 10)) {
    switch (s.weighted({10, 2, 2, 2, 3, 1})) {
      case 0: {
        const unsigned sev = s.u(9);
        const std::string tag = s.text(s.b(15) ? (uint32_t) s.i(20, 40) : (uint32_t) s.i(0, 8), "abcTAG_");
        std::string msg = s.text((uint32_t) s.i(0, 20), "hello %s\td world.");
        if (s.b(huge ? 60 : 2)) {  msg.append(500 + s.u(6000), (char) ('a' + s.u(26)));  label("long line");  }
        StringBuilder m;
        m.concat((uint8_t*) msg.data(), (int) msg.size());
        if (with_sink) {
          sink.budget = s.b(40) ? 0 : (s.b(50) ? 100000 : (int32_t) s.i(1, 60));
        }
        note("print(%u, %s, %s) sink budget %d", sev, quote(tag).c_str(), quote(msg).c_str(), (int) sink.budget);
        const bool hadbudget = with_sink && (sink.budget > 0) && (sink.budget < 1000);
        const int8_t r = log.print((uint8_t) sev, tag.c_str(), &m);
        if (sev > limit) {
          filtered++;
          CHECK(r != 0, "print() = 0 for a severity of %u over the limit of %u", sev, limit);
          CHECK(flat(&m) == msg, "print() consumed a message that it refused");
        }
        else {
          lines++;
          CHECK(r == 0, "print() = %d for a severity of %u within the limit of %u", r, sev, limit);
          CHECK(m.length() == 0, "print() left content in a message that it accepted");
          char b[32];
          if (f_time) {  snprintf(b, sizeof(b), "%10u ", (unsigned) millis());  expect += b;  }
          if (f_level) expect += SEV[sev < 7 ? sev : 7];
          // The tag may be padded or truncated; the marker stands for it.
          if (f_tag) {  expect += '\x01';  expect += tag;  expect += '\x02';  }
          expect += msg;
          expect += '\n';
        }
        if (hadbudget && sink.budget == 0) partial++;
        break;
      }
      case 1: limit = s.u(9);  log.verbosity((uint8_t) limit);  note("verbosity %u", limit);  CHECK(log.verbosity() == limit, "verbosity()");  break;
      case 2: {
        const bool v = s.b();
        switch (s.u(3)) {
          case 0:  f_level = v;  log.printSeverity(v);  break;
          case 1:  f_time = v;   log.printTime(v);      break;
          default: f_tag = v;    log.printTag(v);       break;
        }
        note("flags level %d time %d tag %d", f_level, f_time, f_tag);
        CHECK(log.printSeverity() == f_level && log.printTime() == f_time && log.printTag() == f_tag, "format flags");
        break;
      }
      case 3: {
        note("fetch");
        out += sink.taken.substr(seen);  seen = sink.taken.size();
        StringBuilder b;
        log.fetchLog(&b);
        out += flat(&b);
        break;
      }
      case 4: sim_micros += s.i(0, 5000000);  break;
      default: with_sink = s.b();  log.setSink(with_sink ? &sink : nullptr);  note("sink %d", with_sink);  break;
    }
  }
  out += sink.taken.substr(seen);
  StringBuilder b;
  log.fetchLog(&b);
  out += flat(&b);
  StringBuilder b2;
  log.fetchLog(&b2);
  CHECK(b2.length() == 0, "fetchLog() gave content twice");
  // Match, with tags possibly left-padded by spaces, or truncated at no less than 24 characters, and separated by a space.
  size_t i = 0, j = 0;
  while (i < expect.size()) {
    if (expect[i] == '\x01') {
      const size_t e = expect.find('\x02', i);
      std::string tag = expect.substr(i + 1, e - i - 1);
      size_t pad = 0;
      while (j < out.size() && out[j] == ' ' && pad < 25 && (out.compare(j, tag.size(), tag) != 0 || (tag.empty() && j + 1 < out.size() && out[j + 1] == ' ' && pad < 23 && false))) {  j++;  pad++;  }
      if (out.compare(j, tag.size(), tag) == 0) j += tag.size();
      else if (tag.size() > 24 && out.compare(j, 24, tag, 0, 24) == 0) j += 24;
      else fail("the log has %s where the tag %s was expected", quote(out.substr(j, 40)).c_str(), quote(tag).c_str());
      CHECK(j < out.size() && out[j] == ' ', "no space after a tag, but %s", quote(out.substr(j, 40)).c_str());
      j++;
      if (tag.empty()) while (j < out.size() && out[j] == ' ' && pad < 25 && !(e + 1 < expect.size() && expect[e + 1] == ' ')) {  j++;  pad++;  }
      i = e + 1;
      continue;
    }
    CHECK(j < out.size() && out[j] == expect[i], "log content differs at %u: got %s, expected %s", (unsigned) j, quote(out.substr(j, 40)).c_str(), quote(expect.substr(i, 40)).c_str());
    i++;
    j++;
  }
  CHECK(j == out.size(), "the log has more than was printed: %s", quote(out.substr(j)).c_str());
  if (partial) label("sink took part");
  if (filtered) label("filtered");
  if (lines > 2) nontrivial();
}

TARGET_F(G02, formatted, 4000, 40000, F_LEAK) {
  std::string log;
  sim_log = &log;
  const unsigned sev = s.u(8);
  const int a = (int) s.sword(32);
  const std::string t = s.text((uint32_t) s.i(0, 300), "abc %d");
  char want[600];
  snprintf(want, sizeof(want), "%u %s v=%d [%s] %08x\n", sev, "tag", a, t.c_str(), (unsigned) a);
  c3p_log((uint8_t) sev, "tag", "v=%d [%s] %08x", a, t.c_str(), (unsigned) a);
  sim_log = nullptr;
  CHECK(log == want, "c3p_log() delivered %s, expected %s", quote(log).c_str(), quote(want).c_str());
  if (t.size() > 64) label("long");
  nontrivial();
}

/*******************************************************************************
* U01
*******************************************************************************/
static std::string ref_uuid(const uint8_t* id) {
  char b[64];
  snprintf(b, sizeof(b), "%02x%02x%02x%02x-%02x%02x-%02x%02x-%02x%02x-%02x%02x%02x%02x%02x%02x", id[0], id[1], id[2], id[3], id[4], id[5], id[6], id[7],
    id[8], id[9], id[10], id[11], id[12], id[13], id[14], id[15]);
  return b;
}
TARGET(U01, text, 10000, 100000) {
  UUID u;
  for (int i = 0; i < 16; i++) u.id[i] = (uint8_t) s.word(8);
  const std::string want = ref_uuid(u.id);
  const int len = s.b(30) ? (int) s.i(0, 36) : (int) s.i(37, 60);
  char* buf = (char*) malloc(len ? len : 1);
  memset(buf, 0x7E, len ? len : 1);
  note("%s into %d", want.c_str(), len);
  UUID before = u;
  uuid_to_str(&u, buf, len);
  CHECK(0 == memcmp(&before, &u, sizeof(u)), "uuid_to_str() changed the UUID");
  if (len >= 37) {
    CHECK(0 == memcmp(buf, want.c_str(), 37), "uuid_to_str() = %s, expected %s", quote(std::string(buf, strnlen(buf, len))).c_str(), want.c_str());
  }
  else {
    for (int i = 0; i < len; i++) CHECK(buf[i] == 0x7E, "uuid_to_str() wrote into a buffer of %d", len);
    label("short buffer");
  }
  free(buf);
  StringBuilder sb;
  sb.concat("u:");
  uuid_to_sb(&u, &sb);
  CHECK(flat(&sb) == "u:" + want, "uuid_to_sb() = %s", quote(flat(&sb)).c_str());
  // Any case, any punctuation, anything beyond the 32nd digit.
  std::string text;
  for (char c : want) {
    if (c == '-') {  if (s.b(70)) text += '-';  continue;  }
    if (s.b(5)) text += s.text(1, "-{}: gxyzGZ@/`");
    text += (s.b(30) ? (char) toupper(c) : c);
  }
  const bool extra = s.b(30);
  if (extra) text += s.text((uint32_t) s.i(1, 12), "0123456789abcdefABCDEF-}");
  UUID v;
  for (int i = 0; i < 16; i++) v.id[i] = (uint8_t) s.word(8);
  note("parse %s", quote(text).c_str());
  char* t = strdup(text.c_str());
  uuid_from_str(t, &v);
  free(t);
  CHECK(0 == memcmp(v.id, u.id, 16), "uuid_from_str(%s) = %s", quote(text).c_str(), ref_uuid(v.id).c_str());
  CHECK(uuid_compare(&u, &v) == 0, "uuid_compare() of equal UUIDs is not 0");
  const unsigned at = s.u(16);
  v.id[at] ^= (uint8_t) (1 << s.u(8));
  CHECK(uuid_compare(&u, &v) != 0, "uuid_compare() of UUIDs that differ in byte %u is 0", at);
  CHECK(uuid_compare(&v, &u) != 0, "uuid_compare() of UUIDs that differ in byte %u is 0", at);
  UUID w;
  uuid_copy(&u, &w);
  CHECK(0 == memcmp(w.id, u.id, 16) && 0 == memcmp(&before, &u, sizeof(u)), "uuid_copy()");
  if (extra) label("text beyond the UUID");
  nontrivial();
}
TARGET(U01, generated, 6000, 60000) {
  platform_rng(s.word(64));
  UUID a[8];
  uint8_t orv[16] = {0}, andv[16];
  memset(andv, 0xFF, 16);
  for (int k = 0; k < 8; k++) {
    uuid_gen(&a[k]);
    CHECK((a[k].id[6] & 0xF0) == 0x40, "uuid_gen() gave version bits %02x", a[k].id[6]);
    CHECK((a[k].id[8] & 0xC0) == 0x80, "uuid_gen() gave variant bits %02x", a[k].id[8]);
    for (int j = 0; j < k; j++) CHECK(0 != memcmp(a[j].id, a[k].id, 16), "uuid_gen() repeated itself");
  }
  (void) orv;
  nontrivial();
}
/* Every bit other than version and variant is drawn at random. */
REGRESSION(U01, all_bits_random) {
  uint8_t o[16] = {0}, z[16] = {0};
  for (int k = 0; k < 200; k++) {
    UUID a;
    uuid_gen(&a);
    for (int i = 0; i < 16; i++) {  o[i] |= a.id[i];  z[i] |= (uint8_t) ~a.id[i];  }
  }
  for (int i = 0; i < 16; i++) {
    const uint8_t fixed = (i == 6) ? 0xF0 : ((i == 8) ? 0xC0 : 0);
    CHECK((uint8_t) (o[i] | fixed) == 0xFF && (uint8_t) (z[i] | fixed) == 0xFF, "byte %d of generated UUIDs has constant bits", i);
  }
}

/*******************************************************************************
* V01
*******************************************************************************/
template <class T> static std::string vs(const Vector3<T>& v) {
  return "(" + num(v.x) + ", " + num(v.y) + ", " + num(v.z) + ")";
}
template <class T> static Vector3<T> gvec(Src& s, double lim) {
  auto c = [&]() -> T {
    if (std::is_floating_point<T>::value) {
      switch (s.u(4)) {
        case 0:  return (T) s.i(-3, 3);
        case 1:  return (T) ((double) s.i(-1000000, 1000000) * 0.000001 * lim);
        case 2:  return (T) ((double) s.i(-1000, 1000) * 0.001);
        default: return (T) ((double) s.i(-1000, 1000) * 0.001 * lim);
      }
    }
    const int64_t lo = std::is_signed<T>::value ? -(int64_t) lim : 0;
    return (T) s.i(0, 3) == 0 ? (T) s.i(lo < -3 ? -3 : lo, 3) : (T) s.i(lo, (int64_t) lim);
  };
  return Vector3<T>(c(), c(), c());
}
struct D3 {
  double x, y, z;
  template <class T> D3(const Vector3<T>& v) : x((double) v.x), y((double) v.y), z((double) v.z) {}
  D3(double a, double b, double c) : x(a), y(b), z(c) {}
  double dot(const D3& o) const {  return x * o.x + y * o.y + z * o.z;  }
  double len() const {  return sqrt(dot(*this));  }
};
static bool near(double a, double b, double tol) {  return fabs(a - b) <= tol;  }
template <class T> static void vec_algebra(Src& s, double lim, double mul_lim) {
  const bool fl = std::is_floating_point<T>::value;
  const double eps = std::is_same<T, double>::value ? 3e-16 : (fl ? 1.3e-7 : 0);
  Vector3<T> a = gvec<T>(s, lim), b = s.b(10) ? a : gvec<T>(s, lim);
  note("%s %s", vs(a).c_str(), vs(b).c_str());
  const Vector3<T> a0 = a, b0 = b;
  #define VEQ(got, X, Y, Z, what) { const Vector3<T> g_ = (got); \
    CHECK(g_.x == (T) (X) && g_.y == (T) (Y) && g_.z == (T) (Z), what " of %s and %s is %s", vs(a0).c_str(), vs(b0).c_str(), vs(g_).c_str()); }
  VEQ(a + b, a0.x + b0.x, a0.y + b0.y, a0.z + b0.z, "sum")
  VEQ(a - b, a0.x - b0.x, a0.y - b0.y, a0.z - b0.z, "difference")
  VEQ(-a, -a0.x, -a0.y, -a0.z, "negation")
  { Vector3<T> t(a); Vector3<T>& r = (t += b); VEQ(t, a0.x + b0.x, a0.y + b0.y, a0.z + b0.z, "+=")  CHECK(&r == &t, "+= returns another object"); }
  { Vector3<T> t(a); Vector3<T>& r = (t -= b); VEQ(t, a0.x - b0.x, a0.y - b0.y, a0.z - b0.z, "-=")  CHECK(&r == &t, "-= returns another object"); }
  { Vector3<T> t(&a); VEQ(t, a0.x, a0.y, a0.z, "copy") t.set(&b); VEQ(t, b0.x, b0.y, b0.z, "set") t.set(a0.z, a0.x, a0.y); VEQ(t, a0.z, a0.x, a0.y, "set")
    t(b0.y, b0.z, b0.x); VEQ(t, b0.y, b0.z, b0.x, "()") }
  { Vector3<T> t; VEQ(t, 0, 0, 0, "default") }
  const bool same = (a0.x == b0.x) && (a0.y == b0.y) && (a0.z == b0.z);
  CHECK((a == b) == same, "%s == %s is %d", vs(a).c_str(), vs(b).c_str(), !same);
  CHECK((a != b) == !same, "%s != %s is %d", vs(a).c_str(), vs(b).c_str(), same);
  // Equality looks at every axis.
  { Vector3<T> t(a); T* ax[3] = {&t.x, &t.y, &t.z}; const unsigned k = s.u(3); *ax[k] = (T) (*ax[k] + 1);
    if (fl ? (*ax[k] != (&a0.x)[k]) : true) {  CHECK(!(a == t) && (a != t), "%s is taken to equal %s", vs(a).c_str(), vs(t).c_str());  } }
  // Products, on a domain in which they are representable.
  Vector3<T> p = gvec<T>(s, mul_lim), q = s.b(10) ? p : gvec<T>(s, mul_lim);
  const T k = std::is_signed<T>::value ? (T) s.i(-9, 9) : (T) s.i(0, 9);
  note("products of %s %s by %s", vs(p).c_str(), vs(q).c_str(), num(k).c_str());
  const D3 P(p), Q(q);
  { const double want = P.dot(Q), tol = 4 * eps * (fabs(P.x * Q.x) + fabs(P.y * Q.y) + fabs(P.z * Q.z));
    const T g = p * q;  CHECK(near((double) g, want, tol), "dot product of %s and %s is %s", vs(p).c_str(), vs(q).c_str(), num(g).c_str()); }
  if (std::is_signed<T>::value) {
    const Vector3<T> g = p % q;
    const double w[3] = {P.y * Q.z - P.z * Q.y, P.z * Q.x - P.x * Q.z, P.x * Q.y - P.y * Q.x};
    const double t[3] = {fabs(P.y * Q.z) + fabs(P.z * Q.y), fabs(P.z * Q.x) + fabs(P.x * Q.z), fabs(P.x * Q.y) + fabs(P.y * Q.x)};
    const double gg[3] = {(double) g.x, (double) g.y, (double) g.z};
    for (int i = 0; i < 3; i++) CHECK(near(gg[i], w[i], 4 * eps * t[i]), "cross product of %s and %s is %s", vs(p).c_str(), vs(q).c_str(), vs(g).c_str());
  }
  { const double want = P.dot(P);  const T g = p.length_squared();  CHECK(near((double) g, want, 4 * eps * want), "length_squared() of %s is %s", vs(p).c_str(), num(g).c_str());
    const double l = (double) p.length(), wl = sqrt(want);
    CHECK(near(l, wl, wl * 4e-7 + 1e-30), "length() of %s is %.9g, expected %.9g", vs(p).c_str(), l, wl); }
  { Vector3<T> g = p * k; CHECK(near((double) g.x, P.x * k, eps * fabs(P.x * k)) && near((double) g.y, P.y * k, eps * fabs(P.y * k)) && near((double) g.z, P.z * k, eps * fabs(P.z * k)),
      "%s scaled by %s is %s", vs(p).c_str(), num(k).c_str(), vs(g).c_str());
    Vector3<T> t(p); t *= k; CHECK(t == g, "*= differs from *"); }
  if (k != 0) {
    Vector3<T> g = p / k;
    Vector3<T> t(p); t /= k;
    if (fl) { CHECK(near((double) g.x, P.x / k, 3 * eps * fabs(P.x / k)) && near((double) g.y, P.y / k, 3 * eps * fabs(P.y / k)) && near((double) g.z, P.z / k, 3 * eps * fabs(P.z / k)),
      "%s divided by %s is %s", vs(p).c_str(), num(k).c_str(), vs(g).c_str()); }
    else { CHECK(g.x == (T) (p.x / k) && g.y == (T) (p.y / k) && g.z == (T) (p.z / k), "%s divided by %s is %s", vs(p).c_str(), num(k).c_str(), vs(g).c_str()); }
    CHECK(t == g, "/= differs from /");
  }
  CHECK(a.x == a0.x && a.y == a0.y && a.z == a0.z && b.x == b0.x && b.y == b0.y && b.z == b0.z, "an operand was altered");
  if (!same) nontrivial();
}
TARGET(V01, algebra, 12000, 120000) {
  switch (s.u(8)) {
    case 0:  vec_algebra<float>(s, 1000.0, 1000.0);       break;
    case 1:  vec_algebra<double>(s, 1000.0, 1000.0);      break;
    case 2:  vec_algebra<int32_t>(s, 1000000000.0, 26000.0);   break;
    case 3:  vec_algebra<int16_t>(s, 16000.0, 100.0);     break;
    case 4:  vec_algebra<int8_t>(s, 60.0, 6.0);           break;
    case 5:  vec_algebra<uint32_t>(s, 4000000000.0, 37000.0);  break;
    case 6:  vec_algebra<uint16_t>(s, 65000.0, 140.0);    break;
    default: vec_algebra<uint8_t>(s, 255.0, 9.0);         break;
  }
}

template <class T> static void vec_geometry(Src& s) {
  const bool dbl = std::is_same<T, double>::value;
  const double eps = dbl ? 1e-6 : 3e-6;     // length() is a float in either case.
  Vector3<T> a = gvec<T>(s, 100.0);
  Vector3<T> b = gvec<T>(s, 100.0);
  switch (s.u(6)) {       // Parallel, antiparallel and near-parallel cases are where the trouble is.
    case 0:  b = a;  break;
    case 1:  b = a * (T) (0.001 * s.i(1, 9000));   break;
    case 2:  b = a * (T) (-0.001 * s.i(1, 9000));  break;
    case 3:  b = a;  b.x = (T) (b.x * (1 + 1e-6 * s.i(-5, 5)));  break;
    default: break;
  }
  const D3 A(a), B(b);
  const double la = A.len(), lb = B.len();
  note("%s %s", vs(a).c_str(), vs(b).c_str());
  if (la == 0 || la < 0.01) {
    if (la == 0) {
      Vector3<T> z(a);
      z.normalize();
      CHECK(z.x == 0 && z.y == 0 && z.z == 0, "normalize() of zero gave %s", vs(z).c_str());
      const float ang = Vector3<T>::angle(a, b);
      CHECK(ang == ang, "angle() of a zero vector is not a number");
      label("zero vector");
    }
    return;
  }
  { Vector3<T> t(a);  t.normalize();
    const D3 N(t);
    CHECK(near(N.len(), 1.0, eps), "normalize() of %s gave %s, of length %.9g", vs(a).c_str(), vs(t).c_str(), N.len());
    CHECK(near(N.x * la, A.x, eps * la) && near(N.y * la, A.y, eps * la) && near(N.z * la, A.z, eps * la), "normalize() of %s gave %s", vs(a).c_str(), vs(t).c_str());
    Vector3<T> u = a.normalized();
    const D3 U(u);
    CHECK(near(U.x, N.x, eps) && near(U.y, N.y, eps) && near(U.z, N.z, eps), "normalized() of %s is %s", vs(a).c_str(), vs(u).c_str());
    Vector3<T> w(a);
    w.normalize(a.length());
    const D3 W(w);
    CHECK(near(W.x, N.x, eps) && near(W.y, N.y, eps) && near(W.z, N.z, eps), "normalize(length()) of %s is %s", vs(a).c_str(), vs(w).c_str());
    Vector3<T> w0(a);
    w0.normalize(0.0f);
    CHECK(w0 == a, "normalize(0) changed the vector");
  }
  if (lb < 0.01) return;
  const double c = A.dot(B) / (la * lb);
  const float ang = Vector3<T>::angle(a, b);
  CHECK(ang >= 0.0f && ang <= 3.1415930f, "angle(%s, %s) = %.9g, which is not within [0, pi]", vs(a).c_str(), vs(b).c_str(), (double) ang);
  CHECK(near(cos((double) ang), c, 4e-6), "angle(%s, %s) = %.9g, expected %.9g", vs(a).c_str(), vs(b).c_str(), (double) ang, acos(c > 1 ? 1 : (c < -1 ? -1 : c)));
  { Vector3<T> na(a), nb(b);
    na.normalize();
    nb.normalize();
    const float an = Vector3<T>::angle_normalized(na, nb);
    CHECK(an >= 0.0f && an <= 3.1415930f, "angle_normalized(%s, %s) = %.9g, which is not within [0, pi]", vs(na).c_str(), vs(nb).c_str(), (double) an);
    CHECK(near(cos((double) an), c, 4e-6), "angle_normalized(%s, %s) = %.9g", vs(na).c_str(), vs(nb).c_str(), (double) an);
  }
  // Projection and reflection about b.
  const double f = A.dot(B) / (lb * lb);
  const double tol = 2e-5 * la;
  const D3 PR(B.x * f, B.y * f, B.z * f);
  { Vector3<T> bb(b), aa(a);
    const D3 G(aa.projected(bb));
    CHECK(near(G.x, PR.x, tol) && near(G.y, PR.y, tol) && near(G.z, PR.z, tol), "%s projected onto %s is (%.9g, %.9g, %.9g)", vs(a).c_str(), vs(b).c_str(), G.x, G.y, G.z);
    CHECK(aa == a && bb == b, "projected() changed an operand");
    Vector3<T> t(a);
    t.project(b);
    const D3 H(t);
    CHECK(near(H.x, PR.x, tol) && near(H.y, PR.y, tol) && near(H.z, PR.z, tol), "project() of %s onto %s gave %s", vs(a).c_str(), vs(b).c_str(), vs(t).c_str());
    Vector3<T> r(a);
    r.reflect(b);
    const D3 R(r);
    CHECK(near(R.x, 2 * PR.x - A.x, 2 * tol) && near(R.y, 2 * PR.y - A.y, 2 * tol) && near(R.z, 2 * PR.z - A.z, 2 * tol), "reflect() of %s about %s gave %s", vs(a).c_str(), vs(b).c_str(), vs(r).c_str());
  }
  if (fabs(c) > 0.999999) label("parallel"); else label("general");
  nontrivial();
}
TARGET(V01, geometry, 12000, 120000) {
  if (s.b(60)) vec_geometry<float>(s);
  else vec_geometry<double>(s);
}
/* Directions don't depend on the scale: anywhere that the squares are representable. */
template <class T> static void vec_scale(Src& s) {
  const double eps = 3e-6;
  const int lim = 50;      // Lengths are floats, and angle() multiplies two of them.
  const Vector3<T> a = gvec<T>(s, 100.0), b = gvec<T>(s, 100.0);
  const D3 A(a), B(b);
  const double la = A.len(), lb = B.len();
  if (la < 0.01 || lb < 0.01) {  discard();  }
  const int ka = s.i(-lim, lim), kb = s.i(-lim, lim);
  const double sa = ldexp(1.0, ka), sb = ldexp(1.0, kb);
  const Vector3<T> as((T) (a.x * sa), (T) (a.y * sa), (T) (a.z * sa)), bs((T) (b.x * sb), (T) (b.y * sb), (T) (b.z * sb));
  note("%s at 2^%d, %s at 2^%d", vs(a).c_str(), ka, vs(b).c_str(), kb);
  CHECK(near((double) as.length() / sa, la, eps * la), "length() of %s is %.9g", vs(as).c_str(), (double) as.length());
  Vector3<T> n(as);
  n.normalize();
  const D3 N(n);
  CHECK(near(N.x * la, A.x, eps * la) && near(N.y * la, A.y, eps * la) && near(N.z * la, A.z, eps * la), "normalize() of %s gave %s", vs(as).c_str(), vs(n).c_str());
  const D3 U(as.normalized());
  CHECK(near(U.x * la, A.x, eps * la) && near(U.y * la, A.y, eps * la) && near(U.z * la, A.z, eps * la), "normalized() of %s is (%g, %g, %g)", vs(as).c_str(), U.x, U.y, U.z);
  const double c = A.dot(B) / (la * lb);
  const float ang = Vector3<T>::angle(as, bs);
  CHECK(ang >= 0.0f && ang <= 3.1415930f && near(cos((double) ang), c, 4e-6), "angle(%s, %s) = %.9g", vs(as).c_str(), vs(bs).c_str(), (double) ang);
  label(ka < -20 ? "tiny" : ka > 20 ? "huge" : "middling");
  nontrivial();
}
TARGET(V01, scale, 8000, 80000) {
  if (s.b(60)) vec_scale<float>(s);
  else vec_scale<double>(s);
}
TARGET(V01, integer_angle, 4000, 40000) {
  const Vector3i32 a = gvec<int32_t>(s, 1000.0), b = s.b(30) ? a : gvec<int32_t>(s, 1000.0);
  const D3 A(a), B(b);
  note("%s %s", vs(a).c_str(), vs(b).c_str());
  const float ang = Vector3i32::angle(a, b);
  CHECK(ang >= 0.0f && ang <= 3.1415930f, "angle(%s, %s) = %.9g, which is not within [0, pi]", vs(a).c_str(), vs(b).c_str(), (double) ang);
  if (A.len() == 0 || B.len() == 0) return;
  const double c = A.dot(B) / (A.len() * B.len());
  CHECK(near(cos((double) ang), c, 4e-6), "angle(%s, %s) = %.9g, expected %.9g", vs(a).c_str(), vs(b).c_str(), (double) ang, acos(c > 1 ? 1 : (c < -1 ? -1 : c)));
  nontrivial();
}

TARGET(V01, quaternion, 8000, 80000) {
  {
    Quaternion z;
    CHECK(z.x == 0 && z.y == 0 && z.z == 0 && z.w == 1, "the default quaternion is not the identity");
  }
  auto f = [&]() -> float {  return s.b(30) ? (float) s.i(-2, 2) : (float) (0.001 * s.i(-20000, 20000));  };
  const float x = f(), y = f(), z = f(), w = f();
  Quaternion q(x, y, z, w);
  CHECK(q.x == x && q.y == y && q.z == z && q.w == w, "Quaternion()");
  note("(%g %g %g %g)", x, y, z, w);
  const double n = sqrt((double) x * x + (double) y * y + (double) z * z + (double) w * w);
  if (n > 0.01) {
    q.normalize();
    CHECK(near(q.x * n, x, 4e-6 * n) && near(q.y * n, y, 4e-6 * n) && near(q.z * n, z, 4e-6 * n) && near(q.w * n, w, 4e-6 * n),
      "normalize() of (%g %g %g %g) is (%g %g %g %g)", x, y, z, w, q.x, q.y, q.z, q.w);
    nontrivial();
  }
  q.set(w, x, y, z);
  CHECK(q.x == w && q.y == x && q.z == y && q.w == z, "set()");
  // setDown() gives the rotation that takes the given unit vector onto +z.
  double ax = x, ay = y, az = z;
  if (s.b(15)) {  ax = ay = 0;  az = s.b() ? 1 : -1;  label("on the z axis");  }
  const double l = sqrt(ax * ax + ay * ay + az * az);
  if (l < 0.01) return;
  const float nx = (float) (ax / l), ny = (float) (ay / l), nz = (float) (az / l);
  Quaternion d;
  d.setDown(nx, ny, nz);
  const double N = sqrt((double) d.x * d.x + (double) d.y * d.y + (double) d.z * d.z + (double) d.w * d.w);
  CHECK(near(N, 1.0, 1e-5), "setDown(%g, %g, %g) gave a quaternion of norm %.9g", nx, ny, nz, N);
  // v' = v + 2w(q x v) + 2 q x (q x v)
  const double tx = 2 * (d.y * nz - d.z * ny), ty = 2 * (d.z * nx - d.x * nz), tz = 2 * (d.x * ny - d.y * nx);
  const double rx = nx + d.w * tx + (d.y * tz - d.z * ty), ry = ny + d.w * ty + (d.z * tx - d.x * tz), rz = nz + d.w * tz + (d.x * ty - d.y * tx);
  CHECK(near(rx, 0, 2e-3) && near(ry, 0, 2e-3) && near(rz, 1, 2e-3), "setDown(%g, %g, %g) rotates that vector to (%g, %g, %g)", nx, ny, nz, rx, ry, rz);
}
