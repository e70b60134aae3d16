/*
* T01: TimeSeries.   T02: SensorFilter.
*/
#include "pbt.h"
#include "CppPotpourri.h"
#include "StringBuilder.h"
#include "C3PValue/KeyValuePair.h"
#include "TimeSeries/TimeSeries.h"
#include "TimeSeries/SensorFilter.h"
#include <algorithm>
#include <cmath>
#include <memory>
using namespace pbt;

/* A window, now and then past the range of a byte. */
static uint32_t window(Src& s, uint32_t usual, unsigned rarity = 100, uint32_t top = 600) {
  if (!s.b(2) || !s.b(rarity)) return s.size(usual);
  label("a large window");
  return s.large(top);
}
template <class T> static T sample(Src& s) {  return (T) s.sword(sizeof(T) * 8);  }
template <> float sample<float>(Src& s) {
  if (s.b(60)) return (float) ((int) s.draw(2000) - 1000) / 8;
  float f = s.f32(false);
  return (fabsf(f) > 1e30f || (f != 0 && fabsf(f) < 1e-30f)) ? 1.0f : f;
}
template <> double sample<double>(Src& s) {
  if (s.b(60)) return (double) ((int) s.draw(2000) - 1000) / 8;
  double f = s.f64(false);
  return (fabs(f) > 1e100L || (f != 0 && fabs(f) < 1e-100L)) ? 1.0 : f;
}
template <class T> static bool is_fp() {  return std::is_floating_point<T>::value;  }

static bool near(double got, double want, double scale, double tol = 1e-9) {
  if (got == want) return true;
  return fabs(got - want) <= tol * std::max<double>(fabs(scale), 1e-290L);
}

/* What the window says, by definition. */
struct Stats {  long double mean = 0, rms = 0, sd = 0, big = 0;  };
template <class T> static Stats stats_of(const std::vector<T>& w) {
  Stats r;
  const long double n = w.size();
  for (T x : w) {
    const long double d = x;
    r.mean += d / n;
    r.big = std::max(r.big, fabsl(d));
  }
  long double sq = 0, dv = 0;
  if (r.big > 0) for (T x : w) {
    const long double d = (long double) x / r.big, e = ((long double) x - r.mean) / r.big;
    sq += d * d / n;
    dv += e * e / n;
  }
  r.rms = sqrtl(sq) * r.big;
  r.sd  = sqrtl(dv) * r.big;
  return r;
}
/* The median: the middle one, or between the two in the middle. */
template <class T> static bool median_ok(T got, std::vector<T> w) {
  std::sort(w.begin(), w.end());
  const size_t n = w.size();
  if (n & 1) return got == w[n / 2];
  const long double lo = w[n / 2 - 1], hi = w[n / 2], g = got;
  const long double mid = lo / 2 + hi / 2;
  if (is_fp<T>()) return g >= lo && g <= hi && fabsl(g - mid) <= std::max(fabsl(lo), fabsl(hi)) * (sizeof(T) == 4 ? 1e-6L : 1e-14L);
  return g >= lo && g <= hi && fabsl((g - lo) - (hi - g)) <= 1.0L;
}

/*******************************************************************************
* T01
*******************************************************************************/
template <class T> struct TS {
  std::unique_ptr<TimeSeries<T>> ts;
  bool ext = false, inited = false, gone = false;
  uint32_t win = 0, total = 0, idx = 0;
  uint16_t trace = 0;
  std::vector<T> mem;      // As in memory
  std::string name, units;

  bool full() const {  return inited && total >= win;  }
  void zero() {  total = 0;  idx = 0;  trace = 0;  std::fill(mem.begin(), mem.end(), T(0));  gone = false;  }
  /* The newest first. */
  std::vector<T> recent(uint32_t n) const {
    std::vector<T> r;
    for (uint32_t i = 0; i < n; i++) r.push_back(mem[(idx + win * 2 - n + i) % win]);
    return r;
  }
};

template <class T> static void check_stats(TS<T>& m) {
  TimeSeries<T>* t = m.ts.get();
  if (!m.full()) {
    if (m.gone) return;
    CHECK(t->minValue() == T(0) && t->maxValue() == T(0) && t->median() == T(0) && t->mean() == 0 && t->rms() == 0 && t->stdev() == 0 && t->snr() == 0, "statistics of a window that isn't full");
    return;
  }
  const Stats st = stats_of(m.mem);
  const T lo = *std::min_element(m.mem.begin(), m.mem.end()), hi = *std::max_element(m.mem.begin(), m.mem.end());
  CHECK(t->minValue() == lo && t->maxValue() == hi, "minimum and maximum are %g and %g, expected %g and %g", (double) t->minValue(), (double) t->maxValue(), (double) lo, (double) hi);
  CHECK(near(t->mean(), (double) st.mean, (double) st.big), "mean is %.17g, expected %.17g", t->mean(), (double) st.mean);
  CHECK(near(t->rms(), (double) st.rms, (double) st.rms), "RMS is %.17g, expected %.17g", t->rms(), (double) st.rms);
  const double sd = t->stdev();
  if (m.win > 1) CHECK(near(sd, (double) st.sd, (double) st.big, 1e-7), "deviation is %.17g, expected %.17g", sd, (double) st.sd);
  else CHECK(sd == 0, "deviation of one sample is %g", sd);
  CHECK(median_ok(t->median(), m.mem), "median of %u samples is %.17g", m.win, (double) t->median());
  if (m.win > 1 && st.sd > st.big * 1e-5L && fabsl(st.mean) > st.big * 1e-5L) {
    const double snr = (double) ((st.mean * st.mean) / (st.sd * st.sd));
    CHECK(near(t->snr(), snr, snr, 1e-4), "signal to noise ratio is %.17g, expected %.17g", t->snr(), snr);
  }
}

template <class T> static void check_series(Src& s, TS<T>& m, bool deep) {
  TimeSeries<T>* t = m.ts.get();
  CHECK(t->tcode() == tcodeForType(T(0)), "tcode");
  CHECK(t->initialized() == m.inited, "initialized() is %d", t->initialized());
  CHECK(t->windowSize() == (m.inited ? m.win : 0), "windowSize() is %u, expected %u", t->windowSize(), m.win);
  CHECK(t->totalSamples() == m.total, "totalSamples() is %u, expected %u", t->totalSamples(), m.total);
  CHECK(t->windowFull() == m.full(), "windowFull() is %d after %u of %u samples", t->windowFull(), m.total, m.win);
  CHECK(t->dirty() == (m.trace != (uint16_t) m.total), "dirty() is %d", t->dirty());
  CHECK(t->memUsed() == (m.inited ? m.win * sizeof(T) : 0), "memUsed()");
  CHECK(m.name == t->name() && m.units == (char*) t->units(), "name %s, units %s", t->name(), (char*) t->units());
  if (m.inited) {
    CHECK(t->lastIndex() == m.idx, "lastIndex() is %u, expected %u", t->lastIndex(), m.idx);
    CHECK(0 == memcmp(t->memPtr(), m.mem.data(), m.win * sizeof(T)), "the sample memory isn't what was fed");
  }
  if (deep) check_stats(m);
}

template <class T> static void series_history(Src& s) {
  TS<T> m;
  std::vector<T> extbuf;
  m.ext = s.b(25);
  m.win = s.b(15) ? s.u(3) : window(s, 24);
  T* raw = nullptr;
  if (m.ext) {
    if (!m.win) m.win = 1;
    raw = (T*) malloc(m.win * sizeof(T));
    for (uint32_t i = 0; i < m.win; i++) raw[i] = T(1);
    m.ts.reset(new TimeSeries<T>(raw, m.win));
    m.mem.assign(m.win, T(1));
  }
  else m.ts.reset(new TimeSeries<T>(m.win));
  std::unique_ptr<T, void (*)(void*)> guard(raw, free);
  const std::vector<T> ones(1, T(0));
  note("TimeSeries of %s, window %u%s", typecodeToStr(tcodeForType(T(0))), m.win, m.ext ? ", external memory" : "");
  TimeSeries<T>* t = m.ts.get();
  auto do_init = [&]() {
    const int8_t ret = t->init();
    note("init -> %d", ret);
    CHECK((0 == ret) == (m.win > 0), "init() with a window of %u returned %d", m.win, ret);
    m.inited = m.win > 0;
    if (m.inited) {  m.mem.assign(m.win, T(0));  m.zero();  }
    else {  m.total = 0;  m.idx = 0;  m.trace = 0;  }
  };
  if (s.b(85)) do_init();
  unsigned n = 0, wraps = 0, resets = 0;
  while (more(s, n, 80, 24)) {
    switch (s.weighted({10, 3, 3, 2, 1, 1, 1, 1, 2, 1})) {
      case 0: {
        if (m.inited && s.b(1) && s.b(20)) {    // Very many samples: their count outgrows a narrow integer.
          const uint32_t k = s.large(140000);
          note("feed %u samples", k);
          for (uint32_t i = 0; i < k; i++) {
            const T v = (T) (i % 100);
            const int8_t ret = t->feedSeries(v);
            m.mem[m.idx] = v;
            m.idx = (m.idx + 1) % m.win;
            m.total++;
            if (m.total > m.win) wraps++;
            CHECK(ret == (m.full() ? 1 : 0), "feedSeries() returned %d at %u of %u", ret, m.total, m.win);
          }
          if (m.total > 65536) label("more than 65536 samples");
        }
        const unsigned k = s.b(30) ? 1 + s.u(m.win + 2) : 1;
        for (unsigned i = 0; i < k; i++) {
          const T v = sample<T>(s);
          const int8_t ret = t->feedSeries(v);
          if (!m.inited) {  CHECK(ret == -1, "feedSeries() before init() returned %d", ret);  break;  }
          m.mem[m.idx] = v;
          m.idx = (m.idx + 1) % m.win;
          m.total++;
          if (m.total > m.win) wraps++;
          note("feed %.9g -> %d", (double) v, ret);
          CHECK(ret == (m.full() ? 1 : 0), "feedSeries() returned %d at %u of %u", ret, m.total, m.win);
        }
        break;
      }
      case 1: {
        const T v = t->value();
        const T want = m.full() ? m.mem[(m.idx + m.win - 1) % m.win] : T(0);
        CHECK(v == want, "value() is %.9g, expected %.9g", (double) v, (double) want);
        if (m.full()) m.trace = (uint16_t) m.total;
        break;
      }
      case 2: {
        const bool abs = s.b(50);
        const uint32_t cnt = s.u(m.win + 3), off = abs ? s.u(m.win + 3) : 0;
        std::vector<T> buf(cnt + 1, T(77));
        const int8_t ret = (off == 0 && s.b(50)) ? t->copyValues(buf.data(), cnt, abs) : t->copyValueRange(buf.data(), cnt, off, abs);
        const uint32_t wsz = m.inited ? m.win : 0;
        const bool ok = cnt <= wsz && cnt > 0 && m.total >= cnt + off;
        note("copy %u at %u (%s) -> %d", cnt, off, abs ? "absolute" : "recent", ret);
        CHECK((ret == 0) == ok, "copyValueRange(%u, %u, %d) returned %d with %u samples in a window of %u", cnt, off, abs, ret, m.total, m.win);
        if (ok) {
          const std::vector<T> rec = m.recent(cnt);
          for (uint32_t i = 0; i < cnt; i++) {
            const T want = abs ? m.mem[(off + i) % m.win] : rec[i];
            CHECK(buf[i] == want, "sample %u of copyValueRange(%u, %u, %d) is %.9g, expected %.9g", i, cnt, off, abs, (double) buf[i], (double) want);
          }
          m.trace = (uint16_t) m.total;
        }
        CHECK(buf[ok ? cnt : 0] == T(77), "copyValueRange() wrote too much");
        break;
      }
      case 3: check_stats(m);  break;
      case 4: {
        const int8_t ret = t->purge();
        note("purge -> %d", ret);
        if (m.inited) {
          CHECK(0 == ret, "purge() returned %d", ret);
          m.zero();
          resets++;
        }
        else {  m.total = 0;  m.idx = 0;  m.trace = 0;  if (m.ext) std::fill(m.mem.begin(), m.mem.end(), T(0));  }
        break;
      }
      case 5: {
        const uint32_t w = s.b(30) ? m.win : window(s, 24);
        const int8_t ret = t->windowSize(w);
        note("windowSize(%u) -> %d", w, ret);
        if (w == m.win) {
          const bool ok = m.win > 0 && (m.ext || m.inited);
          CHECK((ret == 0) == ok, "windowSize(%u), as it is, returned %d", w, ret);
          m.total = 0;  m.idx = 0;  m.trace = 0;
          if (ok) {  m.zero();  m.inited = true;  resets++;  }
        }
        else if (m.ext) CHECK(ret < 0, "windowSize() of external memory returned %d", ret);
        else {
          CHECK(0 == ret, "windowSize(%u) returned %d", w, ret);
          m.win = w;
          m.inited = w > 0;
          m.mem.assign(w, T(0));
          m.total = 0;  m.idx = 0;
          if (w) m.zero();
          else {  m.gone = true;  m.trace = t->dirty() ? 1 : 0;  }
          resets++;
        }
        break;
      }
      case 6: do_init();  resets++;  break;
      case 7: {
        if (!m.inited || m.idx != 0) break;
        for (uint32_t i = 0; i < m.win; i++) {
          const T v = sample<T>(s);
          t->memPtr()[i] = v;
          m.mem[i] = v;
        }
        CHECK(1 == t->feedSeries(), "bulk feedSeries()");
        m.total += m.win;
        note("bulk feed");
        break;
      }
      case 8: {
        if (!m.full()) break;
        const uint32_t i = s.u(m.win);
        const uint32_t newest = (m.idx + m.win - 1) % m.win;
        const uint32_t want = m.total - 1 - ((newest + m.win - i) % m.win);
        CHECK(t->indexIsWhichSample(i) == want, "indexIsWhichSample(%u) is %u, expected %u", i, t->indexIsWhichSample(i), want);
        break;
      }
      case 9: {
        char buf[20];
        const std::string nm = s.text(s.u(6), "abc xyz");
        strcpy(buf, nm.c_str());
        const bool u = s.b(50);
        const int8_t ret = u ? t->units((SIUnit*) buf) : t->name(buf);
        memset(buf, '#', sizeof(buf));
        CHECK((ret == 0) == !nm.empty(), "name(%s) returned %d", quote(nm).c_str(), ret);
        (u ? m.units : m.name) = nm;
        break;
      }
    }
    check_series(s, m, s.b(30));
  }
  if (m.full()) check_stats(m);
  if (m.full() && s.b(60)) {
    StringBuilder out;
    CHECK(0 == t->serialize(&out, TCode::CBOR), "serialize() of a full window");
    out.concat("\x18\x2a");
    C3PValueDecoder dec(&out);
    C3PValue* v = dec.next(false);
    CHECK(v && v->tcode() == TCode::TIMESERIES, "a serialized TimeSeries did not decode to one");
    C3PValue* after = dec.next(false);
    CHECK(after && after->get_as_int() == 42 && 0 == out.length(), "what follows a serialized TimeSeries was not left");
    delete after;
    TimeSeriesBase* tb = nullptr;
    CHECK(0 == v->get_as(&tb) && tb, "get_as() of a TimeSeries");
    CHECK(tb->tcode() == t->tcode() && tb->windowSize() == m.win && tb->totalSamples() == m.total && tb->windowFull(), "a decoded TimeSeries has type %s, window %u, total %u", typecodeToStr(tb->tcode()), tb->windowSize(), tb->totalSamples());
    CHECK(m.name == tb->name() && m.units == (char*) tb->units(), "a decoded TimeSeries has name %s and units %s", tb->name(), (char*) tb->units());
    TimeSeries<T>* t2 = (TimeSeries<T>*) tb;
    std::vector<T> got(m.win);
    CHECK(0 == t2->copyValueRange(got.data(), m.win, 0, false), "copyValueRange() of a decoded TimeSeries");
    const std::vector<T> want = m.recent(m.win);
    CHECK(0 == memcmp(got.data(), want.data(), m.win * sizeof(T)), "a decoded TimeSeries has other samples, or another order");
    TS<T> m2;
    m2.ts.reset(t2);
    m2.inited = true;  m2.win = m.win;  m2.total = m.total;  m2.mem = want;
    check_stats(m2);
    m2.ts.release();
    delete v;
    label("round trip");
  }
  StringBuilder pr;
  t->printSeries(&pr);
  if (wraps && (resets || m.win > 2)) nontrivial();
}

template <class T> static void filter_history(Src& s);
static void dispatch_series(Src& s) {
  switch (s.u(10)) {
    case 0: series_history<uint8_t>(s);   break;
    case 1: series_history<uint16_t>(s);  break;
    case 2: series_history<uint32_t>(s);  break;
    case 3: series_history<uint64_t>(s);  break;
    case 4: series_history<int8_t>(s);    break;
    case 5: series_history<int16_t>(s);   break;
    case 6: series_history<int32_t>(s);   break;
    case 7: series_history<int64_t>(s);   break;
    case 8: series_history<float>(s);     break;
    case 9: series_history<double>(s);    break;
  }
}
TARGET_F(T01, histories, 8000, 160000, F_LEAK) {  dispatch_series(s);  }

/*******************************************************************************
* T02
*******************************************************************************/
static const FilteringStrategy STRATS[] = {FilteringStrategy::RAW, FilteringStrategy::MOVING_AVG, FilteringStrategy::MOVING_MED};

/* Just enough of CBOR to read what a filter writes of itself. */
struct Rd {
  std::string d;
  size_t at = 0;
  unsigned major = 0;
  uint64_t arg() {
    CHECK(at < d.size(), "the serialized filter ends early: %s", hex(d.data(), d.size(), 300).c_str());
    const uint8_t b = (uint8_t) d[at++];
    major = b >> 5;
    const unsigned lo = b & 31, n = lo < 24 ? 0 : 1u << (lo - 24);
    CHECK(lo < 28 && at + n <= d.size(), "the serialized filter has a bad item at %zu: %s", at - 1, hex(d.data(), d.size(), 300).c_str());
    uint64_t v = n ? 0 : lo;
    for (unsigned i = 0; i < n; i++) v = (v << 8) | (uint8_t) d[at++];
    if (major == 7) width = n;
    return v;
  }
  unsigned width = 0;
  std::string text() {
    const uint64_t n = arg();
    CHECK(major == 3 && at + n <= d.size(), "the serialized filter lacks a string before %zu: %s", at, hex(d.data(), d.size(), 300).c_str());
    at += (size_t) n;
    return d.substr(at - (size_t) n, (size_t) n);
  }
  uint64_t count(unsigned want) {
    const uint64_t n = arg();
    CHECK(major == want, "the serialized filter has an item of type %u, not %u, before %zu: %s", major, want, at, hex(d.data(), d.size(), 300).c_str());
    return n;
  }
  double num() {
    const uint64_t v = arg();
    if (major == 0) return (double) v;
    if (major == 1) return -1 - (double) v;
    CHECK(major == 7 && (width == 4 || width == 8), "the serialized filter has a sample of type %u", major);
    if (width == 4) {  const uint32_t w = (uint32_t) v;  float f;  memcpy(&f, &w, 4);  return f;  }
    double f;
    memcpy(&f, &v, 8);
    return f;
  }
};
/* A filter writes its name, its settings, and the samples of the window, from the oldest. */
static void check_packed(SensorFilterBase* f, const std::string& name, uint32_t win, uint32_t total, const std::vector<std::vector<double>>& want) {
  StringBuilder out;
  CHECK(0 == f->serialize(&out, TCode::CBOR), "serialize()");
  Rd r;
  r.d.resize((size_t) out.length());
  out.copyToBuffer((uint8_t*) &r.d[0], (uint32_t) r.d.size());
  CHECK(r.text() == "SensorFilter", "the label of a serialized filter");
  unsigned seen = 0;
  for (uint64_t n = r.count(5); n; n--) {
    const std::string k = r.text();
    if (k == "type") {  CHECK(r.text() == "SensorFilter", "type");  seen |= 1;  }
    else if (k == "name") {  const std::string x = r.text();  CHECK(x == name, "a serialized filter is named %s, and not %s", x.c_str(), name.c_str());  seen |= 2;  }
    else if (k == "win_sz") {  CHECK(r.count(0) == win, "the serialized window");  seen |= 4;  }
    else if (k == "total") {  CHECK(r.count(0) == total, "the serialized total");  seen |= 8;  }
    else if (k == "strat") {  CHECK(r.text() == getFilterStr(f->strategy()), "the serialized strategy");  seen |= 16;  }
    else if (k == "dat") {
      const uint64_t cnt = r.count(4);
      CHECK(cnt == want.size(), "%llu serialized samples, expected %zu", (unsigned long long) cnt, want.size());
      for (auto& w : want) {
        if (w.size() > 1) CHECK(r.count(4) == w.size(), "the parts of a serialized sample");
        for (double x : w) {  const double g = r.num();  CHECK(g == x, "a serialized sample is %.17g, expected %.17g", g, x);  }
      }
      seen |= 32;
    }
    else fail("a serialized filter has the key %s", k.c_str());
  }
  CHECK(seen == (name.empty() ? 61 : 63), "a serialized filter has the parts %02x", seen);
  CHECK(r.at == r.d.size(), "%zu bytes follow a serialized filter", r.d.size() - r.at);
  label("serialized");
}
static void rename_filter(Src& s, SensorFilterBase* f, std::string* name, std::string* units) {
  char buf[20];
  const std::string nm = s.text(s.u(6), "abc xyz");
  strcpy(buf, nm.c_str());
  const bool u = s.b(50);
  const int8_t ret = u ? f->units((SIUnit*) buf) : f->name(buf);
  memset(buf, '#', sizeof(buf));
  note("%s = %s", u ? "units" : "name", quote(nm).c_str());
  CHECK((ret == 0) == !nm.empty(), "name(%s) returned %d", quote(nm).c_str(), ret);
  *(u ? units : name) = nm;
}

struct FM {
  bool ext = false, inited = false, full = false, dirty = false;
  uint32_t win = 0, total = 0, idx = 0;
  bool stats_live = true;    // Statistics are those of the window since the last purge
  FilteringStrategy strat = FilteringStrategy::RAW;
};

template <class T> static void filter_history(Src& s) {
  FM m;
  m.ext = s.b(25);
  m.win = s.b(15) ? s.u(3) : window(s, 20, 20, 300);
  m.strat = STRATS[s.u(3)];
  std::vector<T> mem;
  T last = T(0);
  bool known = true;        // last is
  T* raw = nullptr;
  std::unique_ptr<SensorFilter<T>> f;
  if (m.ext) {
    if (!m.win) m.win = 1;
    raw = (T*) calloc(m.win, sizeof(T));
    f.reset(new SensorFilter<T>(raw, m.win, m.strat));
  }
  else f.reset(new SensorFilter<T>(m.win, m.strat));
  std::unique_ptr<T, void (*)(void*)> guard(raw, free);
  mem.assign(m.win, T(0));
  note("SensorFilter of %s, window %u, %s%s", typecodeToStr(tcodeForType(T(0))), m.win, getFilterStr(m.strat), m.ext ? ", external memory" : "");
  auto zero = [&]() {  m.total = 0;  m.idx = 0;  m.full = false;  last = T(0);  known = true;  std::fill(mem.begin(), mem.end(), T(0));  };
  auto do_init = [&]() {
    const int8_t ret = f->init();
    CHECK((0 == ret) == (m.win > 0), "init() with a window of %u returned %d", m.win, ret);
    m.inited = m.win > 0;
    if (!m.ext) {  mem.assign(m.win, T(0));  zero();  }
  };
  if (s.b(90)) do_init();
  std::string name, units;
  unsigned n = 0, wraps = 0, resets = 0;
  while (more(s, n, 80, 24)) {
    switch (s.weighted({10, 3, 1, 1, 1, 1, 1, 1, 1})) {
      case 7: rename_filter(s, f.get(), &name, &units);  break;
      case 8: {
        if (!m.inited || !m.win) break;
        std::vector<std::vector<double>> want;
        for (uint32_t i = 0; i < m.win; i++) want.push_back({(double) mem[(m.idx + i) % m.win]});
        note("serialize");
        check_packed(f.get(), name, m.win, m.total, want);
        break;
      }
      case 0: {
        const unsigned k = s.b(30) ? 1 + s.u(m.win + 2) : 1;
        for (unsigned i = 0; i < k; i++) {
          const T v = sample<T>(s);
          const int8_t ret = f->feedFilter(v);
          if (!m.inited) {  CHECK(ret == -1, "feedFilter() before init() returned %d", ret);  break;  }
          m.total++;
          if (m.win <= 1) {
            if (m.win) mem[0] = v;
            m.full = true;
            last = v;
            known = true;
          }
          else {
            mem[m.idx] = v;
            m.idx = (m.idx + 1) % m.win;
            if (m.total > m.win) wraps++;
            if (m.idx == 0) m.full = true;
            if (m.strat == FilteringStrategy::RAW) {  last = v;  known = true;  }
            else if (m.strat == FilteringStrategy::MOVING_AVG) last = (T) ((((double) last * (m.win - 1)) + (double) v) / m.win);
            else known = false;    // Judged by its definition, below
          }
          note("feed %.9g -> %d", (double) v, ret);
          CHECK(ret == (m.full ? 1 : 0), "feedFilter() returned %d at %u of %u", ret, m.total, m.win);
          if (m.full) m.dirty = true;
          const T got = f->value();
          m.dirty = false;
          if (known) {
            const bool same = is_fp<T>() && m.strat == FilteringStrategy::MOVING_AVG ? near((double) got, (double) last, fabs((double) last) + fabs((double) v), sizeof(T) == 4 ? 1e-5 : 1e-11) : got == last;
            CHECK(same, "value() is %.9g, expected %.9g (%s)", (double) got, (double) last, getFilterStr(m.strat));
            last = got;
          }
          else if (m.full) CHECK(median_ok(got, mem), "value() is %.9g, which is not the median", (double) got);
        }
        break;
      }
      case 1: {
        if (!m.full || !m.win) {
          if (m.win) CHECK(f->minValue() == T(0) && f->maxValue() == T(0) && f->mean() == 0 && f->stdev() == 0 && f->rms() == 0, "statistics of a window that isn't full");
          else {  f->minValue();  f->maxValue();  f->mean();  f->stdev();  f->rms();  CHECK(f->median() == T(0), "median of nothing");  }
          break;
        }
        const Stats st = stats_of(mem);
        const T lo = *std::min_element(mem.begin(), mem.end()), hi = *std::max_element(mem.begin(), mem.end());
        CHECK(f->minValue() == lo && f->maxValue() == hi, "minimum and maximum are %g and %g, expected %g and %g", (double) f->minValue(), (double) f->maxValue(), (double) lo, (double) hi);
        CHECK(near(f->mean(), (double) st.mean, (double) st.big), "mean is %.17g, expected %.17g", f->mean(), (double) st.mean);
        if (m.win > 1) {
          CHECK(near(f->rms(), (double) st.rms, (double) st.rms), "RMS is %.17g, expected %.17g", f->rms(), (double) st.rms);
          CHECK(near(f->stdev(), (double) st.sd, (double) st.big, 1e-7), "deviation is %.17g, expected %.17g", f->stdev(), (double) st.sd);
        }
        CHECK(median_ok(f->median(), mem), "median of %u samples is %.17g", m.win, (double) f->median());
        break;
      }
      case 2: {
        const int8_t ret = f->purge();
        note("purge");
        if (m.inited && m.win) CHECK(0 == ret, "purge() returned %d", ret);
        zero();
        resets++;
        break;
      }
      case 3: {
        const uint32_t w = s.b(30) ? m.win : window(s, 20, 20, 300);
        const int8_t ret = f->windowSize(w);
        note("windowSize(%u) -> %d", w, ret);
        if (w == m.win) {
          if (m.inited && m.win) CHECK(0 == ret, "windowSize(%u), as it is, returned %d", w, ret);
          zero();
        }
        else if (m.ext) CHECK(ret < 0, "windowSize() of external memory returned %d", ret);
        else {
          CHECK(0 == ret, "windowSize(%u) returned %d", w, ret);
          m.win = w;
          mem.assign(w, T(0));
          if (w) zero();
          else {  m.full = false;  m.total = f->totalSamples();  m.idx = 0;  }
        }
        resets++;
        break;
      }
      case 4: {
        const FilteringStrategy st = STRATS[s.u(3)];
        const int8_t ret = f->setStrategy(st);
        CHECK((ret == 0) == (st != m.strat), "setStrategy() returned %d", ret);
        note("strategy %s", getFilterStr(st));
        if (st != m.strat) {  last = T(0);  known = true;  m.strat = st;  }
        break;
      }
      case 5: {
        if (!m.inited || !m.win) break;
        for (uint32_t i = 0; i < m.win; i++) {
          const T v = sample<T>(s);
          f->memPtr()[i] = v;
          mem[i] = v;
        }
        CHECK(0 == f->feedFilter(), "bulk feedFilter()");
        m.total += m.win;
        m.idx = 0;
        m.full = true;
        note("bulk feed");
        break;
      }
      case 6: do_init();  resets++;  break;
    }
    CHECK(f->initialized() == m.inited && f->windowSize() == (m.inited ? m.win : 0) && f->strategy() == m.strat, "initialized %d, window %u", f->initialized(), f->windowSize());
    const char* const gn = f->name() ? f->name() : "";
    const char* const gu = f->units() ? (char*) f->units() : "";
    CHECK(name == gn && units == gu, "name %s, units %s", gn, gu);
    CHECK(!!f->windowFull() == m.full, "windowFull() is %u after %u of %u samples", f->windowFull(), m.total, m.win);
    CHECK(f->totalSamples() == m.total, "totalSamples() is %u, expected %u", f->totalSamples(), m.total);
    if (m.inited && m.win) {
      CHECK(f->lastIndex() == m.idx, "lastIndex() is %u, expected %u", f->lastIndex(), m.idx);
      CHECK(0 == memcmp(f->memPtr(), mem.data(), m.win * sizeof(T)), "the sample memory isn't what was fed");
    }
  }
  StringBuilder pr;
  f->printFilter(&pr);
  if (wraps && (resets || m.win > 2)) nontrivial();
}

TARGET_F(T02, scalar, 8000, 160000, F_LEAK) {
  switch (s.u(8)) {
    case 0: filter_history<uint8_t>(s);   break;
    case 1: filter_history<uint16_t>(s);  break;
    case 2: filter_history<uint32_t>(s);  break;
    case 3: filter_history<int8_t>(s);    break;
    case 4: filter_history<int16_t>(s);   break;
    case 5: filter_history<int32_t>(s);   break;
    case 6: filter_history<float>(s);     break;
    case 7: filter_history<double>(s);    break;
  }
}

TARGET_F(T02, vector, 6000, 120000, F_LEAK) {
  uint32_t win = 1 + window(s, 16, 4, 280), total = 0, idx = 0;
  FilteringStrategy strat = STRATS[s.u(3)];
  SensorFilter3<float> f(win, strat);
  CHECK(-1 == f.feedFilter(1, 2, 3), "feedFilter() before init()");
  CHECK(0 == f.init(), "init()");
  note("SensorFilter3, window %u, %s", win, getFilterStr(strat));
  std::vector<float> c[3];
  for (auto& x : c) x.assign(win, 0);
  bool full = false, known = true;
  double last[3] = {0, 0, 0};
  unsigned n = 0, wraps = 0;
  auto zero = [&]() {
    total = idx = 0;
    full = false;
    known = true;
    for (int k = 0; k < 3; k++) {  last[k] = 0;  c[k].assign(win, 0);  }
  };
  std::string name, units;
  while (more(s, n, 80, 24)) {
    switch (s.weighted({10, 3, 1, 1, 1, 1, 1, 1})) {
      case 6: rename_filter(s, &f, &name, &units);  break;
      case 7: {
        std::vector<std::vector<double>> want;
        for (uint32_t i = 0; i < win; i++) {
          const uint32_t k = (idx + i) % win;
          want.push_back({c[0][k], c[1][k], c[2][k]});
        }
        note("serialize");
        check_packed(&f, name, win, total, want);
        break;
      }
      case 0: {
        const unsigned k = s.b(30) ? 1 + s.u(win + 2) : 1;
        for (unsigned i = 0; i < k; i++) {
          float v[3];
          for (float& x : v) x = sample<float>(s);
          int8_t ret;
          if (s.b(50)) ret = f.feedFilter(v[0], v[1], v[2]);
          else {  Vector3<float> vv(v[0], v[1], v[2]);  ret = f.feedFilter(&vv);  }
          for (int j = 0; j < 3; j++) {
            c[j][idx] = v[j];
            if (win == 1 || strat == FilteringStrategy::RAW) {  last[j] = v[j];  known = true;  }
            else if (strat == FilteringStrategy::MOVING_AVG) last[j] = (float) ((last[j] * (win - 1) + v[j]) / win);
            else known = false;
          }
          idx = (idx + 1) % win;
          total++;
          if (total > win) wraps++;
          if (idx == 0) full = true;
          note("feed %g %g %g -> %d", v[0], v[1], v[2], ret);
          CHECK(ret == (full ? 1 : 0), "feedFilter() returned %d at %u of %u", ret, total, win);
          CHECK(f.dirty() || !full, "dirty() after a feed");
          Vector3<float>* g = f.value();
          CHECK(!f.dirty(), "dirty() after value()");
          const float got[3] = {g->x, g->y, g->z};
          for (int j = 0; j < 3; j++) {
            if (known) {
              CHECK(near(got[j], last[j], fabs(last[j]) + fabs(v[j]), strat == FilteringStrategy::RAW ? 0 : 1e-5), "value()[%d] is %.9g, expected %.9g (%s)", j, got[j], last[j], getFilterStr(strat));
              last[j] = got[j];
            }
            else if (full) CHECK(median_ok(got[j], c[j]), "value()[%d] is %.9g, which is not the median", j, got[j]);
          }
        }
        break;
      }
      case 1: {
        const Vector3f64 mean(f.mean()), rms(f.rms()), sd(f.stdev());
        const double mm[3] = {mean.x, mean.y, mean.z}, rr[3] = {rms.x, rms.y, rms.z}, dd[3] = {sd.x, sd.y, sd.z};
        Vector3<float>* lo = f.minValue();
        Vector3<float>* hi = f.maxValue();
        if (!full) {
          for (int j = 0; j < 3; j++) CHECK(mm[j] == 0 && rr[j] == 0 && dd[j] == 0, "statistics of a window that isn't full");
          CHECK(lo->length() == 0 && hi->length() == 0, "extremes of a window that isn't full");
          break;
        }
        for (int j = 0; j < 3; j++) {
          const Stats st = stats_of(c[j]);
          CHECK(near(mm[j], (double) st.mean, (double) st.big), "mean[%d] is %.17g, expected %.17g", j, mm[j], (double) st.mean);
          CHECK(near(rr[j], (double) st.rms, (double) st.rms), "RMS[%d] is %.17g, expected %.17g", j, rr[j], (double) st.rms);
          if (win > 1) CHECK(near(dd[j], (double) st.sd, (double) st.big, 1e-7), "deviation[%d] is %.17g, expected %.17g", j, dd[j], (double) st.sd);
        }
        double mn = INFINITY, mx = 0;
        bool lo_in = false, hi_in = false;
        for (uint32_t i = 0; i < win; i++) {
          const double l = sqrt((double) c[0][i] * c[0][i] + (double) c[1][i] * c[1][i] + (double) c[2][i] * c[2][i]);
          mn = std::min(mn, l);
          mx = std::max(mx, l);
          lo_in |= c[0][i] == lo->x && c[1][i] == lo->y && c[2][i] == lo->z;
          hi_in |= c[0][i] == hi->x && c[1][i] == hi->y && c[2][i] == hi->z;
        }
        if (mx < 1e18 && (mn == 0 || mn > 1e-15)) {
          CHECK(lo_in && hi_in, "extremes that aren't in the window");
          const double gl = sqrt((double) lo->x * lo->x + (double) lo->y * lo->y + (double) lo->z * lo->z), gh = sqrt((double) hi->x * hi->x + (double) hi->y * hi->y + (double) hi->z * hi->z);
          CHECK(near(gl, mn, mn, 1e-5) && near(gh, mx, mx, 1e-5), "shortest and longest vector are of lengths %g and %g, expected %g and %g", gl, gh, mn, mx);
        }
        break;
      }
      case 2: CHECK(0 == f.purge(), "purge()");  note("purge");  zero();  break;
      case 3: {
        const uint32_t w = s.b(30) ? win : 1 + window(s, 16, 4, 280);
        CHECK(0 == f.windowSize(w), "windowSize(%u)", w);
        note("windowSize(%u)", w);
        win = w;
        zero();
        break;
      }
      case 4: {
        const FilteringStrategy st = STRATS[s.u(3)];
        CHECK((0 == f.setStrategy(st)) == (st != strat), "setStrategy()");
        note("strategy %s", getFilterStr(st));
        if (st != strat) {  strat = st;  known = true;  last[0] = last[1] = last[2] = 0;  }
        break;
      }
      case 5: {
        for (uint32_t i = 0; i < win; i++) {
          float v[3];
          for (int j = 0; j < 3; j++) {  v[j] = sample<float>(s);  c[j][i] = v[j];  }
          f.memPtr()[i].set(v[0], v[1], v[2]);
        }
        CHECK(0 == f.feedFilter(), "bulk feedFilter()");
        total += win;
        idx = 0;
        full = true;
        note("bulk feed");
        break;
      }
    }
    CHECK(f.windowSize() == win && !!f.windowFull() == full && f.totalSamples() == total && f.lastIndex() == idx, "window %u (%u), full %u (%d), total %u (%u), index %u (%u)", f.windowSize(), win, f.windowFull(), full, f.totalSamples(), total, f.lastIndex(), idx);
    for (uint32_t i = 0; i < win; i++) CHECK(f.memPtr()[i].x == c[0][i] && f.memPtr()[i].y == c[1][i] && f.memPtr()[i].z == c[2][i], "the sample memory isn't what was fed, at %u", i);
  }
  StringBuilder pr;
  f.printFilter(&pr);
  if (wraps) nontrivial();
}
