/*
* R01: scheduler.   R02: stop watches and timeouts.   R03: trace points and paths.
*/
#include "pbt.h"
#include "CppPotpourri.h"
#include "AbstractPlatform.h"
#include "StringBuilder.h"
#include "TimerTools/TimerTools.h"
#include "TimerTools/C3PScheduler.h"
#include "TimerTools/C3PTrace.h"
#include <deque>
#include <memory>
#include <map>
#include <algorithm>
using namespace pbt;

static void start_time(Src& s) {
  /* Often a little before the 32-bit microsecond (or millisecond) counter wraps. */
  const uint64_t base[] = {1000000, 0x100000000ULL, 0x80000000ULL, 0x300000000ULL, 0x100000000ULL * 1000, 0x300000000ULL};
  const unsigned k = s.u(6);
  sim_micros = base[k];
  if (k) sim_micros -= s.b() ? s.draw(2000) : s.draw(5000000);
}

/* --------------------------------------------------------------------------- R01 */
struct SModel {
  bool added = false, enabled = false, queued = false, perturbed = false;
  uint64_t due = 0;  uint32_t period = 0;  int32_t rec = 0;
  unsigned runs = 0;  uint64_t last = 0;  bool at_zero = false;
  int mut = 0;  uint32_t mut_v = 0;  uint64_t cost = 0;
};

class PollMe : public C3PPollable {
  public:
    std::function<int8_t(void)> fn;
    PollResult poll() override {  fn();  return PollResult::NO_ACTION;  }
};

TARGET(R01, scheduler_model, 15000, 200000) {
  start_time(s);
  const unsigned CAP = 1 + s.size(7);
  const unsigned N = 1 + s.size(8);
  C3PScheduler* sch = new C3PScheduler(CAP);
  std::vector<C3PSchedule*> sc(N, nullptr);
  std::vector<PollMe> pol(N);
  std::vector<SModel> m(N);
  std::vector<unsigned> ran;
  bool wraps = false, recur = false, selfmod = false, lateseen = false;
  std::deque<unsigned> q;
  bool ever_advanced = false;
  const uint64_t T0 = sim_micros;
  for (unsigned i = 0; i < N; i++) {
    m[i].period = s.b(10) ? 1 + s.u(3) : s.b(80) ? 1 + s.u(3000) : (uint32_t) s.draw(0x3FFFFFFF);
    m[i].rec = s.pick<int32_t>({-1, -1, 0, 1, 2, 3, 10});
    m[i].enabled = s.b(70);
    m[i].mut = s.b(25) ? 1 + (int) s.u(4) : 0;
    m[i].mut_v = 1 + s.u(2000);
    m[i].cost = s.b(30) ? s.u(500) : 0;
    auto fn = [&, i]() -> int8_t {
      ran.push_back(i);
      if (m[i].cost) sim_micros += m[i].cost;
      switch (m[i].mut) {
        case 1: sc[i]->period(m[i].mut_v);  break;
        case 2: sc[i]->enabled(false);  break;
        case 3: sc[i]->recurrence((int32_t) (m[i].mut_v % 5) - 1);  break;
        case 4: sc[i]->delay(m[i].mut_v);  sc[i]->delay();  break;     // Refused while executing.
      }
      CHECK(sc[i]->executingNow(), "executingNow() is false during execution");
      return 0;
    };
    note("schedule %u: period %u, recurrences %d, %s%s", i, m[i].period, m[i].rec, m[i].enabled ? "enabled" : "disabled", m[i].mut ? ", modifies itself" : "");
    if (s.b(70)) sc[i] = new C3PScheduledLambda("l", m[i].period, m[i].rec, m[i].enabled, fn);
    else {
      pol[i].fn = fn;
      sc[i] = new C3PScheduledPolling("p", m[i].period, m[i].rec, m[i].enabled, &pol[i]);
    }
  }
  unsigned nadded = 0;
  auto add = [&](unsigned i) {
    const int r = sch->addSchedule(sc[i]);
    note("add(%u) = %d", i, r);
    const bool want = !m[i].added && nadded < CAP;
    CHECK((r == 0) == want, "addSchedule() returned %d, %s", r, want ? "there was room" : m[i].added ? "it was already in" : "it is full");
    if (want) {
      m[i].added = true;
      nadded++;
      if (m[i].enabled) m[i].due = sim_micros + m[i].period;
    }
  };
  auto do_exec = [&](unsigned i, uint64_t now) {
    SModel& x = m[i];
    x.queued = false;
    x.runs++;
    if (0 == (uint32_t) now) x.at_zero = true;    // StopWatch cannot tell a start at 0 us from no start.
    CHECK(now >= x.due || x.perturbed, "schedule %u ran %llu us early", i, (unsigned long long) (x.due - now));
    x.perturbed = false;
    switch (x.mut) {
      case 1: x.period = x.mut_v;  selfmod = true;  break;
      case 2: x.enabled = false;  selfmod = true;  break;
      case 3: x.rec = (int32_t) (x.mut_v % 5) - 1;  selfmod = true;  break;
    }
    if (x.enabled) {
      if (x.rec > 0) x.rec--;
      if (x.rec == 0) x.enabled = false;
      x.last = now;
    }
    const bool again = x.enabled && (x.rec > 0 || x.rec == -1);
    x.due = again ? now + x.period : 0;
    if (x.runs > 1) recur = true;
  };
  unsigned n = 0;
  for (unsigned i = 0; i < N; i++) if (s.b(80)) add(i);
  while (more(s, n, 80, 25)) {
    const unsigned i = s.u(N);
    switch (s.weighted({8, 6, 10, 1, 2, 2, 1, 1, 1})) {
      case 0: {
          note("t=+%llu advance", (unsigned long long) (sim_micros - T0));
          sch->advanceScheduler();
          ever_advanced = true;
          for (unsigned k = 0; k < N; k++) m[k].perturbed &= m[k].queued;
          /* Schedules are considered in the order in which they were added. */
          for (unsigned a = 0; a < sch->scheduleCount(); a++) {
            for (unsigned k = 0; k < N; k++) if (sc[k] == sch->getScheduleByIndex(a)) {
              if (m[k].enabled && m[k].due <= sim_micros && !m[k].queued) {
                if (sim_micros > m[k].due + 1) lateseen = true;
                m[k].queued = true;
                q.push_back(k);
              }
            }
          }
        }
        break;
      case 1: {
          const uint64_t at = sim_micros;
          ran.clear();
          sch->serviceSchedules();
          std::vector<unsigned> want;
          if (ever_advanced) {  want.assign(q.begin(), q.end());  q.clear();  }
          note("t=+%llu service: %u ran, %u expected", (unsigned long long) (at - T0), (unsigned) ran.size(), (unsigned) want.size());
          /* One that was disabled or delayed after it fell due may be run or passed over. */
          uint64_t now = at;
          size_t r = 0;
          for (unsigned k : want) {
            if (r < ran.size() && ran[r] == k) {
              do_exec(k, now);
              now += m[k].cost;
              r++;
            }
            else {
              CHECK(m[k].perturbed, "schedule %u fell due and was not run (or out of turn)", k);
              m[k].queued = m[k].perturbed = false;
            }
          }
          CHECK(r == ran.size(), "schedule %u ran, although it had not fallen due", ran[r]);
        }
        break;
      case 2: {
          const uint64_t before = sim_micros;
          uint64_t dt = s.b(4) ? s.word(29) : s.u(2000);
          if (s.b(40)) {
            /* Exactly at, just before, or just after something falls due. */
            uint64_t best = 0;
            for (auto& x : m) if (x.added && x.enabled && x.due > sim_micros && (!best || x.due < best)) best = x.due;
            if (best) dt = best - sim_micros + s.u(3) - 1;
          }
          /* The scheduler's clock is 32-bit: nothing may stay unserved for half of its range. */
          if (sim_micros + dt - T0 > 0x70000000) dt = 0;
          sim_micros += dt;
          wraps |= ((before >> 32) != (sim_micros >> 32));
          note("t=+%llu", (unsigned long long) (sim_micros - T0));
        }
        break;
      case 3:
        add(i);
        break;
      case 4: {
          note("delay(%u)", i);
          sc[i]->delay();
          m[i].due = sim_micros + m[i].period;
          m[i].enabled = true;
          m[i].perturbed = m[i].queued;
        }
        break;
      case 5: {
          const uint32_t us = s.u(3000);
          note("delay(%u, %u us)", i, us);
          /* A schedule outside of the scheduler has no due time to be put off. */
          if (m[i].enabled && !m[i].added) break;
          sc[i]->delay(us);
          if (!m[i].enabled) {  m[i].due = sim_micros;  m[i].enabled = true;  }
          m[i].due += us;
          m[i].perturbed = m[i].queued;
        }
        break;
      case 6:
        note("disable(%u)", i);
        sc[i]->enabled(false);
        m[i].enabled = false;
        m[i].perturbed = m[i].queued;
        break;
      case 7: {
          const uint32_t p = 1 + s.u(3000);
          note("period(%u, %u)", i, p);
          sc[i]->period(p);
          m[i].period = p;
        }
        break;
      default: {
          const int32_t r = (int32_t) s.u(6) - 1;
          note("recurrence(%u, %d)", i, r);
          sc[i]->recurrence(r);
          m[i].rec = r;
        }
        break;
    }
    CHECK(sch->scheduleCount() == nadded, "scheduleCount() is %u, expected %u", sch->scheduleCount(), nadded);
    for (unsigned k = 0; k < N; k++) {
      CHECK(sch->containsSchedule(sc[k]) == m[k].added, "containsSchedule(%u)", k);
      CHECK(sc[k]->enabled() == m[k].enabled, "schedule %u is %s", k, m[k].enabled ? "disabled" : "enabled");
      CHECK(sc[k]->recurrence() == m[k].rec, "schedule %u has %d recurrences left, expected %d", k, sc[k]->recurrence(), m[k].rec);
      CHECK(sc[k]->willRunAgain() == (m[k].enabled && (m[k].rec > 0 || m[k].rec == -1)), "willRunAgain(%u)", k);
      CHECK(sc[k]->period() == m[k].period, "period(%u)", k);
      CHECK(!sc[k]->executingNow(), "executingNow(%u) outside of execution", k);
      if (m[k].runs) {
        CHECK(sc[k]->profiler.executions() == m[k].runs || m[k].at_zero, "the profiler of schedule %u counts %u runs of %u", k, sc[k]->profiler.executions(), m[k].runs);
        CHECK(sc[k]->lastExec() == (uint32_t) m[k].last || !m[k].last, "lastExec(%u)", k);
      }
      if (m[k].added && m[k].enabled && m[k].due) CHECK(sc[k]->nextExec() == (uint32_t) m[k].due, "schedule %u is next due at %u, expected %u", k, sc[k]->nextExec(), (uint32_t) m[k].due);
    }
  }
  for (auto p : sc) delete p;
  delete sch;
  if (recur && n > 8) nontrivial();
  if (wraps) label("the clock wrapped");
  if (selfmod) label("a schedule modified itself");
  if (lateseen) label("served late");
}

/* --------------------------------------------------------------------------- R02 */
TARGET(R02, stopwatch, 15000, 200000) {
  start_time(s);
  StopWatch w(s.b() ? 0 : (uint32_t) s.word(32));
  uint64_t total = 0;
  uint32_t best = 0xFFFFFFFF, worst = 0, last = 0, ex = 0;
  bool running = false, wrapped = false;
  uint64_t started = 0;
  unsigned n = 0;
  auto finish = [&](uint64_t d) {
    total += d;  ex++;  last = (uint32_t) d;
    best = std::min(best, last);  worst = std::max(worst, last);
  };
  while (more(s, n, 50, 15)) {
    switch (s.weighted({5, 5, 6, 3, 1})) {
      case 0:
        if (0 == (uint32_t) sim_micros) sim_micros++;
        w.markStart();
        started = sim_micros;
        running = true;
        note("start");
        break;
      case 1: {
          const bool r = w.markStop();
          note("stop = %d", r);
          CHECK(r == running, "markStop() returned %d", r);
          if (running) finish(sim_micros - started);
          running = false;
        }
        break;
      case 2: {
          const uint64_t b = sim_micros;
          sim_micros += s.b(90) ? s.u(5000) : s.draw(60000000);
          wrapped |= running && ((b >> 32) != (sim_micros >> 32));
          note("+%llu us", (unsigned long long) (sim_micros - b));
        }
        break;
      case 3: {
          const uint32_t a = s.b() ? 0xFFFFFFFF - s.u(3000) : (uint32_t) s.word(32);
          const uint32_t d = s.u(60000000);
          const uint32_t b = a + d;
          wrapped |= b < a;
          CHECK(w.addRuntime(a, b), "addRuntime() failed");
          note("addRuntime(%u, %u)", a, b);
          finish(d);
          running = false;
        }
        break;
      default:
        w.reset();
        note("reset");
        total = ex = last = worst = 0;
        best = 0xFFFFFFFF;
        if (running) {
          if (0 == (uint32_t) sim_micros) sim_micros++;
          w.markStart();
          started = sim_micros;
        }
        break;
    }
    CHECK(w.executions() == ex, "executions() is %u, expected %u", w.executions(), ex);
    CHECK(w.totalTime() == (uint32_t) total, "totalTime() is %u, expected %llu", w.totalTime(), (unsigned long long) total);
    CHECK(w.lastTime() == last && w.worstTime() == worst, "last/worst %u/%u, expected %u/%u", w.lastTime(), w.worstTime(), last, worst);
    if (ex) CHECK(w.bestTime() == best, "bestTime() is %u, expected %u", w.bestTime(), best);
    CHECK(w.meanTime() == (ex ? (uint32_t) (total / ex) : 0), "meanTime() is %u of total %llu in %u", w.meanTime(), (unsigned long long) total, ex);
  }
  StringBuilder o;
  w.printDebug("x", &o);
  if (ex) {
    unsigned a[6];
    const int k = sscanf((const char*) o.string(), " x %u %u %u %u %u %u", &a[0], &a[1], &a[2], &a[3], &a[4], &a[5]);
    CHECK(k == 6 && a[0] == ex && a[1] == (uint32_t) total && a[2] == w.meanTime() && a[3] == worst && a[4] == best && a[5] == last, "printed as \"%s\"", o.string());
  }
  if (ex >= 2) nontrivial();
  if (wrapped) label("timed across a wrap of the clock");
}

TARGET(R02, timeout, 20000, 300000) {
  start_time(s);
  const bool ms = s.b();
  const uint64_t unit = ms ? 1000 : 1;
  auto now = [&]() {  return (uint32_t) (unsigned long) (sim_micros / unit);  };
  uint32_t period = s.b(20) ? 0 : s.b(80) ? s.u(500) : (uint32_t) s.draw(0x3FFFFFFF);
  MillisTimeout mt(period);
  MicrosTimeout ut(period);
  PeriodicTimeout& t = ms ? (PeriodicTimeout&) mt : (PeriodicTimeout&) ut;
  t.reset();
  uint64_t mark = sim_micros / unit;
  bool trig = false;
  bool was_live = false, did_expire = false;
  unsigned n = 0;
  const bool ticking = s.b(30);
  while (more(s, n, 40, 12)) {
    switch (s.weighted({3, 2, 1, 2, 8})) {
      case 0: t.reset();  mark = sim_micros / unit;  trig = false;  note("reset()");  break;
      case 1:
        period = s.b(20) ? 0 : s.u(500);
        t.reset(period);
        mark = sim_micros / unit;
        trig = false;
        note("reset(%u)", period);
        break;
      case 2:
        period = s.b(20) ? 0 : s.u(500);
        if (trig) {  t.reset();  mark = sim_micros / unit;  trig = false;  }
        t.period(period);
        note("period(%u)", period);
        break;
      case 3: t.trigger();  trig = true;  mark = sim_micros / unit;  note("trigger()");  break;
      default: {
          uint64_t d = (s.b(30) && period) ? (uint64_t) period - 1 + s.u(3) : s.u(300);
          if (sim_micros / unit + d - mark > 0x70000000) d = 0;    // The clock is 32-bit.
          sim_micros += d * unit + (ms ? s.u(1000) : 0);
          note("+%llu", (unsigned long long) d);
        }
        break;
    }
    const uint64_t el = sim_micros / unit - mark;
    const bool ex = trig || !period || el >= period;
    CHECK(t.expired() == ex, "expired() is %d after %llu of %u", !ex, (unsigned long long) el, period);
    const unsigned long rem = t.remaining();
    CHECK(rem == (ex ? 0 : period - el), "remaining() is %lu after %llu of %u", rem, (unsigned long long) el, period);
    CHECK(t.enabled() == (period > 0) && t.period() == period, "enabled()/period()");
    if (!ex) was_live = true;
    if (ex && period && was_live && !trig) did_expire = true;
    if (ticking) {
      /* Time passes between the clock reads of one call. */
      const uint64_t save = sim_micros;
      sim_tick = unit * (1 + s.u(3));
      const unsigned long r2 = t.remaining();
      sim_tick = 0;
      CHECK(r2 <= (ex ? 0 : period - el), "remaining() is %lu, when at most %lu of %u could be left", r2, (unsigned long) (ex ? 0 : period - el), period);
      sim_micros = save;
      label("clock ticked during a call");
    }
  }
  (void) now;
  if (was_live && did_expire) nontrivial();
}

TARGET(R02, since_until, 10000, 100000) {
  start_time(s);
  const uint64_t then = sim_micros;
  const uint32_t d = s.b(70) ? s.u(5000000) : (uint32_t) s.draw(0xFFFFFFFE);
  sim_micros += d;
  const unsigned long m_us = (unsigned long) then;
  CHECK(micros_since(m_us) == d, "micros_since() is %lu, expected %u", micros_since(m_us), d);
  const uint64_t dms = sim_micros / 1000 - then / 1000;
  CHECK(millis_since((unsigned long) (then / 1000)) == dms, "millis_since()");
  const unsigned long fut = (unsigned long) (sim_micros + d), fut_ms = (unsigned long) ((sim_micros + d) / 1000);
  CHECK(micros_until(fut) == d, "micros_until() is %lu, expected %u", micros_until(fut), d);
  CHECK(millis_until(fut_ms) == (sim_micros + d) / 1000 - sim_micros / 1000, "millis_until()");
  if ((then >> 32) != (sim_micros >> 32)) nontrivial();
}

/* --------------------------------------------------------------------------- R03 */
static uint32_t tword(unsigned act, unsigned path, unsigned file, unsigned line) {
  return (line << C3P_TRACE_WORD_LINE_OFFSET) | (file << C3P_TRACE_WORD_FILE_OFFSET) | (path << C3P_TRACE_WORD_PATH_OFFSET)
    | (act << (CONFIG_C3P_TRACE_WORD_LINE_BITS + CONFIG_C3P_TRACE_WORD_FILE_BITS + CONFIG_C3P_TRACE_WORD_PATH_BITS));
}
TARGET(R03, trace, 10000, 150000) {
  start_time(s);
  const unsigned CAP = 1 + s.size(20);
  struct Pt {  uint32_t ts;  unsigned file, line;  };
  struct Sw {  unsigned n = 0;  uint64_t total = 0;  uint32_t best = 0xFFFFFFFF, worst = 0, last = 0;  };
  struct Pa {  bool open = false;  uint64_t at = 0;  unsigned file = 0, line = 0;  std::map<uint32_t, Sw> ends;  };
  std::deque<Pt> pts;
  std::map<unsigned, Pa> paths;
  bool rec = false, dropped = false;
  unsigned n = 0, stops = 0;
  {
    C3PTrace t(CAP);
    auto tick = [&]() {  if (0 == (uint32_t) sim_micros) sim_micros++;  };
    while (more(s, n, 80, 30)) {
      tick();
      switch (s.weighted({2, 12, 6, 1})) {
        case 0: {
            const bool on = s.b(75);
            t.recording(on);
            if (on || rec) rec = on;
            note("recording(%d)", on);
            CHECK(t.recording() == rec, "recording() is %d", !rec);
          }
          break;
        case 1: {
            const unsigned act = s.u(3), path = s.b(80) ? s.u(3) : s.u(1 << CONFIG_C3P_TRACE_WORD_PATH_BITS);
            const unsigned file = s.b(70) ? s.u(4) : s.u(1 << CONFIG_C3P_TRACE_WORD_FILE_BITS);
            const unsigned line = s.b(70) ? s.u(4) : s.u(1 << CONFIG_C3P_TRACE_WORD_LINE_BITS);
            note("t=%u trace(%s, path %u, F%u, L%u)", (uint32_t) sim_micros, act == 0 ? "POI" : act == 1 ? "START" : "STOP", path, file, line);
            t.leave_trace(tword(act, path, file, line));
            if (!rec) break;
            pts.push_back({(uint32_t) sim_micros, file, line});
            if (pts.size() > CAP) {  pts.pop_front();  dropped = true;  }
            if (act == 0) break;
            Pa& p = paths[path];
            if (act == 1) {
              if (!p.open) {  p.open = true;  p.at = sim_micros;  p.file = file;  p.line = line;  }
            }
            else {
              if (p.open) {
                Sw& w = p.ends[(file << C3P_TRACE_WORD_FILE_OFFSET) | line];
                const uint32_t d = (uint32_t) (sim_micros - p.at);
                w.n++;  w.total += d;  w.last = d;  w.best = std::min(w.best, d);  w.worst = std::max(w.worst, d);
                stops++;
              }
              p.open = false;
            }
          }
          break;
        case 2: sim_micros += s.u(4000);  break;
        default:
          t.reset();
          pts.clear();
          for (auto& p : paths) {  p.second.open = false;  p.second.ends.clear();  }
          note("reset()");
          break;
      }
    }
    if (s.b(70)) {
      /* A path is printed while it is open: open them all. */
      tick();
      t.recording(true);
      std::vector<unsigned> ids;
      for (auto& p : paths) ids.push_back(p.first);
      for (unsigned id : ids) {
        t.leave_trace(tword(1, id, 1, 2));
        pts.push_back({(uint32_t) sim_micros, 1, 2});
        if (pts.size() > CAP) pts.pop_front();
        Pa& p = paths[id];
        if (!p.open) {  p.open = true;  p.at = sim_micros;  p.file = 1;  p.line = 2;  }
      }
    }
    /* The points, then the paths. */
    StringBuilder o;
    t.serialize(&o, TCode::STR);
    const std::string out = (const char*) o.string();
    size_t at = 0;
    for (auto& p : pts) {
      char buf[64];
      snprintf(buf, sizeof(buf), "F%03u-L%05u:\t%u\n", p.file, p.line, p.ts);
      CHECK(0 == out.compare(at, strlen(buf), buf), "the trace of %u points is not the last ones, in order: expected %s at %u of\n%s", (unsigned) pts.size(), buf, (unsigned) at, out.c_str());
      at += strlen(buf);
    }
    std::string rest = out.substr(at);
    unsigned want_rows = 0, rows = 0;
    for (auto& p : paths) {
      if (!p.second.open) continue;
      for (auto& e : p.second.ends) {
        want_rows++;
        char buf[160];
        snprintf(buf, sizeof(buf), "F%03u-L%05u %10u %10u %10u %10u %10u %10u\n", e.first >> C3P_TRACE_WORD_FILE_OFFSET, e.first & ((1 << CONFIG_C3P_TRACE_WORD_LINE_BITS) - 1),
          e.second.n, (uint32_t) e.second.total, (uint32_t) ((uint32_t) e.second.total / e.second.n), e.second.worst, e.second.best, e.second.last);
        CHECK(rest.find(buf) != std::string::npos, "path %u lacks the row %s in\n%s", p.first, buf, rest.c_str());
      }
    }
    for (size_t p = 0; (p = rest.find('\n', p)) != std::string::npos; p++) {
      const std::string line = rest.substr(p + 1, rest.find('\n', p + 1) - p - 1);
      unsigned f, l, a, b;
      if (4 == sscanf(line.c_str(), " F%u-L%u %u %u", &f, &l, &a, &b)) rows++;
    }
    CHECK(rows == want_rows, "%u path rows printed, expected %u:\n%s", rows, want_rows, rest.c_str());
  }
  if (stops >= 2) nontrivial();
  if (dropped) label("the oldest points were overwritten");
}
