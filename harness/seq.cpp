/*
* E01: AsyncSequencer runs steps in dependency order.   N01: MultiStringSearch.
*/
#include "pbt.h"
#include "CppPotpourri.h"
#include "StringBuilder.h"
#include "AsyncSequencer.h"
#include "MultiStringSearch.h"
#include <memory>
using namespace pbt;

/* --------------------------------------------------------------------------- E01 */
struct StepModel {
  std::string name;
  int disp = 1, poll = 1;         // What the functions will return.
  unsigned disp_calls = 0, poll_calls = 0;
};
static std::vector<StepModel>* STEPS;
static std::string* CALLS;
static unsigned bits(uint32_t x) {  return (unsigned) __builtin_popcount(x);  }

TARGET(E01, sequencer_model, 20000, 300000) {
  /* One in twelve is a long chain: its requests must reach all the way down. */
  const bool chain = s.b(8);
  const unsigned N = chain ? 32 - s.u(20) : (s.b(10) ? 1 + s.u(32) : 1 + s.size(8));
  std::vector<StepModel> st(N);
  std::string calls;
  STEPS = &st;
  CALLS = &calls;
  std::vector<uint32_t> flag(N), deps(N, 0);
  std::vector<unsigned> order(N);
  /* Flags and list order are independent of the dependency order. */
  std::vector<unsigned> fl(32);
  for (unsigned i = 0; i < 32; i++) fl[i] = i;
  for (unsigned i = 0; i < N; i++) {
    std::swap(fl[i], fl[i + s.u(32 - i)]);
    flag[i] = 1u << fl[i];
    order[i] = i;
    st[i].name = "s" + std::to_string(i);
  }
  for (unsigned i = 0; i < N; i++) {
    const unsigned nd = i ? s.u(std::min(4u, i + 1)) : 0;
    if (chain && i) deps[i] |= flag[i - 1];
    else for (unsigned k = 0; k < nd; k++) deps[i] |= flag[s.u(i)];
  }
  if (chain) label("chain");
  const bool shuffled = s.b(50);
  if (shuffled) for (unsigned i = 0; i + 1 < N; i++) std::swap(order[i], order[i + s.u(N - i)]);
  std::vector<StepSequenceList> list;
  list.reserve(N);
  for (unsigned o = 0; o < N; o++) {
    const unsigned i = order[o];
    list.push_back(StepSequenceList{flag[i], st[i].name.c_str(), deps[i],
      [i]() {  (*STEPS)[i].disp_calls++;  *CALLS += "D" + std::to_string(i) + " ";  return (*STEPS)[i].disp;  },
      [i]() {  (*STEPS)[i].poll_calls++;  *CALLS += "P" + std::to_string(i) + " ";  return (*STEPS)[i].poll;  }});
    note("step %u: flag %08x, depends on %08x", i, flag[i], deps[i]);
  }
  AsyncSequencer q(&list[0], N);
  CHECK(q.stepCount() == N, "stepCount()");
  uint32_t all = 0;
  for (auto f : flag) all |= f;
  uint32_t req = 0, able = 0, run = 0, comp = 0, pass = 0;
  auto closure = [&](uint32_t m) {
    uint32_t r = m & all, p;
    do {
      p = r;
      for (unsigned i = 0; i < N; i++) if (r & flag[i]) r |= deps[i];
    } while (p != r);
    return r;
  };
  unsigned n = 0, passed_with_deps = 0, fails = 0, dispatches = 0;
  const unsigned bad = s.u(3) * 15;
  while (more(s, n, 80, 25)) {
    const uint32_t f1 = flag[s.u(N)];
    switch (s.weighted({14, 4, 2, 1, 1})) {
      case 0: {
          for (auto& x : st) {
            x.disp = s.b(bad) ? s.pick<int>({0, 0, -1, 2}) : 1;
            x.poll = s.b(25) ? 0 : s.b(bad) ? s.pick<int>({-1, 2, -7}) : 1;
            x.disp_calls = x.poll_calls = 0;
          }
          calls.clear();
          const uint32_t r0 = run, c0 = comp, d0 = able & ~comp & ~run;
          for (unsigned i = 0; i < N; i++) if (!(able & flag[i]) && deps[i] == (deps[i] & pass) && (req & flag[i])) able |= flag[i];
          std::string want;
          for (unsigned o = 0; o < N; o++) {
            const unsigned i = order[o];
            if (!(d0 & flag[i])) continue;
            want += "D" + std::to_string(i) + " ";
            if (st[i].disp == 1) {  run |= flag[i];  comp &= ~flag[i];  pass &= ~flag[i];  dispatches++;  }
            else if (st[i].disp != 0) {  run &= ~flag[i];  comp |= flag[i];  pass &= ~flag[i];  fails++;  }
          }
          const uint32_t p0 = run;
          for (unsigned o = 0; o < N; o++) {
            const unsigned i = order[o];
            if (!(p0 & flag[i])) continue;
            want += "P" + std::to_string(i) + " ";
            if (st[i].poll == 0) continue;
            run &= ~flag[i];  comp |= flag[i];
            if (st[i].poll == 1) {  pass |= flag[i];  if (deps[i]) passed_with_deps++;  }
            else {  pass &= ~flag[i];  fails++;  }
          }
          const int ret = q.poll();
          const int wret = (int) (bits(r0 ^ run) + bits(c0 ^ comp) + bits(d0 ^ (able & ~comp & ~run)));
          note("poll() = %d, calls %s", ret, calls.c_str());
          CHECK(calls == want, "poll() called [%s], expected [%s]", calls.c_str(), want.c_str());
          CHECK(ret == wret, "poll() returned %d, %d state bits changed", ret, wret);
        }
        break;
      case 1: {
          uint32_t m = s.b(70) ? f1 : (f1 | flag[s.u(N)] | flag[s.u(N)]);
          if (s.b(15)) m = (uint32_t) s.word(32);
          note("request(%08x)", m);
          q.requestSteps(m);
          req |= closure(m);
        }
        break;
      case 2: {
          const uint32_t m = s.b(70) ? f1 : (uint32_t) s.word(32);
          note("resetSteps(%08x)", m);
          q.resetSteps(m);
          req &= ~m;  able &= ~m;  run &= ~m;  comp &= ~m;  pass &= ~m;
        }
        break;
      case 3:
        note("resetSequencer()");
        q.resetSequencer();
        req = able = run = comp = pass = 0;
        break;
      default: {
          note("save and restore");
          uint32_t a, b, c, d, e;
          q.getState(&a, &b, &c, &d, &e);
          q.resetSequencer();
          q.setState(a, b, c, d, e);
        }
        break;
    }
    uint32_t a, b, c, d, e;
    q.getState(&a, &b, &c, &d, &e);
    CHECK(a == req && b == able && c == run && d == comp && e == pass,
      "state (requested runnable running complete passed) is %08x %08x %08x %08x %08x, expected %08x %08x %08x %08x %08x", a, b, c, d, e, req, able, run, comp, pass);
    CHECK(q.steps_running() == (run != 0), "steps_running()");
    CHECK(q.request_fulfilled() == ((req & comp & pass) == req), "request_fulfilled()");
    CHECK(q.request_completed() == ((req & comp) == req), "request_completed()");
    CHECK(q.all_steps_have_run() == ((able & comp) == able), "all_steps_have_run()");
    CHECK(q.all_steps_have_passed() == ((able & pass) == able), "all_steps_have_passed()");
    CHECK(q.failed_steps(false) == (comp & ~pass), "failed_steps(false)");
    CHECK(q.failed_steps(true) == (able & ~pass), "failed_steps(true)");
    const uint32_t m = s.b() ? f1 : (f1 | flag[s.u(N)]);
    CHECK(q.all_steps_have_run(m) == ((m & comp) == m) && q.all_steps_have_passed(m) == ((m & pass) == m)
       && q.all_steps_still_running(m) == ((m & run) == m) && q.all_steps_dispatched(m) == ((m & req) == m), "mask queries for %08x", m);
    /* A step that passed had all of what it depends on requested with it. */
  }
  /* Requested work gets done: with well-behaved steps, everything requested and not failed passes within a bounded number of polls. */
  if (s.b(30)) {
    q.resetSequencer();
    for (auto& x : st) x.disp = x.poll = 1;
    const uint32_t m = flag[N - 1] | flag[s.u(N)];
    q.requestSteps(m);
    calls.clear();
    unsigned k = 0;
    for (; k < 3 * N + 3 && !q.request_fulfilled(); k++) q.poll();
    CHECK(q.request_fulfilled(), "%u polls did not fulfil a request for %08x of steps that always pass", k, m);
    std::string seen;
    uint32_t done = 0;
    for (size_t p = 0; p < calls.size(); ) {
      const size_t e = calls.find(' ', p);
      const unsigned i = (unsigned) atoi(calls.c_str() + p + 1);
      if (calls[p] == 'D') CHECK((deps[i] & done) == deps[i], "step %u was dispatched before what it depends on had passed: %s", i, calls.c_str());
      else done |= flag[i];
      p = e + 1;
    }
    CHECK(done == closure(m), "steps %08x ran, %08x were needed", done, closure(m));
    label("run to completion");
  }
  /* The printed table. */
  if (s.b(10)) {
    StringBuilder o, names;
    q.printDebug(&o, "Q");
    q.stepList(&names);
    CHECK(names.count() == (int) N, "stepList() lists %d steps", names.count());
    uint32_t a, b, c, d, e;
    q.getState(&a, &b, &c, &d, &e);
    const std::string t = (const char*) o.string();
    for (unsigned i = 0; i < N; i++) {
      size_t p = t.find("\t" + std::string(0, ' '));
      bool ok = false;
      for (p = 0; (p = t.find('\n', p)) != std::string::npos; p++) {
        char nm[16], x[4][4], res[16] = "";
        if (5 <= sscanf(t.c_str() + p + 1, " %15s | %1s | %1s | %1s | %1s | %15s", nm, x[0], x[1], x[2], x[3], res) && st[i].name == nm) {
          ok = (x[0][0] == 'y') == !!(a & flag[i]) && (x[1][0] == 'y') == !!(b & flag[i]) && (x[2][0] == 'y') == !!(c & flag[i]) && (x[3][0] == 'y') == !!(d & flag[i]);
        }
      }
      CHECK(ok, "the row of %s is wrong or missing in\n%s", st[i].name.c_str(), t.c_str());
    }
  }
  if (passed_with_deps && dispatches > 2) nontrivial();
  if (fails) label("a step failed");
}

/* --------------------------------------------------------------------------- N01 */
struct Needles {
  std::vector<std::string> w;
  std::string hay;
  unsigned off = 0, len = 0;
};
static void mss_sound(Src& s, Needles& x, StringBuilder& b, MultiStringSearch& ms, std::vector<std::pair<int, std::string>>& hits) {
  unsigned guard = 0;
  int r = ms.runSearch(&b, (int) x.len, (int) x.off);
  note("runSearch(%s, %u, %u) = %d", quote(x.hay, 100).c_str(), x.len, x.off, r);
  int prev_end = (int) x.off;
  while (r > 0) {
    CHECK(++guard <= x.hay.size() + 1, "more matches than the haystack has bytes");
    StrSearchDef* d = ms.lastMatch();
    CHECK(d != nullptr, "a match was reported without a needle");
    const std::string nd((const char*) d->SEARCH_STR, (size_t) d->SEARCH_STR_LEN);
    note("match \"%s\" at %d..%d", nd.c_str(), d->offset_start, d->offset_end);
    CHECK(d->searchHit(), "the needle of a match does not say so");
    CHECK(d->offset_start >= prev_end, "match at %d overlaps the one before it, which ended at %d", d->offset_start, prev_end);
    CHECK(d->offset_end == d->offset_start + d->SEARCH_STR_LEN, "match of %d bytes ends at %d", d->SEARCH_STR_LEN, d->offset_end);
    CHECK(d->offset_end <= (int) x.hay.size(), "match ends beyond the haystack");
    CHECK(x.hay.compare((size_t) d->offset_start, nd.size(), nd) == 0, "\"%s\" is not at %d in \"%s\"", nd.c_str(), d->offset_start, x.hay.c_str());
    hits.push_back({d->offset_start, nd});
    prev_end = d->offset_end;
    r = ms.continueSearch();
  }
  CHECK(r == 0, "the search ended with %d", r);
  CHECK(!ms.searchRunning(), "a search that returned 0 is still running");
  CHECK(ms.continueSearch() == 0 && ms.lastMatch() == nullptr, "a search that is over found something");
  std::string flat((const char*) b.string(), (size_t) b.length());
  CHECK(flat == x.hay, "the search changed its subject");
}
TARGET(N01, multi_search, 15000, 200000) {
  const unsigned MAX = 1 + s.u(5);
  MultiStringSearch ms((uint8_t) MAX);
  Needles x;
  unsigned N = 1 + s.u(MAX + 1);
  const char* AL = s.b() ? "ab" : "abc\n";
  for (unsigned i = 0; i < N; i++) x.w.push_back(s.text(1 + s.u(3), AL));
  unsigned added = 0;
  size_t mn = 99, mx = 0;
  for (auto& w : x.w) {
    const int r = ms.addSearchTerm((const uint8_t*) w.c_str(), (int) w.size());
    note("addSearchTerm(\"%s\") = %d", w.c_str(), r);
    CHECK(r == (added < MAX ? 0 : -2), "addSearchTerm() returned %d with %u of %u defined", r, added, MAX);
    if (r == 0) {  added++;  mn = std::min(mn, w.size());  mx = std::max(mx, w.size());  }
  }
  CHECK(ms.addSearchTerm(nullptr, 3) == -1 && ms.addSearchTerm((const uint8_t*) "x", 0) == -1, "a meaningless needle was accepted");
  CHECK(ms.needlesDefined() == added && ms.minNeedleLength() == (int) mn && ms.maxNeedleLength() == (int) mx, "needle statistics");
  unsigned rounds = 1 + s.u(2), hits_total = 0;
  bool frag = false;
  for (unsigned k = 0; k < rounds; k++) {
    StringBuilder b;
    x.hay.clear();
    size_t limit = 60;
    if (s.b(2)) {    // A long way from one match to another.
      x.hay = s.b() ? s.pick<std::string>(x.w) : "";
      x.hay.append(s.large(70000), '.');
      b.concat((uint8_t*) x.hay.data(), (int) x.hay.size());
      limit = x.hay.size() + 60;
      if (x.hay.size() > 32768) label("more than 32 KB");
    }
    while (x.hay.size() < 1 || s.b(75)) {
      std::string piece = s.b(60) ? x.w[s.u((unsigned) x.w.size())] : s.text(1 + s.u(4), AL);
      if (x.hay.size() && s.b()) frag = true;
      b.concat((uint8_t*) piece.data(), (int) piece.size());
      x.hay += piece;
      if (x.hay.size() > limit) break;
    }
    x.off = s.b(60) ? 0 : s.u((unsigned) x.hay.size());
    x.len = s.b(60) ? (unsigned) x.hay.size() - x.off : 1 + s.u((unsigned) x.hay.size() - x.off);
    StringBuilder dummy("zz");
    CHECK(ms.runSearch(nullptr, 1, 0) == -1, "null subject");
    CHECK(ms.runSearch(&b, 0, 0) == -3 && ms.runSearch(&b, 1, -1) == -3 && ms.runSearch(&b, (int) x.hay.size() + 1, 0) == -3
       && ms.runSearch(&b, (int) x.len + 1, (int) (x.hay.size() - x.len)) == -3, "a range outside of the subject was accepted");
    std::vector<std::pair<int, std::string>> hits;
    mss_sound(s, x, b, ms, hits);
    hits_total += (unsigned) hits.size();
    /* If anything was there to be found, something was found; and a needle on its own is found wherever it is. */
    if (added == 1) {
      size_t at = x.off;
      for (auto& h : hits) {
        const size_t f = x.hay.find(x.w[0], at);
        CHECK(f == (size_t) h.first, "the only needle was found at %d, it is at %d", h.first, (int) f);
        at = f + x.w[0].size();
      }
      if (x.off + x.len == x.hay.size()) {
        CHECK(x.hay.find(x.w[0], at) == std::string::npos, "the only needle \"%s\" also is at %d in \"%s\"", x.w[0].c_str(), (int) x.hay.find(x.w[0], at), x.hay.c_str());
      }
    }
    CHECK(ms.runSearch(&dummy, 2, 0) == -2, "a second search began before the first was reset");
    ms.reset();
    CHECK(ms.needlesDefined() == added && ms.lastMatch() == nullptr && ms.needlesFound() == 0, "reset()");
  }
  if (hits_total >= 2 && added >= 2) nontrivial();
  if (frag) label("fragmented subject");
}

/* Several needles: the match that comes first in the subject is passed over for the one that comes last. */
FINDING(N01, KF01) {
  MultiStringSearch ms(2);
  ms.addSearchTerm((const uint8_t*) "a", 1);
  ms.addSearchTerm((const uint8_t*) "b", 1);
  StringBuilder b("ab");
  CHECK(1 == ms.runSearch(&b, 2, 0) && ms.lastMatch(), "nothing found");
  CHECK(ms.lastMatch()->offset_start == 0, "the first match reported in \"ab\" for the needles a and b is at %d", ms.lastMatch()->offset_start);
}
/* SEARCH_LEN does not bound the search. */
FINDING(N01, KF02) {
  MultiStringSearch ms(1);
  ms.addSearchTerm((const uint8_t*) "b", 1);
  StringBuilder b("aaab");
  CHECK(0 == ms.runSearch(&b, 2, 0), "a match at %d was reported in a search of the first 2 bytes", ms.lastMatch()->offset_start);
}
