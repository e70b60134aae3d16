/*
* E02: finite state machine routes.   E03: enum definitions and flag containers.
*/
#include "pbt.h"
#include "CppPotpourri.h"
#include "AbstractPlatform.h"
#include "StringBuilder.h"
#include "EnumWrapper.h"
#include "FlagContainer.h"
#include "TimerTools/TimerTools.h"
#include "RingBuffer.h"
#include "FiniteStateMachine.h"
#include <deque>
#include <strings.h>
using namespace pbt;

/* --------------------------------------------------------------------------- E02 */
enum class St : uint8_t {  A = 0, B = 1, C = 2, D = 5, E = 9, BAD = 0xFF  };
static const EnumDef<St> ST_DEFS[] = {
  {St::A, "A"}, {St::B, "B"}, {St::C, "C"}, {St::D, "D"}, {St::E, "E"},
  {St::BAD, "BAD", (ENUM_FLAG_MASK_INVALID_CATCHALL)}
};
static const EnumDefList<St> ST_LIST(ST_DEFS, sizeof(ST_DEFS) / sizeof(ST_DEFS[0]), "St");
/* 0..4 valid, 5 flagged invalid, 6 undefined. */
static const St CODES[] = {St::A, St::B, St::C, St::D, St::E, St::BAD, (St) 77};
static const char* stn(St x) {  return ST_LIST.enumStr(x);  }

class Fsm : public StateMachine<St> {
  public:
    Fsm(St init, unsigned depth) : StateMachine<St>("fsm", &ST_LIST, init, depth) {}
    ~Fsm() {}
    int8_t _fsm_poll() override {  return 0;  }
    int8_t _fsm_set_position(St x) override {
      asked.push_back(x);
      if (lock_ms) _fsm_lockout(lock_ms);
      /* A refused entry may re-plan the route, as the drivers built on this do. */
      if (verdict && replan >= 0) {
        if (replan == 0)      replan_ret = _fsm_prepend_state(replan_to);
        else if (replan == 1) replan_ret = _fsm_set_route(1, replan_to);
        else                  replan_ret = _fsm_append_state(replan_to);
      }
      return verdict;
    }
    int8_t verdict = 0;
    uint32_t lock_ms = 0;
    int replan = -1, replan_ret = 0;
    St replan_to = St::A;
    std::vector<St> asked;
    int8_t route(const std::vector<St>& r, bool set, int n) {
      #define GO(...) (set ? _fsm_set_route(n, ##__VA_ARGS__) : _fsm_append_route(n, ##__VA_ARGS__))
      switch (r.size()) {
        case 0: return GO();
        case 1: return GO(r[0]);
        case 2: return GO(r[0], r[1]);
        case 3: return GO(r[0], r[1], r[2]);
        case 4: return GO(r[0], r[1], r[2], r[3]);
        case 5: return GO(r[0], r[1], r[2], r[3], r[4]);
        default: return GO(r[0], r[1], r[2], r[3], r[4], r[5]);
      }
    }
};

static bool ok_code(St x) {  return ST_LIST.enumValid(x);  }
static St any_state(Src& s) {  return s.b(85) ? CODES[s.u(5)] : CODES[s.u(7)];  }

TARGET(E02, fsm_model, 20000, 300000) {
  const unsigned CAP = 1 + s.size(7);
  const St init = CODES[s.u(5)];
  sim_micros = 1000000 + (s.b(20) ? 0xFFFFF000ULL * 1000 - s.draw(50000000) : s.draw(100000000));
  Fsm f(init, CAP);
  std::deque<St> m;
  St cur = init, prior = init;
  uint32_t slow = 0;
  uint64_t lock_until = 0;    // in ms; 0: none
  uint32_t lock_len = 0;
  uint64_t lock_mark = 0;
  auto now_ms = [&]() {  return sim_micros / 1000;  };
  auto remaining = [&]() -> uint32_t {
    const uint64_t el = now_ms() - lock_mark;
    return (lock_len && el < lock_len) ? (uint32_t) (lock_len - el) : 0;
  };
  unsigned n = 0, advances = 0, replans = 0, rejected_routes = 0, trunc = 0;
  while (more(s, n, 60, 20)) {
    const St x = any_state(s);
    switch (s.weighted({3, 3, 3, 3, 8, 1, 1, 3, 2})) {
      case 0: case 1: {
          const bool set = s.b();
          std::vector<St> r;
          const unsigned k = s.u(7);
          for (unsigned i = 0; i < k; i++) r.push_back(any_state(s));
          const unsigned room = set ? CAP : CAP - (unsigned) m.size();
          const unsigned take = std::min<unsigned>(k, room);
          int want = take ? 0 : -1;
          for (unsigned i = 0; i < take; i++) if (!ok_code(r[i])) want = -2;
          const int ret = f.route(r, set, (int) k);
          note("%s(%u states) = %d", set ? "set_route" : "append_route", k, ret);
          CHECK(ret == want, "%s() with %u states and room for %u returned %d, expected %d", set ? "_fsm_set_route" : "_fsm_append_route", k, room, ret, want);
          if (want == 0) {
            if (set) m.clear();
            m.insert(m.end(), r.begin(), r.begin() + take);
            if (take < k) trunc++;
          }
          else if (want == -2) rejected_routes++;
        }
        break;
      case 2: {
          const int ret = f._fsm_append_state(x);
          const int want = !ok_code(x) ? -1 : (m.size() < CAP ? 0 : -2);
          note("append_state(%s) = %d", stn(x), ret);
          CHECK(ret == want, "_fsm_append_state(%s) returned %d, expected %d", stn(x), ret, want);
          if (!want) m.push_back(x);
        }
        break;
      case 3: {
          const int ret = f._fsm_prepend_state(x);
          const int want = !ok_code(x) ? -1 : (m.size() < CAP ? 0 : -2);
          note("prepend_state(%s) = %d", stn(x), ret);
          CHECK(ret == want, "_fsm_prepend_state(%s) returned %d, expected %d", stn(x), ret, want);
          if (!want) m.push_front(x);
        }
        break;
      case 4: {
          f.verdict = s.b(25) ? (s.b() ? -1 : 1) : 0;
          f.lock_ms = s.b(15) ? 1 + (s.b(15) ? (uint32_t) s.word(20) : s.u(50)) : 0;
          f.replan = (f.verdict && s.b(60)) ? (int) s.u(3) : -1;
          f.replan_to = x;
          f.asked.clear();
          const bool had = !m.empty();
          const St next = had ? m.front() : St::A;
          const int ret = f._fsm_advance();
          note("advance() [verdict %d, replan %d, lock %u] = %d", f.verdict, f.replan, f.lock_ms, ret);
          CHECK(f.asked.size() == (had ? 1u : 0u), "_fsm_advance() attempted %u entries with %u states planned", (unsigned) f.asked.size(), (unsigned) m.size());
          if (had) CHECK(f.asked[0] == next, "_fsm_advance() attempted %s, the next planned state is %s", stn(f.asked[0]), stn(next));
          if (had && f.lock_ms) {  lock_mark = now_ms();  lock_len = f.lock_ms;  }
          const bool moved = had && f.verdict == 0;
          CHECK(ret == (moved ? 0 : -1), "_fsm_advance() returned %d", ret);
          if (moved) {
            prior = cur;  cur = next;  m.pop_front();  advances++;
            if (slow) {
              const uint32_t rem = remaining();
              lock_mark = now_ms();  lock_len = std::max(slow, rem);
            }
          }
          else if (had && f.replan >= 0) {
            replans++;
            const bool v = ok_code(x);
            if (f.replan == 1) {  if (v) {  m.clear();  m.push_back(x);  }  }
            else if (v && m.size() < CAP) {  if (f.replan == 0) m.push_front(x); else m.push_back(x);  }
          }
          f.verdict = 0;  f.lock_ms = 0;  f.replan = -1;
        }
        break;
      case 5:
        note("reset(%s)", stn(x));
        f._fsm_reset(x);
        prior = cur;  cur = x;  m.clear();
        lock_mark = now_ms();
        break;
      case 6:
        note("mark_current(%s)", stn(x));
        f._fsm_mark_current_state(x);
        prior = cur;  cur = x;
        break;
      case 7: {
          const uint32_t ms = s.b(8) ? (uint32_t) s.word(20) : s.u(80);
          note("time += %u ms", ms);
          sim_micros += (uint64_t) ms * 1000;
        }
        break;
      default:
        if (s.b()) {
          const uint32_t ms = s.b(15) ? (uint32_t) s.word(20) : s.u(40);
          note("lockout(%u)", ms);
          f._fsm_lockout(ms);
          lock_mark = now_ms();  lock_len = ms;
        }
        else if (s.b()) {
          slow = s.b(30) ? 0 : s.b(10) ? (uint32_t) s.word(20) : s.u(40);
          note("slowdown(%u)", slow);
          f._fsm_slowdown(slow);
        }
        else {
          slow = (s.b(10) && lock_mark) ? (uint32_t) s.word(20) : s.u(40);    // A timer that was never marked is as old as the clock.
          StringBuilder args, out;
          args.concatf("slowdown %u", slow);
          args.split(" ");
          note("console: slowdown %u", slow);
          f.fsm_console_handler(&out, &args);
          lock_len = slow;
        }
        break;
    }
    CHECK(f.currentState() == cur && f.priorState() == prior, "current/prior are %s/%s, expected %s/%s", stn(f.currentState()), stn(f.priorState()), stn(cur), stn(prior));
    CHECK(f._fsm_is_stable() == m.empty(), "_fsm_is_stable() with %u states planned", (unsigned) m.size());
    for (int i = 0; i < 6; i++) {
      bool has = false;
      for (auto q : m) has |= (q == CODES[i]);
      CHECK(f._fsm_state_planned(CODES[i]) == has, "_fsm_state_planned(%s) is %d", stn(CODES[i]), !has);
      CHECK(f._fsm_is_next_pos(CODES[i]) == (!m.empty() && m.front() == CODES[i]), "_fsm_is_next_pos(%s)", stn(CODES[i]));
    }
    if (!m.empty()) CHECK(f._fsm_pos_next() == m.front(), "_fsm_pos_next()");
    CHECK(f._fsm_slowdown() == slow, "_fsm_slowdown()");
    CHECK(f._fsm_lockout() == remaining(), "the lockout has %u ms left, expected %u", f._fsm_lockout(), remaining());
    CHECK(f._fsm_is_waiting() == (remaining() > 0), "_fsm_is_waiting() with %u ms left", remaining());
  }
  /* Drain: the machine visits exactly the planned states, in order. */
  while (!m.empty()) {
    CHECK(0 == f._fsm_advance(), "_fsm_advance() failed with %u states planned", (unsigned) m.size());
    CHECK(f.currentState() == m.front() && f.priorState() == cur, "the route was not followed");
    cur = m.front();
    m.pop_front();
  }
  CHECK(f._fsm_is_stable() && f._fsm_advance() == -1, "the machine moved past the end of its route");
  if (advances >= 2 && n > 6) nontrivial();
  if (replans) label("re-planned on a refused entry");
  if (rejected_routes) label("rejected route");
  if (trunc) label("truncated route");
}

/* --------------------------------------------------------------------------- E03 */
enum class Ev : int {  };
TARGET(E03, enum_list, 20000, 300000) {
  const unsigned N = 1 + s.size(9);
  struct D {  int v; uint8_t fl; uint8_t ctx; std::string name;  };
  std::vector<D> ds;
  static const char* NAMES[] = {"alpha", "Beta", "GAMMA", "d", "alphabet", "beta2", "", "INVALID", "x_y", "Zed"};
  std::vector<int> perm = {0,1,2,3,4,5,6,7,8,9};
  const bool dup = s.b(20);
  for (unsigned i = 0; i < N; i++) {
    const unsigned j = i + s.u((unsigned) perm.size() - i);
    std::swap(perm[i], perm[j]);
    D d;
    d.v = dup ? (int) s.u(6) : (int) (i * 3 + s.u(3)) - 4;
    d.fl = (uint8_t) s.pick<int>({0, 0, 0, 1, 2, 3});
    d.ctx = (uint8_t) s.u(256);
    d.name = NAMES[perm[i]];
    ds.push_back(d);
  }
  std::vector<EnumDef<Ev>> defs;
  defs.reserve(N);
  for (auto& d : ds) defs.push_back(EnumDef<Ev>((Ev) d.v, d.name.c_str(), d.fl, d.ctx));
  const EnumDefList<Ev> L(&defs[0], N, "Ev");
  if (tracing()) for (auto& d : ds) note("{%d, \"%s\", flags %u, ctx %u}", d.v, d.name.c_str(), d.fl, d.ctx);
  for (int v = -6; v < 34; v++) {
    int at = -1;
    for (unsigned i = 0; i < N && at < 0; i++) if (ds[i].v == v) at = (int) i;
    CHECK(L.enumValid((Ev) v) == (at >= 0 && !(ds[at].fl & 2)), "enumValid(%d)", v);
    CHECK(!strcmp(L.enumStr((Ev) v), at >= 0 ? ds[at].name.c_str() : "<NO ENUM>"), "enumStr(%d) is \"%s\"", v, L.enumStr((Ev) v));
    CHECK(L.enumExtra((Ev) v) == (at >= 0 ? ds[at].ctx : 0), "enumExtra(%d)", v);
    CHECK(L.enumDef((Ev) v) == (at >= 0 ? &defs[at] : nullptr), "enumDef(%d)", v);
  }
  unsigned valid = 0;
  std::vector<std::string> keys;
  for (auto& d : ds) if (!(d.fl & 2)) {  valid++;  if (d.name.size()) keys.push_back(d.name);  }
  CHECK(L.exportCount() == valid, "exportCount() is %u, %u are valid", L.exportCount(), valid);
  StringBuilder out;
  L.exportKeys(&out);
  CHECK(out.count() == (int) keys.size(), "exportKeys() gave %d keys, expected %u", out.count(), (unsigned) keys.size());
  for (unsigned i = 0; i < keys.size(); i++) CHECK(keys[i] == (const char*) out.position((int) i), "exported key %u is %s", i, out.position((int) i));
  /* Lookup by name. */
  bool hit_seen = false, miss_seen = false;
  for (int t = 0; t < 6; t++) {
    std::string q;
    if (s.b(60)) {
      q = ds[s.u(N)].name;
      for (auto& c : q) if (s.b(40)) c = (char) (isupper(c) ? tolower(c) : toupper(c));
      if (s.b(20)) q += "z";
    }
    else q = s.b() ? NAMES[s.u(10)] : s.text(s.u(6), "alphbetGMd_xy");
    int at = -1, ca = -1;
    for (unsigned i = 0; i < N; i++) {
      if (at < 0 && !strcasecmp(q.c_str(), ds[i].name.c_str())) at = (int) i;
      if (ds[i].fl & 1) ca = (int) i;
    }
    int8_t found = 7;
    const Ev got = L.getEnumByStr(q.c_str(), &found);
    note("getEnumByStr(\"%s\") = %d found %d", q.c_str(), (int) got, found);
    CHECK(found == (at >= 0), "getEnumByStr(\"%s\") found=%d", q.c_str(), found);
    const int want = at >= 0 ? ds[at].v : (ca >= 0 ? ds[ca].v : ds[N - 1].v);
    CHECK((int) got == want, "getEnumByStr(\"%s\") is %d, expected %d", q.c_str(), (int) got, want);
    CHECK(L.getEnumByStr(q.c_str()) == got, "getEnumByStr() without the found argument differs");
    const EnumDef<Ev>* wd = at >= 0 ? &defs[at] : (ca >= 0 ? &defs[ca] : nullptr);
    CHECK(L.getEnumDefByStr(q.c_str()) == wd, "getEnumDefByStr(\"%s\")", q.c_str());
    if (at >= 0) {
      hit_seen = true;
      /* Name to value and back. */
      if (!dup) CHECK(!strcasecmp(L.enumStr(got), q.c_str()), "round trip of \"%s\"", q.c_str());
    }
    else miss_seen = true;
  }
  if (hit_seen && miss_seen && N > 2) nontrivial();
}

/* A list with more definitions than a byte can count. */
TARGET_F(E03, enum_large, 100, 2000, F_NOGUIDE) {
  const unsigned N = 1 + s.large(700);
  const int STEP = s.pick<int>({1, 3, 1000, -7, 100000});
  const unsigned INV = 2 + s.u(40);
  std::vector<std::string> names;
  for (unsigned i = 0; i < N; i++) names.push_back("N" + std::to_string(i));
  std::vector<EnumDef<Ev>> defs;
  defs.reserve(N);
  auto inv = [&](unsigned i) {  return (i % INV) == 1;  };
  for (unsigned i = 0; i < N; i++) defs.push_back(EnumDef<Ev>((Ev) ((int) i * STEP), names[i].c_str(), inv(i) ? 2 : 0, (uint8_t) (i * 31)));
  const EnumDefList<Ev> L(&defs[0], N, "Ev");
  note("%u definitions, %d apart", N, STEP);
  unsigned valid = 0;
  for (unsigned i = 0; i < N; i++) valid += !inv(i);
  CHECK(L.exportCount() == valid, "exportCount() is %u, %u are valid", L.exportCount(), valid);
  StringBuilder out;
  L.exportKeys(&out);
  CHECK(out.count() == (int) valid, "exportKeys() gave %d keys, expected %u", out.count(), valid);
  for (unsigned q = 0; q < 12; q++) {
    const unsigned i = s.b(40) ? N - 1 - s.size(N - 1) : s.u(N);
    const Ev v = (Ev) ((int) i * STEP);
    CHECK(L.enumValid(v) == !inv(i) && names[i] == L.enumStr(v) && L.enumExtra(v) == (uint8_t) (i * 31) && L.enumDef(v) == &defs[i], "definition %u of %u can't be found by its value", i, N);
    int8_t found = 7;
    const Ev got = L.getEnumByStr(names[i].c_str(), &found);
    CHECK(found == 1 && got == v && L.getEnumDefByStr(names[i].c_str()) == &defs[i], "definition %u of %u can't be found by its name", i, N);
    const Ev absent = (Ev) ((int) (N + q) * STEP);
    CHECK(!L.enumValid(absent) && nullptr == L.enumDef(absent), "a value that isn't in a list of %u was found", N);
  }
  if (N > 255) {  nontrivial();  label("more than 255 definitions");  }
}

template <class F, class U> static void flags_case(Src& s, const char* nm) {
  const U r0 = (U) s.word(sizeof(U) * 8);
  F f(r0);
  U m = r0;
  unsigned n = 0;
  while (more(s, n, 30, 10)) {
    U k = s.b(60) ? (U) ((U) 1 << s.u(sizeof(U) * 8)) : (U) s.word(sizeof(U) * 8);
    switch (s.u(5)) {
      case 0: f.set(k);  m |= k;  note("set %llx", (unsigned long long) k);  break;
      case 1: f.clear(k);  m &= (U) ~k;  note("clear %llx", (unsigned long long) k);  break;
      case 2: f.flip(k);  m ^= k;  note("flip %llx", (unsigned long long) k);  break;
      case 3: f.set(k, true);  m |= k;  note("set %llx true", (unsigned long long) k);  break;
      default: f.set(k, false);  m &= (U) ~k;  note("set %llx false", (unsigned long long) k);  break;
    }
    CHECK(f.raw == m, "%s holds %llx, expected %llx", nm, (unsigned long long) f.raw, (unsigned long long) m);
    U q = (U) s.word(sizeof(U) * 8);
    if (s.b()) q &= m;
    CHECK(f.value(q) == ((m & q) != 0), "%s.value(%llx) of %llx", nm, (unsigned long long) q, (unsigned long long) m);
    CHECK(f.all_set(q) == ((m & q) == q), "%s.all_set(%llx) of %llx", nm, (unsigned long long) q, (unsigned long long) m);
  }
  if (n > 4) nontrivial();
}
TARGET(E03, flags, 8000, 100000) {
  switch (s.u(4)) {
    case 0: flags_case<FlagContainer8, uint8_t>(s, "FlagContainer8");  break;
    case 1: flags_case<FlagContainer16, uint16_t>(s, "FlagContainer16");  break;
    case 2: flags_case<FlagContainer32, uint32_t>(s, "FlagContainer32");  break;
    default: flags_case<FlagContainer64, uint64_t>(s, "FlagContainer64");  break;
  }
}
