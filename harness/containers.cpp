/*
* L01: LinkedList is a sequence.    L02: PriorityQueue is a stable priority queue.
* L03: RingBuffer is a bounded FIFO. L04: ElementPool hands out each element to one holder at a time.
*/
#include "pbt.h"
#include "LightLinkedList.h"
#include "PriorityQueue.h"
#include "RingBuffer.h"
#include "ElementPool.h"
#include <deque>
#include <set>
#include <map>
#include <algorithm>
using namespace pbt;

/* The lists hold pointers. A small set of distinct values makes duplicates common. */
static int VALS[8];

static std::string show_seq(const std::vector<int*>& m) {
  std::string r;
  for (auto p : m) r += p ? (char) ('a' + (p - VALS)) : '0';
  return r;
}

TARGET_F(L01, list_model, 30000, 500000, F_LEAK) {
  unsigned n = 0;
  bool removed_by_value = false;
  size_t mx = 0;
  {
  LinkedList<int*> l;
  std::vector<int*> m;
  while (more(s, n, 60, 20)) {
    const int V = (int) s.u(4);
    int* v = &VALS[V];
    switch (s.weighted({6, 3, 2, 2, 3, 1, 2})) {
      case 0: {
          const int r = l.insert(v);
          note("insert(%c) = %d", 'a' + V, r);
          CHECK(r == (int) m.size(), "insert() returned %d, the position is %u", r, (unsigned) m.size());
          m.push_back(v);
        }
        break;
      case 1: {
          const int r = l.insertAtHead(v);
          note("insertAtHead(%c) = %d", 'a' + V, r);
          CHECK(r == 0, "insertAtHead() returned %d", r);
          m.insert(m.begin(), v);
        }
        break;
      case 2: {
          int* r = l.remove();
          note("remove()");
          CHECK(r == (m.empty() ? nullptr : m[0]), "remove() returned the wrong element from %s", show_seq(m).c_str());
          if (!m.empty()) m.erase(m.begin());
        }
        break;
      case 3: {
          const int p = (int) s.u((unsigned) m.size() + 2);
          int* r = l.remove(p);
          note("remove(pos %d)", p);
          CHECK(r == (p < (int) m.size() ? m[p] : nullptr), "remove(position %d) returned the wrong element from %s", p, show_seq(m).c_str());
          if (p < (int) m.size()) m.erase(m.begin() + p);
        }
        break;
      case 4: {
          note("remove(value %c) from %s", 'a' + V, show_seq(m).c_str());
          const bool r = l.remove(v);
          const size_t before = m.size();
          m.erase(std::remove(m.begin(), m.end(), v), m.end());
          CHECK(r == (before != m.size()), "remove(value) returned %d", r);
          if (before - m.size() > 1) removed_by_value = true;
        }
        break;
      case 5: {
          note("clear()");
          const int r = l.clear();
          CHECK(r == (int) m.size(), "clear() of %u elements returned %d", (unsigned) m.size(), r);
          m.clear();
        }
        break;
      default:
        l.insert(nullptr);
        note("insert(null)");
        m.push_back(nullptr);
        break;
    }
    CHECK(l.size() == (int) m.size(), "size() = %d, expected %u (%s)", l.size(), (unsigned) m.size(), show_seq(m).c_str());
    CHECK(l.hasNext() == !m.empty(), "hasNext()");
    CHECK(l.get() == (m.empty() ? nullptr : m[0]), "get() is not the head of %s", show_seq(m).c_str());
    for (size_t k = 0; k < m.size() + 1; k++) CHECK(l.get((int) k) == (k < m.size() ? m[k] : nullptr), "get(%u) is wrong; expected %s", (unsigned) k, show_seq(m).c_str());
    for (int k = 0; k < 5; k++) CHECK(l.contains(&VALS[k]) == (m.end() != std::find(m.begin(), m.end(), &VALS[k])), "contains(%c) in %s", 'a' + k, show_seq(m).c_str());
    mx = std::max(mx, m.size());
  }
  }
  if (mx >= 3 && n >= 6) nontrivial();
  if (removed_by_value) label("one removal by value took several elements");
}

/* Long lists: positions and counts past the range of narrow integer types. */
static int MANY[1000];
TARGET_F(L01, list_large, 300, 6000, F_LEAK | F_NOGUIDE) {
  unsigned n = 0;
  size_t mx = 0;
  {
  LinkedList<int*> l;
  std::vector<int*> m;
  while (more(s, n, 14, 7)) {
    switch (s.weighted({5, 1, 2, 2, 2, 1})) {
      case 0: {
          const unsigned c = s.large(600), at = s.u(400);
          note("insert() of %u elements", c);
          for (unsigned k = 0; k < c && m.size() < 1500; k++) {
            int* v = &MANY[(at + k) % 1000];
            const int r = l.insert(v);
            CHECK(r == (int) m.size(), "insert() returned %d, the position is %u", r, (unsigned) m.size());
            m.push_back(v);
          }
        }
        break;
      case 1:
        l.insertAtHead(&MANY[999]);
        note("insertAtHead()");
        m.insert(m.begin(), &MANY[999]);
        break;
      case 2: {
          const int p = (int) s.u((unsigned) m.size() + 2);
          int* r = l.remove(p);
          note("remove(position %d) of %u", p, (unsigned) m.size());
          CHECK(r == (p < (int) m.size() ? m[p] : nullptr), "remove(position %d) of %u returned the wrong element", p, (unsigned) m.size());
          if (p < (int) m.size()) m.erase(m.begin() + p);
        }
        break;
      case 3: {
          int* v = &MANY[s.u(1000)];
          note("remove(value) of %u", (unsigned) m.size());
          const bool r = l.remove(v);
          const size_t before = m.size();
          m.erase(std::remove(m.begin(), m.end(), v), m.end());
          CHECK(r == (before != m.size()), "remove(value) returned %d", r);
        }
        break;
      case 4: {
          const unsigned c = s.large(600);
          note("remove() of %u", c);
          for (unsigned k = 0; k < c; k++) {
            int* r = l.remove();
            CHECK(r == (m.empty() ? nullptr : m[0]), "remove() of %u returned the wrong element", (unsigned) m.size());
            if (!m.empty()) m.erase(m.begin());
          }
        }
        break;
      default: {
          const int r = l.clear();
          note("clear() of %u", (unsigned) m.size());
          CHECK(r == (int) m.size(), "clear() of %u elements returned %d", (unsigned) m.size(), r);
          m.clear();
        }
        break;
    }
    mx = std::max(mx, m.size());
    CHECK(l.size() == (int) m.size(), "size() = %d, expected %u", l.size(), (unsigned) m.size());
    CHECK(l.hasNext() == !m.empty(), "hasNext()");
    for (size_t k = 0; k < m.size() + 1; k += 1 + (k % 5)) CHECK(l.get((int) k) == (k < m.size() ? m[k] : nullptr), "get(%u) of %u is wrong", (unsigned) k, (unsigned) m.size());
    for (int k = 0; k < 1000; k += 37) CHECK(l.contains(&MANY[k]) == (m.end() != std::find(m.begin(), m.end(), &MANY[k])), "contains() of a list of %u", (unsigned) m.size());
  }
  }
  if (mx > 256) {  nontrivial();  label("more than 256 elements");  }
}

/* --------------------------------------------------------------------------- L02 */
struct PE {  int* d;  int pri;  };
static std::string show_pq(const std::vector<PE>& m) {
  std::string r;
  for (auto& p : m) {  r += p.d ? (char) ('a' + (p.d - VALS)) : '0';  r += std::to_string(p.pri);  r += ' ';  }
  return r;
}
TARGET_F(L02, queue_model, 30000, 500000, F_LEAK) {
  unsigned n = 0;
  bool ties = false;
  size_t mx = 0;
  {
  PriorityQueue<int*> q;
  std::vector<PE> m;
  const bool dups = s.b(30);
  const int PMAX = 1 + (int) s.u(5);
  auto pos_for = [&](int pri) {  size_t k = 0;  while (k < m.size() && m[k].pri >= pri) k++;  return k;  };
  auto find = [&](int* d) {  for (size_t k = 0; k < m.size(); k++) if (m[k].d == d) return (int) k;  return -1;  };
  while (more(s, n, 60, 20)) {
    const int V = (int) s.u(dups ? 3 : 8);
    int* v = &VALS[V];
    const int pri = s.b(10) ? (int) s.sword(31) : (int) s.i(-1, PMAX);
    switch (s.weighted({6, 2, 4, 3, 2, 2, 2, 2, 3, 3, 1})) {
      case 0: {
          const size_t p = pos_for(pri);
          note("insert(%c, %d)", 'a' + V, pri);
          const int r = q.insert(v, pri);
          CHECK(r == (int) p, "insert(%c, %d) into %sreturned %d, the position is %u", 'a' + V, pri, show_pq(m).c_str(), r, (unsigned) p);
          ties |= (p > 0 && m[p - 1].pri == pri);
          m.insert(m.begin() + p, PE{v, pri});
        }
        break;
      case 1: {
          const size_t p = pos_for(0);
          note("insert(%c)", 'a' + V);
          const int r = q.insert(v);
          CHECK(r == (int) p, "insert(%c) into %sreturned %d, the position is %u", 'a' + V, show_pq(m).c_str(), r, (unsigned) p);
          m.insert(m.begin() + p, PE{v, 0});
        }
        break;
      case 2: {
          const bool one = s.b(25);
          const int P = one ? 0 : pri;
          const int at = find(v);
          const size_t p = pos_for(P);
          note("insertIfAbsent(%c, %d)", 'a' + V, P);
          const int r = one ? q.insertIfAbsent(v) : q.insertIfAbsent(v, P);
          CHECK(r == (at >= 0 ? -1 : (int) p), "insertIfAbsent(%c, %d) into %sreturned %d, expected %d", 'a' + V, P, show_pq(m).c_str(), r, (at >= 0 ? -1 : (int) p));
          if (at < 0) m.insert(m.begin() + p, PE{v, P});
        }
        break;
      case 3: {
          note("dequeue()");
          int* r = q.dequeue();
          CHECK(r == (m.empty() ? nullptr : m[0].d), "dequeue() from %sgave the wrong element", show_pq(m).c_str());
          if (!m.empty()) m.erase(m.begin());
        }
        break;
      case 4: {
          note("recycle()");
          int* r = q.recycle();
          CHECK(r == (m.empty() ? nullptr : m[0].d), "recycle() of %sgave the wrong element", show_pq(m).c_str());
          if (m.size() > 1) {  PE e = m[0];  m.erase(m.begin());  e.pri = m.back().pri;  m.push_back(e);  }
        }
        break;
      case 5: {
          const int p = (int) s.u((unsigned) m.size() + 2);
          note("remove(pos %d)", p);
          const bool r = q.remove(p);
          CHECK(r == (p < (int) m.size()), "remove(position %d) of %u returned %d", p, (unsigned) m.size(), r);
          if (p < (int) m.size()) m.erase(m.begin() + p);
        }
        break;
      case 6: {
          note("remove(value %c) from %s", 'a' + V, show_pq(m).c_str());
          const bool r = q.remove(v);
          const size_t before = m.size();
          m.erase(std::remove_if(m.begin(), m.end(), [&](const PE& e) {  return e.d == v;  }), m.end());
          CHECK(r == (before != m.size()), "remove(value) returned %d", r);
        }
        break;
      case 7: {
          const int P = (int) s.i(-1, PMAX);
          int* want = nullptr;
          for (auto& e : m) if (e.pri == P) {  want = e.d;  break;  }
          CHECK(q.getByPriority(P) == want, "getByPriority(%d) of %s", P, show_pq(m).c_str());
        }
        break;
      case 8: case 9: {
          // A change of priority: the queue stays sorted, and the other elements keep their relative order.
          const bool up = s.b();
          const int at = find(v);
          note("%screment(%c) in %s", up ? "in" : "de", 'a' + V, show_pq(m).c_str());
          if (at >= 0 && (m[at].pri > 2000000000 || m[at].pri < -2000000000)) break;
          const bool r = up ? q.incrementPriority(v) : q.decrementPriority(v);
          CHECK(r == (at >= 0), "%screment returned %d", up ? "in" : "de", r);
          if (at < 0) break;
          const int NP = m[at].pri + (up ? 1 : -1);
          CHECK(q.size() == (int) m.size(), "size() changed with a priority, from %u to %d", (unsigned) m.size(), q.size());
          std::vector<PE> got;
          for (int k = 0; k < q.size(); k++) got.push_back(PE{q.get(k), q.getPriority(k)});
          for (size_t k = 1; k < got.size(); k++) CHECK(got[k - 1].pri >= got[k].pri, "after the change of priority, the queue is out of order: %s", show_pq(got).c_str());
          std::vector<PE> rest = m;
          rest.erase(rest.begin() + at);
          // Some position of the changed element, within its class, must explain what we see.
          bool ok = false;
          for (size_t k = 0; k <= rest.size() && !ok; k++) {
            if (k < rest.size() && rest[k].pri > NP) continue;
            if (k > 0 && rest[k - 1].pri < NP) break;
            std::vector<PE> cand = rest;
            cand.insert(cand.begin() + k, PE{v, NP});
            bool eq = cand.size() == got.size();
            for (size_t j = 0; j < cand.size() && eq; j++) eq = (cand[j].d == got[j].d && cand[j].pri == got[j].pri);
            ok = eq;
          }
          CHECK(ok, "changing the priority of %c in %sto %d gave %s", 'a' + V, show_pq(m).c_str(), NP, show_pq(got).c_str());
          m = got;
          label("priority changed in place");
        }
        break;
      default: {
          note("clear()");
          const int r = q.clear();
          CHECK(r == (int) m.size(), "clear() of %u elements returned %d", (unsigned) m.size(), r);
          m.clear();
        }
        break;
    }
    CHECK(q.size() == (int) m.size(), "size() = %d, expected %u", q.size(), (unsigned) m.size());
    CHECK(q.hasNext() == !m.empty(), "hasNext()");
    CHECK(q.get() == (m.empty() ? nullptr : m[0].d), "get() is not the head of %s", show_pq(m).c_str());
    for (size_t k = 0; k < m.size(); k++) {
      CHECK(q.get((int) k) == m[k].d, "get(%u) is wrong; expected %s", (unsigned) k, show_pq(m).c_str());
      CHECK(q.getPriority((int) k) == m[k].pri, "getPriority(position %u) = %d, expected %s", (unsigned) k, q.getPriority((int) k), show_pq(m).c_str());
    }
    CHECK(nullptr == q.get((int) m.size()), "get() beyond the end");
    CHECK(-1 == q.getPriority((int) m.size()), "getPriority() beyond the end");
    for (int k = 0; k < 8; k++) {
      const int at = find(&VALS[k]);
      CHECK(q.contains(&VALS[k]) == (at >= 0), "contains(%c) in %s", 'a' + k, show_pq(m).c_str());
      CHECK(q.getPosition(&VALS[k]) == at, "getPosition(%c) = %d in %s", 'a' + k, q.getPosition(&VALS[k]), show_pq(m).c_str());
      CHECK(q.getPriority(&VALS[k]) == (at >= 0 ? m[at].pri : -1), "getPriority(%c) = %d in %s", 'a' + k, q.getPriority(&VALS[k]), show_pq(m).c_str());
    }
    mx = std::max(mx, m.size());
  }
  }
  if (mx >= 3 && ties) nontrivial();
}

/* Long queues, and priorities over the whole range. */
TARGET_F(L02, queue_large, 200, 4000, F_LEAK | F_NOGUIDE) {
  unsigned n = 0;
  size_t mx = 0;
  {
  PriorityQueue<int*> q;
  std::vector<PE> m;
  std::set<int*> in;
  auto pos_for = [&](int pri) {  size_t k = 0;  while (k < m.size() && m[k].pri >= pri) k++;  return k;  };
  const unsigned SPAN = s.pick<unsigned>({1, 3, 300, 70000});
  while (more(s, n, 10, 6)) {
    switch (s.weighted({6, 2, 2, 2, 1, 1})) {
      case 0: {
          const unsigned c = s.large(500);
          const uint64_t x = s.draw(0xFFFFFFFFULL);
          note("insert() of %u, priorities below %u", c, SPAN);
          for (unsigned k = 0; k < c && m.size() < 900; k++) {
            int* v = &MANY[(x + k) % 1000];
            if (in.count(v)) continue;
            const int pri = (int) (((x ^ (k * 2654435761ULL)) >> 7) % SPAN);
            const size_t p = pos_for(pri);
            const int r = ((k & 1) ? q.insert(v, pri) : q.insertIfAbsent(v, pri));
            CHECK(r == (int) p, "insert(%d) into %u returned %d, the position is %u", pri, (unsigned) m.size(), r, (unsigned) p);
            m.insert(m.begin() + p, PE{v, pri});
            in.insert(v);
          }
        }
        break;
      case 1: {
          const unsigned c = s.large(500);
          note("dequeue() of %u", c);
          for (unsigned k = 0; k < c; k++) {
            int* r = q.dequeue();
            CHECK(r == (m.empty() ? nullptr : m[0].d), "dequeue() from %u gave the wrong element", (unsigned) m.size());
            if (!m.empty()) {  in.erase(m[0].d);  m.erase(m.begin());  }
          }
        }
        break;
      case 2: {
          const int p = (int) s.u((unsigned) m.size() + 2);
          note("remove(position %d)", p);
          const bool r = q.remove(p);
          CHECK(r == (p < (int) m.size()), "remove(position %d) of %u returned %d", p, (unsigned) m.size(), r);
          if (p < (int) m.size()) {  in.erase(m[p].d);  m.erase(m.begin() + p);  }
        }
        break;
      case 3: {
          int* v = &MANY[s.u(1000)];
          const bool r = q.remove(v);
          note("remove(value)");
          CHECK(r == (0 != in.count(v)), "remove(value) returned %d", r);
          m.erase(std::remove_if(m.begin(), m.end(), [&](const PE& e) {  return e.d == v;  }), m.end());
          in.erase(v);
        }
        break;
      case 4: {
          int* r = q.recycle();
          note("recycle()");
          CHECK(r == (m.empty() ? nullptr : m[0].d), "recycle() gave the wrong element");
          if (m.size() > 1) {  PE e = m[0];  m.erase(m.begin());  e.pri = m.back().pri;  m.push_back(e);  }
        }
        break;
      default: {
          const int r = q.clear();
          note("clear()");
          CHECK(r == (int) m.size(), "clear() of %u elements returned %d", (unsigned) m.size(), r);
          m.clear();  in.clear();
        }
        break;
    }
    mx = std::max(mx, m.size());
    CHECK(q.size() == (int) m.size(), "size() = %d, expected %u", q.size(), (unsigned) m.size());
    for (size_t k = 0; k < m.size(); k += 1 + (k % 5)) {
      CHECK(q.get((int) k) == m[k].d, "get(%u) of %u is wrong", (unsigned) k, (unsigned) m.size());
      CHECK(q.getPriority((int) k) == m[k].pri, "getPriority(position %u) = %d, expected %d", (unsigned) k, q.getPriority((int) k), m[k].pri);
      CHECK(q.getPosition(m[k].d) == (int) k, "getPosition() of element %u = %d", (unsigned) k, q.getPosition(m[k].d));
      CHECK(q.getPriority(m[k].d) == m[k].pri, "getPriority() of element %u", (unsigned) k);
    }
    CHECK(nullptr == q.get((int) m.size()), "get() beyond the end");
    for (int k = 0; k < 1000; k += 37) CHECK(q.contains(&MANY[k]) == (0 != in.count(&MANY[k])), "contains()");
  }
  }
  if (mx > 256) {  nontrivial();  label("more than 256 elements");  }
}

/* --------------------------------------------------------------------------- L03 */
template <class T> static T ringval(Src& s) {  return (T) (s.b(40) ? s.u(4) : s.word(sizeof(T) * 8));  }

template <class T> static std::vector<T> ringvals(Src& s, unsigned len, bool big) {
  std::vector<T> b;
  if (big) {
    std::string f = s.filler(len * (unsigned) sizeof(T), nullptr);
    b.resize(len);
    if (len) memcpy(b.data(), f.data(), f.size());
  }
  else for (unsigned k = 0; k < len; k++) b.push_back(ringval<T>(s));
  return b;
}
template <class T> static void ring_case(Src& s, const bool big = false) {
  const unsigned CAP = big ? 1 + s.large(70000) : 1 + s.size(s.b(10) ? 300 : 20);
  auto amount = [&]() {  return (big && s.b(70)) ? s.large(CAP + 3) : s.size(CAP + 3);  };
  RingBuffer<T> r(CAP);
  std::deque<T> m;
  std::vector<T> mem(CAP, (T) 0);   // What each absolute slot holds.
  unsigned w = 0, rd = 0;
  unsigned n = 0;
  unsigned long pushed = 0;
  bool full = false;
  note("capacity %u, elements of %u bytes", CAP, (unsigned) sizeof(T));
  auto push = [&](T v) {  m.push_back(v);  mem[w] = v;  w = (w + 1) % CAP;  pushed++;  };
  auto pop = [&]() {  m.pop_front();  rd = (rd + 1) % CAP;  };
  while (more(s, n, 60, big ? 10 : 20)) {
    switch (s.weighted({5, (unsigned) (big ? 9 : 4), 3, 3, 2, 3, 1, 2, 2})) {
      case 0: {
          const T v = ringval<T>(s);
          const int ret = r.insert(v);
          note("insert(%llu) = %d", (unsigned long long) v, ret);
          CHECK(ret == (m.size() < CAP ? 0 : -1), "insert() with %u of %u used returned %d", (unsigned) m.size(), CAP, ret);
          if (m.size() < CAP) push(v);
        }
        break;
      case 1: {
          const unsigned len = amount();
          std::vector<T> b = ringvals<T>(s, len, big);
          const int ret = r.insert(b.empty() ? nullptr : b.data(), len);
          note("insert(%u elements) = %d", len, ret);
          const unsigned room = CAP - (unsigned) m.size();
          const int want = (0 == len || 0 == room) ? -1 : (int) std::min(len, room);
          CHECK(ret == want, "insert(%u elements) with room for %u returned %d", len, room, ret);
          for (int k = 0; k < want; k++) push(b[k]);
        }
        break;
      case 2: {
          const T g = r.get();
          note("get()");
          CHECK(g == (m.empty() ? (T) 0 : m.front()), "get() returned 0x%llx, expected 0x%llx", (unsigned long long) g, (unsigned long long) (m.empty() ? 0 : m.front()));
          if (!m.empty()) pop();
        }
        break;
      case 3: {
          const unsigned len = amount();
          std::vector<T> b(len + 2, (T) 0x5A);
          const bool take = s.b();
          const int ret = take ? r.get(b.data(), len) : r.peek(b.data(), len);
          note("%s(%u elements) = %d", take ? "get" : "peek", len, ret);
          const int want = (0 == len) ? -1 : (int) std::min<size_t>(len, m.size());
          CHECK(ret == want, "%s(%u elements) of %u returned %d", take ? "get" : "peek", len, (unsigned) m.size(), ret);
          for (int k = 0; k < want; k++) CHECK(b[k] == m[k], "%s(%u elements): element %d is 0x%llx, expected 0x%llx", take ? "get" : "peek", len, k, (unsigned long long) b[k], (unsigned long long) m[k]);
          for (size_t k = (size_t) std::max(0, want); k < b.size(); k++) CHECK(b[k] == (T) 0x5A, "bulk read wrote past what it reported");
          if (take) for (int k = 0; k < want; k++) pop();
        }
        break;
      case 4: {
          const unsigned c = amount();
          const int ret = r.cull(c);
          note("cull(%u) = %d", c, ret);
          const int want = (0 == c) ? -1 : (int) std::min<size_t>(c, m.size());
          CHECK(ret == want, "cull(%u) of %u returned %d", c, (unsigned) m.size(), ret);
          for (int k = 0; k < want; k++) pop();
        }
        break;
      case 5: {
          const unsigned i = s.u(CAP + 2);
          const T want = (i < m.size()) ? m[i] : (T) 0;
          CHECK(r.peek(i) == want, "peek(%u) with %u stored = 0x%llx, expected 0x%llx", i, (unsigned) m.size(), (unsigned long long) r.peek(i), (unsigned long long) want);
          if (!m.empty()) {
            const T wa = (i < CAP) ? mem[i] : (T) 0;
            CHECK(r.peek(i, true) == wa, "peek(%u, absolute) = 0x%llx, expected 0x%llx", i, (unsigned long long) r.peek(i, true), (unsigned long long) wa);
          }
        }
        break;
      case 6:
        note("clear()");
        r.clear();
        m.clear();
        std::fill(mem.begin(), mem.end(), (T) 0);
        w = rd = 0;
        break;
      case 7: {
          const T v = s.b() && !m.empty() ? m[s.u((unsigned) m.size())] : ringval<T>(s);
          const bool in = (m.end() != std::find(m.begin(), m.end(), v));
          const int ret = r.insertIfAbsent(v);
          note("insertIfAbsent(%llu) = %d", (unsigned long long) v, ret);
          CHECK(ret == (in ? -2 : (m.size() < CAP ? 0 : -1)), "insertIfAbsent() of %s element returned %d", in ? "a present" : "an absent", ret);
          if (!in && m.size() < CAP) push(v);
        }
        break;
      default: {
          const T v = s.b() && !m.empty() ? m[s.u((unsigned) m.size())] : ringval<T>(s);
          CHECK(r.contains(v) == (m.end() != std::find(m.begin(), m.end(), v)), "contains(0x%llx)", (unsigned long long) v);
        }
        break;
    }
    full |= (m.size() == CAP);
    CHECK(r.count() == m.size() && r.vacancy() == CAP - m.size() && r.capacity() == CAP && r.isEmpty() == m.empty(), "count/vacancy/capacity/isEmpty = %u/%u/%u/%d, expected %u of %u", r.count(), r.vacancy(), r.capacity(), r.isEmpty(), (unsigned) m.size(), CAP);
    CHECK(r.peek() == (m.empty() ? (T) 0 : m.front()), "peek() is not the oldest element");
    CHECK(r.heap_use() == CAP * sizeof(T), "heap_use()");
  }
  if (CAP > 255 && big) label("more than 255 elements");
  if (pushed > CAP && full) {  nontrivial();  label("wrapped and filled");  }
}
TARGET_F(L03, ring_bytes, 20000, 300000, F_LEAK) {  ring_case<uint8_t>(s);  }
TARGET_F(L03, ring_words, 15000, 300000, F_LEAK) {  ring_case<uint32_t>(s);  }
TARGET_F(L03, ring_quads, 8000, 200000, F_LEAK) {  ring_case<uint64_t>(s);  }

TARGET_F(L03, ring_large, 300, 6000, F_LEAK | F_NOGUIDE) {
  switch (s.u(3)) {
    case 0:  ring_case<uint8_t>(s, true);   break;
    case 1:  ring_case<uint32_t>(s, true);  break;
    default: ring_case<uint64_t>(s, true);  break;
  }
}

/* --------------------------------------------------------------------------- L04 */
static int pool_ctor;
struct PoolObj {
  uint32_t tag;
  uint8_t  body[12];
  PoolObj() : tag(0xC0FFEE) {  memset(body, 0x11, sizeof(body));  pool_ctor++;  }
};
static void pool_case(Src& s, const bool big) {
  const unsigned COUNT = 1 + (big ? s.large(700) : s.size(12)), OD = (big ? s.large(700) : s.size(6));
  const bool own = s.b(30);
  std::vector<PoolObj> backing(own ? COUNT : 0);
  ElementPool<PoolObj> p(COUNT, OD, own ? backing.data() : nullptr);
  unsigned limit = OD;
  std::map<PoolObj*, uint32_t> out;
  unsigned n = 0, out_pool = 0, out_heap = 0, odraws = 0, freed = 0, low = COUNT;
  bool starved = false;
  note("pool of %u, overdraw limit %u%s", COUNT, OD, own ? ", given memory" : "");
  unsigned burst = 0;
  while (burst || more(s, n, 60, 24)) {
    if (burst) burst--;
    else if (big && s.b(30)) burst = s.large(900);
    switch (burst ? (1 + s.u(6)) / 6 : s.weighted({6, 4, 1})) {   // A burst mostly takes.
      case 0: {
          PoolObj* o = p.take();
          const bool pool_left = (out_pool < COUNT);
          const bool may = pool_left || (out_heap < limit);
          note("take() with %u+%u out", out_pool, out_heap);
          CHECK((nullptr != o) == may, "take() with %u of %u pool elements and %u of %u overdraws out returned %s", out_pool, COUNT, out_heap, limit, o ? "an element" : "null");
          if (nullptr != o) {
            CHECK(0 == out.count(o), "take() handed out an element that is already held");
            CHECK(p.inPool(o) == pool_left, "an element taken with %u of %u out is %sin the pool", out_pool, COUNT, p.inPool(o) ? "" : "not ");
            if (own && pool_left) CHECK(o >= backing.data() && o < backing.data() + COUNT, "a pool element is outside of the given memory");
            if (pool_left) out_pool++;  else {  out_heap++;  odraws++;  CHECK(o->tag == 0xC0FFEE, "an overdrawn element was not constructed");  }
            const uint32_t T = s.u(0xFFFFFF) + 1;
            o->tag = T;
            memset(o->body, (int) (T & 0xFF), sizeof(o->body));
            out[o] = T;
            low = std::min(low, COUNT - out_pool);
          }
          else starved = true;
          low = std::min(low, COUNT - out_pool);
        }
        break;
      case 1:
        if (!out.empty()) {
          auto it = out.begin();
          std::advance(it, s.u((unsigned) out.size()));
          PoolObj* o = it->first;
          for (uint8_t x : o->body) CHECK(x == (it->second & 0xFF) && o->tag == it->second, "a held element was overwritten");
          const bool in = p.inPool(o);
          out.erase(it);
          const int r = p.give(o);
          note("give(%s)", in ? "pool element" : "overdrawn element");
          CHECK(r == (in ? 1 : 0), "give() of %s element returned %d", in ? "a pool" : "an overdrawn", r);
          if (in) out_pool--;  else {  out_heap--;  freed++;  }
        }
        break;
      default:
        limit = big ? s.large(700) : s.size(8);
        p.overdrawLimit(limit);
        note("overdrawLimit(%u)", limit);
        CHECK(p.overdrawLimit() == limit, "overdrawLimit()");
        break;
    }
    CHECK(p.capacity() == COUNT, "capacity()");
    if (own) {
      CHECK(!p.inPool(backing.data() + COUNT) && !p.inPool(backing.data() - 1), "inPool() of the memory next to the pool");
      CHECK(p.inPool(backing.data()) && p.inPool(backing.data() + (COUNT - 1)), "inPool() of the pool's ends");
    }
    if (out_pool || out_heap || odraws || starved) {   // Allocated by now.
      CHECK(p.available() == COUNT - out_pool, "available() = %u with %u of %u out", p.available(), out_pool, COUNT);
    }
    CHECK(p.overdraws() == odraws && p.overdrawsFreed() == freed, "overdraws/freed = %u/%u, expected %u/%u", p.overdraws(), p.overdrawsFreed(), odraws, freed);
    CHECK(p.lowWaterMark() == low, "lowWaterMark() = %u, expected %u", p.lowWaterMark(), low);
  }
  for (auto& e : out) {
    for (uint8_t x : e.first->body) CHECK(x == (e.second & 0xFF), "a held element was overwritten");
    p.give(e.first);
  }
  if (odraws && out_pool == COUNT) label("overdrawn at the end");
  if (starved) label("refused at the limit");
  if (odraws > 255) label("more than 255 overdraws");
  if (odraws && (n > 6 || big)) nontrivial();
}
TARGET_F(L04, pool_model, 25000, 400000, F_LEAK) {  pool_case(s, false);  }
TARGET_F(L04, pool_large, 150, 3000, F_LEAK | F_NOGUIDE) {  pool_case(s, true);  }

/* A pool that is given an object from elsewhere destroys it, and can still overdraw. */
REGRESSION(L04, foreign_object) {
  ElementPool<uint32_t> p(2, 3);
  uint32_t* mine[5];
  CHECK(p.allocated(), "allocated()");
  CHECK(0 == p.give(new uint32_t(7)), "give() of an object from elsewhere");
  for (int i = 0; i < 5; i++) {
    mine[i] = p.take();
    CHECK(mine[i], "take() %d gave nothing, after an object from elsewhere was given", i);
  }
  CHECK(!p.take(), "take() exceeded the overdraw limit");
  for (uint32_t* x : mine) p.give(x);
  CHECK(p.available() == 2, "available()");
}
