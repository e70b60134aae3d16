/*
* The job queue of CryptoBurrito.
*
* The repository has no complete backend that could be built here, so only the queue and the random-number operation
*   are built: the file that has them, without the declarations of the backends' algorithms.
*/
#include "AbstractPlatform.h"
#include "PriorityQueue.h"
#define __CRYPTO_WRAPPER_H__  1
#define __HAS_CRYPT_WRAPPER   1
#include "CryptoBurrito/CryptoBurritoUtils.cpp"
#include "pbt.h"
#include <algorithm>
#include <memory>
#include <set>
#include <string>
#include <vector>
using namespace pbt;

namespace {
struct Job;
struct World;
static World* world = nullptr;

struct Planned;
struct Rng;
struct Job {
  int id = 0, owner = -1, prio = 0;
  bool rng = false, mine = false;
  CryptOp* op = nullptr;
  int steps = 0;                     // How many times it is advanced until it ends.
  CryptoFault fault = CryptoFault::NONE;
  CryptoFault expect = CryptoFault::NONE;   // What its callback is to see.
  int ret = 0, recycles = 0;
  bool nested = false;               // Its callback queues another.
  uint32_t len = 0;
  uint8_t* buf = nullptr;            // The user's own, unless freed by the op.
  bool alloc = false, free_buf = false;
  enum {IDLE, QUEUED, CURRENT, ENDED, BACK, GONE} where = IDLE;
  int done = 0;
  bool recalled = false, called = false, wiped = false, gone = false, fresh_alloc = false;
  uint32_t seed = 0;
  std::vector<uint8_t> want;
};
struct Owner : CryptOpCallback {
  int n = 0;
  int8_t op_callahead(CryptOp*) override {  return 0;  }
  int8_t op_callback(CryptOp*) override;
};
struct Planned : CryptOp {
  Job* j;
  Planned(CryptOpCallback* cb, CryptOpcode c, Job* x) : CryptOp(cb, c), j(x) {}
  ~Planned() {  wipe();  j->gone = true;  }
  CryptoFault _advance() override;
  void _print(StringBuilder* o) override {  o->concatf("job %d\n", j->id);  }
  void _wipe() override {  j->wiped = true;  }
};
struct Rng : CryptOpRNG {
  Job* j;
  Rng(CryptOpCallback* cb, Job* x) : CryptOpRNG(cb), j(x) {}
  ~Rng() {  wipe();  j->gone = true;  }
  void _wipe() override {  j->wiped = true;  }
};

struct World {
  Src& s;
  CryptoProcessor* p = nullptr;
  Owner own[3];
  std::vector<std::unique_ptr<Job>> all;
  std::vector<Job*> q, back;         // back: with their priorities.
  Job* current = nullptr;
  unsigned maxq = 0, total = 0, failed = 0, frees = 0, floods = 0, callbacks = 0, recycled = 0, prios = 0;
  bool purging = false, flushing = false, expect_adv = false;
  Job* expect_back = nullptr;
  explicit World(Src& x) : s(x) {  for (int i = 0; i < 3; i++) own[i].n = i;  world = this;  }
  ~World() {  world = nullptr;  }

  Job* find(CryptOp* op) {
    for (auto& j : all) if (j->op == op && !j->gone) return j.get();
    fail("a callback for an operation that isn't there");
    return nullptr;
  }
  void plan(Job* j) {
    j->steps = j->rng ? 1 : 1 + (int) s.size(4);
    j->fault = s.b(25) ? (CryptoFault) s.u(10) : CryptoFault::NONE;
    if (j->rng) j->fault = CryptoFault::NONE;
    j->expect = j->fault;
    j->ret = s.weighted({10, 4, 2, 1, 1});
    static const int RETS[] = {0, 1, -1, -2, 2};
    j->ret = RETS[j->ret];
    j->recycles = j->ret == 1 ? 1 + (int) s.size(3) : 0;
    j->nested = s.b(10);
    j->done = 0;
  }
  void buffer(Job* j) {
    j->alloc = j->free_buf = j->fresh_alloc = false;
    if (j->buf) {  free(j->buf);  j->buf = nullptr;  }
    j->len = s.b(70) ? 1 + s.size(40) : 0;
    if (j->rng) {
      const int how = (int) s.u(4);
      if (how == 0) {                // The operation is to make its own.
        j->alloc = true;
        j->op->allocResBuffer(true);
        j->op->setResBuffer(nullptr, j->len);
        if (0 == j->len) j->fault = j->expect = CryptoFault::MEM;
        return;
      }
      j->op->allocResBuffer(false);
      if (how == 1 && s.b(30)) {     // None at all.
        j->op->setResBuffer(nullptr, j->len);
        j->op->freeResBuffer(false);
        j->fault = j->expect = CryptoFault::MEM;
        return;
      }
      if (0 == j->len) j->len = 1;
    }
    if (j->len) {
      j->free_buf = s.b(30);
      uint8_t* b = (uint8_t*) malloc(j->len);
      memset(b, 0x5A, j->len);
      if (!j->free_buf) j->buf = b;
      j->op->setResBuffer(b, j->len);
    }
    else j->op->setResBuffer(nullptr, 0);
    j->op->freeResBuffer(j->free_buf);
  }
  Job* make() {
    all.emplace_back(new Job());
    Job* j = all.back().get();
    j->id = (int) all.size();
    j->owner = s.b(12) ? -1 : (int) s.u(3);
    j->rng = s.b(35);
    j->mine = s.b(40);
    CryptOpCallback* cb = j->owner < 0 ? nullptr : &own[j->owner];
    if (j->rng) j->op = new Rng(cb, j);
    else j->op = new Planned(cb, s.pick({CryptOpcode::DIGEST, CryptOpcode::SIGN, CryptOpcode::UNDEF, CryptOpcode::ENCRYPT}), j);
    CHECK(j->op->isIdle() && !j->op->isComplete() && !j->op->isQueued() && !j->op->hasFault() && j->op->reapJob(), "a new operation isn't idle");
    if (j->mine) j->op->reapJob(false);
    plan(j);
    buffer(j);
    return j;
  }
  bool room() {  return q.size() < maxq;  }
  static void put(std::vector<Job*>& v, Job* j) {
    size_t i = v.size();
    while (i > 0 && v[i - 1]->prio < j->prio) i--;
    v.insert(v.begin() + (long) i, j);
  }
  void to_back(Job* j, int prio) {
    j->prio = prio;
    j->where = Job::BACK;
    put(back, j);
  }
  /* What queue_job() is to do. */
  int modelled(Job* j, int prio) {
    if (!room()) {
      floods++;
      j->expect = CryptoFault::QUEUE_FLUSH;
      to_back(j, prio);
      return -2;
    }
    j->prio = prio;
    j->where = Job::QUEUED;
    j->done = 0;
    j->recalled = j->wiped = false;
    for (Job* o : q) if (o->prio != prio) prios++;
    put(q, j);
    return 0;
  }
  void queue(Job* j) {
    const int prio = s.b(60) ? 0 : (int) s.i(-3, 3);
    const int want = modelled(j, prio);
    const int8_t r = p->queue_job(j->op, prio);
    note("queue_job(%d%s%s, %d) -> %d", j->id, j->rng ? " rng" : "", j->mine ? " mine" : "", prio, r);
    CHECK(r == want, "queue_job() returned %d, of %d", r, want);
    CHECK(j->op->isQueued() == (want == 0), "the job's state is %s", CryptOp::stateString(j->op->state()));
  }
  /* The job has left the processor. */
  void reclaim(Job* j) {
    total++;
    if (j->expect != CryptoFault::NONE) failed++;
    if (!j->mine) {  frees++;  j->where = Job::GONE;  }
    else j->where = Job::IDLE;
    j->called = true;
  }
  void after() {
    for (auto& x : all) {
      Job* j = x.get();
      CHECK(j->gone == (j->where == Job::GONE), "job %d is %s", j->id, j->gone ? "gone, too soon" : "not freed");
      if (!j->gone && j->called) {
        CHECK(j->where != Job::IDLE || (j->op->isIdle() && j->wiped), "job %d came back, and is not idle", j->id);
        j->called = false;
        if ((j->free_buf || j->fresh_alloc) && j->where == Job::IDLE) {
          CHECK(nullptr == j->op->_result, "job %d has its freed buffer", j->id);
          j->free_buf = j->fresh_alloc = false;
        }
      }
    }
    CHECK((p->_current_job ? p->_current_job : nullptr) == (current ? current->op : nullptr), "the current job");
    CHECK(p->work_queue.size() == (int) q.size(), "%d jobs in the queue, of %zu", p->work_queue.size(), q.size());
    CHECK(p->roomInQueue() == room(), "roomInQueue()");
  }
  /* A callback came, or (without an owner) would have come. */
  void came(Job* j) {
    callbacks++;
    CHECK(j->op->isComplete(), "job %d came back in state %s", j->id, CryptOp::stateString(j->op->state()));
    CHECK(j->op->fault() == j->expect && j->op->hasFault() == (j->expect != CryptoFault::NONE), "job %d came back with fault %s, of %s", j->id, CryptOp::errorString(j->op->fault()), CryptOp::errorString(j->expect));
    if (j->rng && j->expect == CryptoFault::NONE) {
      CHECK(j->op->_result && j->op->_result_len == j->len, "the buffer of job %d", j->id);
      CHECK(0 == memcmp(j->op->_result, j->want.data(), j->len), "the buffer of job %d isn't filled with random numbers", j->id);
      label("random numbers");
    }
    if (j->rng && j->expect != CryptoFault::NONE && j->buf && j->want.empty()) for (uint32_t i = 0; i < j->len; i++) CHECK(j->buf[i] == 0x5A, "the buffer of a job that failed was changed");
  }
  void poll() {
    /* What is to happen. */
    bool advanced = false;
    if (!current && !q.empty()) {
      current = q.front();
      q.erase(q.begin());
      current->where = Job::CURRENT;
    }
    if (current) {
      if (current->where == Job::ENDED || current->recalled) {
        to_back(current, 0);
        current = nullptr;
      }
      else {
        advanced = true;
        Job* j = current;
        expect_adv = !j->rng;
        if (j->rng) {
          j->seed = (uint32_t) s.draw(0xFFFFFFFF);
          if (j->fault == CryptoFault::NONE) {
            platform_rng(j->seed);
            j->want.assign(j->len, 0);
            random_fill(j->want.data(), j->len);
            if (j->alloc) j->fresh_alloc = true;
          }
          platform_rng(j->seed);
        }
        j->done++;
        if (j->done >= j->steps) {
          j->where = Job::ENDED;
          if (j->fault != CryptoFault::NONE) {  to_back(j, 0);  current = nullptr;  }
        }
      }
    }
    expect_back = nullptr;
    if (!back.empty()) {
      expect_back = back.front();
      back.erase(back.begin());
      if (expect_back->owner < 0) {  Job* j = expect_back;  expect_back = nullptr;  reclaim(j);  }
    }
    const int8_t r = p->poll();
    note("poll() -> %d", r);
    CHECK(r == 0, "poll() returned %d", r);
    CHECK(!advanced || !expect_adv, "the current job wasn't advanced");
    CHECK(!expect_back, "job %d didn't come back", expect_back ? expect_back->id : 0);
    after();
  }
};

CryptoFault Planned::_advance() {
  World& w = *world;
  CHECK(w.expect_adv, "job %d was advanced, and not its turn", j->id);
  w.expect_adv = false;
  CHECK(_op_state == (j->done == 1 ? CryptOpState::INITIATE : CryptOpState::WAIT), "job %d was advanced in state %s", j->id, CryptOp::stateString(_op_state));
  CHECK(!hasFault(), "job %d began with a fault", j->id);
  if (j->done >= j->steps) {
    if (j->fault != CryptoFault::NONE) return j->fault;
    _op_state = CryptOpState::COMPLETE;
  }
  else _op_state = CryptOpState::WAIT;
  return CryptoFault::NONE;
}

int8_t Owner::op_callback(CryptOp* op) {
  World& w = *world;
  Job* j = w.find(op);
  CHECK(j->owner == n, "job %d came back to another", j->id);
  if (w.purging) {
    if (w.flushing) {
      CHECK(w.current == j, "job %d was purged, and isn't the current one", j->id);
      w.current = nullptr;
    }
    else {
      auto it = std::find(w.q.begin(), w.q.end(), j);
      CHECK(it != w.q.end(), "job %d was purged, and wasn't queued", j->id);
      w.q.erase(it);
    }
    j->expect = CryptoFault::QUEUE_FLUSH;
    w.came(j);
    w.reclaim(j);
    note("  job %d purged", j->id);
    return (int8_t) j->ret;
  }
  CHECK(w.expect_back == j, "job %d came back, and not its turn", j->id);
  w.expect_back = nullptr;
  w.came(j);
  CHECK(-1 == w.p->queue_job(op, 0), "queue_job() took a job that isn't idle");
  if (j->nested) {
    j->nested = false;
    w.queue(w.make());
  }
  int8_t ret = (int8_t) j->ret;
  if (ret == 1 && j->recycles-- <= 0) ret = 0;
  note("  job %d came back with %s -> %d", j->id, CryptOp::errorString(op->fault()), ret);
  if (ret == 1) {
    w.recycled++;
    j->expect = j->fault;
    w.modelled(j, 0);
  }
  else w.reclaim(j);
  return ret;
}
}  // namespace

TARGET_F(B04, crypto, 12000, 400000, F_LEAK) {
  World w(s);
  w.maxq = s.size(8);
  std::unique_ptr<CryptoProcessor> p(new CryptoProcessor((uint16_t) w.maxq));
  w.p = p.get();
  p->verbosity((uint8_t) s.u(8));
  CHECK(!p->initialized(), "initialized() before init()");
  CHECK(0 == p->init() && p->initialized(), "init()");
  unsigned step = 0;
  auto purge_unowned = [&](Job* j) {   // No callback tells of it.
    j->expect = CryptoFault::QUEUE_FLUSH;
    w.reclaim(j);
  };
  while (more(s, step, 120, 40)) {
    switch (s.weighted({12, 4, 26, 1, 1, 2, 2, 1})) {
      case 0:  w.queue(w.make());  break;
      case 1: {                        // One that came back is used again.
          std::vector<Job*> idle;
          for (auto& j : w.all) if (j->where == Job::IDLE && j->mine) idle.push_back(j.get());
          if (idle.empty()) break;
          Job* j = idle[s.u((uint32_t) idle.size())];
          j->want.clear();
          w.plan(j);
          w.buffer(j);
          w.queue(j);
          label("used again");
        } break;
      case 2:  w.poll();  break;
      case 3: {
          Job* j = w.current;
          if (j && j->owner < 0) {  w.current = nullptr;  purge_unowned(j);  }
          w.purging = w.flushing = true;
          const int8_t r = p->purge_current_job();
          note("purge_current_job() -> %d", r);
          w.purging = w.flushing = false;
          CHECK(r == (j ? 1 : 0) && !w.current, "purge_current_job() returned %d", r);
          w.after();
        } break;
      case 4: {
          const size_t n = w.q.size();
          for (size_t i = 0; i < w.q.size();) {
            Job* j = w.q[i];
            if (j->owner < 0) {  w.q.erase(w.q.begin() + (long) i);  purge_unowned(j);  }
            else i++;
          }
          w.purging = true;
          const int8_t r = p->purge_queued_work();
          note("purge_queued_work() -> %d", r);
          w.purging = false;
          CHECK(r == (int8_t) n && w.q.empty(), "purge_queued_work() purged %d, of %zu", r, n);
          w.after();
        } break;
      case 5: {
          const int d = (int) s.u(3);
          unsigned n = 0, left = 0;
          for (Job* j : w.q) if (j->owner == d) n++;
          w.purging = true;
          const int8_t r = p->purge_queued_work_by_dev(&w.own[d]);
          w.purging = false;
          note("purge_queued_work_by_dev(%d) -> %d", d, r);
          for (Job* j : w.q) if (j->owner == d) left++;
          CHECK(r == (int8_t) n && 0 == left, "purge_queued_work_by_dev(%d) purged %d, of %u", d, r, n);
          if (n > 1) label("purged by owner");
          w.after();
        } break;
      case 6: {                        // The user recalls a job.
          std::vector<Job*> c = w.q;
          if (w.current && w.current->where == Job::CURRENT) c.push_back(w.current);
          if (c.empty()) break;
          Job* j = c[s.u((uint32_t) c.size())];
          j->op->abort(CryptoFault::RECALLED);
          note("job %d is recalled", j->id);
          j->expect = CryptoFault::RECALLED;
          j->recalled = true;          // It is taken in its turn, and comes back at once.
        } break;
      default:
        if (s.b(30)) {
          StringBuilder o;
          p->printQueues(&o, (uint8_t) s.u(4));
          p->printDebug(&o);
          for (auto& j : w.all) if (!j->gone && s.b(20)) j->op->printOp(&o);
          char want[64];
          snprintf(want, sizeof(want), "%u/%u\n", w.failed, w.total);
          const std::string t((char*) o.string(), (size_t) o.length());
          CHECK(t.find(want) != std::string::npos, "printDebug() doesn't count %s: %s", want, t.c_str());
          snprintf(want, sizeof(want), "floods           %u\n", w.floods);
          CHECK(t.find(want) != std::string::npos, "printDebug() doesn't count %s: %s", want, t.c_str());
          snprintf(want, sizeof(want), "frees            %u\n", w.frees);
          CHECK(t.find(want) != std::string::npos, "printDebug() doesn't count %s: %s", want, t.c_str());
        }
        break;
    }
  }
  /* Everything ends. */
  for (auto& j : w.all) {  j->ret = 0;  j->recycles = 0;  j->nested = false;  }
  if (s.b(30)) {
    if (w.current && w.current->owner < 0) {  Job* j = w.current;  w.current = nullptr;  purge_unowned(j);  }
    for (size_t i = 0; i < w.q.size();) {
      Job* j = w.q[i];
      if (j->owner < 0) {  w.q.erase(w.q.begin() + (long) i);  purge_unowned(j);  }
      else i++;
    }
    /* The current one comes first. */
    w.purging = true;
    if (w.current) w.q.push_back(w.current);
    w.current = nullptr;
    CHECK(0 == p->deinit() && !p->initialized(), "deinit()");
    w.purging = false;
    CHECK(w.q.empty(), "deinit() left %zu jobs", w.q.size());
    w.after();
  }
  unsigned rounds = 0;
  while (w.current || !w.q.empty() || !w.back.empty()) {
    CHECK(rounds++ < 2000, "the jobs don't end");
    w.poll();
  }
  CHECK(p->_total_jobs == w.total && p->_failed_jobs == w.failed, "%u of %u jobs failed, of %u and %u", p->_failed_jobs, p->_total_jobs, w.failed, w.total);
  for (auto& j : w.all) {
    if (!j->gone) {
      if (j->rng) delete (Rng*) j->op;
      else delete (Planned*) j->op;
    }
    free(j->buf);
    j->buf = nullptr;
  }
  if (w.recycled) label("queued again");
  if (w.floods) label("refused");
  if (w.callbacks > 5 && w.prios) nontrivial();
}
