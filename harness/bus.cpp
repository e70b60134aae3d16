/*
* B01: a UART's bytes pass in order, exactly once.
* B02: I2C jobs run in order, and each comes back to its owner.
* B03: SPI jobs likewise, by priority, with chip selects.
*
* The hardware (which ports of the library supply) is simulated here.
*/
#include "pbt.h"
#include "CppPotpourri.h"
#include "AbstractPlatform.h"
#include "StringBuilder.h"
#include "BusQueue/BusQueue.h"
#include "BusQueue/I2CAdapter.h"
#include "BusQueue/SPIAdapter.h"
#include "Pipes/BufferAccepter/BufferAccepter.h"
#include "BusQueue/UARTAdapter.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <deque>
#include <map>
#include <set>
#include <memory>
using namespace pbt;

static std::string flat(StringBuilder* b) {
  const int n = b->length();
  if (n <= 0) return std::string();
  std::string r((size_t) n, '\0');
  b->copyToBuffer((uint8_t*) &r[0], (uint32_t) n);
  return r;
}
static void frag(Src& s, StringBuilder* b, const std::string& m) {
  size_t at = 0;
  for (unsigned pieces = 0; at < m.size(); pieces++) {
    size_t n = (pieces > 200) ? m.size() : 1 + s.size((uint32_t) (m.size() - at));
    if (n > m.size() - at) n = m.size() - at;
    StringBuilder part((uint8_t*) m.data() + at, (uint32_t) n);
    b->concatHandoff(&part);
    at += n;
  }
}

/* ---- B01 ---- */

struct Uart : public UARTAdapter {
  bool tx = true, rx = true;
  int8_t init_ret = 0, deinit_ret = 0, poll_ret = 0;
  unsigned inits = 0, deinits = 0;
  Uart(uint16_t t, uint16_t r) : UARTAdapter(0, 255, 255, 255, 255, t, r) {}
  void irq_handler() {}
  int8_t _pf_init() {
    inits++;
    if (0 == init_ret) {
      _adapter_set_flag(UART_FLAG_HAS_TX, tx);
      _adapter_set_flag(UART_FLAG_HAS_RX, rx);
      _adapter_set_flag(UART_FLAG_UART_READY);
    }
    return init_ret;
  }
  int8_t _pf_poll() {  return poll_ret;  }
  int8_t _pf_deinit() {  deinits++;  return deinit_ret;  }
  /* What the interrupt handlers of a port do. */
  int wire_out() {  return _tx_buffer.count() ? (int) _tx_buffer.get() : -1;  }
  bool wire_in(uint8_t c) {  return 0 == _rx_buffer.insert(c);  }
  int push() {  return _handle_rx_push();  }
};

struct Sink : public BufferAccepter {
  Src* s;
  int32_t room = 0;
  std::string got, offered;
  unsigned pushes = 0;
  int8_t pushBuffer(StringBuilder* b) {
    pushes++;
    offered = flat(b);
    const uint32_t n = (uint32_t) offered.size();
    uint32_t take = s->b(60) ? n : s->u(n + 1);
    if (room >= 0 && take > (uint32_t) room) take = (uint32_t) room;
    got += offered.substr(0, take);
    if (take == n) b->clear();
    else if (take) b->cull((int) take);
    if (room >= 0) room -= (int32_t) take;
    return (take == 0) ? -1 : (take < n) ? 0 : 1;
  }
  int32_t bufferAvailable() {  return room;  }
};

static void b01_uart(Src& s) {
  const uint32_t TC = std::min<uint32_t>(65535, 1 + s.amount(60)), RC = std::min<uint32_t>(65535, 1 + s.amount(60));
  std::unique_ptr<Uart> u(new Uart((uint16_t) TC, (uint16_t) RC));
  u->tx = s.b(92);
  u->rx = s.b(92);
  Sink sink;
  sink.s = &s;
  bool live = false, cb = false;
  uint32_t rate = 0;
  std::deque<uint8_t> t, r;
  uint8_t seq = 0;
  unsigned step = 0, moved = 0;
  auto data = [&](uint32_t n) {  if (n > 300) return s.filler(n, nullptr);  std::string d;  for (uint32_t k = 0; k < n; k++) d += (char) (s.b(70) ? ++seq : s.u(256));  return d;  };
  while (more(s, step, 120, 40)) {
    char what[120];
    const bool can = live && u->tx;
    switch (s.weighted({live ? 1u : 20u, 6, 4, 3, 2, 8, 8, 5, 4, 5, 1})) {
      case 0: {
          UARTOpts o;
          memset(&o, 0, sizeof(o));
          o.bitrate = (uint32_t) s.word(32);
          o.bit_per_word = 8;
          o.start_bits = 1;
          u->init_ret = s.b(15) ? -1 : 0;
          const int8_t ret = u->init(&o);
          snprintf(what, sizeof(what), "init() -> %d", ret);
          CHECK(ret == u->init_ret, "%s", what);
          CHECK(0 == memcmp(u->uartOpts(), &o, sizeof(o)), "the options");
          rate = o.bitrate;
          live = (0 == ret);
        } break;
      case 1: {
          StringBuilder b;
          const std::string d = data(s.amount(s.b() ? 80 : 12));
          frag(s, &b, d);
          const size_t room = TC - t.size(), take = can ? std::min(room, d.size()) : 0;
          const int8_t ret = u->pushBuffer(&b);
          snprintf(what, sizeof(what), "pushBuffer(%zu) -> %d", d.size(), ret);
          CHECK(ret == (take == 0 ? -1 : take < d.size() ? 0 : 1), "%s with room for %zu", what, room);
          CHECK(flat(&b) == d.substr(take), "%s with room for %zu left %s of %s", what, room, quote(flat(&b)).c_str(), quote(d).c_str());
          t.insert(t.end(), d.begin(), d.begin() + take);
        } break;
      case 2: {
          const std::string d = data(s.amount(80));
          const size_t room = TC - t.size(), take = can ? std::min(room, d.size()) : 0;
          std::unique_ptr<uint8_t[]> heap(new uint8_t[d.size()]);
          memcpy(heap.get(), d.data(), d.size());
          const uint32_t ret = u->write(heap.get(), (uint32_t) d.size());
          snprintf(what, sizeof(what), "write(%zu bytes) -> %u", d.size(), ret);
          CHECK(ret == take, "%s with room for %zu", what, room);
          t.insert(t.end(), d.begin(), d.begin() + take);
        } break;
      case 3: {
          StringBuilder b;
          const std::string d = data(s.amount(30));
          frag(s, &b, d);
          const size_t room = TC - t.size(), take = can ? std::min(room, d.size()) : 0;
          const uint32_t ret = u->write(&b);
          snprintf(what, sizeof(what), "write(%zu) -> %u", d.size(), ret);
          CHECK(ret == take && flat(&b) == d.substr(take), "%s with room for %zu left %s", what, room, quote(flat(&b)).c_str());
          t.insert(t.end(), d.begin(), d.begin() + take);
        } break;
      case 4: {
          const char c = (char) s.u(256);
          const bool ok = can && t.size() < TC;
          const uint32_t ret = u->write(c);
          snprintf(what, sizeof(what), "write('%02x') -> %u", (uint8_t) c, ret);
          CHECK(ret == (ok ? 1u : 0u), "%s", what);
          if (ok) t.push_back((uint8_t) c);
        } break;
      case 5: {
          uint32_t n = s.amount(40);
          snprintf(what, sizeof(what), "%u bytes go out", n);
          while (n-- && live) {
            const int c = u->wire_out();
            if (t.empty()) {  CHECK(c == -1, "a byte went out that wasn't written");  break;  }
            CHECK(c == (int) t.front(), "the byte %d went out, of %d", c, t.front());
            t.pop_front();
            moved++;
          }
        } break;
      case 6: {
          const std::string d = data(s.amount(40));
          snprintf(what, sizeof(what), "%zu bytes come in", d.size());
          if (live && u->rx) for (char c : d) {
            const bool ok = u->wire_in((uint8_t) c);
            CHECK(ok == (r.size() < RC), "the ring's room");
            if (ok) r.push_back((uint8_t) c);
          }
        } break;
      case 7: {
          const uint32_t n = s.amount(70);
          std::unique_ptr<uint8_t[]> heap(new uint8_t[n]);
          const uint32_t ret = u->read(heap.get(), n);
          snprintf(what, sizeof(what), "read(%u) -> %u", n, ret);
          CHECK(ret == std::min<size_t>(n, r.size()), "%s of %zu", what, r.size());
          for (uint32_t k = 0; k < ret; k++) {  CHECK(heap[k] == r.front(), "%s: byte %u is %02x, of %02x", what, k, heap[k], r.front());  r.pop_front();  moved++;  }
        } break;
      case 8: {
          StringBuilder b("x");
          const uint32_t ret = u->read(&b);
          snprintf(what, sizeof(what), "read(StringBuilder) -> %u", ret);
          CHECK(ret == r.size() && flat(&b) == "x" + std::string(r.begin(), r.end()), "%s of %zu gave %s", what, r.size(), quote(flat(&b)).c_str());
          moved += ret;
          r.clear();
        } break;
      case 9: {
          if (!cb && s.b(80)) {  u->readCallback(&sink);  cb = true;  }
          sink.room = s.b(15) ? -1 : (int32_t) s.amount(70);
          const uint32_t offer = (sink.room < 0) ? (uint32_t) r.size() : std::min<uint32_t>((uint32_t) r.size(), (uint32_t) sink.room);
          const unsigned was = sink.pushes;
          const std::string had = sink.got;
          const int32_t room = sink.room;
          const int ret = u->push();
          snprintf(what, sizeof(what), "pushed on: %d (room for %d)", ret, room);
          CHECK(sink.pushes - was == ((cb && offer) ? 1u : 0u), "%s: %u pushes of %zu bytes", what, sink.pushes - was, r.size());
          if (sink.pushes != was) CHECK(sink.offered == std::string(r.begin(), r.begin() + offer), "%s offered %s", what, quote(sink.offered).c_str());
          const std::string nu = sink.got.substr(had.size());
          CHECK(ret == (int) nu.size(), "%s, but %zu were taken", what, nu.size());
          for (char c : nu) {  CHECK((uint8_t) c == r.front(), "%s: bytes in another order", what);  r.pop_front();  moved++;  }
        } break;
      default: {
          u->deinit_ret = s.b(30) ? -1 : 0;
          if (s.b()) {
            const int8_t ret = u->deinit();
            snprintf(what, sizeof(what), "deinit() -> %d", ret);
            CHECK(ret == u->deinit_ret, "%s", what);
            if (0 == ret) {  t.clear();  r.clear();  live = false;  rate = 0;  }
          }
          else {
            u->init_ret = s.b(30) ? -1 : 0;
            const unsigned was = u->inits;
            const int8_t ret = u->reset();
            snprintf(what, sizeof(what), "reset() -> %d", ret);
            CHECK(ret == ((u->deinit_ret || u->init_ret) ? -1 : 0), "%s with %d, %d", what, u->deinit_ret, u->init_ret);
            CHECK(u->inits - was == (u->deinit_ret ? 0u : 1u), "%s: init", what);
            if (0 == u->deinit_ret) {  t.clear();  r.clear();  live = (0 == u->init_ret);  rate = u->bitrate();  }
          }
        } break;
    }
    note("%s (%zu to go, %zu came)", what, t.size(), r.size());
    CHECK(u->pendingTxBytes() == (int) t.size() && u->pendingRxBytes() == (int) r.size(), "%s: %d and %d bytes pending, of %zu and %zu", what, u->pendingTxBytes(), u->pendingRxBytes(), t.size(), r.size());
    CHECK(u->bufferAvailable() == (int32_t) (TC - t.size()), "%s: room for %d, of %zu", what, u->bufferAvailable(), TC - t.size());
    CHECK(u->initialized() == live && u->txCapable() == (live && u->tx) && u->rxCapable() == (live && u->rx), "%s: the state", what);
    CHECK(!live || u->bitrate() == rate, "%s: bitrate() is %u, of %u", what, u->bitrate(), rate);
    u->poll_ret = (int8_t) s.i(-1, 1);
    const PollResult p = u->poll();
    CHECK(p == (u->poll_ret < 0 ? PollResult::ERROR : u->poll_ret ? PollResult::ACTION : PollResult::NO_ACTION), "poll()");
  }
  StringBuilder info;
  u->printDebug(&info);
  if (moved > 8) nontrivial();
}
TARGET_F(B01, uart, 4000, 200000, F_LEAK) {  b01_uart(s);  }
TARGET_F(B01, uart_large, 400, 10000, F_LEAK | F_NOGUIDE) {  s.big = 70000;  b01_uart(s);  }

/* ---- Pins ---- */

static std::map<uint8_t, bool> pins;
static void (*on_pin)(uint8_t, bool) = nullptr;
extern "C++" int8_t setPin(uint8_t p, bool v) {  pins[p] = v;  if (on_pin) on_pin(p, v);  return 0;  }
extern "C++" int8_t readPin(uint8_t p) {  return pins[p];  }

/* ---- B02 ---- */

namespace {
struct Job {
  int id = 0;
  I2CBusOp* op = nullptr;       // Not known until it begins, if the device made it.
  int dev = -1;                 // Owner. -1: the adapter (a ping), -2: nobody any more.
  uint8_t addr = 0;
  int16_t sub = -1;
  BusOpcode code = BusOpcode::UNDEF;
  uint8_t* buf = nullptr;
  uint16_t len = 0;
  bool user = false;            // Its op belongs to the harness.
  bool over = false;            // Its op isn't from the pool.
  bool sweep = false;
  unsigned recycles = 0;
  /* What the hardware does with it. */
  int ca = 0;
  XferFault begin_fault = XferFault::NONE, end_fault = XferFault::NONE;
  unsigned steps = 0;
  /* Where it is. */
  bool running = false, hw_done = false;
  XferFault want = XferFault::NONE;
  unsigned begun = 0, called = 0;
};

struct I2CSim;
static I2CSim* sim = nullptr;

struct TestI2C : public I2CAdapter {
  TestI2C(const I2CAdapterOptions* o, uint32_t pa, uint8_t mq) : I2CAdapter(o, pa, mq) {}
  uint32_t available() {  return preallocated.available();  }
  uint32_t over() {  return preallocated.overdraws() - preallocated.overdrawsFreed();  }
  int queued() {  return work_queue.size();  }
  bool pooled(I2CBusOp* o) {  return preallocated.inPool(o);  }
};

struct Dev : public I2CDevice {
  int n;
  Dev(int i, uint8_t a) : I2CDevice(a), n(i) {}
  int8_t io_op_callahead(BusOp* o);
  int8_t io_op_callback(BusOp* o);
  bool wr(int sub, uint16_t l, uint8_t* b) {  return writeX(sub, l, b);  }
  bool rd(int sub, uint8_t l, uint8_t* b) {  return readX(sub, l, b);  }
  bool png() {  return ping_device();  }
};

struct I2CSim {
  Src& s;
  TestI2C* a = nullptr;
  std::unique_ptr<Dev> dev[4];
  std::deque<Job*> q;           // In the order in which they are to run.
  Job* active = nullptr;
  std::vector<std::unique_ptr<Job>> all;
  std::vector<std::unique_ptr<I2CBusOp>> mine;     // Ops of the harness.
  std::vector<std::unique_ptr<uint8_t[]>> bufs;
  bool init_ok = true, online = false, dispatch = false, advance = false;
  bool ending = false, in_callback = false, purging = false, flushing = false;
  unsigned pool = 0, maxq = 0, overdrawn = 0, in_use = 0;
  unsigned deinits = 0, completed = 0, recycled = 0;
  bool present[128];
  uint8_t map[128];             // 0 unknown, 1 no, 2 yes
  Job* starting = nullptr;      // Might begin at once.
  I2CSim(Src& x) : s(x) {  memset(map, 0, sizeof(map));  for (auto& p : present) p = s.b(20);  }

  Job* find(I2CBusOp* op) {
    if (active && active->op == op) return active;
    for (Job* j : q) if (j->op == op) return j;
    return nullptr;
  }
  void drop(Job* j) {
    for (auto it = q.begin(); it != q.end(); ++it) if (*it == j) {  q.erase(it);  return;  }
  }
  void release(Job* j) {
    completed++;
    if (j->user) return;
    if (j->over) overdrawn--;
    else in_use--;
  }
  /* A job without a callback that the harness would see. */
  void settle() {
    if (active && active->hw_done && active->dev < 0) {
      Job* j = active;
      active = nullptr;
      if (j->sweep) {
        map[j->addr] = (j->want == XferFault::NONE) ? 2 : 1;
        if (j->addr < 127) {
          j->addr++;
          j->running = j->hw_done = false;
          plan(j);
          q.push_back(j);
          return;
        }
      }
      release(j);
    }
  }
  void plan(Job* j) {
    j->ca = (j->dev >= 0 && s.b(10)) ? -1 : 0;
    j->begin_fault = s.b(7) ? XferFault::BUS_FAULT : XferFault::NONE;
    j->end_fault = s.b(15) ? s.pick({XferFault::TIMEOUT, XferFault::DEV_NOT_FOUND, XferFault::BUS_BUSY}) : XferFault::NONE;
    if (j->sweep) j->end_fault = present[j->addr & 0x7F] ? XferFault::NONE : XferFault::DEV_NOT_FOUND, j->begin_fault = XferFault::NONE;
    j->steps = s.size(3);
  }
  XferFault begin(I2CBusOp* op) {
    CHECK(online, "a job was begun while the adapter was offline");
    settle();
    CHECK(!active, "job %d was begun while job %d has the bus", q.empty() ? -1 : q.front()->id, active->id);
    Job* j = nullptr;
    if (starting && q.empty()) {  j = starting;  starting = nullptr;  }
    else {
      CHECK(!q.empty(), "an op was begun that wasn't queued, or again");
      j = q.front();
      q.pop_front();
    }
    if (!j->op) bind(j, op);
    CHECK(j->op == op, "job %d should have begun, and another did", j->id);
    CHECK(op->dev_addr == j->addr && op->sub_addr == j->sub && op->get_opcode() == j->code && op->buffer() == j->buf && op->bufferLen() == j->len, "job %d began with addr %02x sub %d opcode %d buffer %p of %u, of %02x %d %d %p %u", j->id, op->dev_addr, op->sub_addr, (int) op->get_opcode(), op->buffer(), op->bufferLen(), j->addr, j->sub, (int) j->code, j->buf, j->len);
    CHECK(!op->hasFault(), "job %d began with fault %s", j->id, op->getErrorString());
    active = j;
    j->running = true;
    j->hw_done = false;
    j->begun++;
    note("  job %d begins", j->id);
    if (0 != op->execCA()) {
      CHECK(j->ca != 0, "the owner's consent was taken from elsewhere");
      return end(op, XferFault::IO_RECALL);
    }
    CHECK(j->ca == 0, "job %d had no consent of its owner", j->id);
    if (j->begin_fault != XferFault::NONE) return end(op, j->begin_fault);
    op->set_state(XferState::INITIATE);
    if (0 == j->steps && s.b(30)) tick();     // As some ports do.
    return XferFault::NONE;
  }
  XferFault end(I2CBusOp* op, XferFault f) {
    active->hw_done = true;
    active->want = f;
    if (f == XferFault::NONE) op->markComplete();
    else op->abort(f);
    CHECK(op->isComplete() && op->getFault() == f && !op->has_bus_control(), "an op that has ended");
    return f;
  }
  /* One step of the active transfer. */
  void tick() {
    if (!active || active->hw_done) return;
    I2CBusOp* op = active->op;
    CHECK(op->inProgress() && op->has_bus_control() && !op->isComplete(), "the state of a running op is %s", op->getStateString());
    if (active->steps-- > 0) {
      op->set_state(s.pick({XferState::ADDR, XferState::TX_WAIT, XferState::RX_WAIT, XferState::STOP}));
      return;
    }
    if (active->code == BusOpcode::RX) for (uint16_t k = 0; k < active->len; k++) active->buf[k] = (uint8_t) (active->id + k);
    end(op, active->end_fault);
  }
  void bind(Job* j, I2CBusOp* op) {
    j->op = op;
    CHECK(j->over == !a->pooled(op), "the op of job %d came from elsewhere", j->id);
  }
  /* The callbacks of devices. */
  int8_t callahead(int d, I2CBusOp* op) {
    CHECK(active && active->op == op && active->dev == d, "a callahead for another's job");
    return (int8_t) active->ca;
  }
  int8_t callback(int d, I2CBusOp* op) {
    Job* j = find(op);
    if (!j) for (Job* k : q) if (!k->op && k->dev == d) {  j = k;  bind(j, op);  break;  }
    CHECK(j, "a callback for no job");
    CHECK(j->dev == d, "job %d of device %d came back to device %d", j->id, j->dev, d);
    CHECK(op->dev_addr == j->addr && op->sub_addr == j->sub && op->get_opcode() == j->code && op->buffer() == j->buf && op->bufferLen() == j->len, "job %d came back changed", j->id);
    CHECK(op->isComplete(), "job %d came back as %s", j->id, op->getStateString());
    if (purging) {
      CHECK(j != active, "purging the queue took the job that has the bus");
      CHECK(op->getFault() == XferFault::QUEUE_FLUSH, "job %d was purged, with the fault %s", j->id, op->getErrorString());
      if (flushing) CHECK(j == q.front(), "purged in another order");
      note("  job %d is purged", j->id);
      drop(j);
    }
    else {
      CHECK(j == active, "job %d came back without having had the bus", j->id);
      if (flushing) CHECK(op->getFault() == XferFault::QUEUE_FLUSH, "job %d was purged, with the fault %s", j->id, op->getErrorString());
      else {
        CHECK(j->hw_done, "job %d came back before it was done", j->id);
        CHECK(op->getFault() == j->want, "job %d came back with the fault %s, of %s", j->id, op->getErrorString(), BusOp::getErrorString(j->want));
        if (j->code == BusOpcode::RX && j->want == XferFault::NONE) for (uint16_t k = 0; k < j->len; k++) CHECK(j->buf[k] == (uint8_t) (j->id + k), "the data of job %d", j->id);
      }
      active = nullptr;
    }
    j->called++;
    j->running = false;
    if (!purging && !ending && s.b(25)) {
      in_callback = true;
      make();
      in_callback = false;
    }
    if (!purging && !flushing && j->recycles > 0) {
      j->recycles--;
      recycled++;
      note("  job %d is to run again", j->id);
      plan(j);
      q.push_back(j);
      return BUSOP_CALLBACK_RECYCLE;
    }
    note("  job %d is back (%s)", j->id, op->getErrorString());
    release(j);
    return s.b(20) ? BUSOP_CALLBACK_ERROR : BUSOP_CALLBACK_NOMINAL;
  }
  bool room() {  return in_use < pool || overdrawn < maxq;  }
  void took(Job* j) {
    if (in_use < pool) in_use++;
    else {  overdrawn++;  j->over = true;  }
  }
  /* Queue something. */
  void make() {
    std::vector<int> alive;
    for (int d = 0; d < 4; d++) if (dev[d]) alive.push_back(d);
    if (alive.empty()) return;
    const int d = s.pick(alive);
    all.emplace_back(new Job());
    Job* j = all.back().get();
    j->id = (int) all.size();
    j->dev = d;
    j->addr = dev[d]->_dev_addr;
    j->sub = s.b() ? -1 : (int16_t) s.u(256);
    j->recycles = s.b(20) ? 1 + s.size(2) : 0;
    plan(j);
    const bool at_once = online && dispatch && !active && q.empty() && !in_callback;
    const bool has = room();
    auto buffer = [&](uint32_t n) {
      bufs.emplace_back(new uint8_t[n]);
      memset(bufs.back().get(), 0x5A, n);
      return bufs.back().get();
    };
    char what[80];
    const unsigned kind = s.weighted({4, 4, 2, 4, 2});
    if (kind < 3) {
      j->len = (uint16_t) ((kind == 2) ? 0 : s.size(kind ? 255 : 600));
      j->buf = (kind == 2) ? nullptr : buffer(j->len);
      j->code = (kind == 0) ? BusOpcode::TX : (kind == 1) ? BusOpcode::RX : BusOpcode::TX_CMD;
      if (kind == 2) j->sub = -1;
      if (has) {
        took(j);
        if (at_once) starting = j;
        else q.push_back(j);
      }
      const bool ok = (kind == 0) ? dev[d]->wr(j->sub, j->len, j->buf) : (kind == 1) ? dev[d]->rd(j->sub, (uint8_t) j->len, j->buf) : dev[d]->png();
      snprintf(what, sizeof(what), "%s of device %d -> %d", kind == 0 ? "writeX()" : kind == 1 ? "readX()" : "ping_device()", d, ok);
      CHECK(ok == has, "%s, with %s op to be had (%u of %u in use, %u of %u overdrawn)", what, has ? "an" : "no", in_use, pool, overdrawn, maxq);
      note("job %d: %s", j->id, what);
    }
    else {
      I2CBusOp* op;
      j->code = s.pick({BusOpcode::TX, BusOpcode::RX, BusOpcode::TX_WAIT_RX});
      if (kind == 3) {
        op = a->new_op(j->code, dev[d].get());
        CHECK((op != nullptr) == has, "new_op() gave %p, with %u of %u in use and %u of %u overdrawn", op, in_use, pool, overdrawn, maxq);
        if (!op) {  note("no op to be had");  return;  }
        took(j);
        CHECK(op->isIdle() && !op->hasFault() && op->get_opcode() == j->code && op->callback == dev[d].get() && !op->buffer() && 0 == op->bufferLen() && op->dev_addr == 0 && op->sub_addr == -1 && !op->shouldFreeBuffer(), "an op that isn't as new");
        CHECK(op->shouldReap() == j->over && a->pooled(op) == !j->over, "the op's fate");
        if (s.b(30)) {
          j->len = (uint16_t) s.size(100);
          j->buf = (j->len || s.b()) ? (uint8_t*) malloc(j->len) : nullptr;
          op->shouldFreeBuffer(true);
        }
        else {  j->len = (uint16_t) s.size(300);  j->buf = buffer(j->len);  }
      }
      else {
        j->user = true;
        I2CBusOp* again = nullptr;
        if (s.b(40)) for (auto& m : mine) if (!find(m.get()) && m->isIdle()) again = m.get();
        j->len = (uint16_t) s.size(300);
        j->buf = buffer(j->len);
        if (again) {
          op = again;
          op->markForRequeue();
          op->set_opcode(j->code);
          op->callback = s.b() ? dev[d].get() : nullptr;
        }
        else {
          if (s.b(30)) op = new I2CBusOp(j->code, j->addr, j->sub, j->buf, j->len);
          else op = new I2CBusOp(j->code, s.b() ? dev[d].get() : nullptr);
          mine.emplace_back(op);
          CHECK(op->isIdle() && op->get_opcode() == j->code, "a new op");
          if (op->buffer()) CHECK(op->dev_addr == j->addr && op->sub_addr == j->sub && op->bufferLen() == j->len, "an op made with an address doesn't have it");
          op->shouldReap(false);
        }
      }
      j->op = op;
      op->dev_addr = j->addr;
      op->sub_addr = j->sub;
      op->setBuffer(j->buf, j->len);
      if (at_once) starting = j;
      else q.push_back(j);
      /* An op that has an owner keeps it, whichever device passes it on. */
      int via = d;
      if (op->callback && s.b(30)) via = (int) s.u(4);
      if (!dev[via]) via = d;
      const int8_t ret = dev[via]->queue_io_job(op);
      snprintf(what, sizeof(what), "queue_io_job(%s) of device %d -> %d", j->user ? "own" : "new", d, ret);
      CHECK(ret == 0, "%s", what);   // Also if it fails to begin: that is for its callback to find.
      if (!at_once) {
        CHECK(op->isQueued(), "%s, but it is %s", what, op->getStateString());
        if (s.b(10)) CHECK(0 != dev[d]->queue_io_job(op) && op->isQueued(), "a job was queued twice");
      }
      note("job %d: %s", j->id, what);
    }
    if (at_once && has) {
      CHECK(!starting && j->begun == 1, "job %d didn't begin at once", j->id);
      label("at once");
    }
    starting = nullptr;
  }
};
int8_t Dev::io_op_callahead(BusOp* o) {  return sim->callahead(n, (I2CBusOp*) o);  }
int8_t Dev::io_op_callback(BusOp* o) {   return sim->callback(n, (I2CBusOp*) o);   }
}  // namespace

XferFault I2CBusOp::begin() {
  CHECK(device == (I2CAdapter*) sim->a, "an op began without its adapter");
  return sim->begin(this);
}
XferFault I2CBusOp::advance(uint32_t) {  sim->tick();  return XferFault::NONE;  }
int8_t I2CAdapter::_bus_init() {
  _pf_needs_op_advance(sim->advance);
  _pf_dispatch_on_queue(sim->dispatch);
  return sim->init_ok ? 0 : -1;
}
int8_t I2CAdapter::_bus_deinit() {  sim->deinits++;  return 0;  }
void I2CAdapter::printHardwareState(StringBuilder*) {}

static void check_map(I2CSim& w) {
  StringBuilder out;
  w.a->printPingMap(&out);
  const std::string t = flat(&out);
  for (unsigned k = 0; k < 128; k++) {
    char row[12];
    snprintf(row, sizeof(row), "\t0x%02x: ", k & 0xF0);
    const size_t at = t.find(row);
    CHECK(at != std::string::npos, "no row %02x in the ping map", k & 0xF0);
    const char c = t[at + 7 + 2 * (k & 15)];
    CHECK(c == " .*"[w.map[k]], "address %02x is '%c' in the ping map, of '%c'", k, c, " .*"[w.map[k]]);
  }
}

TARGET_F(B02, i2c, 3000, 120000, F_LEAK) {
  I2CSim w(s);
  sim = &w;
  w.pool = s.b(2) ? 250 + s.u(20) : s.size(6);
  w.maxq = s.size(8);
  w.dispatch = s.b(40);
  w.advance = s.b(40);
  const I2CAdapterOptions opts(1, 4, 5, (uint16_t) 0, 400000);
  std::unique_ptr<TestI2C> a(new TestI2C(&opts, w.pool, (uint8_t) w.maxq));
  w.a = a.get();
  a->setVerbosity((uint8_t) s.u(8));
  for (int d = 0; d < 4; d++) {
    w.dev[d].reset(new Dev(d, (uint8_t) (1 + s.u(127))));
    w.dev[d]->setAdapter(a.get());
  }
  unsigned step = 0, deaths = 0;
  bool sweeping = false, inited = false;
  auto ping = [&]() {
    w.all.emplace_back(new Job());
    Job* j = w.all.back().get();
    j->id = (int) w.all.size();
    j->sweep = true;
    j->code = BusOpcode::TX_CMD;
    j->addr = (uint8_t) (s.b() ? 127 - s.size(10) : s.u(128));
    if (s.b(40)) {   // One that was pinged before.
      std::vector<int> known;
      for (int k = 0; k < 128; k++) if (w.map[k]) known.push_back(k);
      if (!known.empty()) {  j->addr = (uint8_t) known[s.u((uint32_t) known.size())];  label("pinged again");  }
    }
    for (unsigned k = s.size(6); k; k--) {  const unsigned b = s.u(128);  w.present[b] = !w.present[b];  }   // Devices come and go.
    w.plan(j);
    w.took(j);
    const bool at_once = w.online && w.dispatch && !w.active && w.q.empty();
    if (at_once) w.starting = j;
    else w.q.push_back(j);
    note("ping_slave_addr(%02x) as job %d", j->addr, j->id);
    a->ping_slave_addr(j->addr);
    CHECK(!w.starting, "a ping didn't begin at once");
    sweeping = true;
    label("ping sweep");
  };
  while (more(s, step, 150, 45)) {
    switch (s.weighted({w.online ? 1u : 12u, 12, 10, 14, 1, 1, 1, 1, 1})) {
      case 0: {
          if (w.online && !s.b(20)) break;
          w.init_ok = s.b(85);
          const int8_t ret = a->init();
          note("init() -> %d", ret);
          CHECK(ret == (w.init_ok ? 0 : -1), "init() returned %d", ret);
          w.online = w.init_ok;
          CHECK(a->busOnline() == w.online && a->busError() == !w.online, "online and error after init()");
          memset(w.map, 0, sizeof(w.map));
          inited = true;
        } break;
      case 1:
        if (inited) w.make();
        break;
      case 2:
        w.tick();
        break;
      case 3: {
          const bool idle = w.q.empty() && !w.active;
          const unsigned was = w.completed + w.recycled;
          const PollResult p = a->poll();
          if (!w.active || w.active->dev < 0) if (!a->currentJob()) w.settle();
          note("poll() -> %d", (int) p);
          CHECK((int) p >= 0, "poll() failed");
          if (idle) CHECK(p == PollResult::NO_ACTION, "poll() of an idle bus is %d", (int) p);
          if (w.completed + w.recycled != was) CHECK(p != PollResult::NO_ACTION, "poll() says it did nothing");
          CHECK((p == PollResult::REPOLL) <= !a->busIdle(), "poll() asks for more of an idle bus");
        } break;
      case 4: {
          w.flushing = true;
          const bool had = w.active;
          if (had && w.active->dev < 0) {    // Nobody to tell.
            Job* j = w.active;
            w.active = nullptr;
            if (j->sweep) {  w.map[j->addr] = 1;  sweeping = false;  }
            a->purge_current_job();
            w.release(j);
            if (j->sweep) {   // It might take up its sweep at another address, if there is one.
              w.flushing = false;
              goto done;
            }
          }
          else a->purge_current_job();
          note("purge_current_job()");
          CHECK(!w.active && !a->currentJob(), "purge_current_job() left it");
          w.flushing = false;
        } break;
      case 5:
        w.purging = w.flushing = true;
        for (size_t k = 0; k < w.q.size(); ) {
          Job* j = w.q[k];
          if (j->dev < 0) {  if (j->sweep) {  sweeping = false;  w.flushing = w.purging = false;  goto done;  }  w.drop(j);  w.release(j);  }
          else k++;
        }
        a->purge_queued_work();
        note("purge_queued_work()");
        w.purging = w.flushing = false;
        CHECK(w.q.empty() && a->queued() == 0, "purge_queued_work() left %zu", w.q.size());
        label("purged");
        break;
      case 6: {
          const int d = (int) s.u(4);
          if (!w.dev[d]) break;
          unsigned n = 0;
          for (Job* j : w.q) if (j->dev == d) n++;
          w.purging = true;
          const int8_t ret = a->purge_queued_work_by_dev(w.dev[d].get());
          w.purging = false;
          note("purge_queued_work_by_dev(%d) -> %d", d, ret);
          CHECK(ret == (int8_t) n, "purge_queued_work_by_dev(%d) purged %d, of %u", d, ret, n);
          for (Job* j : w.q) CHECK(j->dev != d, "purge_queued_work_by_dev(%d) left job %d", d, j->id);
          if (n > 1) label("purged by device");
        } break;
      case 7: {
          const int d = (int) s.u(4);
          if (!w.dev[d] || ++deaths > 2) break;
          note("device %d goes away", d);
          for (size_t k = 0; k < w.q.size(); ) {
            Job* j = w.q[k];
            if (j->dev == d) {  j->dev = -2;  w.drop(j);  w.release(j);  }
            else k++;
          }
          if (w.active && w.active->dev == d) {  w.active->dev = -2;  w.active->ca = 0;  label("gone while running");  }
          w.dev[d].reset();
        } break;
      default: {
          if (sweeping) {
            sweeping = w.active && w.active->sweep;
            for (Job* q : w.q) sweeping |= q->sweep;
          }
          if (sweeping || !w.room() || !inited) break;
          ping();
        } break;
    }
    CHECK(a->busIdle() == (w.q.empty() && !w.active), "busIdle() with %zu queued, and %s", w.q.size(), w.active ? "one active" : "none active");
    CHECK(a->queued() == (int) w.q.size(), "%d jobs are queued, of %zu", a->queued(), w.q.size());
    CHECK(a->roomInQueue() == (w.q.size() < w.maxq), "roomInQueue()");
    CHECK((a->currentJob() != nullptr) == (w.active != nullptr), "currentJob()");
    if (inited) CHECK(a->available() == w.pool - w.in_use && a->over() == w.overdrawn, "%u ops are in the pool and %u overdrawn, of %u and %u", a->available(), a->over(), w.pool - w.in_use, w.overdrawn);
    for (auto& m : w.mine) if (!w.find(m.get())) CHECK(m->isIdle(), "an op is %s after its callback", m->getStateString());
  }
  /* All that was queued comes to an end. */
  for (unsigned again = (w.online && inited) ? s.u(3) : 0; w.online; again--) {
    unsigned polls = 0, limit = 40;
    for (Job* j : w.q) limit += 12 * (j->recycles + 1) + (j->sweep ? 1700 : 0);
    if (w.active) limit += 12 * (w.active->recycles + 1) + (w.active->sweep ? 1700 : 0);
    while (w.active || !w.q.empty()) {
      limit += 0;
      const size_t made = w.all.size();
      w.tick();
      a->poll();
      if (!a->currentJob()) w.settle();
      limit += 60 * (unsigned) (w.all.size() - made);
      if (w.all.size() > 400) goto done;
      CHECK(++polls < limit, "%zu jobs are left after %u polls", w.q.size() + (w.active ? 1 : 0), polls);
    }
    CHECK(a->busIdle() && a->available() == w.pool && a->over() == 0, "not all ops are back: %u of %u", a->available(), w.pool);
    check_map(w);
    for (auto& j : w.all) if (j->dev >= 0 && j->op) CHECK(j->begun <= j->called + 0 && j->called >= 1, "job %d began %u times, and came back %u times", j->id, j->begun, j->called);
    if (0 == again || !w.room()) break;
    ping();
  }
done:
  {
    StringBuilder info;
    a->printDebug(&info);
  }
  w.ending = true;     // Jobs without a callback are no longer followed.
  w.purging = true;
  a->purge_queued_work();
  w.purging = false;
  w.flushing = true;
  a->purge_current_job();
  for (auto& d : w.dev) d.reset();
  a.reset();
  CHECK(w.deinits == 1, "the hardware was shut down %u times", w.deinits);
  if (w.completed > 5 && w.recycled) nontrivial();
}

/* ---- B03 ---- */

namespace {
struct SJob {
  int id = 0;
  SPIBusOp* op = nullptr;
  int owner = 0;
  int prio = 0;
  uint8_t cs = 255;
  bool high = false;
  uint8_t params[8];
  uint8_t np = 0;
  uint8_t bits = 8;
  bool cpol = false, cpha = false;
  uint32_t freq = 0;
  BusOpcode code = BusOpcode::UNDEF;
  uint8_t* buf = nullptr;
  uint16_t len = 0;
  bool user = false, over = false;
  unsigned recycles = 0;
  int ca = 0;
  unsigned busy = 0;
  XferFault begin_fault = XferFault::NONE, end_fault = XferFault::NONE, want = XferFault::NONE;
  unsigned steps = 0;
  bool hw_done = false;
  unsigned begun = 0, called = 0;
};

struct SPISim;
static SPISim* spi = nullptr;
struct Owner : public BusOpCallback {
  int n = 0;
  int8_t io_op_callahead(BusOp* o);
  int8_t io_op_callback(BusOp* o);
  int8_t queue_io_job(BusOp* o);
};
struct TestSPI : public SPIAdapter {
  TestSPI(uint32_t pa, uint8_t mq) : SPIAdapter(0, 1, 2, 3, pa, mq) {}
  uint32_t available() {  return preallocated.available();  }
  uint32_t over() {  return preallocated.overdraws() - preallocated.overdrawsFreed();  }
  int queued() {  return work_queue.size();  }
  bool pooled(SPIBusOp* o) {  return preallocated.inPool(o);  }
};

struct SPISim {
  Src& s;
  TestSPI* a = nullptr;
  Owner own[3];
  std::vector<SJob*> q;         // To run, in that order.
  SJob* active = nullptr;       // Has the bus, or is first to try.
  std::vector<SJob*> back;      // Done, and to come back.
  std::vector<std::unique_ptr<SJob>> all;
  std::vector<std::unique_ptr<SPIBusOp>> mine;
  std::vector<std::unique_ptr<uint8_t[]>> bufs;
  bool init_ok = true, online = false, advance = false, guard = false, purging = false, flushing = false;
  unsigned pool = 0, maxq = 0, overdrawn = 0, in_use = 0, deinits = 0, completed = 0, recycled = 0, by_prio = 0;
  std::map<uint8_t, bool> high;      // Active-high chip selects.
  SPISim(Src& x) : s(x) {  for (int k = 0; k < 3; k++) own[k].n = k;  for (uint8_t k = 10; k < 18; k++) high[k] = k & 1;  }

  SJob* find(SPIBusOp* op) {
    if (active && active->op == op) return active;
    for (SJob* j : q) if (j->op == op) return j;
    for (SJob* j : back) if (j->op == op) return j;
    return nullptr;
  }
  static void drop(std::vector<SJob*>& v, SJob* j) {
    for (auto it = v.begin(); it != v.end(); ++it) if (*it == j) {  v.erase(it);  return;  }
  }
  void insert(SJob* j) {
    size_t k = q.size();
    while (k > 0 && q[k - 1]->prio < j->prio) k--;
    if (k < q.size()) by_prio++;
    q.insert(q.begin() + (long) k, j);
  }
  void plan(SJob* j) {
    j->ca = s.b(10) ? -1 : 0;
    j->busy = s.b(10) ? 1 + s.size(2) : 0;
    j->begin_fault = s.b(7) ? XferFault::BUS_FAULT : XferFault::NONE;
    j->end_fault = s.b(15) ? s.pick({XferFault::TIMEOUT, XferFault::DMA_FAULT}) : XferFault::NONE;
    j->steps = s.size(3);
  }
  void release(SJob* j) {
    completed++;
    if (j->user) return;
    if (j->over) overdrawn--;
    else in_use--;
  }
  void selected(SJob* only, const char* when) {
    for (auto& p : pins) if (high.count(p.first)) {
      const bool act = (p.second == high[p.first]);
      CHECK(act == (only && only->cs == p.first), "%s, chip select %u is %sactive", when, p.first, act ? "" : "in");
    }
  }
  void same(SJob* j, const char* when) {
    SPIBusOp* op = j->op;
    CHECK(op->getCSPin() == j->cs && op->csActiveHigh() == j->high && op->cpol() == j->cpol && op->cpha() == j->cpha && op->maxFreq() == j->freq && op->bitsPerFrame() == j->bits, "job %d %s with other settings (pin %u, of %u; %u Hz, of %u; %u bits, of %u)", j->id, when, op->getCSPin(), j->cs, op->maxFreq(), j->freq, op->bitsPerFrame(), j->bits);
    CHECK(op->get_opcode() == j->code && op->buffer() == j->buf && op->bufferLen() == j->len, "job %d %s with another buffer or opcode", j->id, when);
    CHECK(op->transferParamLength() == j->np, "job %d %s with %u parameters, of %u", j->id, when, op->transferParamLength(), j->np);
    for (int k = 0; k < 8; k++) CHECK(op->getTransferParam(k) == (k < j->np ? j->params[k] : 0), "job %d %s with another parameter %d", j->id, when, k);
  }
  XferFault end(SPIBusOp* op, XferFault f) {
    active->hw_done = true;
    active->want = f;
    if (f == XferFault::NONE) op->markComplete();
    else op->abort(f);
    CHECK(op->isComplete() && op->getFault() == f && !op->csAsserted(), "an op that has ended");
    CHECK(op->get_state() == (f == XferFault::NONE ? XferState::COMPLETE : XferState::FAULT), "an op has ended as %s", op->getStateString());
    selected(nullptr, "after a transfer");
    return f;
  }
  unsigned floods = 0;
  XferFault begin(SPIBusOp* op) {
    if (active && active->op == op && active->begun && !active->hw_done && op->isQueued()) {}     // Another try.
    else {
      CHECK(!active, "a job was begun while job %d has the bus", active->id);
      CHECK(!q.empty(), "an op was begun that wasn't queued, or again");
      CHECK(q.front()->op == op, "job %d (priority %d) should have begun, and %d did", q.front()->id, q.front()->prio, find(op) ? find(op)->id : -1);
      active = q.front();
      q.erase(q.begin());
      active->hw_done = false;
    }
    SJob* j = active;
    j->begun++;
    if (j->busy) {  j->busy--;  note("  job %d finds the bus busy", j->id);  return XferFault::BUS_BUSY;  }
    same(j, "began");
    CHECK(!op->hasFault() && !op->csAsserted() && op->getAdapter() == a, "an op that begins");
    selected(nullptr, "before a transfer");
    note("  job %d begins", j->id);
    if (0 != op->execCA()) {
      CHECK(j->ca != 0, "the owner's consent was taken from elsewhere");
      return end(op, XferFault::IO_RECALL);
    }
    CHECK(j->ca == 0, "job %d had no consent of its owner", j->id);
    if (j->begin_fault != XferFault::NONE) return end(op, j->begin_fault);
    op->set_state(XferState::INITIATE);
    op->_assert_cs(true);
    CHECK(op->csAsserted(), "chip select");
    selected(j, "when a transfer has begun");
    op->set_state(XferState::TX_WAIT);
    if (0 == j->steps && s.b(30)) tick();
    return XferFault::NONE;
  }
  void tick() {
    if (!active || active->hw_done || active->op->isQueued()) return;
    SPIBusOp* op = active->op;
    CHECK(op->inProgress() && op->has_bus_control() && !op->isComplete(), "the state of a running op is %s", op->getStateString());
    selected(active, "during a transfer");
    if (active->steps-- > 0) {
      op->set_state(s.pick({XferState::TX_WAIT, XferState::RX_WAIT, XferState::STOP}));
      return;
    }
    end(op, active->end_fault);
  }
  int8_t callahead(int d, SPIBusOp* op) {
    CHECK(active && active->op == op && active->owner == d, "a callahead for another's job");
    return (int8_t) active->ca;
  }
  int8_t callback(int d, SPIBusOp* op) {
    SJob* j = find(op);
    CHECK(j, "a callback for no job");
    CHECK(j->owner == d, "job %d of %d came back to %d", j->id, j->owner, d);
    CHECK(op->isComplete() && !op->csAsserted(), "job %d came back as %s", j->id, op->getStateString());
    if (purging) {
      CHECK(j != active, "purging the queue took the job that has the bus");
      if (flushing) CHECK(!q.empty() && j == q.front(), "purged in another order");
      CHECK(op->getFault() == XferFault::QUEUE_FLUSH, "job %d was purged, with the fault %s", j->id, op->getErrorString());
      drop(q, j);
    }
    else if (flushing) {
      CHECK(j == active && op->getFault() == XferFault::QUEUE_FLUSH, "job %d was purged", j->id);
      active = nullptr;
    }
    else {
      CHECK(j->hw_done, "job %d came back before it was done", j->id);
      CHECK(op->getFault() == j->want, "job %d came back with the fault %s, of %s", j->id, op->getErrorString(), BusOp::getErrorString(j->want));
      if (j == active) active = nullptr;
      else drop(back, j);
    }
    same(j, "came back");
    j->called++;
    if (!purging && s.b(20)) make();
    if (!purging && !flushing && j->recycles > 0) {
      j->recycles--;
      recycled++;
      plan(j);
      j->prio = 0;
      j->begun = 0;
      if (guard && q.size() >= maxq) {  floods++;  j->hw_done = true;  j->want = XferFault::QUEUE_FLUSH;  back.push_back(j);  note("  job %d can't run again", j->id);  }
      else {  j->hw_done = false;  insert(j);  note("  job %d is to run again", j->id);  }
      return BUSOP_CALLBACK_RECYCLE;
    }
    note("  job %d is back (%s)", j->id, op->getErrorString());
    release(j);
    return s.b(20) ? BUSOP_CALLBACK_ERROR : BUSOP_CALLBACK_NOMINAL;
  }
  void make() {
    if (all.size() > 300) return;
    all.emplace_back(new SJob());
    SJob* j = all.back().get();
    j->id = (int) all.size();
    j->owner = (int) s.u(3);
    j->code = s.pick({BusOpcode::TX, BusOpcode::RX, BusOpcode::TX_WAIT_RX});
    j->prio = s.b(40) ? (int) s.i(-3, 3) : 0;
    j->recycles = s.b(20) ? 1 + s.size(2) : 0;
    plan(j);
    const bool has = in_use < pool || overdrawn < maxq;
    SPIBusOp* op = nullptr;
    if (s.b(75)) {
      op = a->new_op(j->code, &own[j->owner]);
      CHECK((op != nullptr) == has, "new_op() gave %p, with %u of %u in use and %u of %u overdrawn", op, in_use, pool, overdrawn, maxq);
      if (!op) {  note("no op to be had");  return;  }
      if (in_use < pool) in_use++;
      else {  overdrawn++;  j->over = true;  }
      CHECK(op->isIdle() && !op->hasFault() && op->get_opcode() == j->code && op->callback == &own[j->owner] && !op->buffer() && 0 == op->bufferLen() && !op->shouldFreeBuffer(), "an op that isn't as new");
      CHECK(op->getCSPin() == 255 && !op->csActiveHigh() && !op->csAsserted() && !op->cpol() && !op->cpha() && op->bitsPerFrame() == 8 && op->transferParamLength() == 0, "an op that isn't as new");
      CHECK(op->maxFreq() == 0, "a new op has the frequency %u", op->maxFreq());
      CHECK(op->shouldReap() == j->over && a->pooled(op) == !j->over, "the op's fate");
    }
    else {
      j->user = true;
      if (s.b(40)) for (auto& m : mine) if (!find(m.get()) && m->isIdle()) op = m.get();
      if (op) {
        op->wipe();
        op->set_opcode(j->code);
        op->callback = &own[j->owner];
        CHECK(op->maxFreq() == 0 && op->getCSPin() == 255 && op->transferParamLength() == 0, "a wiped op has the frequency %u", op->maxFreq());
      }
      else {
        op = s.b() ? new SPIBusOp(j->code, &own[j->owner]) : new SPIBusOp(j->code, &own[j->owner], 12, true);
        mine.emplace_back(op);
        CHECK(op->isIdle() && op->get_opcode() == j->code && op->callback == &own[j->owner], "a new op");
      }
      op->shouldReap(false);
    }
    j->op = op;
    if (s.b(80)) {  j->cs = (uint8_t) (10 + s.u(8));  j->high = high[j->cs];  }
    else j->cs = 255;
    op->setCSPin(j->cs);
    op->csActiveHigh(j->high);
    j->cpol = s.b();
    j->cpha = s.b();
    op->cpol(j->cpol);
    op->cpha(j->cpha);
    if (s.b(30)) {  j->freq = 1 + s.u(20000000);  op->maxFreq(j->freq);  }
    if (s.b(40)) {
      static const uint8_t B[5] = {8, 9, 16, 24, 32};
      const uint32_t k = s.u(8);
      if (k < 5 && s.b(30)) op->bitsPerFrame((SPIFrameSize) s.u(5));   // Set over.
      const int8_t ret = op->bitsPerFrame((SPIFrameSize) k);
      CHECK(ret == (k < 5 ? 0 : -1), "bitsPerFrame(%u) -> %d", k, ret);
      if (k < 5) j->bits = B[k];
    }
    if (s.b(70)) {
      j->np = (uint8_t) (1 + s.u(8));
      for (auto& p : j->params) p = (uint8_t) s.u(256);
      const uint8_t* p = j->params;
      switch (j->np) {
        case 1:  op->setParams(p[0]);  break;
        case 2:  op->setParams(p[0], p[1]);  break;
        case 3:  op->setParams(p[0], p[1], p[2]);  break;
        case 4:  op->setParams(p[0], p[1], p[2], p[3]);  break;
        case 5:  op->setParams(p[0], p[1], p[2], p[3], p[4]);  break;
        case 6:  op->setParams(p[0], p[1], p[2], p[3], p[4], p[5]);  break;
        case 7:  op->setParams(p[0], p[1], p[2], p[3], p[4], p[5], p[6]);  break;
        default: op->setParams(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]);  break;
      }
    }
    if (!j->user && s.b(30)) {
      j->len = (uint16_t) s.size(100);
      j->buf = (j->len || s.b()) ? (uint8_t*) malloc(j->len) : nullptr;
      op->shouldFreeBuffer(true);
    }
    else {
      j->len = (uint16_t) s.size(600);
      bufs.emplace_back(new uint8_t[j->len]);
      j->buf = bufs.back().get();
    }
    op->setBuffer(j->buf, j->len);
    const bool full = guard && q.size() >= maxq;
    if (full) {  floods++;  j->hw_done = true;  j->want = XferFault::QUEUE_FLUSH;  back.push_back(j);  label("flood");  }
    else insert(j);
    const bool plain = (j->prio == 0 && s.b());
    const int8_t ret = plain ? a->queue_io_job(op) : a->queue_io_job(op, j->prio);
    note("job %d: queue_io_job(priority %d) -> %d", j->id, j->prio, ret);
    CHECK(ret == (full ? -1 : 0), "queue_io_job() of job %d returned %d, with %zu of %u queued", j->id, ret, q.size(), maxq);
    if (!full) {
      CHECK(op->isQueued(), "a queued op is %s", op->getStateString());
      if (s.b(10)) CHECK(a->queue_io_job(op) < 0 && op->isQueued(), "a job was queued twice");
    }
  }
};
int8_t Owner::io_op_callahead(BusOp* o) {  return spi->callahead(n, (SPIBusOp*) o);  }
int8_t Owner::io_op_callback(BusOp* o) {   return spi->callback(n, (SPIBusOp*) o);   }
int8_t Owner::queue_io_job(BusOp* o) {     return spi->a->queue_io_job(o);           }
}  // namespace

XferFault SPIBusOp::begin() {  return spi->begin(this);  }
int8_t SPIBusOp::advance_operation(uint32_t, uint8_t) {  spi->tick();  return 0;  }
int8_t SPIAdapter::_bus_init() {
  _pf_needs_op_advance(spi->advance);
  _adapter_set_flag(SPI_FLAG_QUEUE_GUARD, spi->guard);
  return spi->init_ok ? 0 : -1;
}
int8_t SPIAdapter::_bus_deinit() {  spi->deinits++;  return 0;  }
int8_t SPIAdapter::io_op_callahead(BusOp*) {  return 0;  }
int8_t SPIAdapter::io_op_callback(BusOp*) {   return 0;  }
int8_t SPIAdapter::setMode(const uint8_t) {   return 0;  }
int8_t SPIAdapter::frequency(const uint32_t) {  return 0;  }
void SPIAdapter::printHardwareState(StringBuilder*) {}
void SPIAdapter::printDebug(StringBuilder* o) {  printAdapter(o);  printWorkQueue(o, 3);  }

TARGET_F(B03, spi, 3000, 120000, F_LEAK) {
  SPISim w(s);
  spi = &w;
  pins.clear();
  for (auto& h : w.high) pins[h.first] = !h.second;
  w.pool = s.size(6);
  w.maxq = s.size(8);
  w.advance = s.b(60);
  w.guard = s.b(40);
  std::unique_ptr<TestSPI> a(new TestSPI(w.pool, (uint8_t) w.maxq));
  w.a = a.get();
  a->setVerbosity((uint8_t) s.u(8));
  CHECK(0 == a->init() && a->busOnline() && !a->busError(), "init()");
  CHECK(-5 == a->queue_io_job(nullptr), "queue_io_job(nullptr)");
  unsigned step = 0;
  while (more(s, step, 150, 45)) {
    switch (s.weighted({12, 10, 14, 14, 1, 1, 1})) {
      case 0:  w.make();  break;
      case 1:  w.tick();  break;
      case 2: {
          SJob* had = w.active;
          const PollResult p = a->poll();
          note("poll() -> %d", (int) p);
          CHECK((int) p >= 0, "poll() failed");
          CHECK((p == PollResult::REPOLL) <= !a->busIdle(), "poll() asks for more of an idle bus");
          (void) had;
        } break;
      case 3: {
          const size_t n = w.back.size() + ((w.active && w.active->hw_done) ? 1 : 0);
          const unsigned was = w.completed + w.recycled;
          const int8_t ret = a->service_callback_queue();
          note("service_callback_queue() -> %d", ret);
          CHECK(ret == (int8_t) (w.completed + w.recycled - was) && ret <= 1 && ret <= (int) n, "service_callback_queue() returned %d", ret);
        } break;
      case 4:
        if (w.active && w.active->hw_done && !a->currentJob()) break;     // It is on its way back.
        w.flushing = true;
        a->purge_current_job();
        note("purge_current_job()");
        w.flushing = false;
        CHECK(!w.active && !a->currentJob(), "purge_current_job() left it");
        w.selected(nullptr, "after a purge");
        break;
      case 5:
        w.purging = w.flushing = true;
        a->purge_queued_work();
        note("purge_queued_work()");
        w.purging = w.flushing = false;
        CHECK(w.q.empty() && a->queued() == 0, "purge_queued_work() left %zu", w.q.size());
        break;
      default: {
          const int d = (int) s.u(3);
          unsigned n = 0;
          for (SJob* j : w.q) if (j->owner == d) n++;
          w.purging = true;
          const int8_t ret = a->purge_queued_work_by_dev(&w.own[d]);
          w.purging = false;
          note("purge_queued_work_by_dev(%d) -> %d", d, ret);
          CHECK(ret == (int8_t) n, "purge_queued_work_by_dev(%d) purged %d, of %u", d, ret, n);
          if (n > 1) label("purged by owner");
        } break;
    }
    if (w.active && w.active->hw_done && a->currentJob() != w.active->op) {  w.back.push_back(w.active);  w.active = nullptr;  }
    CHECK(a->queued() == (int) w.q.size(), "%d jobs are queued, of %zu", a->queued(), w.q.size());
    CHECK(a->busIdle() == (w.q.empty() && !w.active), "busIdle() with %zu queued, and %s", w.q.size(), w.active ? "one active" : "none active");
    CHECK(a->allQueuesClear() == (w.q.empty() && !w.active && w.back.empty()), "allQueuesClear() with %zu on their way back", w.back.size());
    CHECK(a->available() == w.pool - w.in_use && a->over() == w.overdrawn, "%u ops are in the pool and %u overdrawn, of %u and %u", a->available(), a->over(), w.pool - w.in_use, w.overdrawn);
    for (auto& m : w.mine) if (!w.find(m.get())) CHECK(m->isIdle(), "an op is %s after its callback", m->getStateString());
    if (!w.active) w.selected(nullptr, "between transfers");
  }
  unsigned rounds = 0;
  while (!a->allQueuesClear()) {
    w.tick();
    a->poll();
    a->service_callback_queue();
    if (w.active && w.active->hw_done && a->currentJob() != w.active->op) {  w.back.push_back(w.active);  w.active = nullptr;  }
    CHECK(++rounds < 12000, "%zu jobs are left after %u rounds", w.q.size() + w.back.size() + (w.active ? 1 : 0), rounds);
  }
  CHECK(w.q.empty() && !w.active && w.back.empty() && a->available() == w.pool && a->over() == 0, "not all ops are back: %u of %u", a->available(), w.pool);
  for (auto& j : w.all) if (j->op) CHECK(j->called >= 1, "job %d didn't come back", j->id);
  {
    StringBuilder info;
    a->printDebug(&info);
    char want[48];
    snprintf(want, sizeof(want), "floods           %u\n", w.floods);
    CHECK(flat(&info).find(want) != std::string::npos, "printDebug() doesn't tell of %u floods", w.floods);
  }
  a.reset();
  CHECK(w.deinits == 1, "the hardware was shut down %u times", w.deinits);
  if (w.completed > 5 && w.by_prio) nontrivial();
}
