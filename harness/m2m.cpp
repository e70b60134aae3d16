/*
* M01: messages survive their framing.
* M02: two links over a reliable transport establish, exchange and hang up.
* M03: a link takes any bytes, and recovers.
*/
#include "pbt.h"
#include "CppPotpourri.h"
#include "AbstractPlatform.h"
#include "StringBuilder.h"
#include "C3PValue/C3PValue.h"
#include "C3PValue/KeyValuePair.h"
#include "Identity/Identity.h"
#include "M2MLink/M2MLink.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <algorithm>
#include <deque>
#include <map>
#include <memory>
using namespace pbt;

static std::string flat(StringBuilder* b) {
  const int n = b->length();
  if (n <= 0) return std::string();
  std::string r((size_t) n, '\0');
  b->copyToBuffer((uint8_t*) &r[0], (uint32_t) n);
  return r;
}
static void frag(Src& s, StringBuilder* b, const std::string& m) {
  size_t at = 0;
  for (unsigned pieces = 0; at < m.size(); pieces++) {
    size_t n = (pieces > 200) ? m.size() : 1 + (s.b(50) ? m.size() : s.size((uint32_t) m.size() - (uint32_t) at));
    if (n > m.size() - at) n = m.size() - at;
    StringBuilder part((uint8_t*) m.data() + at, (uint32_t) n);
    b->concatHandoff(&part);
    at += n;
  }
}
static std::string cbor_of(KeyValuePair* k) {
  StringBuilder b;
  CHECK(0 == k->serialize(&b, TCode::CBOR), "a payload didn't serialize");
  return flat(&b);
}

/* A payload, and what it borrows. */
struct Payload {
  std::deque<std::string> keep;
  std::unique_ptr<KeyValuePair> kvp;
  std::string enc;
  template <class T> void put(const char* k, T v) {
    if (kvp) kvp->append(v, k);
    else kvp.reset(new KeyValuePair(k, v));
  }
  const char* hold(const std::string& x) {  keep.push_back(x);  return keep.back().c_str();  }
  void done() {  enc = cbor_of(kvp.get());  }
};

static void fill(Src& s, Payload& p, uint32_t big) {
  const unsigned n = 1 + s.size(5);
  for (unsigned i = 0; i < n; i++) {
    const char* k = p.hold("k" + std::to_string(i));
    switch (s.u(7)) {
      case 0:  p.put(k, (uint8_t) s.word(8));    break;
      case 1:  p.put(k, (uint16_t) s.word(16));  break;
      case 2:  p.put(k, (uint32_t) s.word(32));  break;
      case 3:  p.put(k, (int32_t) s.sword(32));  break;
      case 4: {  float f = s.f32();  p.put(k, (f != f) ? 1.5f : f);  } break;
      case 5:  p.put(k, (bool) s.b(50));         break;
      default: {
          std::string t = s.text(s.size(40), "abc \t\"xyz");
          if (big && s.b(60)) t += std::string(s.u(big), 'L');
          p.put(k, (char*) p.hold(t));
        } break;
    }
  }
  p.done();
}

static const M2MMsgCode CODES[] = {
  M2MMsgCode::SYNC_KEEPALIVE, M2MMsgCode::CONNECT, M2MMsgCode::PROTOCOL, M2MMsgCode::AUTH_CHALLENGE, M2MMsgCode::HANGUP,
  M2MMsgCode::DESCRIBE, M2MMsgCode::MSG_FORWARD, M2MMsgCode::LOG, M2MMsgCode::WHO, M2MMsgCode::DHT_FXN, M2MMsgCode::APPLICATION,
  M2MMsgCode::SERVICE_SLOT_0, M2MMsgCode::SERVICE_SLOT_1, M2MMsgCode::SERVICE_SLOT_7, M2MMsgCode::SERVICE_SLOT_F
};
static M2MMsgCode some_code(Src& s) {
  if (s.b(40)) return M2MMsgCode::APPLICATION;
  return CODES[s.u((uint32_t) (sizeof(CODES) / sizeof(CODES[0])))];
}

/* The length of the whole message, by the format. 0 if it can't be. */
static uint32_t total_for(uint32_t idl, uint32_t pl) {
  for (uint32_t ll = 1; ll <= 3; ll++) {
    const uint64_t t = 3ULL + ll + idl + pl;
    if (t < (1ULL << (8 * ll))) return (uint32_t) t;
  }
  return 0;
}
static unsigned idlen(uint32_t id) {  return (id > 0xFFFF) ? 3 : (id > 0xFF) ? 2 : (id ? 1 : 0);  }

TARGET(M01, headers, 6000, 150000) {
  const M2MMsgCode code = some_code(s);
  const bool er = s.b(40), rep = s.b(30);
  const uint32_t id = s.b(25) ? 0 : (uint32_t) s.word(24);
  const bool small = s.b(50);
  const uint32_t pl = small ? s.u(256) : (s.b(50) ? s.u(70000) : (s.b(50) ? 0xFFF0u + s.u(32) : (s.b(70) ? (uint32_t) s.word(24) : 0xFFFFE0u + s.u(64))));
  M2MMsgHdr h(code, (uint8_t) (small ? pl : 0), (uint8_t) ((er ? M2MMSGHDR_FLAG_EXPECTING_REPLY : 0) | (rep ? M2MMSGHDR_FLAG_IS_REPLY : 0)), id);
  note("%s, %u bytes of payload, id %u%s%s", M2MLink::msgCodeStr(code), pl, h.msg_id, er ? ", expects reply" : "", rep ? ", reply" : "");
  if (id) CHECK(h.msg_id == id, "the header for id %u has %u", id, h.msg_id);
  else if (er && code != M2MMsgCode::SYNC_KEEPALIVE) CHECK(h.msg_id != 0, "a header that expects a reply has no id");
  else CHECK(h.msg_id == 0, "the header has id %u", h.msg_id);
  CHECK(h.msg_id <= 0xFFFFFF, "id %u", h.msg_id);
  const unsigned idl = idlen(h.msg_id);
  const uint32_t total = total_for(idl, pl);
  if (!small) {
    const bool r = h.set_payload_length(pl);
    CHECK(r == (total != 0), "set_payload_length(%u) returned %d", pl, r);
  }
  if (!total) {  label("too long");  return;  }
  CHECK(h.expectsReply() == er && h.isReply() == rep, "the header's flags are %02x", h.flags);
  CHECK(h.total_length() == (int) total, "total_length() %d, of %u", h.total_length(), total);
  CHECK(h.payload_length() == (int) pl, "payload_length() %d, of %u", h.payload_length(), pl);
  const bool valid = (code == M2MMsgCode::SYNC_KEEPALIVE) || ((er || rep) == (idl > 0));
  CHECK(h.isValid() == valid, "isValid() %d", h.isValid());
  CHECK(h.isSync() == (code == M2MMsgCode::SYNC_KEEPALIVE && idl == 0 && pl == 0), "isSync() %d", h.isSync());
  StringBuilder out;
  CHECK(h.serialize(&out) == valid, "serialize()");
  std::string w = flat(&out);
  if (!valid) {  CHECK(w.empty(), "an invalid header was written");  label("invalid");  return;  }
  CHECK((int) w.size() == h.header_length(), "%zu bytes were written, and header_length() is %d", w.size(), h.header_length());
  CHECK(w.size() + pl == total, "a header of %zu for a message of %u with %u of payload", w.size(), total, pl);
  /* Reads back, whatever follows. Short buffers aren't enough. */
  const uint32_t extra = s.b(50) ? s.size(20) : (pl < 300 ? pl + s.size(4) : 0);
  std::string in = w + std::string(extra, 'z');
  StringBuilder buf;
  frag(s, &buf, in);
  M2MMsgHdr g;
  const int8_t r = M2MMsg::attempt_header_parse(&g, &buf);
  CHECK(r == (pl == 0 ? 1 : (extra >= pl ? 2 : 0)), "attempt_header_parse() returned %d", r);
  CHECK(g.msg_code == h.msg_code && g.flags == h.flags && g.msg_len == h.msg_len && g.msg_id == h.msg_id && g.chk_byte == h.chk_byte,
    "%s was read back as code %02x, flags %02x, length %u, id %u", hex(w.data(), w.size()).c_str(), (int) g.msg_code, g.flags, g.msg_len, g.msg_id);
  CHECK(g.isValid(), "what was read back isn't valid");
  CHECK(flat(&buf) == in, "attempt_header_parse() changed the buffer");
  const uint32_t cut = s.u((uint32_t) w.size());
  StringBuilder part;
  frag(s, &part, w.substr(0, cut));
  M2MMsgHdr g2;
  CHECK(-2 == M2MMsg::attempt_header_parse(&g2, &part), "%u of %zu bytes were enough", cut, w.size());
  /* Damage to the code, or to the checksum, is noticed. */
  std::string d = w;
  d[s.b(50) ? 0 : d.size() - 1] ^= (char) (1 + s.u(255));
  StringBuilder bad;
  frag(s, &bad, d + std::string(8, 'z'));
  M2MMsgHdr g3;
  CHECK(-3 == M2MMsg::attempt_header_parse(&g3, &bad), "the damaged header %s was accepted", hex(d.data(), d.size()).c_str());
  if (idl) label("with an id");
  if (pl > 255) nontrivial();
}

/* Any bytes are either refused, or give a message that is at least as long as its header. */
TARGET(M01, any_bytes, 6000, 150000) {
  std::string in;
  const unsigned n = s.size(24);
  for (unsigned i = 0; i < n; i++) in.push_back((char) s.u(256));
  if (in.size() >= 4 && s.b(60)) {
    in[0] = (char) some_code(s);
    if (s.b(50)) in[1] = (char) ((in[1] & 0xF3) | 0x10);
    if (s.b(60)) {
      /* Gets the checksum right. */
      const unsigned ll = ((uint8_t) in[1] >> 4) & 3, il = (uint8_t) in[1] >> 6;
      const unsigned at = 2 + ll + il;
      if (at < in.size()) in[at] = (char) ((uint8_t) in[0] + (uint8_t) in[1] + (ll ? (uint8_t) in[1 + ll] : 0) + M2MLINK_SERIALIZATION_VERSION);
    }
  }
  StringBuilder buf;
  frag(s, &buf, in);
  M2MMsgHdr g;
  const int8_t r = M2MMsg::attempt_header_parse(&g, &buf);
  note("%s -> %d", hex(in.data(), in.size()).c_str(), r);
  CHECK(flat(&buf) == in, "attempt_header_parse() changed the buffer");
  if (in.size() < 4) CHECK(r == -2, "%zu bytes were enough (%d)", in.size(), r);
  if (r >= 0) {
    CHECK(g.header_length() >= 4, "a header of %d was accepted", g.header_length());
    CHECK(g.total_length() >= g.header_length(), "a message of %d, with a header of %d, was accepted", g.total_length(), g.header_length());
    CHECK(r == (g.payload_length() == 0 ? 1 : (g.total_length() <= (int) in.size() ? 2 : 0)), "attempt_header_parse() returned %d", r);
    nontrivial();
  }
}

TARGET_F(M01, messages, 3000, 80000, F_LEAK) {
  Payload p;
  const bool has = s.b(85);
  if (has) fill(s, p, s.b(40) ? 700 : (s.b(5) ? 70000 : 0));
  M2MMsgCode code = some_code(s);
  const bool er = s.b(50);
  M2MMsgHdr h(code, 0, er ? M2MMSGHDR_FLAG_EXPECTING_REPLY : 0);
  M2MMsg tx(&h, BusOpcode::TX);
  const uint32_t id = tx.uniqueId();
  if (has) CHECK(0 == tx.setPayload(p.kvp.get()), "setPayload()");
  std::string w;
  for (unsigned i = 0, n = 1 + s.u(3); i < n; i++) {
    StringBuilder out;
    CHECK(0 == tx.serialize(&out), "serialize()");
    const std::string x = flat(&out);
    if (i) CHECK(x == w, "serialized again, the message is %s, not %s", hex(x.data(), x.size()).c_str(), hex(w.data(), w.size()).c_str());
    w = x;
  }
  const size_t hl = w.size() - p.enc.size();
  note("%s, %zu bytes of payload, %zu in all%s", M2MLink::msgCodeStr(code), p.enc.size(), w.size(), er ? ", expects reply" : "");
  CHECK(w.size() == total_for(idlen(id), (uint32_t) p.enc.size()), "a message of %zu bytes, for %zu of payload", w.size(), p.enc.size());
  CHECK(w.substr(hl) == p.enc, "the payload in the message isn't what was set");
  /* It arrives in pieces, with something after it. */
  const std::string tail(s.size(6), 'T');
  std::string all = w + tail;
  size_t at = hl + (s.b(50) ? all.size() - hl : s.u((uint32_t) (all.size() - hl + 1)));
  StringBuilder in;
  frag(s, &in, all.substr(0, at));
  std::unique_ptr<M2MMsg> rx(M2MMsg::unserialize(&in));
  CHECK(rx, "unserialize() found no message");
  unsigned pieces = 1;
  while (!rx->rxComplete()) {
    CHECK(0 == in.length(), "%d bytes are left, and the message isn't complete", in.length());
    CHECK(at < w.size(), "the message isn't complete, and it's all there");
    const size_t n = 1 + s.size((uint32_t) (all.size() - at - 1));
    frag(s, &in, all.substr(at, n));
    at += n;
    pieces++;
    const int r = rx->accumulate(&in);
    CHECK(r == (at >= w.size() ? 1 : 0), "accumulate() returned %d, with %zu of %zu bytes there", r, at, w.size());
  }
  CHECK(at >= w.size(), "the message is complete after %zu of %zu bytes", at, w.size());
  CHECK(flat(&in) == all.substr(w.size(), at - w.size()), "%s is left in the buffer, of %s", quote(flat(&in)).c_str(), quote(tail).c_str());
  CHECK(rx->isValidMsg(), "what arrived isn't valid");
  CHECK(rx->msgCode() == code && rx->expectsReply() == er && !rx->isReply() && rx->uniqueId() == id, "what arrived has another header");
  KeyValuePair* got = nullptr;
  for (unsigned i = 0, n = 1 + s.u(2); i < n; i++) {
    got = nullptr;
    rx->getPayload(&got);
    CHECK((got != nullptr) == has, "getPayload() gave %s", got ? "a payload" : "nothing");
    std::unique_ptr<KeyValuePair> own(got);
    if (got) CHECK(cbor_of(got) == p.enc, "the payload arrived as other content");
  }
  if (pieces > 2) label("pieces");
  if (p.enc.size() > 255) label("long");
  /* The answer to it. */
  if (er && (code != M2MMsgCode::SYNC_KEEPALIVE)) {
    Payload q;
    const bool has2 = s.b(50), er2 = s.b(30);
    if (has2) fill(s, q, s.b(30) ? 500 : 0);
    CHECK(0 == rx->reply(q.kvp.get(), er2), "reply()");
    CHECK(rx->direction() == BusOpcode::TX, "a reply isn't outbound");
    CHECK(-1 == rx->reply(nullptr), "a reply to a reply that wasn't received");
    StringBuilder out;
    if (s.b(30)) {  CHECK(0 == rx->serialize(&out), "serialize()");  out.clear();  }
    CHECK(0 == rx->serialize(&out), "serialize()");
    if (s.b(50)) q.kvp.reset();       // the caller's, and not needed any more
    StringBuilder dbg;
    rx->printDebug(&dbg);
    std::unique_ptr<M2MMsg> ans(M2MMsg::unserialize(&out));
    CHECK(ans && ans->rxComplete() && ans->isValidMsg(), "the reply doesn't read back");
    CHECK(ans->isReply() && ans->uniqueId() == id && ans->msgCode() == code && ans->expectsReply() == er2, "the reply has another header");
    KeyValuePair* g2 = nullptr;
    ans->getPayload(&g2);
    std::unique_ptr<KeyValuePair> own(g2);
    CHECK((g2 != nullptr) == has2, "the reply has %s payload", g2 ? "a" : "no");
    if (g2) CHECK(cbor_of(g2) == q.enc, "the reply's payload is other content");
    if (has && has2) nontrivial();
  }
}


struct Wire : public BufferAccepter {
  std::string q;
  int8_t mode = 1;      // What to return.
  unsigned refused = 0;
  int8_t pushBuffer(StringBuilder* b) {
    CHECK(b && b->length() > 0, "a link pushed nothing to its transport");
    if (mode < 0) {  refused++;  note("a refusal of %s", hex(flat(b).data(), b->length()).c_str());  return -1;  }
    q += flat(b);
    if (mode > 0) b->clear();
    return mode;
  }
  int32_t bufferAvailable() {  return 65536;  }
};

struct Sent {
  std::string enc;
  bool need = false;
  int id = 0;
  unsigned arrived = 0, answered = 0;
  std::vector<std::string> answers;   // the payloads of the answers. Empty for a bare ACK.
  std::vector<uint64_t> tx;           // when it was put on the wire
};

struct Rig2;
struct Side {
  Rig2* rig = nullptr;
  int me = 0;
  M2MLinkOpts opts;
  std::unique_ptr<M2MLink> link;
  std::unique_ptr<IdentityUUID> ident;
  Wire out;
  std::deque<Sent> sent;            // what this side sent
  std::string log, want_log;        // what the other side wrote to this log
  unsigned states = 0;
  explicit Side(const M2MLinkOpts& o) : opts(&o) {}
};

struct Rig2 {
  Src& s;
  std::unique_ptr<Side> side[2];
  uint32_t serial = 0;
  bool exact = true;        // No message may arrive twice.
  bool ordered = true;
  unsigned chatter = 0;     // chance that an answer wants an answer
  unsigned weak = 0;        // chance that the platform's random numbers repeat
  unsigned deaf = 0;        // chance that there is no answer
  unsigned arrivals = 0, answers = 0, payload_answers = 0;
  size_t last[2] = {0, 0};
  explicit Rig2(Src& src) : s(src) {}
  ~Rig2();
  Sent* find(int from, const std::string& enc) {
    for (auto& x : side[from]->sent) if (x.enc == enc) return &x;
    return nullptr;
  }
  void take(int me, M2MMsg* msg);
  bool send(int me, bool need, uint32_t big);
  void deliver(int to, size_t n);
  void poll(int me);
  bool both(M2MLinkState st) {  return side[0]->link->currentState() == st && side[1]->link->currentState() == st;  }
  bool idle() {  return side[0]->link->linkIdle() && side[1]->link->linkIdle() && side[0]->out.q.empty() && side[1]->out.q.empty();  }
  template <class F> bool settle(unsigned rounds, uint32_t ms, F until) {
    for (unsigned i = 0; i < rounds; i++) {
      if (until()) return true;
      for (int k = 0; k < 2; k++) {
        deliver(k, side[1 - k]->out.q.size());
        poll(k);
      }
      sim_micros += ms * 1000;
    }
    return until();
  }
};
static Rig2* rig_now = nullptr;
Rig2::~Rig2() {
  for (auto& x : side) if (x) x->link.reset();
  rig_now = nullptr;
}
static void on_msg0(uint32_t, M2MMsg* m) {  CHECK(rig_now, "a callback, after the end");  rig_now->take(0, m);  }
static void on_msg1(uint32_t, M2MMsg* m) {  CHECK(rig_now, "a callback, after the end");  rig_now->take(1, m);  }
static void on_state(M2MLink* l) {
  if (!rig_now) return;
  for (auto& x : rig_now->side) if (x && x->link.get() == l) x->states++;
}

void Rig2::take(int me, M2MMsg* msg) {
  CHECK(msg && msg->rxComplete() && msg->isValidMsg(), "an incomplete message reached the application");
  CHECK(msg->msgCode() == M2MMsgCode::APPLICATION, "%s reached the application", M2MLink::msgCodeStr(msg->msgCode()));
  KeyValuePair* k = nullptr;
  msg->getPayload(&k);
  std::unique_ptr<KeyValuePair> own(k);
  const std::string enc = k ? cbor_of(k) : std::string();
  Side& o = *side[1 - me];
  Side& m = *side[me];
  note("side %d gets %s, id %u, %zu bytes%s", me, msg->isReply() ? "an answer" : "a message", msg->uniqueId(), enc.size(), msg->expectsReply() ? ", expects an answer" : "");
  if (msg->isReply()) {
    Sent* x = nullptr;
    for (auto& y : m.sent) if (y.need && y.id == (int) msg->uniqueId()) x = &y;
    CHECK(x, "an answer, to id %u, which wasn't sent", msg->uniqueId());
    CHECK(x->arrived, "an answer to a message that didn't arrive");
    x->answered++;
    answers++;
    CHECK(!exact || x->answered == 1, "an answer came twice");
    CHECK(x->answers.end() != std::find(x->answers.begin(), x->answers.end(), enc), "an answer arrived with other content");
    return;
  }
  Sent* x = find(1 - me, enc);
  CHECK(x, "a message arrived that wasn't sent (%s)", hex(enc.data(), enc.size()).c_str());
  CHECK(x->need == msg->expectsReply(), "a message's need of a reply was lost");
  if (x->need) CHECK(x->id == (int) msg->uniqueId(), "a message arrived with id %u, and send() returned %d", msg->uniqueId(), x->id);
  x->arrived++;
  arrivals++;
  CHECK(!exact || x->arrived == 1, "a message arrived twice");
  if (ordered) {
    size_t at = 0;
    while (&o.sent[at] != x) at++;
    CHECK(at >= last[1 - me], "a message arrived after a later one");
    last[1 - me] = at;
  }
  if (x->need && !s.b(deaf)) {
    if (s.b(50)) {
      x->answers.push_back("");
      CHECK(0 == msg->ack(), "ack()");
    }
    else {
      Payload p;
      p.put("answer", serial++);
      fill(s, p, 300);
      x->answers.push_back(p.enc);
      payload_answers++;
      CHECK(0 == msg->reply(p.kvp.get()), "reply()");
    }
  }
}

bool Rig2::send(int me, bool need, uint32_t big) {
  Side& m = *side[me];
  Payload p;
  p.put("serial", serial++);
  fill(s, p, big);
  Sent x;
  x.enc = p.enc;
  x.need = need;
  if (s.b(weak)) platform_rng(77);
  x.id = m.link->send(p.kvp.get(), need);
  note("side %d sends %zu bytes%s -> %d", me, p.enc.size(), need ? ", expects an answer" : "", x.id);
  if (x.id < 0) return false;
  CHECK(!need || x.id > 0, "send() returned %d for a message that expects an answer", x.id);
  for (auto& y : m.sent) {
    if (!need || !y.need || y.id != x.id) continue;
    CHECK(!exact || y.answered, "two messages that await answers bear id %d", x.id);
    if (!exact) discard();   // What comes for the earlier of them can't be told from what comes for this one.
  }
  m.sent.push_back(x);
  return true;
}

void Rig2::deliver(int to, size_t n) {
  std::string& q = side[1 - to]->out.q;
  if (n > q.size()) n = q.size();
  if (!n) return;
  StringBuilder b;
  note("%zu of %zu bytes to side %d: %s", n, q.size(), to, hex(q.data(), n).c_str());
  frag(s, &b, q.substr(0, n));
  q.erase(0, n);
  const int8_t r = side[to]->link->pushBuffer(&b);
  CHECK(r == 1 && 0 == b.length(), "pushBuffer() returned %d, and left %d bytes", r, b.length());
}

void Rig2::poll(int me) {
  StringBuilder l;
  const M2MLinkState before = side[me]->link->currentState();
  side[me]->link->poll(&l);
  side[me]->log += flat(&l);
  if (side[me]->link->currentState() != before) note("side %d goes from %s to %s", me, M2MLink::sessionStateStr(before), M2MLink::sessionStateStr(side[me]->link->currentState()));
}

static void make(Rig2& r, int i, const M2MLinkOpts& o) {
  rig_now = &r;
  r.side[i].reset(new Side(o));
  Side& m = *r.side[i];
  m.rig = &r;
  m.me = i;
  m.link.reset(new M2MLink(&m.opts));
  m.link->setCallback(i ? on_msg1 : on_msg0);
  m.link->setCallback(on_state);
  m.link->setEfferant(&m.out);
}

static const char* state_of(Rig2& r, int i) {  return M2MLink::sessionStateStr(r.side[i]->link->currentState());  }

TARGET_F(M02, session, 1500, 40000, F_LEAK) {
  platform_rng(s.draw(0xFFFF));
  Rig2 r(s);
  for (int i = 0; i < 2; i++) {
    M2MLinkOpts o(1000000, 30 + s.u(200), 200000, TCode::CBOR, s.b(60) ? M2MLINK_FLAG_ALLOW_LOG_WRITE : 0);
    if (s.b(30)) o.default_flags |= M2MLINK_FLAG_SEND_KA;
    if (s.b(50)) o.max_outbound = (uint8_t) (8 + s.u(10));
    make(r, i, o);
    if (s.b(40)) {
      r.side[i]->ident.reset(new IdentityUUID(i ? "right" : "left"));
      r.side[i]->link->localIdentity(r.side[i]->ident.get());
    }
  }
  unsigned refusals = 0, sent = 0, cut = 0, sessions = 0;
  unsigned cutoff = 0, full = 0;
  bool hung = false;
  r.weak = s.b(20) ? 50 : 0;
  /* An arbitrary schedule of the set-up. */
  unsigned step = 0;
  while (more(s, step, 40, 12)) {
    const int k = (int) s.u(2);
    if (s.b(50)) r.poll(k);
    else r.deliver(k, s.b(60) ? 100000 : 1 + s.u(8));
    if (s.b(30)) sim_micros += s.u(50) * 1000;
  }
  for (unsigned round = 0, n = 1 + s.u(2); round < n; round++) {
    CHECK(r.settle(1600, 5, [&]() {  return r.idle();  }), "the links are in %s and %s, after 8 s", state_of(r, 0), state_of(r, 1));
    sessions++;
    for (int i = 0; i < 2; i++) {
      CHECK(r.side[i]->link->isConnected(), "side %d isn't connected", i);
      Identity* id = r.side[i]->link->remoteIdentity();
      IdentityUUID* want = r.side[1 - i]->ident.get();
      CHECK((id != nullptr) == (want != nullptr), "side %d %s", i, id ? "knows an identity that there isn't" : "doesn't know the other's identity");
      if (id) {
        uint8_t a[16], b[16];
        ((IdentityUUID*) id)->copyRaw(a);
        want->copyRaw(b);
        CHECK(0 == memcmp(a, b, 16) && 0 == strcmp(id->getHandle(), want->getHandle()), "side %d has another identity for its counterparty", i);
      }
    }
    unsigned out[2] = {0, 0};
    unsigned st = 0;
    while (more(s, st, 60, 20)) {
      const int k = (int) s.u(2);
      switch (s.weighted({4, 6, 6, 2, 1, 1})) {
        case 0:
          if (out[k] < 3) {
            const unsigned ref = r.side[k]->out.refused;
            (void) ref;
            CHECK(r.send(k, s.b(40), s.b(30) ? 600 : (s.b(1) ? 100000 : 0)), "send() failed on a live link");
            out[k]++;
            sent++;
          }
          break;
        case 1: {
            const size_t have = r.side[1 - k]->out.q.size();
            const size_t m = s.b(50) ? have : s.u((uint32_t) have + 1);
            if (m && m < have) cut++;
            r.deliver(k, m);
          } break;
        case 2:  r.poll(k);  break;
        case 3:  sim_micros += s.u(60) * 1000;  break;
        case 4: {
            if (out[k] >= 3) break;
            const std::string t = "log" + std::to_string(r.serial++) + ":" + s.text(s.size(30), "abc ");
            StringBuilder l;
            frag(s, &l, t);
            const bool need = s.b(50);
            note("side %d writes a remote log%s", k, need ? ", expects an answer" : "");
            CHECK(0 == r.side[k]->link->writeRemoteLog(&l, need), "writeRemoteLog() failed on a live link");
            CHECK(0 == l.length(), "writeRemoteLog() didn't take its log");
            if (r.side[1 - k]->opts.default_flags & M2MLINK_FLAG_ALLOW_LOG_WRITE) r.side[1 - k]->want_log += t + "\n";
            out[k]++;
          } break;
        default:
          r.side[k]->out.mode = (int8_t) (s.b(60) ? 1 : (s.b(50) ? 0 : -1));
          if (r.side[k]->out.mode < 0) {  refusals++;  r.ordered = false;  }
          break;
      }
      if (r.idle()) out[0] = out[1] = 0;
    }
    for (int i = 0; i < 2; i++) if (r.side[i]->out.mode < 0) r.side[i]->out.mode = 1;
    bool filled = false;
    const bool hangup = s.b(40);
    int who = (int) s.u(2);
    if (hangup && s.b(35)) {
      /* The transport is gone, perhaps within a message. */
      hung = true;
      r.send(who, s.b(40), s.b(50) ? 300 : 0);
      r.poll(who);
      r.poll(who);
      const size_t have = r.side[who]->out.q.size();
      if (have > 1) {
        r.deliver(1 - who, 1 + s.u((uint32_t) have - 1));
        for (unsigned i = 0, m = s.u(5); i < m; i++) r.poll(1 - who);
        if (r.side[1 - who]->link->_working) cutoff++;
      }
      for (int i = 0; i < 2; i++) {
        CHECK(0 == r.side[i]->link->hangup(false), "a forced hangup");
        for (unsigned p = 0, m = 2 + s.u(3); p < m; p++) r.poll(i);
        CHECK(r.side[i]->link->currentState() == M2MLinkState::HUNGUP, "side %d is in %s, after a forced hangup", i, state_of(r, i));
        CHECK(!r.side[i]->link->isConnected(), "connected after a forced hangup");
      }
      for (int i = 0; i < 2; i++) {
        r.side[i]->out.q.clear();
        CHECK(0 == r.side[i]->link->reset(), "reset()");
        r.side[i]->sent.clear();
        r.side[i]->want_log.clear();
        r.side[i]->log.clear();
        r.last[i] = 0;
      }
    }
    else if (hangup) {
      hung = true;
      if (s.b(70)) {
        CHECK(r.settle(1600, 5, [&]() {  return r.idle();  }), "the links are in %s and %s, and not idle", state_of(r, 0), state_of(r, 1));
      }
      note("side %d hangs up", who);
      CHECK(0 == r.side[who]->link->hangup(), "hangup()");
      CHECK(r.settle(400, 20000, [&]() {  return r.both(M2MLinkState::HUNGUP);  }), "the links are in %s and %s, after a hangup", state_of(r, 0), state_of(r, 1));
      CHECK(!r.side[0]->link->isConnected() && !r.side[1]->link->isConnected(), "connected, after a hangup");
      /* What the initiator had sent must be through. */
      for (auto& x : r.side[who]->sent) CHECK(x.arrived == 1, "a message from before the hangup was lost");
      for (int i = 0; i < 2; i++) {
        Payload p;
        p.put("late", (uint32_t) 1);
        StringBuilder late("late");
        CHECK(-2 == r.side[i]->link->writeRemoteLog(&late) && late.isEmpty(), "writeRemoteLog() on a link that is hung up");
        CHECK(r.side[i]->link->send(p.kvp.get()) < 0, "a link that is hung up took a message");
        r.side[i]->out.q.clear();
        CHECK(0 == r.side[i]->link->reset(), "reset()");
        r.side[i]->sent.clear();
        r.side[i]->want_log.clear();
        r.side[i]->log.clear();
        r.last[i] = 0;
      }
    }
    else {
      CHECK(r.settle(1600, 5, [&]() {  return r.idle();  }), "the links are in %s and %s, and not idle", state_of(r, 0), state_of(r, 1));
      for (int i = 0; i < 2; i++) {
        for (auto& x : r.side[i]->sent) {
          CHECK(x.arrived == 1, "a message from side %d arrived %u times", i, x.arrived);
          CHECK(x.answered == (x.need ? 1 : 0), "a message from side %d was answered %u times", i, x.answered);
        }
        CHECK(0 == r.side[i]->link->replyTimeouts(), "replyTimeouts() %u", r.side[i]->link->replyTimeouts());
        std::string l = r.side[i]->log, got;
        for (size_t at = 0; std::string::npos != (at = l.find("counterparty says:\n", at)); ) {
          at += 19;
          got += l.substr(at, l.find('\n', at) - at + 1);
        }
        if (i == who) filled = s.b(20);
        if (r.ordered) CHECK(got == r.side[i]->want_log, "side %d's log has %s, and %s was written", i, quote(got).c_str(), quote(r.side[i]->want_log).c_str());
        else CHECK(got.size() == r.side[i]->want_log.size(), "side %d's log has %s, and %s was written", i, quote(got).c_str(), quote(r.side[i]->want_log).c_str());
      }
      if (filled) {
        /* The transport takes nothing: as many messages wait as the options allow, and all of them get through later. */
        full++;
        Side& m = *r.side[who];
        r.ordered = false;
        m.out.mode = -1;
        unsigned took = 0;
        while (took < 300 && r.send(who, s.b(30), 0)) {
          took++;
          if (s.b(20)) r.poll(who);
        }
        CHECK(took == m.opts.max_outbound, "the link took %u messages, and may hold %u", took, m.opts.max_outbound);
        m.out.mode = 1;
        CHECK(r.settle(1600, 5, [&]() {  return r.idle();  }), "the links are in %s and %s, and not idle", state_of(r, 0), state_of(r, 1));
        for (auto& x : m.sent) CHECK(x.arrived == 1 && x.answered == (x.need ? 1 : 0), "a message that waited in a full queue arrived %u times, and was answered %u times", x.arrived, x.answered);
      }
    }
  }
  if (hung) label("hangup");
  if (cutoff) label("cut off within a message");
  if (full) label("a full queue");
  if (sessions > 1) label("two rounds");
  if (refusals) label("the transport refused");
  if (r.payload_answers) label("answers with a payload");
  if (sent > 2 && r.answers && cut) nontrivial();
}

/* ---- M03 ---- */

static unsigned calls = 0, applied = 0;
static Src* src_now = nullptr;
static void on_any(uint32_t, M2MMsg* m) {
  CHECK(m, "a callback without message");
  calls++;
  KeyValuePair* k = nullptr;
  m->getPayload(&k);
  std::unique_ptr<KeyValuePair> own(k);
  if (k) {
    applied++;
    StringBuilder o;
    k->printDebug(&o);
    k->valueWithKey("a");
  }
  StringBuilder o;
  m->printDebug(&o);
  if (m->expectsReply()) {
    if (src_now->b(50)) m->ack();
    else {
      KeyValuePair a("q", (uint32_t) 5);
      m->reply(&a, src_now->b(30));
    }
  }
}
struct Sink : public BufferAccepter {
  size_t n = 0;
  int8_t mode = 1;
  int8_t pushBuffer(StringBuilder* b) {
    if (mode < 0) return -1;
    n += (size_t) b->length();
    b->clear();
    return 1;
  }
  int32_t bufferAvailable() {  return 65536;  }
};

/* A frame: right in its form, anything in its content. */
static std::string frame(Src& s) {
  const M2MMsgCode code = s.b(15) ? (M2MMsgCode) s.u(256) : some_code(s);
  std::string body;
  switch (s.u(6)) {
    case 0:  break;
    case 1:  for (unsigned i = 0, n = s.size(60); i < n; i++) body.push_back((char) s.u(256));  break;
    case 2: {
        Payload p;
        fill(s, p, 200);
        body = p.enc;
      } break;
    case 3: {
        Payload p;
        p.put("b", p.hold(s.text(s.size(30), "abc\n")));
        if (s.b(40)) p.put("c", (uint32_t) 1);
        p.done();
        body = p.enc;
      } break;
    default: {
        IdentityUUID id("somebody");
        Payload p;
        p.put("ident", (Identity*) &id);
        if (s.b(30)) p.put("c", (uint32_t) 1);
        p.done();
        body = p.enc;
      } break;
  }
  if (!body.empty() && s.b(50)) {
    for (unsigned i = 0, n = 1 + s.u(3); i < n; i++) {
      const uint32_t at = s.u((uint32_t) body.size());
      switch (s.u(3)) {
        case 0:  body[at] = (char) s.u(256);  break;
        case 1:  if (body.size() > 1) body.erase(at, 1);  break;
        default: body.insert(at, 1, (char) s.u(256));  break;
      }
    }
  }
  M2MMsgHdr h(code, 0, (uint8_t) ((s.b(50) ? M2MMSGHDR_FLAG_EXPECTING_REPLY : 0) | (s.b(35) ? M2MMSGHDR_FLAG_IS_REPLY : 0)), s.b(30) ? 1 + s.u(4) : 0);
  uint32_t pl = (uint32_t) body.size();
  if (s.b(10)) pl += s.u(2000);
  h.set_payload_length(pl);
  StringBuilder o;
  h.serialize(&o);
  std::string w = flat(&o);
  if (!w.empty() && s.b(10)) w[s.u((uint32_t) w.size())] ^= (char) (1 << s.u(8));
  return w + body;
}
static std::string garbage(Src& s, bool long_too = true) {
  std::string r;
  if (long_too && s.b(2)) {
    /* Long noise. It might end in sync patterns. */
    r = s.filler(s.large(s.b(70) ? 1200 : 70000), s.b(50) ? "abcdefgh" : nullptr);
    if (s.b(40)) r += std::string("\x01\x11\x04\x17", 4);
    return r;
  }
  switch (s.weighted({3, 6, 2})) {
    case 0:  for (unsigned i = 0, n = s.size(80); i < n; i++) r.push_back((char) s.u(256));  break;
    case 1:  r = frame(s);  break;
    default: for (unsigned i = 0, n = 1 + s.u(4); i < n; i++) r += s.b(50) ? std::string("\x01\x11\x04\x17", 4) : std::string("\x01\x12\x04\x18", 4);  break;
  }
  return r;
}

/* One link, and any input. */
TARGET_F(M03, garbage, 4000, 120000, F_LEAK) {
  platform_rng(s.draw(0xFFFF));
  src_now = &s;
  calls = applied = 0;
  M2MLinkOpts o(s.b(50) ? 20 + s.u(100) : 100000, 30 + s.u(100), s.b(50) ? 256 : 4096, TCode::CBOR, (s.b(70) ? M2MLINK_FLAG_ALLOW_LOG_WRITE : 0) | (s.b(30) ? M2MLINK_FLAG_SEND_KA : 0));
  o.max_outbound = (uint8_t) (1 + s.u(8));
  Sink out;
  IdentityUUID me("me");
  std::unique_ptr<M2MLink> link(new M2MLink(&o));
  link->setCallback(on_any);
  link->setEfferant(&out);
  if (s.b(50)) link->localIdentity(&me);
  const bool verbose = s.b(10);    // A dump of every byte that arrives takes long.
  if (verbose) link->verbosity(7);
  bool was_live = false;
  if (s.b(75)) {
    /* A counterparty's half of the set-up. */
    link->poll();
    link->poll();
    std::string hello = std::string("\x01\x11\x04\x17\x01\x12\x04\x18", 8);
    for (int i = 0; i < 6 && link->currentState() != M2MLinkState::LIVE; i++) {
      StringBuilder b((uint8_t*) hello.data(), (uint32_t) hello.size());
      link->pushBuffer(&b);
      link->poll();
      link->poll();
      if (link->currentState() == M2MLinkState::SYNC_TENTATIVE) {
        M2MMsgHdr h(M2MMsgCode::CONNECT, 0, M2MMSGHDR_FLAG_IS_REPLY, 77);
        StringBuilder c;
        h.serialize(&c);
        link->pushBuffer(&c);
        link->poll();
        link->poll();
      }
    }
    was_live = (link->currentState() == M2MLinkState::LIVE);
  }
  unsigned step = 0;
  size_t total = 0;
  while (more(s, step, 60, 15)) {
    switch (s.weighted({8, 8, 1, 1, 1, 1, 1})) {
      case 0: {
          std::string g = garbage(s, !verbose);
          total += g.size();
          StringBuilder b;
          frag(s, &b, g);
          note("%s", hex(g.data(), g.size()).c_str());
          const int8_t r = link->pushBuffer(&b);
          CHECK(r == 1 && b.length() == 0, "pushBuffer() returned %d, and left %d bytes", r, b.length());
        } break;
      case 1: {
          StringBuilder l;
          for (unsigned i = 0, n = 1 + s.u(3); i < n; i++) link->poll(&l);
        } break;
      case 2:  sim_micros += s.u(300) * 1000;  break;
      case 3: {
          KeyValuePair k("x", (uint32_t) 1);
          const int r = link->send(&k, s.b(50));
          (void) r;
        } break;
      case 4: {
          StringBuilder p;
          link->printDebug(&p);
          link->printQueues(&p);
          CHECK(p.length() > 0, "printDebug()");
        } break;
      case 5:
        if (s.b(30)) link->hangup(s.b(50));
        if (link->currentState() == M2MLinkState::HUNGUP && s.b(60)) link->reset();
        break;
      default: {
          out.mode = s.b(70) ? 1 : -1;
          StringBuilder t("a log");
          link->writeRemoteLog(&t, s.b(50));
          CHECK(t.isEmpty(), "writeRemoteLog() didn't take its log");
        } break;
    }
  }
  if (s.b(50)) for (int i = 0; i < 20; i++) link->poll();
  if (link->remoteIdentity()) label("an identity was taken");
  if (applied) label("payloads reached the application");
  if (was_live && total > 60) nontrivial();
  link.reset();
}


/* Noise in the middle of a session. Afterwards, the links find each other again. */
static std::vector<uint32_t> tokens[2];
static void on_token(int me, M2MMsg* m) {
  KeyValuePair* k = nullptr;
  m->getPayload(&k);
  std::unique_ptr<KeyValuePair> own(k);
  uint32_t v = 0;
  KeyValuePair* t = k ? k->valueWithKey("token") : nullptr;
  if (t && 0 == t->get_as(&v)) tokens[me].push_back(v);
  if (m->expectsReply()) m->ack();
}
static void on_token0(uint32_t, M2MMsg* m) {  on_token(0, m);  }
static void on_token1(uint32_t, M2MMsg* m) {  on_token(1, m);  }

TARGET_F(M03, recovery, 1500, 40000, F_LEAK) {
  platform_rng(s.draw(0xFFFF));
  src_now = &s;
  Rig2 r(s);
  for (int i = 0; i < 2; i++) {
    tokens[i].clear();
    M2MLinkOpts o(50 + s.u(100), 30 + s.u(60), 256, TCode::CBOR, M2MLINK_FLAG_SEND_KA);
    make(r, i, o);
    r.side[i]->link->setCallback(i ? on_token1 : on_token0);
  }
  CHECK(r.settle(1600, 5, [&]() {  return r.both(M2MLinkState::LIVE);  }), "the links are in %s and %s, after 8 s", state_of(r, 0), state_of(r, 1));
  uint32_t tok = 1;
  unsigned resets = 0;
  size_t noise = 0;
  for (unsigned round = 0, n = 1 + s.u(2); round < n; round++) {
    unsigned st = 0;
    while (more(s, st, 40, 12)) {
      const int k = (int) s.u(2);
      switch (s.weighted({5, 3, 4, 2, 1})) {
        case 0: {
            std::string g = garbage(s);
            noise += g.size();
            std::string& q = r.side[1 - k]->out.q;
            note("noise for side %d: %s", k, hex(g.data(), g.size()).c_str());
            if (s.b(30) && !q.empty()) q.insert(s.u((uint32_t) q.size()), g);
            else q += g;
          } break;
        case 1:  r.deliver(k, s.b(60) ? 100000 : 1 + s.u(20));  break;
        case 2:  r.poll(k);  break;
        case 3: {
            std::string& q = r.side[1 - k]->out.q;
            if (!q.empty()) {  note("a loss for side %d", k);  q.erase(s.u((uint32_t) q.size()), 1 + s.u(6));  }
          } break;
        default: {
            KeyValuePair kv("token", tok++);
            r.side[k]->link->send(&kv, s.b(50));
          } break;
      }
      if (s.b(20)) sim_micros += s.u(80) * 1000;
    }
    /* From here on, the transport is sound. */
    auto hung = [&](int i) {  auto c = r.side[i]->link->currentState();  return c == M2MLinkState::HUNGUP || c == M2MLinkState::PENDING_HANGUP;  };
    for (int attempt = 0; ; attempt++) {
      r.settle(60, 20, [&]() {  return hung(0) || hung(1);  });
      if (hung(0) || hung(1)) {
        /* The noise had a HANGUP in it. */
        resets++;
        for (int i = 0; i < 2; i++) {
          CHECK(0 == r.side[i]->link->hangup(false), "a forced hangup");
          r.poll(i);
          r.poll(i);
          CHECK(r.side[i]->link->currentState() == M2MLinkState::HUNGUP, "side %d is in %s, after a forced hangup", i, state_of(r, i));
          CHECK(!r.side[i]->link->isConnected(), "connected after a forced hangup");
          r.side[i]->out.q.clear();
        }
        for (int i = 0; i < 2; i++) CHECK(0 == r.side[i]->link->reset(), "reset()");
      }
      r.settle(2000, 10, [&]() {  return r.both(M2MLinkState::LIVE) || hung(0) || hung(1);  });
      /* Whatever the noise left behind is worked off, and then messages get through. */
      int through = 0;
      for (int k = 0; k < 2; k++) {
        uint32_t t = 0;
        auto got = [&]() {  return t && !tokens[1 - k].empty() && tokens[1 - k].back() == t;  };
        for (int tries = 0; tries < 12 && !got(); tries++) {
          t = tok++;
          KeyValuePair kv("token", t);
          r.side[k]->link->send(&kv);
          r.settle(100, 10, got);
        }
        through += got() ? 1 : 0;
      }
      if (through == 2 && r.both(M2MLinkState::LIVE)) break;
      CHECK(attempt < 6, "the links are in %s and %s, long after the noise, and messages get through %s", state_of(r, 0), state_of(r, 1), through ? "one way" : "neither way");
    }
  }
  if (resets) label("hung up");
  if (noise > 30) nontrivial();
}

/* A transport that loses whole writes. */
struct Lossy : public BufferAccepter {
  std::deque<std::pair<std::string, uint64_t>> q;
  int8_t pushBuffer(StringBuilder* b) {  q.push_back({flat(b), sim_micros});  b->clear();  return 1;  }
  int32_t bufferAvailable() {  return 65536;  }
};

TARGET_F(M03, lossy, 1500, 40000, F_LEAK) {
  platform_rng(s.draw(0xFFFF));
  Rig2 r(s);
  Lossy wire[2];
  unsigned lost = 0, twice = 0, late = 0;
  const uint32_t to[2] = {40 + s.u(100), 40 + s.u(100)};
  const unsigned p_loss = s.b(70) ? s.u(60) : 0, p_dup = s.b(30) ? s.u(30) : 0;
  r.exact = r.ordered = false;
  r.deaf = s.b(30) ? s.u(50) : 0;
  for (int i = 0; i < 2; i++) {
    M2MLinkOpts o(to[i], 30 + s.u(100), 4096, TCode::CBOR, s.b(30) ? M2MLINK_FLAG_SEND_KA : 0);
    make(r, i, o);
  }
  auto move_one = [&](int from, bool faulty) {
    if (wire[from].q.empty()) return;
    const std::string x = wire[from].q.front().first;
    const uint64_t when = wire[from].q.front().second;
    wire[from].q.pop_front();
    for (auto& m : r.side[from]->sent) if (x.size() > m.enc.size() && x.substr(x.size() - m.enc.size()) == m.enc) m.tx.push_back(when);
    if (faulty && s.b(p_loss)) {  lost++;  note("lost: %s", hex(x.data(), x.size()).c_str());  return;  }
    r.side[from]->out.q += x;
    if (faulty && s.b(p_dup)) {  twice++;  r.side[from]->out.q += x;  }
  };
  auto round = [&](bool faulty) {
    for (int k = 0; k < 2; k++) {
      while (!wire[k].q.empty()) move_one(k, faulty);
      r.deliver(1 - k, r.side[k]->out.q.size());
    }
    for (int k = 0; k < 2; k++) r.poll(k);
  };
  for (int i = 0; i < 2; i++) r.side[i]->link->setEfferant(&wire[i]);
  auto idle = [&]() {  return r.idle() && wire[0].q.empty() && wire[1].q.empty();  };
  for (int i = 0; i < 1600 && !idle(); i++) {  round(false);  sim_micros += 5000;  }
  CHECK(idle(), "the links are in %s and %s, after 8 s", state_of(r, 0), state_of(r, 1));
  unsigned st = 0, sent = 0, needs = 0;
  while (more(s, st, 60, 25)) {
    switch (s.weighted({4, 8, 3})) {
      case 0: {
          const bool need = s.b(70);
          if (r.send((int) s.u(2), need, 0)) {  sent++;  needs += need ? 1 : 0;  }
        } break;
      case 1:  round(true);  break;
      default: {
          const uint32_t ms = s.u(60);
          if (ms > 40) late++;
          sim_micros += ms * 1000;
        } break;
    }
  }
  for (int i = 0; i < 4000 && !idle(); i++) {  round(true);  sim_micros += 5000;  }
  CHECK(idle(), "the links are in %s and %s, and not idle after 20 s", state_of(r, 0), state_of(r, 1));
  for (int i = 0; i < 2; i++) {
    unsigned given_up = 0, exhausted = 0;
    for (auto& x : r.side[i]->sent) {
      CHECK(x.answered == 0 || x.arrived > 0, "an answer, and no arrival");
      if (x.need) {
        CHECK(x.tx.size() >= 1 && x.tx.size() <= 4, "a message that wants an answer was sent %zu times", x.tx.size());
        if (x.tx.size() == 4) exhausted++;
        if (!x.answered) {
          given_up++;
          CHECK(x.tx.size() == 4, "a message without answer was given up after %zu attempts", x.tx.size());
        }
        for (size_t a = 1; a < x.tx.size(); a++) CHECK(x.tx[a] - x.tx[a - 1] >= to[i] * 1000ULL, "a message was sent again after %u ms, of %u", (unsigned) ((x.tx[a] - x.tx[a - 1]) / 1000), to[i]);
      }
      else CHECK(x.tx.size() == 1, "a message that wants no answer was sent %zu times", x.tx.size());
      if (!lost) CHECK(x.arrived >= 1, "a message was lost, without any loss");
    }
    /* An answer might still come for a message that was given up. */
    const unsigned n = r.side[i]->link->replyTimeouts();
    CHECK(n >= given_up && n <= exhausted, "replyTimeouts() is %u, %u messages were given up, and %u were sent as often as they can be", n, given_up, exhausted);
  }
  if (lost) label("losses");
  if (twice) label("repetitions");
  if (r.deaf) label("an application that doesn't answer");
  if (needs > 1 && (lost || r.deaf)) nontrivial();
}

/* A dialog: each answer might want an answer, and is sent again until it gets one. */
struct Dialog {
  Src* s = nullptr;
  M2MLinkOpts* o = nullptr;
  int turn = 0;                 // who is to hear next
  unsigned depth = 0, want_depth = 0;
  uint32_t id = 0;
  std::string next;             // what that side is to hear
  bool next_wants = false, over = false;
};
static std::map<uint32_t, Dialog>* dialogs = nullptr;
static Src* dialog_src = nullptr;
static uint32_t dialog_serial = 0;
static void dialog_take(int me, M2MMsg* msg) {
  Src& s = *dialog_src;
  auto it = dialogs->find(msg->uniqueId());
  CHECK(it != dialogs->end(), "side %d hears of a dialog that there isn't: id %u", me, msg->uniqueId());
  Dialog& d = it->second;
  KeyValuePair* k = nullptr;
  msg->getPayload(&k);
  std::unique_ptr<KeyValuePair> own(k);
  const std::string enc = k ? cbor_of(k) : std::string();
  note("side %d, turn %u of dialog %u", me, d.depth, msg->uniqueId());
  CHECK(!d.over, "a dialog that was over goes on");
  CHECK(me == d.turn, "side %d hears in the turn of the other, or twice", me);
  CHECK(enc == d.next, "turn %u of a dialog arrived with other content", d.depth);
  CHECK(msg->expectsReply() == d.next_wants && msg->isReply() == (d.depth > 0), "turn %u of a dialog arrived as %s", d.depth, msg->isReply() ? "an answer" : "a message");
  d.depth++;
  d.turn = 1 - me;
  if (!d.next_wants) {  d.over = true;  return;  }
  const bool want = d.depth < d.want_depth;
  d.next_wants = want;
  if (!want && s.b(40)) {
    d.next.clear();
    CHECK(0 == msg->ack(), "ack()");
  }
  else {
    Payload p;
    p.put("turn", dialog_serial++);
    fill(s, p, s.b(5) ? 20000 : 100);
    d.next = p.enc;
    CHECK(0 == msg->reply(p.kvp.get(), want), "reply()");
  }
}
static void on_dialog0(uint32_t, M2MMsg* m) {  dialog_take(0, m);  }
static void on_dialog1(uint32_t, M2MMsg* m) {  dialog_take(1, m);  }

TARGET_F(M02, dialog, 1000, 30000, F_LEAK) {
  platform_rng(s.draw(0xFFFF));
  Rig2 r(s);
  Lossy wire[2];
  std::map<uint32_t, Dialog> all;
  dialogs = &all;
  dialog_src = &s;
  dialog_serial = 0;
  const uint32_t to = 60 + s.u(100);
  const unsigned p_loss = s.b(70) ? s.u(50) : 0;
  unsigned lost = 0, longest = 0;
  std::map<std::string, std::vector<uint64_t>> tx;     // what side 1 put on the wire, and when
  for (int i = 0; i < 2; i++) {
    /* Only what side 1 says is ever lost, and so only side 1 has to repeat. */
    M2MLinkOpts o(i ? to : 10000000, 30 + s.u(100), 65536, TCode::CBOR, 0);
    make(r, i, o);
    r.side[i]->link->setEfferant(&wire[i]);
    r.side[i]->link->setCallback(i ? on_dialog1 : on_dialog0);
  }
  auto idle = [&]() {  return r.idle() && wire[0].q.empty() && wire[1].q.empty();  };
  bool up = false;
  auto round = [&]() {
    for (int k = 0; k < 2; k++) {
      while (!wire[k].q.empty()) {
        const std::string x = wire[k].q.front().first;
        const uint64_t when = wire[k].q.front().second;
        wire[k].q.pop_front();
        if (up && k == 1) {
          bool may = false;
          for (auto& d : all) may |= d.second.turn == 0 && d.second.next_wants && !d.second.next.empty() && x.size() > d.second.next.size() && x.substr(x.size() - d.second.next.size()) == d.second.next;
          if (may) {
            auto& v = tx[x];
            if (!v.empty()) CHECK(when - v.back() >= to * 1000ULL, "an answer that wants an answer was sent again after %u ms, of %u", (unsigned) ((when - v.back()) / 1000), to);
            v.push_back(when);
            if (v.size() < 4 && s.b(p_loss)) {  lost++;  note("lost: %s", hex(x.data(), x.size()).c_str());  continue;  }
          }
        }
        r.side[k]->out.q += x;
      }
      r.deliver(1 - k, r.side[k]->out.q.size());
    }
    for (int k = 0; k < 2; k++) r.poll(k);
  };
  for (int i = 0; i < 1600 && !idle(); i++) {  round();  sim_micros += 5000;  }
  CHECK(idle(), "the links are in %s and %s, after 8 s", state_of(r, 0), state_of(r, 1));
  up = true;
  unsigned st = 0;
  while (more(s, st, 40, 15)) {
    unsigned open = 0;
    for (auto& d : all) open += d.second.over ? 0 : 1;
    if (open < 3 && s.b(30)) {
      const int who = (int) s.u(2);
      Payload p;
      p.put("turn", dialog_serial++);
      fill(s, p, 100);
      Dialog d;
      d.turn = 1 - who;
      d.next = p.enc;
      d.next_wants = true;
      d.want_depth = 1 + s.u(6);
      const int id = r.side[who]->link->send(p.kvp.get(), true);
      CHECK(id > 0, "send() returned %d", id);
      if (all.count((uint32_t) id)) discard();
      d.id = (uint32_t) id;
      if (d.want_depth > longest) longest = d.want_depth;
      note("side %d opens dialog %d, of %u turns", who, id, d.want_depth + 1);
      all[(uint32_t) id] = d;
    }
    round();
    sim_micros += s.u(6) * 1000;
  }
  for (int i = 0; i < 6000 && !idle(); i++) {  round();  sim_micros += 5000;  }
  CHECK(idle(), "the links are in %s and %s, and not idle", state_of(r, 0), state_of(r, 1));
  for (auto& d : all) {
    CHECK(d.second.over && d.second.depth == d.second.want_depth + 1, "a dialog of %u turns ended after %u", d.second.want_depth + 1, d.second.depth);
  }
  for (int i = 0; i < 2; i++) CHECK(0 == r.side[i]->link->replyTimeouts(), "replyTimeouts() %u", r.side[i]->link->replyTimeouts());
  if (lost) label("losses");
  if (longest > 2) label("long dialogs");
  if (all.size() > 1 && longest > 1) nontrivial();
}
