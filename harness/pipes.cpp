/*
* P01: buffers pushed through BufferAccepter stages are conserved.
* P02: Base64.
* P03: typed pipes.
* P04: three-axis pipes.
*/
#include "pbt.h"
#include "CppPotpourri.h"
#include "AbstractPlatform.h"
#include "StringBuilder.h"
#include "C3PValue/C3PValue.h"
#include "C3PValue/KeyValuePair.h"
#include "Pipes/BufferAccepter/BufferAccepter.h"
#include "Pipes/BufferAccepter/Base64/C3P_B64.h"
#include "Pipes/BufferAccepter/C3PTypePipe/C3PTypePipe.h"
#include "Pipes/TripleAxisPipe/TripleAxisPipe.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <deque>
#include <memory>
using namespace pbt;

static std::string flat(StringBuilder* b) {
  const int n = b->length();
  if (n <= 0) return std::string();
  std::string r((size_t) n, '\0');
  b->copyToBuffer((uint8_t*) &r[0], (uint32_t) n);
  return r;
}

/* A StringBuilder with the given content, in random pieces. */
static void frag(Src& s, StringBuilder* b, const std::string& m) {
  size_t at = 0;
  for (unsigned pieces = 0; at < m.size(); pieces++) {
    size_t n = (pieces > 200) ? m.size() : 1 + ((m.size() - at > 400) ? s.u((uint32_t) (m.size() - at)) : s.size((uint32_t) (m.size() - at)));
    if (n > m.size() - at) n = m.size() - at;
    StringBuilder part((uint8_t*) m.data() + at, (uint32_t) n);
    b->concatHandoff(&part);
    at += n;
  }
}

static std::string bytes(Src& s, uint32_t n) {
  if (n > 100) return s.filler(n, nullptr);
  std::string r;
  for (uint32_t i = 0; i < n; i++) r += (char) s.u(256);
  return r;
}

/*
* The far end of a pipe. It has room for a limited number of bytes, and says so. If it is shy, it
* might take fewer bytes than it has room for, which the contract allows.
*/
struct End : public BufferAccepter {
  Src* s;
  std::string got;
  int32_t room;
  bool    shy;
  unsigned pushes = 0;
  unsigned empties = 0;
  bool    overfilled = false;
  bool    frozen = false;       // a push here is a mistake
  bool    refuse = false;       // takes nothing, whatever it said

  End(Src* src, int32_t r, bool sh) : s(src), room(r), shy(sh) {}
  virtual ~End() {}

  int8_t pushBuffer(StringBuilder* b) {
    pushes++;
    CHECK(nullptr != b, "a null buffer was pushed downstream");
    CHECK(!frozen, "a buffer was pushed to an accepter that is no longer attached");
    const int32_t len = b->length();
    if (len <= 0) {  empties++;  return -1;  }
    if (refuse) return -1;
    if (len > room) overfilled = true;
    int32_t take = (len < room) ? len : room;
    if (shy && (take > 0)) take = (int32_t) s->u((uint32_t) take + 1);
    if (take <= 0) return -1;
    std::string all = flat(b);
    got.append(all, 0, (size_t) take);
    room -= take;
    b->cull(take);
    return (take == len) ? 1 : 0;
  }
  int32_t bufferAvailable() {  return room;  }
};

/* Push what is in buf, and hold the accepter to its contract. Returns what was claimed. */
static std::string push(BufferAccepter* a, StringBuilder* buf, const char* who, int8_t* rc = nullptr) {
  const std::string before = flat(buf);
  const int8_t r = a->pushBuffer(buf);
  const std::string after = flat(buf);
  if (rc) *rc = r;
  CHECK(after.size() <= before.size(), "%s left %zu bytes in a buffer that had %zu", who, after.size(), before.size());
  const size_t took = before.size() - after.size();
  CHECK(0 == before.compare(took, std::string::npos, after), "%s: what remains in the buffer (%s) isn't the end of what was pushed (%s)",
    who, hex(after.data(), after.size()).c_str(), hex(before.data(), before.size()).c_str());
  const int8_t want = (0 == took) ? -1 : (after.empty() ? 1 : 0);
  CHECK(r == want, "%s took %zu of %zu bytes, but returned %d", who, took, before.size(), r);
  return before.substr(0, took);
}


/*******************************************************************************
* P01
*******************************************************************************/
static void p01_collector(Src& s) {
  const int32_t cap = s.b(75) ? (int32_t) s.amount(80) : s.i(-5, 0);
  StringBuilderSink sink(cap);
  std::string m;                 // what the sink holds
  bool partial = false, reject = false, full = false, drained = false;
  note("sink(%d)", cap);
  unsigned step = 0;
  while (more(s, step, 40, 12)) {
    const int32_t avail = sink.bufferAvailable();
    const int32_t want = (cap > (int32_t) m.size()) ? cap - (int32_t) m.size() : 0;
    CHECK(avail == want, "bufferAvailable() %d, for a sink of %d that holds %zu", avail, cap, m.size());
    switch (s.weighted({6, 2, 1})) {
      case 0: {
          std::string in = bytes(s, s.amount(60));
          StringBuilder buf;
          frag(s, &buf, in);
          int8_t rc = 9;
          note("push %zu", in.size());
          const std::string took = push(&sink, &buf, "the sink", &rc);
          const size_t w = ((size_t) avail < in.size()) ? (size_t) avail : in.size();
          CHECK(took.size() == w, "the sink took %zu of %zu bytes, with room for %d", took.size(), in.size(), avail);
          m += took;
          if (rc == 0) partial = true;
          if (rc == 1) full = true;
          if (rc == -1) reject = true;
        } break;
      case 1: {
          const int32_t n = (int32_t) s.u((uint32_t) m.size() + 1);
          note("drain %d", n);
          if (n > 0) {  sink.cull(n);  drained = true;  }
          m.erase(0, (size_t) n);
        } break;
      default:
        note("push null");
        CHECK(-1 == sink.pushBuffer(nullptr), "the sink claimed a null buffer");
        break;
    }
    CHECK(flat(&sink) == m, "the sink holds %s, not %s", hex(flat(&sink).data(), flat(&sink).size()).c_str(), hex(m.data(), m.size()).c_str());
  }
  if (partial) label("partial claim");
  if (reject) label("rejected");
  if (full) label("full claim");
  if (partial && drained) nontrivial();
}
TARGET_F(P01, collector, 3000, 60000, F_LEAK) {  p01_collector(s);  }
/* The same, with amounts that don't fit into narrow integers. */
TARGET_F(P01, collector_large, 800, 16000, F_LEAK | F_NOGUIDE) {  s.big = 70000;  p01_collector(s);  }


struct Hand {
  std::unique_ptr<End> end;
  size_t base = 0;             // the part of the stream it was attached at
};

static void p01_fork(Src& s) {
  BufferAccepterFork* fork;
  std::vector<std::unique_ptr<End>> ends;      // all of them, to the end of the test
  Hand hand[2];
  const bool shy = s.b(60);
  std::string stream;          // all the bytes the source has produced
  size_t claimed = 0;          // how many of them the fork took
  StringBuilder buf;           // the source's buffer: the rest of the stream
  bool part = false, drift = false, swapped = false, oneside = false;

  auto mk = [&](int i) {
    hand[i].end.reset(new End(&s, (int32_t) s.amount(50), shy && s.b(70)));
    hand[i].base = claimed;
    note("hand %d: room %d%s", i, hand[i].end->room, hand[i].end->shy ? ", shy" : "");
    return hand[i].end.get();
  };
  const bool l0 = s.b(85), r0 = s.b(85);
  BufferAccepter* lp = l0 ? mk(0) : nullptr;
  BufferAccepter* rp = r0 ? mk(1) : nullptr;
  std::unique_ptr<BufferAccepterFork> owner(fork = new BufferAccepterFork(lp, rp));

  unsigned step = 0;
  while (more(s, step, 60, 14)) {
    switch (s.weighted({8, 4, 2, 1})) {
      case 0: {
          if (s.b(70)) {
            std::string in = bytes(s, s.amount(40));
            frag(s, &buf, in);
            stream += in;
          }
          int32_t a[2], want = 0;
          bool any = false, blocked = false, all_honest = true;
          for (int i = 0; i < 2; i++) {
            a[i] = hand[i].end ? hand[i].end->bufferAvailable() : 0;
            if (hand[i].end) {
              want = any ? ((a[i] < want) ? a[i] : want) : a[i];
              any = true;
              blocked |= (a[i] <= 0);
              all_honest &= !hand[i].end->shy;
            }
          }
          if (blocked || !any) want = 0;
          CHECK(fork->bufferAvailable() == want, "bufferAvailable() %d, when the hands have %d and %d", fork->bufferAvailable(), a[0], a[1]);
          const size_t offered = stream.size() - claimed;
          int8_t rc = 9;
          note("push %zu, hands have %d and %d", offered, a[0], a[1]);
          const std::string took = push(fork, &buf, "the fork", &rc);
          claimed += took.size();
          CHECK(took.size() <= (size_t) want, "the fork took %zu bytes, with room for %d", took.size(), want);
          const size_t most = (offered < (size_t) want) ? offered : (size_t) want;
          if (all_honest && !shy) CHECK(took.size() == most, "the fork took %zu of %zu bytes, with room for %d", took.size(), offered, want);
          if (rc == 0) part = true;
        } break;
      case 1: {
          const int i = (int) s.u(2);
          if (hand[i].end) {
            const int32_t n = (int32_t) s.amount(40);
            hand[i].end->room += n;
            note("hand %d drains by %d", i, n);
          }
        } break;
      case 2: {
          const int i = (int) s.u(2);
          if (hand[i].end) {  hand[i].end->frozen = true;  ends.push_back(std::move(hand[i].end));  hand[i].end.reset();  }
          const bool attach = s.b(75);
          if (!attach) note("hand %d is taken off", i);
          BufferAccepter* p = attach ? mk(i) : nullptr;
          if (i == 0) fork->leftHand(p); else fork->rightHand(p);
          if (claimed) swapped = true;
        } break;
      default:
        note("push null");
        CHECK(-1 == fork->pushBuffer(nullptr), "the fork claimed a null buffer");
        break;
    }
    CHECK(fork->leftHand() == hand[0].end.get() && fork->rightHand() == hand[1].end.get(), "the fork has the wrong hands");
    size_t seen[2] = {0, 0};
    for (int i = 0; i < 2; i++) if (hand[i].end) {
      End* e = hand[i].end.get();
      CHECK(!e->overfilled, "hand %d was pushed more than it had said it had room for", i);
      CHECK(0 == stream.compare(hand[i].base, e->got.size(), e->got) && (hand[i].base + e->got.size() <= stream.size()),
        "hand %d received %s, which isn't the stream from %zu: %s", i, hex(e->got.data(), e->got.size()).c_str(), hand[i].base,
        hex(stream.data() + hand[i].base, stream.size() - hand[i].base).c_str());
      seen[i] = hand[i].base + e->got.size();
      CHECK(seen[i] >= claimed, "%zu bytes of the stream were claimed, but hand %d was given only the first %zu", claimed, i, seen[i]);
    }
    if (hand[0].end && hand[1].end) {
      if (seen[0] != seen[1]) drift = true;
    }
    else oneside = true;
  }
  if (part) label("partial claim");
  if (drift) label("one hand ahead of the other");
  if (swapped) label("hands changed mid-stream");
  if (oneside) label("one-sided");
  if (part && (drift || swapped)) nontrivial();
}
TARGET_F(P01, fork, 6000, 150000, F_LEAK) {  p01_fork(s);  }
/* The same, with amounts that don't fit into narrow integers. */
TARGET_F(P01, fork_large, 1200, 24000, F_LEAK | F_NOGUIDE) {  s.big = 70000;  p01_fork(s);  }


/*
* A tree of forks with sinks at its leaves: what every leaf received is the stream.
*/
static void p01_forks(Src& s) {
  std::vector<std::unique_ptr<End>> leaves;
  std::vector<std::unique_ptr<BufferAccepterFork>> forks;
  const unsigned n = 2 + s.u(4);
  std::vector<BufferAccepter*> level;
  for (unsigned i = 0; i < n; i++) {
    leaves.emplace_back(new End(&s, (int32_t) s.amount(60), false));
    level.push_back(leaves.back().get());
  }
  while (level.size() > 1) {
    const size_t i = s.u((uint32_t) level.size());
    BufferAccepter* a = level[i];
    level.erase(level.begin() + (long) i);
    const size_t j = s.u((uint32_t) level.size());
    BufferAccepter* b = level[j];
    forks.emplace_back(new BufferAccepterFork(a, b));
    level[j] = forks.back().get();
  }
  BufferAccepter* root = level[0];
  std::string stream;
  size_t claimed = 0;
  StringBuilder buf;
  unsigned stalls = 0, moves = 0;
  unsigned step = 0;
  while (more(s, step, 60, 14)) {
    if (s.b(70)) {
      std::string in = bytes(s, s.amount(40));
      frag(s, &buf, in);
      stream += in;
      int32_t least = INT32_MAX;
      for (auto& l : leaves) if (l->room < least) least = l->room;
      const size_t offered = stream.size() - claimed;
      const size_t most = (offered < (size_t) least) ? offered : (size_t) least;
      note("push %zu, the least room is %d", offered, least);
      const std::string took = push(root, &buf, "the tree");
      CHECK(took.size() == most, "the tree took %zu of %zu bytes, when its leaves had room for %d", took.size(), offered, least);
      claimed += took.size();
      if (took.empty()) stalls++; else moves++;
    }
    else {
      End* l = leaves[s.u((uint32_t) leaves.size())].get();
      l->room += (int32_t) s.amount(60);
    }
    for (auto& l : leaves) {
      CHECK(l->got == stream.substr(0, claimed), "a leaf received %zu bytes, of the %zu that were claimed, or different ones", l->got.size(), claimed);
      CHECK(!l->overfilled, "a leaf was pushed more than it had room for");
    }
  }
  if (moves > 1 && stalls) nontrivial();
}
TARGET_F(P01, forks, 2000, 50000, F_LEAK) {  p01_forks(s);  }
/* The same, with amounts that don't fit into narrow integers. */
TARGET_F(P01, forks_large, 400, 8000, F_LEAK | F_NOGUIDE) {  s.big = 70000;  p01_forks(s);  }


/*******************************************************************************
* P02
*******************************************************************************/
static const char* B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

static std::string ref_b64(const std::string& in) {
  std::string o;
  for (size_t i = 0; i < in.size(); i += 3) {
    const size_t k = in.size() - i;
    uint32_t w = (uint32_t) (uint8_t) in[i] << 16;
    if (k > 1) w |= (uint32_t) (uint8_t) in[i+1] << 8;
    if (k > 2) w |= (uint8_t) in[i+2];
    o += B64[(w >> 18) & 63];
    o += B64[(w >> 12) & 63];
    o += (k > 1) ? B64[(w >> 6) & 63] : '=';
    o += (k > 2) ? B64[w & 63] : '=';
  }
  return o;
}

static int b64_val(char c) {
  const char* p = c ? strchr(B64, c) : nullptr;
  return p ? (int) (p - B64) : -1;
}

/* False if it isn't base64. Non-zero bits in the padding are let through: it is left to the implementation. */
static bool ref_unb64(const std::string& in, std::string& o) {
  o.clear();
  if (in.size() % 4) return false;
  for (size_t i = 0; i < in.size(); i += 4) {
    int v[4];
    unsigned pad = 0;
    for (int k = 0; k < 4; k++) {
      v[k] = b64_val(in[i + (size_t) k]);
      if (v[k] < 0) {
        if ((in[i + (size_t) k] != '=') || (k < 2) || (i + 4 != in.size())) return false;
        pad++;
        v[k] = 0;
      }
      else if (pad) return false;
    }
    const uint32_t w = ((uint32_t) v[0] << 18) | ((uint32_t) v[1] << 12) | ((uint32_t) v[2] << 6) | (uint32_t) v[3];
    o += (char) (w >> 16);
    if (pad < 2) o += (char) (w >> 8);
    if (pad < 1) o += (char) w;
  }
  return true;
}

static void p02_encoder(Src& s) {
  End end(&s, (int32_t) s.amount(200), false);
  Base64Encoder enc;
  bool attached = s.b(90);
  if (attached) enc.setEfferant(&end);
  std::string want;
  StringBuilder buf;
  std::string mine;          // what is in buf
  bool claims = false, refused = false, chunked = false;
  unsigned step = 0;
  while (more(s, step, 30, 8)) {
    switch (s.weighted({6, 3, 2, 1})) {
      case 0: {
          std::string in = bytes(s, s.amount(70));
          frag(s, &buf, in);
          mine += in;
          const int32_t room = end.room;
          const size_t chunk = (size_t) enc.inputLength();
          note("push %zu, room %d, chunks of %zu", mine.size(), room, chunk);
          const std::string took = push(&enc, &buf, "the encoder");
          CHECK(!end.overfilled, "the encoder pushed more than there was room for");
          if (!attached) CHECK(took.empty(), "the encoder took bytes, without an accepter for its output");
          if (0 == chunk) {
            CHECK(took.empty() || took.size() == mine.size(), "the encoder took a part (%zu of %zu) of a discrete request", took.size(), mine.size());
            const bool fits = attached && !end.refuse && !mine.empty() && (4 * ((mine.size() + 2) / 3) <= (size_t) room);
            CHECK(took.empty() == !fits, "%zu bytes were %s, and the room was %d", mine.size(), took.empty() ? "refused" : "taken", room);
            want += ref_b64(took);
          }
          else {
            CHECK(0 == took.size() % chunk, "the encoder took %zu bytes, with chunks of %zu", took.size(), chunk);
            const bool fits = attached && !end.refuse && (mine.size() >= chunk) && (4 * ((chunk + 2) / 3) <= (size_t) room);
            CHECK(took.empty() == !fits, "%zu bytes were %s, with chunks of %zu, and room for %d", mine.size(), took.empty() ? "refused" : "taken", chunk, room);
            for (size_t at = 0; at < took.size(); at += chunk) want += ref_b64(took.substr(at, chunk));
            if (!took.empty()) chunked = true;
          }
          mine.erase(0, took.size());
          if (took.empty()) refused = true; else claims = true;
        } break;
      case 1:
        end.room += (int32_t) s.amount(150);
        end.refuse = s.b(15);
        if (end.refuse) note("downstream refuses");
        break;
      case 2:
        enc.inputLength((int32_t) (s.b(50) ? 0 : s.amount(30)));
        break;
      default:
        CHECK(-1 == enc.pushBuffer(nullptr), "the encoder claimed a null buffer");
        break;
    }
    CHECK(end.got == want, "the output is %s, not %s", quote(end.got).c_str(), quote(want).c_str());
    /* What it says it has room for, it takes. */
    const int32_t av = enc.bufferAvailable();
    CHECK((av <= 0) || (4 * (((size_t) av + 2) / 3) <= (size_t) end.room), "bufferAvailable() %d, with room for %d bytes of output", av, end.room);
    CHECK((av > 0) || (end.room < 4) || !attached, "bufferAvailable() %d, with room for %d bytes of output", av, end.room);
  }
  if (chunked) label("chunks");
  if (refused) label("refused");
  if (claims) label("encoded");
  if (claims && refused) nontrivial();
}
TARGET_F(P02, encoder, 4000, 100000, F_LEAK) {  p02_encoder(s);  }
/* The same, with amounts that don't fit into narrow integers. */
TARGET_F(P02, encoder_large, 800, 16000, F_LEAK | F_NOGUIDE) {  s.big = 70000;  p02_encoder(s);  }

static void p02_decoder(Src& s) {
  End end(&s, (int32_t) s.amount(200), false);
  Base64Decoder dec;
  if (s.b(95)) dec.setEfferant(&end);
  else {
    StringBuilder b("QUJD");
    CHECK(-1 == dec.pushBuffer(&b) && (4 == b.length()), "the decoder took bytes, without an accepter for its output");
    discard();
  }
  std::string want;
  bool claims = false, malformed = false, refused = false;
  unsigned step = 0;
  while (more(s, step, 30, 8)) {
    switch (s.weighted({6, 2, 1, 1})) {
      case 0: {
          std::string in = ref_b64(bytes(s, s.amount(50)));
          const unsigned dmg = s.weighted({5, 1, 1, 1, 1, 1});
          if (!in.empty()) {
            const size_t at = s.u((uint32_t) in.size());
            switch (dmg) {
              case 1: in[at] = (char) s.u(256);  break;
              case 2: in.erase(at);              break;
              case 3: in.insert(at, 1, (char) s.u(256));  break;
              case 4: in[at] = '=';              break;
              case 5: in += ref_b64(bytes(s, 1 + s.u(4)));  break;      // padding in the middle
              default: break;
            }
          }
          StringBuilder buf;
          frag(s, &buf, in);
          const int32_t room = end.room;
          const size_t chunk = (size_t) dec.inputLength();
          note("push %s, room %d, chunks of %zu", quote(in).c_str(), room, chunk);
          size_t done = 0;
          for (unsigned g = 0; g < 20; g++) {
            const size_t offered = in.size() - done;
            const size_t req = chunk ? chunk : offered;
            std::string plain;
            const bool whole = (req > 0) && (req <= offered);
            const bool valid = whole && ref_unb64(in.substr(done, req), plain);
            const bool fits = valid && !end.refuse && (plain.size() <= (size_t) end.room);
            const std::string took = push(&dec, &buf, "the decoder");
            CHECK(!end.overfilled, "the decoder pushed more than there was room for");
            if (took.empty()) {
              CHECK(!fits, "%s was refused, with room for %d", quote(in.substr(done)).c_str(), end.room);
              if (whole && !valid) malformed = true;
              if (valid) refused = true;
              break;
            }
            CHECK(valid, "%s isn't base64, and it was taken", quote(in.substr(done, req)).c_str());
            CHECK(0 == took.size() % req, "the decoder took %zu bytes, of requests of %zu", took.size(), req);
            for (size_t at = 0; at < took.size(); at += req) {
              CHECK(ref_unb64(took.substr(at, req), plain), "%s isn't base64, and it was taken", quote(took.substr(at, req)).c_str());
              want += plain;
            }
            done += took.size();
            claims = true;
            if (done == in.size()) break;
          }
          CHECK(end.got == want, "the output is %s, not %s", hex(end.got.data(), end.got.size()).c_str(), hex(want.data(), want.size()).c_str());
        } break;
      case 1:
        end.room += (int32_t) s.amount(150);
        end.refuse = s.b(15);
        if (end.refuse) note("downstream refuses");
        break;
      case 2:
        dec.inputLength((int32_t) (s.b(50) ? 0 : (s.b(80) ? 4 * s.amount(6) : s.size(20))));
        break;
      default:
        CHECK(-1 == dec.pushBuffer(nullptr), "the decoder claimed a null buffer");
        break;
    }
    const int32_t av = dec.bufferAvailable();
    CHECK((av <= 0) || (3 * (size_t) (av / 4) <= (size_t) end.room), "bufferAvailable() %d, with room for %d bytes of output", av, end.room);
    CHECK((av > 0) || (end.room < 3), "bufferAvailable() %d, with room for %d bytes of output", av, end.room);
  }
  if (malformed) label("malformed");
  if (refused) label("no room");
  if (claims) label("decoded");
  if (claims && (malformed || refused)) nontrivial();
}
TARGET_F(P02, decoder, 6000, 150000, F_LEAK) {  p02_decoder(s);  }
/* The same, with amounts that don't fit into narrow integers. */
TARGET_F(P02, decoder_large, 800, 16000, F_LEAK | F_NOGUIDE) {  s.big = 70000;  p02_decoder(s);  }

/* Through both, and a sink with back-pressure. */
static void p02_loopback(Src& s) {
  End end(&s, (int32_t) s.amount(300), false);
  Base64Decoder dec(&end);
  Base64Encoder enc(&dec);
  if (s.b(60)) enc.inputLength((int32_t) (1 + s.amount(20)));
  std::string stream;
  size_t claimed = 0;
  StringBuilder buf;
  unsigned moves = 0, stalls = 0;
  note("chunks of %d", enc.inputLength());
  unsigned step = 0;
  while (more(s, step, 40, 10)) {
    if (s.b(65)) {
      std::string in = bytes(s, s.amount(60));
      frag(s, &buf, in);
      stream += in;
      note("push %zu, room %d, enc %d, dec %d", stream.size() - claimed, end.room, enc.bufferAvailable(), dec.bufferAvailable());
      const std::string took = push(&enc, &buf, "the encoder");
      claimed += took.size();
      if (took.empty()) stalls++; else moves++;
    }
    else end.room += (int32_t) s.amount(200);
    CHECK(end.got == stream.substr(0, claimed), "%zu bytes were claimed, and the far end has %zu, or different ones", claimed, end.got.size());
    CHECK(!end.overfilled, "the far end was pushed more than it had room for");
  }
  if (moves && stalls) nontrivial();
}
TARGET_F(P02, loopback, 3000, 60000, F_LEAK) {  p02_loopback(s);  }
/* The same, with amounts that don't fit into narrow integers. */
TARGET_F(P02, loopback_large, 600, 12000, F_LEAK | F_NOGUIDE) {  s.big = 70000;  p02_loopback(s);  }


/*******************************************************************************
* P03
*******************************************************************************/
static std::vector<std::string>* delivered = nullptr;
static std::string cbor_of(C3PValue* v) {
  StringBuilder b;
  CHECK(0 == v->serialize(&b, TCode::CBOR), "a delivered value doesn't serialize");
  return flat(&b);
}
static void on_value(C3PValue* v) {
  CHECK(nullptr != v, "a null value was delivered");
  CHECK(nullptr != delivered, "a value was delivered outside of a push");
  delivered->push_back(cbor_of(v));
  delete v;
}

/* Push some value into the source. Fills in its CBOR encoding. */
static int8_t push_some(Src& s, C3PTypePipeSource* src, std::string& enc) {
  #define NATIVE(T, X)  {  T x = (T) (X);  C3PValue v(x);  enc = cbor_of(&v);  note("push %s %s", #T, hex(enc.data(), enc.size()).c_str());  return s.b(70) ? src->pushValue(x) : src->pushValue(&v);  }
  switch (s.u(13)) {
    case 0:  NATIVE(int8_t, s.sword(8))
    case 1:  NATIVE(int16_t, s.sword(16))
    case 2:  NATIVE(int32_t, s.sword(32))
    case 3:  NATIVE(int64_t, s.sword(64))
    case 4:  NATIVE(uint8_t, s.word(8))
    case 5:  NATIVE(uint16_t, s.word(16))
    case 6:  NATIVE(uint32_t, s.word(32))
    case 7:  NATIVE(uint64_t, s.word(64))
    case 8:  NATIVE(bool, s.b(50))
    case 9:  {  float x = s.f32();  if (x != x) x = 1.5f;  NATIVE(float, x)  }
    case 10: {  double x = s.f64();  if (x != x) x = 1.5L;  NATIVE(double, x)  }
    case 11: {
        std::string t = s.b(6) ? s.filler(s.size(2000), "abc d") : s.text(s.size(60), "abc \t\"\x7f\xC3");
        C3PValue v((char*) t.c_str());
        enc = cbor_of(&v);
        note("push string %s", quote(t).c_str());
        switch (s.u(3)) {
          case 0:  return src->pushValue((const char*) t.c_str());
          case 1:  return src->pushValue((char*) t.c_str());
          default: return src->pushValue(&v);
        }
      }
    default: {
        uint8_t blob[40];
        const uint32_t n = 1 + s.u(40);
        for (uint32_t i = 0; i < n; i++) blob[i] = (uint8_t) s.u(256);
        C3PValue v(blob, n);
        enc = cbor_of(&v);
        note("push %u bytes of binary", n);
        return src->pushValue(&v);
      }
  }
  #undef NATIVE
}

TARGET_F(P03, source, 4000, 100000, F_LEAK) {
  End end(&s, (int32_t) s.size(200), false);
  C3PTypePipeSource src(TCode::CBOR);
  const bool attached = s.b(90);
  if (attached) src.setEfferant(&end);
  std::string want;
  uint32_t counted = 0;
  bool ok = false, refused = false, muxed = false;
  unsigned step = 0;
  while (more(s, step, 40, 12)) {
    switch (s.weighted({8, 2, 1, 1})) {
      case 0: {
          std::string enc;
          const int32_t room = end.room;
          const int8_t r = push_some(s, &src, enc);
          const bool fits = attached && ((int32_t) enc.size() <= room);
          CHECK((0 == r) == fits, "pushValue() returned %d, for %zu bytes, and room for %d", r, enc.size(), room);
          if (fits) {  want += enc;  counted += (uint32_t) enc.size();  ok = true;  }
          else {  CHECK(r < 0, "pushValue() returned %d for a failure", r);  refused = true;  }
        } break;
      case 1:
        end.room += (int32_t) s.size(s.b(20) ? 3000 : 100);
        break;
      case 2: {
          std::string in = bytes(s, s.size(30));
          StringBuilder buf;
          frag(s, &buf, in);
          note("pass through %zu", in.size());
          const std::string took = push(&src, &buf, "the source");
          if (attached) CHECK(took.size() == ((in.size() < (size_t) end.room + took.size()) ? in.size() : (size_t) end.room + took.size()), "the pass-through took %zu of %zu", took.size(), in.size());
          end.overfilled = false;
          want += took;
          if (!took.empty()) muxed = true;
        } break;
      default:
        CHECK(src.pushValue((C3PValue*) nullptr) < 0, "a null value was pushed");
        CHECK(src.pushValue((KeyValuePair*) nullptr) < 0, "a null KVP was pushed");
        CHECK(src.pushValue((const char*) nullptr) < 0, "a null string was pushed");
        break;
    }
    CHECK(end.got == want, "downstream received %s, not %s", hex(end.got.data(), end.got.size()).c_str(), hex(want.data(), want.size()).c_str());
    CHECK(!end.overfilled, "downstream was pushed more than it had room for");
    CHECK(src.byteCount() == counted, "byteCount() %u, after %u bytes of values", src.byteCount(), counted);
    if (attached) CHECK(src.bufferAvailable() == end.room, "bufferAvailable() %d, not %d", src.bufferAvailable(), end.room);
    else CHECK(src.bufferAvailable() <= 0, "bufferAvailable() %d, with nothing attached", src.bufferAvailable());
  }
  if (muxed) label("pass-through");
  if (ok && refused) nontrivial();
}

TARGET_F(P03, arrivals, 5000, 120000, F_LEAK) {
  const uint32_t cap = s.b(60) ? 4096 : 1 + s.size(60);
  C3PTypePipeSink sink(TCode::CBOR, cap, on_value);
  std::vector<std::string> got, want;       // want: all values written, in order
  delivered = &got;
  std::string wire;                         // bytes that have arrived, but are not claimed yet
  std::string stream;                       // bytes that have not arrived
  StringBuilder buf;
  size_t next = 0, claimed = 0;             // next: first value not yet claimed
  bool stuck = false, partial = false, multi = false;
  note("sink of at most %u", cap);
  End pipe(&s, INT32_MAX, false);
  C3PTypePipeSource src(TCode::CBOR, &pipe);
  unsigned step = 0;
  while (more(s, step, 50, 14)) {
    switch (s.weighted({4, 6, 1})) {
      case 0: {
          std::string enc;
          CHECK(0 == push_some(s, &src, enc), "pushValue() failed, with nothing in the way");
          want.push_back(enc);
          stream += enc;
        } break;
      case 1: {
          const uint32_t n = s.b(40) ? (uint32_t) stream.size() : s.u((uint32_t) stream.size() + 1);
          const std::string in = stream.substr(0, n);
          stream.erase(0, n);
          frag(s, &buf, in);
          wire += in;
          /* What should be delivered now: all the values that are here in full, up to one that is too long. */
          size_t take = 0, k = next;
          while ((k < want.size()) && (take + want[k].size() <= wire.size()) && (want[k].size() <= cap)) take += want[k++].size();
          if ((k < want.size()) && (want[k].size() > cap)) stuck = true;
          note("%u bytes arrive, %zu are waiting, %zu values are complete", n, wire.size(), k - next);
          const size_t before = got.size();
          int8_t rc = 9;
          const std::string took = push(&sink, &buf, "the typed sink", &rc);
          CHECK(got.size() - before == k - next, "%zu values were delivered, of %zu that are complete", got.size() - before, k - next);
          for (size_t i = next; i < k; i++) {
            CHECK(got[i] == want[i], "value %zu arrived as %s, not %s", i, hex(got[i].data(), got[i].size()).c_str(), hex(want[i].data(), want[i].size()).c_str());
          }
          CHECK(took.size() == take, "%zu bytes were taken for values of %zu", took.size(), take);
          claimed += take;
          wire.erase(0, take);
          if (k - next > 1) multi = true;
          if ((rc == 0) || ((rc == -1) && !wire.empty())) partial = true;
          next = k;
        } break;
      default:
        CHECK(-1 == sink.pushBuffer(nullptr), "the typed sink claimed a null buffer");
        break;
    }
    CHECK(sink.byteCount() == claimed, "byteCount() %u, after %zu bytes of values", sink.byteCount(), claimed);
    CHECK(sink.bufferAvailable() == (int32_t) cap, "bufferAvailable() %d, for a sink of %u", sink.bufferAvailable(), cap);
  }
  delivered = nullptr;
  if (stuck) label("a value that is too long for the sink");
  if (partial) label("split values");
  if (multi) label("several values in a push");
  if (partial && multi) nontrivial();
}

/* Maps, from end to end. */
TARGET_F(P03, maps, 3000, 60000, F_LEAK) {
  std::vector<std::string> got, want;
  delivered = &got;
  C3PTypePipeSink sink(TCode::CBOR, 8192, on_value);
  C3PTypePipeSource src(TCode::CBOR, &sink);
  unsigned big = 0;
  unsigned step = 0;
  while (more(s, step, 20, 6)) {
    std::deque<std::string> texts;
    KeyValuePair top("first", (uint32_t) s.word(32));
    unsigned n = 1;
    unsigned kn = 0;
    while (more(s, kn, 20, 5)) {
      texts.push_back("k" + std::to_string(n++));
      const char* key = texts.back().c_str();
      switch (s.u(4)) {
        case 0:  top.append((int32_t) s.sword(32), key);  break;
        case 1:  texts.push_back(s.text(s.size(20), "xyz "));  top.append((char*) texts.back().c_str(), key);  break;
        case 2:  top.append((bool) s.b(50), key);  break;
        default: top.append((uint8_t) s.u(256), key);  break;
      }
    }
    StringBuilder ser;
    CHECK(0 == top.serialize(&ser, TCode::CBOR), "a map doesn't serialize");
    const std::string enc = flat(&ser);
    const size_t before = got.size();
    const uint32_t bc = src.byteCount();
    note("map of %u: %s", n, hex(enc.data(), enc.size()).c_str());
    CHECK(0 == src.pushValue(&top), "pushValue() failed, with nothing in the way");
    CHECK(src.byteCount() - bc == enc.size(), "byteCount() grew by %u for a map of %zu bytes", src.byteCount() - bc, enc.size());
    CHECK(got.size() == before + 1, "%zu values were delivered for one map", got.size() - before);
    want.push_back(enc);
    if (n > 3) big++;
    CHECK(got.back() == enc, "the map arrived as %s, not %s", hex(got.back().data(), got.back().size()).c_str(), hex(enc.data(), enc.size()).c_str());
  }
  delivered = nullptr;
  if (big) nontrivial();
}


/*******************************************************************************
* P04: vectors through a tree of three-axis stages.
*******************************************************************************/
struct V3 {
  float x, y, z;
  bool operator==(const V3& o) const {  return !memcmp(this, &o, sizeof(V3));  }
};
static V3 v3(Vector3f* v) {  return V3{v->x, v->y, v->z};  }
static V3 some_v3(Src& s) {
  V3 r;
  float* p[3] = {&r.x, &r.y, &r.z};
  for (float* f : p) *f = (float) s.i(-1000, 1000) / 8.0f;
  return r;
}
static std::string show(const V3& v) {
  char b[80];
  snprintf(b, sizeof(b), "(%g, %g, %g)", (double) v.x, (double) v.y, (double) v.z);
  return b;
}

struct CbCall {  SpatialSense s;  V3 d;  bool has_e;  V3 e;  uint32_t seq;  };
static std::vector<CbCall>* cb_log = nullptr;
static int8_t cb_ret = 0;
static int8_t on_vector(SpatialSense s, Vector3f* d, Vector3f* e, uint32_t seq) {
  CHECK(nullptr != d, "a callback without data");
  CHECK(nullptr != cb_log, "an unexpected callback");
  cb_log->push_back(CbCall{s, v3(d), nullptr != e, e ? v3(e) : V3{0, 0, 0}, seq});
  return cb_ret;
}

/* A stage, and what it should do. */
struct Stage {
  enum Kind {  TERM, FORK, FILTER  } kind = TERM;
  SpatialSense sense = SpatialSense::UNITLESS;
  bool cb = false;
  std::shared_ptr<TripleAxisPipe> pipe;      // which remembers how to delete what it was given: the interface has no destructor
  Stage* kid[2] = {nullptr, nullptr};
  // Terminus
  V3 d{0, 0, 0}, e{0, 0, 0};
  bool has_e = false, fresh = false;
  uint32_t count = 0, at = 0;
  // Filter
  std::unique_ptr<SensorFilter3<float>> ref;
  FilteringStrategy strat = FilteringStrategy::RAW;
  unsigned win = 1;
  bool dirty = false, dirty_known = true;
  unsigned outputs = 0, relays = 0;

  int8_t push(SpatialSense s, const V3& v, const V3* er, std::vector<CbCall>& calls) {
    switch (kind) {
      case TERM:
        if (s != sense) return -1;
        d = v;
        if (er) {  e = *er;  has_e = true;  }
        count++;
        at = (uint32_t) millis();
        if (cb) {
          calls.push_back(CbCall{s, d, has_e, has_e ? e : V3{0, 0, 0}, count});
          fresh = (0 != cb_ret);
        }
        else fresh = true;
        return 0;
      case FORK: {
          int8_t r = -2;
          for (Stage* k : kid) if (k && (0 == k->push(s, v, er, calls))) r++;
          return r;
        }
      case FILTER: {
          if (s != sense) {
            relays++;
            return kid[0] ? kid[0]->push(s, v, er, calls) : -1;
          }
          Vector3f in(v.x, v.y, v.z);
          if (1 == ref->feedFilter(&in)) {
            outputs++;
            if (er) {
              has_e = true;
              e = *er;
              if (strat == FilteringStrategy::MOVING_AVG) {
                const float w = (float) (win * win);
                e.x /= w;  e.y /= w;  e.z /= w;
              }
            }
            dirty = dirty_known = true;
            if (kid[0]) {
              const V3 out = v3(ref->value());
              dirty = 0 > kid[0]->push(s, out, has_e ? &e : nullptr, calls);
            }
          }
          return 0;
        }
    }
    return 0;
  }
};

static const SpatialSense SENSES[6] = {
  SpatialSense::UNITLESS, SpatialSense::ACC, SpatialSense::GYR, SpatialSense::MAG, SpatialSense::EULER_ANG, SpatialSense::BEARING
};

static Stage* some_stage(Src& s, std::vector<std::unique_ptr<Stage>>& all, unsigned depth) {
  all.emplace_back(new Stage());
  Stage* st = all.back().get();
  st->sense = SENSES[s.b(60) ? 1 + s.u(2) : s.u(6)];
  const unsigned k = (depth >= 4) ? 0 : s.weighted({3, 4, 2});
  if (k == 0) {
    st->kind = Stage::TERM;
    st->cb = s.b(50);
    st->pipe.reset(st->cb ? new TripleAxisTerminus(st->sense, on_vector) : new TripleAxisTerminus(st->sense));
    note("%zu: terminus for %d%s", all.size(), (int) st->sense, st->cb ? ", with a callback" : "");
  }
  else if (k == 1) {
    st->kind = Stage::FORK;
    note("%zu: fork of", all.size());
    for (Stage*& c : st->kid) if (s.b(90)) c = some_stage(s, all, depth + 1);
    TripleAxisPipe* l = st->kid[0] ? st->kid[0]->pipe.get() : nullptr;
    TripleAxisPipe* r = st->kid[1] ? st->kid[1]->pipe.get() : nullptr;
    if (s.b(50)) st->pipe.reset(new TripleAxisFork(l, r));
    else {
      TripleAxisFork* f = new TripleAxisFork();
      f->setLeft(l);
      f->setRight(r);
      st->pipe.reset(f);
    }
  }
  else {
    st->kind = Stage::FILTER;
    st->strat = s.b(50) ? FilteringStrategy::RAW : FilteringStrategy::MOVING_AVG;
    st->win = s.b(2) ? 200 + s.u(400) : 1 + s.size(5);
    note("%zu: filter %s of %u for %d, into", all.size(), getFilterStr(st->strat), st->win, (int) st->sense);
    if (s.b(90)) st->kid[0] = some_stage(s, all, depth + 1);
    st->ref.reset(new SensorFilter3<float>((int) st->win, st->strat));
    CHECK(0 == st->ref->init(), "init()");
    st->pipe.reset(new TripleAxisSingleFilter(st->sense, st->kid[0] ? st->kid[0]->pipe.get() : nullptr, st->strat, (int) st->win));
  }
  return st;
}

TARGET_F(P04, vectors, 8000, 160000, F_LEAK) {
  std::vector<std::unique_ptr<Stage>> all;
  Stage* root = some_stage(s, all, 0);
  std::vector<CbCall> calls, want;
  cb_log = &calls;
  unsigned forks = 0, hits = 0, outs = 0, misses = 0;
  Stage* wide = nullptr;
  for (auto& p : all) {
    forks += (p->kind == Stage::FORK);
    if (p->kind == Stage::FILTER && p->win > 64) wide = p.get();
  }
  if (wide) label("a wide filter");
  unsigned step = 0;
  while (more(s, step, 40, 14)) {
    auto push_one = [&](const SpatialSense se, const V3 v, const bool has_e, const V3 e) {
          Vector3f dv(v.x, v.y, v.z), ev(e.x, e.y, e.z);
          calls.clear();
          want.clear();
          const int8_t w = root->push(se, v, has_e ? &e : nullptr, want);
          const int8_t r = root->pipe->pushVector(se, &dv, has_e ? &ev : nullptr);
          note("push %d %s%s -> %d", (int) se, show(v).c_str(), has_e ? (" +/- " + show(e)).c_str() : "", r);
          CHECK(v3(&dv) == v && v3(&ev) == e, "the vector that was pushed was changed");
          CHECK(r == w, "pushVector() returned %d, not %d", r, w);
          CHECK(calls.size() == want.size(), "%zu callbacks, rather than %zu", calls.size(), want.size());
          for (size_t i = 0; i < want.size(); i++) {
            CHECK(calls[i].s == want[i].s && calls[i].d == want[i].d && calls[i].seq == want[i].seq && calls[i].has_e == want[i].has_e && calls[i].e == want[i].e,
              "callback %zu had sense %d, %s, number %u, error %d %s. It should have had %d, %s, %u, %d %s", i, (int) calls[i].s, show(calls[i].d).c_str(), calls[i].seq,
              calls[i].has_e, show(calls[i].e).c_str(), (int) want[i].s, show(want[i].d).c_str(), want[i].seq, want[i].has_e, show(want[i].e).c_str());
          }
          if (w == 0) hits++; else misses++;
    };
    switch (s.weighted({10, 2, 1, 1, wide ? 3u : 0u})) {
      case 4: {
          /* As many as a wide filter wants. */
          const V3 v = some_v3(s);
          const bool has_e = s.b(60);
          const V3 e = some_v3(s);
          cb_ret = (int8_t) s.i(-1, 1);
          for (unsigned i = 0, n = wide->win + s.u(8); i < n; i++) push_one(wide->sense, (i & 1) ? v : e, has_e, e);
        } break;
      case 0: {
          const SpatialSense se = SENSES[s.b(70) ? 1 + s.u(2) : s.u(6)];
          const V3 v = some_v3(s);
          const bool has_e = s.b(60);
          const V3 e = some_v3(s);
          cb_ret = (int8_t) s.i(-1, 1);
          sim_micros += s.u(5000);
          push_one(se, v, has_e, e);
        } break;
      case 1: {
          Stage* st = all[s.u((uint32_t) all.size())].get();
          if (st->kind == Stage::TERM) {
            TripleAxisTerminus* t = (TripleAxisTerminus*) st->pipe.get();
            Vector3f d(9, 9, 9), e(9, 9, 9);
            uint32_t seq = 0;
            const bool we = s.b(60), wc = s.b(60);
            const int8_t r = t->getDataWithErr(&d, we ? &e : nullptr, wc ? &seq : nullptr);
            note("get -> %d", r);
            CHECK(r == (st->fresh ? 1 : 0), "getDataWithErr() returned %d for %s data", r, st->fresh ? "fresh" : "stale");
            CHECK(v3(&d) == st->d, "getDataWithErr() gave %s, not %s", show(v3(&d)).c_str(), show(st->d).c_str());
            if (we && st->has_e) CHECK(v3(&e) == st->e, "getDataWithErr() gave an error of %s, not %s", show(v3(&e)).c_str(), show(st->e).c_str());
            if (wc) CHECK(seq == st->count, "getDataWithErr() gave number %u, not %u", seq, st->count);
            st->fresh = false;
          }
          else if (st->kind == Stage::FILTER) {
            TripleAxisSingleFilter* f = (TripleAxisSingleFilter*) st->pipe.get();
            Vector3f d(9, 9, 9), e(9, 9, 9);
            const bool we = s.b(60);
            const int8_t r = f->getDataWithErr(&d, we ? &e : nullptr);
            note("get from a filter -> %d", r);
            if (st->dirty_known) CHECK(r == (st->dirty ? 1 : 0), "getDataWithErr() of a filter returned %d for %s data", r, st->dirty ? "fresh" : "stale");
            CHECK(v3(&d) == v3(st->ref->value()), "getDataWithErr() of a filter gave %s, not %s", show(v3(&d)).c_str(), show(v3(st->ref->value())).c_str());
            if (we && st->has_e) CHECK(v3(&e) == st->e, "getDataWithErr() of a filter gave an error of %s, not %s", show(v3(&e)).c_str(), show(st->e).c_str());
            st->dirty = false;
            st->dirty_known = true;
          }
        } break;
      case 2: {
          Stage* st = all[s.u((uint32_t) all.size())].get();
          if ((st->kind == Stage::TERM) && s.b(50)) {
            note("reset");
            ((TripleAxisTerminus*) st->pipe.get())->reset();
            st->d = st->e = V3{0, 0, 0};
            st->has_e = st->fresh = false;
            st->count = st->at = 0;
          }
        } break;
      default: {
          StringBuilder out;
          root->pipe->printPipe(&out, (uint8_t) s.u(4), (uint8_t) s.u(8));
          for (auto& p : all) p->dirty_known = false;   // Printing a filter reads its value.
        } break;
    }
    for (auto& p : all) {
      if (p->kind == Stage::TERM) {
        TripleAxisTerminus* t = (TripleAxisTerminus*) p->pipe.get();
        CHECK(t->sense() == p->sense, "sense()");
        CHECK(v3(t->getData()) == p->d, "a terminus holds %s, not %s", show(v3(t->getData())).c_str(), show(p->d).c_str());
        CHECK(t->haveError() == p->has_e, "haveError() %d", t->haveError());
        if (p->has_e) CHECK(v3(t->getError()) == p->e, "a terminus holds an error of %s, not %s", show(v3(t->getError())).c_str(), show(p->e).c_str());
        CHECK(t->dataFresh() == p->fresh, "dataFresh() %d", t->dataFresh());
        CHECK(t->updateCount() == p->count, "updateCount() %u, not %u", t->updateCount(), p->count);
        CHECK(t->lastUpdate() == p->at, "lastUpdate() %u, not %u", t->lastUpdate(), p->at);
      }
      else if (p->kind == Stage::FILTER) {
        TripleAxisSingleFilter* f = (TripleAxisSingleFilter*) p->pipe.get();
        CHECK(f->haveError() == p->has_e, "haveError() %d of a filter", f->haveError());
        if (p->has_e) CHECK(v3(f->getError()) == p->e, "a filter holds an error of %s, not %s", show(v3(f->getError())).c_str(), show(p->e).c_str());
        outs += p->outputs;
      }
    }
  }
  cb_log = nullptr;
  if (forks) label("forks");
  if (outs) label("filter output");
  if (forks && hits && misses) nontrivial();
}
