/*
* C02: what is encoded to CBOR decodes to what was encoded.
* C03: the CBOR decoders take whole items only, whatever the input and however it is fragmented.
*/
#include "pbt.h"
#include "CppPotpourri.h"
#include "AbstractPlatform.h"
#include "StringBuilder.h"
#include "C3PValue/C3PValue.h"
#include "C3PValue/KeyValuePair.h"
#include "cbor-cpp/cbor.h"
#include "TimerTools/TimerTools.h"
#include "Vector3.h"
#include <math.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <deque>
#include <memory>
using namespace pbt;

static std::string flat(StringBuilder* b) {
  const int n = b->length();
  if (n <= 0) return std::string();
  std::string r((size_t) n, '\0');
  b->copyToBuffer((uint8_t*) &r[0], (uint32_t) n);
  return r;
}

/* A StringBuilder with the given content, in random pieces. */
static void frag(Src& s, StringBuilder* b, const std::string& m) {
  size_t at = 0;
  for (unsigned pieces = 0; at < m.size(); pieces++) {
    size_t n = (pieces > 200) ? m.size() : 1 + s.size((uint32_t) (m.size() - at));
    if (n > m.size() - at) n = m.size() - at;
    StringBuilder part((uint8_t*) m.data() + at, (uint32_t) n);
    b->concatHandoff(&part);
    at += n;
  }
}

/*******************************************************************************
* CBOR, by RFC 8949.
*******************************************************************************/
enum NodeKind {  K_UINT, K_NINT, K_BYTES, K_STR, K_ARR, K_MAP, K_TAG, K_F32, K_F64, K_BOOL, K_NULL, K_UNDEF, K_SIMPLE, K_F16  };
struct Node {
  NodeKind kind = K_NULL;
  uint64_t v = 0;             // integer, tag, simple value, float bits. Negative integers are -1-v.
  std::string s;
  std::vector<Node> c;        // elements; keys and values alternating
};
enum Status {  S_OK, S_SHORT, S_BAD  };

static Status ref_decode(const std::string& b, size_t& at, Node& n, unsigned depth = 0) {
  if (at >= b.size()) return S_SHORT;
  const uint8_t head = (uint8_t) b[at];
  const unsigned major = head >> 5, minor = head & 31;
  size_t p = at + 1;
  uint64_t v = minor;
  if (minor >= 28) return S_BAD;
  if (minor >= 24) {
    const size_t w = (size_t) 1 << (minor - 24);
    if (b.size() - p < w) return S_SHORT;
    v = 0;
    for (size_t k = 0; k < w; k++) v = (v << 8) | (uint8_t) b[p + k];
    p += w;
  }
  n = Node();
  n.v = v;
  switch (major) {
    case 0:  n.kind = K_UINT;  break;
    case 1:  n.kind = K_NINT;  break;
    case 2:
    case 3:
      n.kind = major == 2 ? K_BYTES : K_STR;
      if (v > b.size() - p) return S_SHORT;
      n.s = b.substr(p, (size_t) v);
      p += (size_t) v;
      break;
    case 4:
    case 5: {
      n.kind = major == 4 ? K_ARR : K_MAP;
      if (v > 0x7FFFFFFF) return S_SHORT;
      const uint64_t cnt = major == 4 ? v : v * 2;
      for (uint64_t k = 0; k < cnt; k++) {
        Node c;
        const Status st = ref_decode(b, p, c, depth + 1);
        if (st != S_OK) return st;
        n.c.push_back(c);
      }
      break;
    }
    case 6: {
      n.kind = K_TAG;
      Node c;
      const Status st = ref_decode(b, p, c, depth + 1);
      if (st != S_OK) return st;
      n.c.push_back(c);
      break;
    }
    default:
      if (minor == 20 || minor == 21) {  n.kind = K_BOOL;  n.v = minor - 20;  }
      else if (minor == 22) n.kind = K_NULL;
      else if (minor == 23) n.kind = K_UNDEF;
      else if (minor == 25) n.kind = K_F16;
      else if (minor == 26) n.kind = K_F32;
      else if (minor == 27) n.kind = K_F64;
      else n.kind = K_SIMPLE;
      break;
  }
  at = p;
  return S_OK;
}

/* The head of an item, in the shortest or any wider form. */
static void put_head(std::string& o, unsigned major, uint64_t v, unsigned widen) {
  unsigned w = v < 24 ? 0 : v < 0x100 ? 1 : v < 0x10000 ? 2 : v < 0x100000000ULL ? 3 : 4;
  w = w + widen > 4 ? 4 : w + widen;
  if (!w) {  o.push_back((char) ((major << 5) | v));  return;  }
  o.push_back((char) ((major << 5) | (23 + w)));
  const unsigned bytes = 1u << (w - 1);
  for (unsigned k = bytes; k-- > 0;) o.push_back((char) (v >> (8 * k)));
}
static void ref_encode(Src* s, const Node& n, std::string& o) {
  auto wid = [&]() -> unsigned {  return s && s->b(25) ? 1 + s->u(4) : 0;  };
  switch (n.kind) {
    case K_UINT:  put_head(o, 0, n.v, wid());  break;
    case K_NINT:  put_head(o, 1, n.v, wid());  break;
    case K_BYTES: put_head(o, 2, n.s.size(), wid());  o += n.s;  break;
    case K_STR:   put_head(o, 3, n.s.size(), wid());  o += n.s;  break;
    case K_ARR:   put_head(o, 4, n.c.size(), wid());  for (auto& c : n.c) ref_encode(s, c, o);  break;
    case K_MAP:   put_head(o, 5, n.c.size() / 2, wid());  for (auto& c : n.c) ref_encode(s, c, o);  break;
    case K_TAG:   put_head(o, 6, n.v, wid());  ref_encode(s, n.c[0], o);  break;
    case K_F32:   o.push_back((char) 0xFA);  for (int k = 3; k >= 0; k--) o.push_back((char) (n.v >> (8 * k)));  break;
    case K_F64:   o.push_back((char) 0xFB);  for (int k = 7; k >= 0; k--) o.push_back((char) (n.v >> (8 * k)));  break;
    case K_F16:   o.push_back((char) 0xF9);  o.push_back((char) (n.v >> 8));  o.push_back((char) n.v);  break;
    case K_BOOL:  o.push_back((char) (n.v ? 0xF5 : 0xF4));  break;
    case K_NULL:  o.push_back((char) 0xF6);  break;
    case K_UNDEF: o.push_back((char) 0xF7);  break;
    case K_SIMPLE: if (n.v < 20) o.push_back((char) (0xE0 | n.v)); else {  o.push_back((char) 0xF8);  o.push_back((char) n.v);  }  break;
  }
}
static std::string show(const Node& n) {
  char t[64];
  switch (n.kind) {
    case K_UINT:  snprintf(t, sizeof t, "%llu", (unsigned long long) n.v);  return t;
    case K_NINT:  snprintf(t, sizeof t, "-1-%llu", (unsigned long long) n.v);  return t;
    case K_BYTES: return "h'" + hex(n.s.data(), n.s.size()) + "'";
    case K_STR:   return quote(n.s);
    case K_F32:   snprintf(t, sizeof t, "f32:%08x", (unsigned) n.v);  return t;
    case K_F64:   snprintf(t, sizeof t, "f64:%016llx", (unsigned long long) n.v);  return t;
    case K_F16:   snprintf(t, sizeof t, "f16:%04x", (unsigned) n.v);  return t;
    case K_BOOL:  return n.v ? "true" : "false";
    case K_NULL:  return "null";
    case K_UNDEF: return "undefined";
    case K_SIMPLE: snprintf(t, sizeof t, "simple(%u)", (unsigned) n.v);  return t;
    case K_TAG:   snprintf(t, sizeof t, "%llu(", (unsigned long long) n.v);  return t + show(n.c[0]) + ")";
    case K_ARR: case K_MAP: {
      std::string r = n.kind == K_ARR ? "[" : "{";
      for (size_t i = 0; i < n.c.size(); i++) {
        if (i) r += n.kind == K_MAP && (i & 1) ? ": " : ", ";
        r += show(n.c[i]);
      }
      return r + (n.kind == K_ARR ? "]" : "}");
    }
  }
  return "?";
}
static bool same(const Node& a, const Node& b) {
  if (a.kind != b.kind || a.c.size() != b.c.size()) return false;
  switch (a.kind) {
    case K_BYTES: case K_STR:  if (a.s != b.s) return false;  break;
    case K_ARR: case K_MAP: case K_NULL: case K_UNDEF:  break;
    default:  if (a.v != b.v) return false;
  }
  for (size_t i = 0; i < a.c.size(); i++) if (!same(a.c[i], b.c[i])) return false;
  return true;
}
static Node n_int(bool neg, uint64_t mag) {  Node n;  n.kind = neg ? K_NINT : K_UINT;  n.v = neg ? mag - 1 : mag;  return n;  }
static Node n_uint(uint64_t v) {  return n_int(false, v);  }
static Node n_sint(int64_t v) {  return v < 0 ? n_int(true, (uint64_t) 0 - (uint64_t) v) : n_int(false, (uint64_t) v);  }
static Node n_str(const std::string& s) {  Node n;  n.kind = K_STR;  n.s = s;  return n;  }
static Node n_bytes(const std::string& s) {  Node n;  n.kind = K_BYTES;  n.s = s;  return n;  }
static Node n_f32(float f) {  Node n;  n.kind = K_F32;  uint32_t u;  memcpy(&u, &f, 4);  n.v = u;  return n;  }
static Node n_f64(double f) {  Node n;  n.kind = K_F64;  memcpy(&n.v, &f, 8);  return n;  }
static Node n_bool(bool b) {  Node n;  n.kind = K_BOOL;  n.v = b;  return n;  }
static Node n_tag(uint64_t t, const Node& c) {  Node n;  n.kind = K_TAG;  n.v = t;  n.c.push_back(c);  return n;  }

struct VTy {  TCode tc; unsigned tag; unsigned size;  };
static const VTy VTYS[8] = {
  {TCode::VECT_3_UINT8, 68, 1}, {TCode::VECT_3_UINT16, 69, 2}, {TCode::VECT_3_UINT32, 70, 4}, {TCode::VECT_3_INT8, 76, 1},
  {TCode::VECT_3_INT16, 77, 2}, {TCode::VECT_3_INT32, 78, 4}, {TCode::VECT_3_FLOAT, 85, 4}, {TCode::VECT_3_DOUBLE, 86, 8},
};
static const unsigned VENDOR = 0xE900;
static unsigned tcn(TCode t) {  return (unsigned) TcodeToInt(t);  }
static const VTy* vec_of(const Node& n) {
  if (n.kind != K_TAG || n.c[0].kind != K_TAG || n.c[0].c[0].kind != K_BYTES) return nullptr;
  for (auto& t : VTYS) if (n.v == (VENDOR | tcn(t.tc)) && n.c[0].v == t.tag && n.c[0].c[0].s.size() == 3 * t.size) return &t;
  return nullptr;
}
static bool is_watch(const Node& n) {
  if (n.kind != K_TAG || n.v != (VENDOR | tcn(TCode::STOPWATCH)) || n.c[0].kind != K_MAP || n.c[0].c.empty()) return false;
  for (size_t i = 0; i < n.c[0].c.size(); i += 2) {
    const Node& k = n.c[0].c[i];
    const Node& v = n.c[0].c[i + 1];
    if (k.kind != K_STR || k.s.size() != 1 || !k.s[0] || !strchr("getawbl", k.s[0]) || v.kind != K_UINT || v.v > 0xFFFFFFFFULL) return false;
    for (size_t j = 0; j < i; j += 2) if (n.c[0].c[j].s == k.s) return false;
  }
  return true;
}

/* The values as C3PValue (and KeyValuePair) represent them: lists, of which maps and arrays are the same. */
struct Leaf {  bool key = false; std::string k; Node n; std::vector<Leaf> kvp; bool is_kvp = false;  };

/* Everything that the decoder is to understand. */
static bool supported(const Node& n, bool in_map = false) {
  switch (n.kind) {
    case K_UINT: case K_BOOL: case K_F32: case K_F64: case K_STR: case K_BYTES:  return true;
    case K_NINT:   return n.v <= (uint64_t) INT64_MAX;
    case K_NULL: case K_UNDEF:  return !in_map;
    case K_ARR:
      if (n.c.empty()) return false;
      for (auto& c : n.c) if (!supported(c, in_map)) return false;
      return true;
    case K_MAP:
      if (n.c.empty()) return false;
      for (size_t i = 0; i < n.c.size(); i += 2) if (n.c[i].kind != K_STR || !supported(n.c[i + 1], true)) return false;
      return true;
    case K_TAG:    return vec_of(n) || is_watch(n);
    default:       return false;
  }
}
static std::vector<Leaf> flatten(const Node& n) {
  std::vector<Leaf> r;
  if (n.kind == K_ARR) {
    for (auto& c : n.c) {
      auto f = flatten(c);
      r.insert(r.end(), f.begin(), f.end());
    }
  }
  else if (n.kind == K_MAP) {
    for (size_t i = 0; i < n.c.size(); i += 2) {
      auto f = flatten(n.c[i + 1]);
      Leaf l;
      if (f[0].key) {
        l.is_kvp = true;
        l.kvp = f;
        f.clear();
        f.push_back(l);
      }
      f[0].key = true;
      f[0].k   = n.c[i].s.c_str();
      r.insert(r.end(), f.begin(), f.end());
    }
  }
  else {
    Leaf l;
    l.n = n;
    r.push_back(l);
  }
  return r;
}

static void check_leaf(C3PValue* v, const Node& n) {
  const std::string w = show(n);
  switch (n.kind) {
    case K_UINT: {
      uint64_t x = 0;
      CHECK(0 == v->get_as(&x) && x == n.v && v->is_numeric(), "%s decoded to %llu (type %s)", w.c_str(), (unsigned long long) x, typecodeToStr(v->tcode()));
      break;
    }
    case K_NINT: {
      int64_t x = 0;
      CHECK(0 == v->get_as(&x) && x == -1 - (int64_t) n.v, "%s decoded to %lld (type %s)", w.c_str(), (long long) x, typecodeToStr(v->tcode()));
      break;
    }
    case K_BOOL: {
      bool x = !n.v;
      CHECK(v->tcode() == TCode::BOOLEAN && 0 == v->get_as(&x) && x == (n.v != 0), "%s decoded to type %s", w.c_str(), typecodeToStr(v->tcode()));
      break;
    }
    case K_F32: {
      float x = 0;
      CHECK(v->tcode() == TCode::FLOAT && 0 == v->get_as(&x), "%s decoded to type %s", w.c_str(), typecodeToStr(v->tcode()));
      uint32_t u;
      memcpy(&u, &x, 4);
      CHECK(u == n.v || (x != x && (n.v & 0x7FFFFFFF) > 0x7F800000), "%s decoded to f32:%08x", w.c_str(), u);
      break;
    }
    case K_F64: {
      double x = 0;
      CHECK(v->tcode() == TCode::DOUBLE && 0 == v->get_as(&x), "%s decoded to type %s", w.c_str(), typecodeToStr(v->tcode()));
      uint64_t u;
      memcpy(&u, &x, 8);
      CHECK(u == n.v || (x != x && (n.v & INT64_MAX) > 0x7FF0000000000000ULL), "%s decoded to f64:%016llx", w.c_str(), (unsigned long long) u);
      break;
    }
    case K_STR: {
      char* x = nullptr;
      CHECK(v->tcode() == TCode::STR && 0 == v->get_as(&x) && x && 0 == strcmp(x, n.s.c_str()), "%s decoded to %s (type %s)", w.c_str(), x ? quote(x).c_str() : "null", typecodeToStr(v->tcode()));
      break;
    }
    case K_BYTES: {
      uint8_t* p = nullptr;
      uint32_t l = 0;
      CHECK(v->tcode() == TCode::BINARY && 0 == v->get_as(&p, &l) && l == n.s.size() && (0 == l || 0 == memcmp(p, n.s.data(), l)), "%s decoded to type %s, %u bytes %s", w.c_str(), typecodeToStr(v->tcode()), l, p ? hex(p, l).c_str() : "-");
      break;
    }
    case K_NULL: case K_UNDEF:
      CHECK(v->tcode() == TCode::NONE, "%s decoded to type %s", w.c_str(), typecodeToStr(v->tcode()));
      break;
    case K_TAG: {
      const VTy* t = vec_of(n);
      if (t) {
        CHECK(v->tcode() == t->tc, "%s decoded to type %s", w.c_str(), typecodeToStr(v->tcode()));
        uint8_t raw[24];
        const std::string& want = n.c[0].c[0].s;
        bool ok = false;
        #define VG(TC, T) case TC: {  Vector3<T> x;  ok = 0 == v->get_as(&x);  memcpy(raw, &x.x, sizeof(T));  memcpy(raw + sizeof(T), &x.y, sizeof(T));  memcpy(raw + 2 * sizeof(T), &x.z, sizeof(T));  break;  }
        switch (t->tc) {
          VG(TCode::VECT_3_UINT8, uint8_t)  VG(TCode::VECT_3_UINT16, uint16_t)  VG(TCode::VECT_3_UINT32, uint32_t)
          VG(TCode::VECT_3_INT8, int8_t)  VG(TCode::VECT_3_INT16, int16_t)  VG(TCode::VECT_3_INT32, int32_t)
          VG(TCode::VECT_3_FLOAT, float)  VG(TCode::VECT_3_DOUBLE, double)
          default:  break;
        }
        #undef VG
        bool eq = 0 == memcmp(raw, want.data(), want.size());
        // NaN payloads are not promised.
        if (!eq && t->tc == TCode::VECT_3_FLOAT) {
          eq = true;
          for (int k = 0; k < 3; k++) {  float a, b;  memcpy(&a, raw + 4 * k, 4);  memcpy(&b, want.data() + 4 * k, 4);  if (memcmp(&a, &b, 4) && !(a != a && b != b)) eq = false;  }
        }
        if (!eq && t->tc == TCode::VECT_3_DOUBLE) {
          eq = true;
          for (int k = 0; k < 3; k++) {  double a, b;  memcpy(&a, raw + 8 * k, 8);  memcpy(&b, want.data() + 8 * k, 8);  if (memcmp(&a, &b, 8) && !(a != a && b != b)) eq = false;  }
        }
        CHECK(ok && eq, "%s decoded to %s", w.c_str(), hex(raw, 3 * t->size).c_str());
      }
      else {
        CHECK(v->tcode() == TCode::STOPWATCH, "%s decoded to type %s", w.c_str(), typecodeToStr(v->tcode()));
        StopWatch* sw = nullptr;
        CHECK(0 == v->get_as(&sw) && sw, "%s decoded to a null StopWatch", w.c_str());
        uint32_t want[7] = {0, 0, 0, 0, 0, 0, 0};
        bool     has[7]  = {false};
        for (size_t i = 0; i < n.c[0].c.size(); i += 2) {
          const size_t at = strchr("getawbl", n.c[0].c[i].s[0]) - "getawbl";
          want[at] = (uint32_t) n.c[0].c[i + 1].v;
          has[at]  = true;
        }
        const uint32_t got[7] = {(uint32_t) sw->tag(), (uint32_t) sw->executions(), (uint32_t) sw->totalTime(), (uint32_t) sw->meanTime(), (uint32_t) sw->worstTime(), (uint32_t) sw->bestTime(), (uint32_t) sw->lastTime()};
        for (int k = 0; k < 7; k++) CHECK(!has[k] || got[k] == want[k], "field \"%c\" of %s decoded to %u", "getawbl"[k], w.c_str(), got[k]);
      }
      break;
    }
    default:  fail("harness: unexpected node");
  }
}
static void check_list(C3PValue* v, const std::vector<Leaf>& m, const Node& whole) {
  for (size_t i = 0; i < m.size(); i++) {
    CHECK(v, "%s decoded to %zu values, expected %zu", show(whole).c_str(), i, m.size());
    CHECK(v->has_key() == m[i].key, "element %zu of decoded %s %s a key", i, show(whole).c_str(), v->has_key() ? "has" : "lacks");
    if (m[i].key) {
      const char* k = ((KeyValuePair*) v)->getKey();
      CHECK(k && m[i].k == k, "key of element %zu of decoded %s is %s", i, show(whole).c_str(), k ? quote(k).c_str() : "null");
    }
    if (m[i].is_kvp) {
      KeyValuePair* k = v->tcode() == TCode::KVP ? v->get_as_kvp() : nullptr;
      CHECK(k, "element %zu of decoded %s has type %s, expected a nested map", i, show(whole).c_str(), typecodeToStr(v->tcode()));
      check_list(k, m[i].kvp, whole);
    }
    else check_leaf(v, m[i].n);
    v = v->nextValue();
  }
  CHECK(!v, "%s decoded to more than %zu values", show(whole).c_str(), m.size());
}

/*******************************************************************************
* C02
*******************************************************************************/
/* Whatever the values refer to. */
struct Pool {
  std::deque<std::string> strs;
  std::vector<StringBuilder*> sbs;
  std::vector<StopWatch*> sws;
  std::vector<C3PValue*> vals;
  const char* keep(const std::string& s) {  strs.push_back(s);  return strs.back().c_str();  }
  ~Pool() {
    for (auto v : vals) delete v;
    for (auto p : sbs) delete p;
    for (auto p : sws) delete p;
  }
};
static std::string some_text(Src& s) {
  if (s.b(6)) return s.text(200 + s.u(900), "ab");          // long lengths
  return s.text(s.size(30), "abcXYZ 0189_\xC3\xA9\n\"{");
}

/* One value of any type with an encoding. If key is null, a C3PValue. Kvp lists are built by the caller. */
static C3PValue* some_value(Src& s, Pool& P, const char* key, Node& n, unsigned& cls) {
  C3PValue* r = nullptr;
  const bool mutkey = key && s.b(30);
  // The key is copied if it isn't const.
  std::string kbuf = key ? key : "";
  char* mk = mutkey ? &kbuf[0] : nullptr;
  #define MK(X) (key ? (mutkey ? (C3PValue*) new KeyValuePair(mk, X) : (C3PValue*) new KeyValuePair(key, X)) : new C3PValue(X))
  cls = s.weighted({12, 3, 4, 6, 4, 6, 3, 2});
  switch (cls) {
    case 0:
      switch (s.u(8)) {
        case 0: {  uint8_t x  = (uint8_t) s.word(8);    r = MK(x);  n = n_uint(x);  break;  }
        case 1: {  uint16_t x = (uint16_t) s.word(16);  r = MK(x);  n = n_uint(x);  break;  }
        case 2: {  uint32_t x = (uint32_t) s.word(32);  r = MK(x);  n = n_uint(x);  break;  }
        case 3: {  uint64_t x = s.word(64);             r = MK(x);  n = n_uint(x);  break;  }
        case 4: {  int8_t x   = (int8_t) s.sword(8);    r = MK(x);  n = n_sint(x);  break;  }
        case 5: {  int16_t x  = (int16_t) s.sword(16);  r = MK(x);  n = n_sint(x);  break;  }
        case 6: {  int32_t x  = (int32_t) s.sword(32);  r = MK(x);  n = n_sint(x);  break;  }
        case 7: {  int64_t x  = s.sword(64);            r = MK(x);  n = n_sint(x);  break;  }
      }
      break;
    case 1: {  bool x = s.b(50);  r = MK(x);  n = n_bool(x);  break;  }
    case 2:
      if (s.b(50)) {  float x = s.f32(true);   if (x != x) x = NAN;  r = MK(x);  n = n_f32(x);  }
      else {          double x = s.f64(true);  if (x != x) x = NAN;  r = MK(x);  n = n_f64(x);  }
      break;
    case 3: {
      const std::string t = some_text(s);
      const char* x = P.keep(t);
      if (s.b(50)) r = MK(x);
      else {  char* m = (char*) x;  r = MK(m);  }
      n = n_str(t);
      break;
    }
    case 4: {
      const std::string t = s.bytes(s.b(6) ? 200 + s.u(400) : s.size(40));
      uint8_t* x = (uint8_t*) P.keep(t);
      if (key) r = mutkey ? new KeyValuePair(mk, x, (uint32_t) t.size()) : new KeyValuePair(key, x, (uint32_t) t.size());
      else r = new C3PValue(x, (uint32_t) t.size());
      n = n_bytes(t);
      break;
    }
    case 5: {
      const VTy& t = VTYS[s.u(8)];
      std::string raw;
      #define VM(TC, T, X, Y, Z) case TC: {  Vector3<T> v(X, Y, Z);  raw.append((const char*) &v.x, sizeof(T));  raw.append((const char*) &v.y, sizeof(T));  raw.append((const char*) &v.z, sizeof(T));  r = MK(&v);  break;  }
      #define VI(TC, T, B) VM(TC, T, (T) s.word(B), (T) s.word(B), (T) s.word(B))
      switch (t.tc) {
        VI(TCode::VECT_3_UINT8, uint8_t, 8)  VI(TCode::VECT_3_UINT16, uint16_t, 16)  VI(TCode::VECT_3_UINT32, uint32_t, 32)
        VI(TCode::VECT_3_INT8, int8_t, 8)  VI(TCode::VECT_3_INT16, int16_t, 16)  VI(TCode::VECT_3_INT32, int32_t, 32)
        VM(TCode::VECT_3_FLOAT, float, s.f32(), s.f32(), s.f32())
        VM(TCode::VECT_3_DOUBLE, double, s.f64(), s.f64(), s.f64())
        default:  break;
      }
      #undef VI
      #undef VM
      n = n_tag(VENDOR | tcn(t.tc), n_tag(t.tag, n_bytes(raw)));
      break;
    }
    case 6: {
      StringBuilder* sb = new StringBuilder();
      P.sbs.push_back(sb);
      std::string m;
      for (unsigned k = s.u(4); k > 0; k--) {
        const std::string t = some_text(s);
        m += t;
        sb->concat(t.c_str());
      }
      r = MK(sb);
      n = n_str(m);
      break;
    }
    case 7: {
      StopWatch* sw = new StopWatch(s.b(50) ? (uint32_t) s.word(32) : 0);
      P.sws.push_back(sw);
      sim_micros = 1 + s.u(1000);
      sim_tick   = 0;
      for (unsigned k = s.u(4); k > 0; k--) {
        sw->markStart();
        sim_micros += (uint64_t) s.word(20);
        sw->markStop();
      }
      r = MK(sw);
      Node m;
      m.kind = K_MAP;
      auto add = [&](const char* k, uint32_t v) {  m.c.push_back(n_str(k));  m.c.push_back(n_uint(v));  };
      if (sw->tag()) add("g", sw->tag());
      add("e", sw->executions());  add("t", (uint32_t) sw->totalTime());  add("a", (uint32_t) sw->meanTime());
      add("w", (uint32_t) sw->worstTime());  add("b", (uint32_t) sw->bestTime());  add("l", (uint32_t) sw->lastTime());
      n = n_tag(VENDOR | tcn(TCode::STOPWATCH), m);
      break;
    }
  }
  #undef MK
  memset(&kbuf[0], '!', kbuf.size());
  return r;
}

static void check_encoding(const std::string& out, const std::string& before, const Node& n) {
  CHECK(0 == out.compare(0, before.size(), before), "serialize() changed what was in the buffer");
  const std::string enc = out.substr(before.size());
  Node got;
  size_t at = 0;
  const Status st = ref_decode(enc, at, got);
  CHECK(st == S_OK && at == enc.size(), "%s was encoded as %s, which is not one CBOR item", show(n).c_str(), hex(enc.data(), enc.size()).c_str());
  CHECK(same(got, n), "%s was encoded as %s, which is %s", show(n).c_str(), hex(enc.data(), enc.size()).c_str(), show(got).c_str());
}


/* Decode what was encoded, item by item. */
static void check_decoding(Src& s, StringBuilder* in, const std::vector<Node>& nodes) {
  for (size_t i = 0; i < nodes.size(); i++) {
    std::string rest = flat(in);
    size_t at = 0;
    Node dummy;
    ref_decode(rest, at, dummy);
    C3PValue* v = nullptr;
    if (s.b(50)) v = C3PValue::deserialize(in, TCode::CBOR);
    else {
      C3PValueDecoder dec(in);
      v = dec.next();
    }
    CHECK(v, "%s could not be decoded", show(nodes[i]).c_str());
    check_list(v, flatten(nodes[i]), nodes[i]);
    CHECK(flat(in) == rest.substr(at), "decoding %s left %s, expected %s", show(nodes[i]).c_str(), quote(flat(in)).c_str(), quote(rest.substr(at)).c_str());
    check_list(v, flatten(nodes[i]), nodes[i]);
    delete v;
  }
}

TARGET_F(C02, values, 8000, 160000, F_LEAK) {
  StringBuilder out;
  std::string before;
  if (s.b(30)) {
    before = s.bytes(1 + s.u(8));
    frag(s, &out, before);
  }
  std::string all = before;
  std::vector<Node> nodes;
  {
    Pool P;
    for (unsigned k = 1 + s.u(4); k > 0; k--) {
      Node n;
      unsigned cls;
      C3PValue* v = some_value(s, P, nullptr, n, cls);
      P.vals.push_back(v);
      note("value %s", show(n).c_str());
      const int8_t ret = v->serialize(&out, TCode::CBOR);
      CHECK(0 == ret, "serialize() of %s returned %d", show(n).c_str(), ret);
      const std::string now = flat(&out);
      check_encoding(now, all, n);
      all = now;
      nodes.push_back(n);
      if (cls > 1) nontrivial();
      if (cls != 6) check_leaf(v, n);
    }
  }
  out.cull((int) before.size());
  if (s.b(50)) {
    const std::string m = flat(&out);
    out.clear();
    frag(s, &out, m);
  }
  check_decoding(s, &out, nodes);
  CHECK(0 == out.length(), "the input wasn't consumed");
}

/* A list of key-value pairs, and the map that it is. */
static KeyValuePair* some_map(Src& s, Pool& P, unsigned depth, Node& n, bool& flat_only) {
  n = Node();
  n.kind = K_MAP;
  KeyValuePair* head = nullptr;
  const unsigned cnt = 1 + s.size(depth ? 4 : 8);
  for (unsigned i = 0; i < cnt; i++) {
    const bool last_chance = i + 1 == cnt && n.c.empty();
    const unsigned how = last_chance ? 0 : s.weighted({16, 1, 1});
    std::string key = how == 0 ? s.text(1 + (s.b(4) ? s.u(80) : s.size(8)), "abcdefgXYZ_ 0\xC3") : "";
    C3PValue* v = nullptr;
    Node vn;
    unsigned cls = 0;
    if (how == 0 && depth < 3 && s.b(depth ? 15 : 20)) {
      KeyValuePair* nested = some_map(s, P, depth + 1, vn, flat_only);
      P.vals.push_back(nested);
      v = new KeyValuePair(P.keep(key), nested);
      flat_only = false;
    }
    else if (how == 1 && head) v = some_value(s, P, nullptr, vn, cls);         // without a key
    else v = some_value(s, P, P.keep(key), vn, cls);                           // with one, perhaps empty
    if (cls == 7) flat_only = false;
    if (key.size()) {
      n.c.push_back(n_str(key));
      n.c.push_back(vn);
    }
    if (!head) head = (KeyValuePair*) v;
    else head->link(v);
  }
  return head;
}

TARGET_F(C02, maps, 6000, 120000, F_LEAK) {
  StringBuilder out;
  std::string before;
  if (s.b(30)) {
    before = s.bytes(1 + s.u(8));
    frag(s, &out, before);
  }
  Node n;
  bool flat_only = true;
  {
    Pool P;
    KeyValuePair* m = some_map(s, P, 0, n, flat_only);
    P.vals.push_back(m);
    note("map %s", show(n).c_str());
    const int8_t ret = m->serialize(&out, TCode::CBOR);
    CHECK(0 == ret, "serialize() of %s returned %d", show(n).c_str(), ret);
    check_encoding(flat(&out), before, n);
    if (!m->has_key()) label("keyless head");
  }
  out.cull((int) before.size());
  const std::string enc = flat(&out);
  if (s.b(50)) {
    out.clear();
    frag(s, &out, enc);
  }
  if (n.c.size() > 4) nontrivial();
  check_decoding(s, &out, std::vector<Node>(1, n));
  if (flat_only) {
    label("flat map");
    std::string copy = enc;
    KeyValuePair* k = KeyValuePair::unserialize((uint8_t*) copy.data(), (unsigned) copy.size(), TCode::CBOR);
    memset(&copy[0], 0x5A, copy.size());
    CHECK(k, "unserialize() of %s gave nothing", show(n).c_str());
    check_list(k, flatten(n), n);
    delete k;
  }
  else label("nested map");
}

/* Lengths and counts past the range of narrow integers. */
TARGET_F(C02, large, 300, 6000, F_LEAK | F_NOGUIDE) {
  StringBuilder out;
  Node n;
  bool use_kvp = false;
  {
    Pool P;
    C3PValue* v = nullptr;
    const std::string key = s.b(50) ? "k" : "";
    switch (s.u(4)) {
      case 0: {
          const std::string t = s.filler(s.large(140000), "abcXYZ 0189_");
          const char* x = P.keep(t);
          v = s.b() ? new C3PValue(x) : new C3PValue((char*) x);
          n = n_str(t);
          note("a string of %zu bytes", t.size());
        } break;
      case 1: {
          const std::string t = s.filler(s.large(140000), nullptr);
          v = new C3PValue((uint8_t*) P.keep(t), (uint32_t) t.size());
          n = n_bytes(t);
          note("%zu bytes", t.size());
        } break;
      default: {
          const unsigned cnt = 1 + s.large(600);
          const std::string pre = s.filler(s.b(60) ? 0 : s.large(600), "abc");
          const unsigned kind = s.u(3);
          KeyValuePair* head = nullptr;
          n.kind = K_MAP;
          note("a map of %u, keys from %zu bytes", cnt, pre.size());
          for (unsigned i = 0; i < cnt; i++) {
            const char* k = P.keep(pre + std::to_string(i));
            KeyValuePair* e;
            Node vn;
            if (kind == 2) {  const char* x = P.keep("value " + std::to_string(i * 7));  e = new KeyValuePair(k, x);  vn = n_str(x);  }
            else {            e = new KeyValuePair(k, (uint32_t) (i * 2654435761u));  vn = n_uint((uint32_t) (i * 2654435761u));  }
            n.c.push_back(n_str(k));
            n.c.push_back(vn);
            if (!head) head = e;  else head->link(e, true);
          }
          v = head;
          use_kvp = true;
          if (cnt > 255) label("more than 255 entries");
        } break;
    }
    P.vals.push_back(v);
    const int8_t ret = v->serialize(&out, TCode::CBOR);
    CHECK(0 == ret, "serialize() returned %d", ret);
    check_encoding(flat(&out), "", n);
  }
  const std::string enc = flat(&out);
  if (enc.size() > 65536) label("more than 64 KB");
  if (enc.size() > 1000) nontrivial();
  if (s.b(50)) {
    out.clear();
    const uint32_t at = s.u((uint32_t) enc.size() + 1);
    out.concat((uint8_t*) enc.data(), (int) at);
    out.concat((uint8_t*) enc.data() + at, (int) (enc.size() - at));
  }
  check_decoding(s, &out, std::vector<Node>(1, n));
  if (use_kvp || s.b()) {
    std::string copy = enc;
    KeyValuePair* k = KeyValuePair::unserialize((uint8_t*) copy.data(), (unsigned) copy.size(), TCode::CBOR);
    memset(&copy[0], 0x5A, copy.size());
    CHECK(k, "unserialize() gave nothing");
    if (use_kvp) check_list(k, flatten(n), n);
    else check_leaf(k, n);
    delete k;
  }
}

/* A map with a value that has no encoding, or with no keys at all, is refused, and writes nothing. */
TARGET_F(C02, refusals, 1500, 30000, F_LEAK) {
  Pool P;
  const std::string before = s.bytes(s.u(6));
  StringBuilder out;
  frag(s, &out, before);
  KeyValuePair* head = nullptr;
  const unsigned cnt = 1 + s.u(4);
  const unsigned bad = s.b(50) ? s.u(cnt) : cnt;      // cnt: none; then, no keys
  for (unsigned i = 0; i < cnt; i++) {
    C3PValue* v;
    Node vn;
    unsigned cls;
    if (i == bad) v = new KeyValuePair("nul", (const char*) nullptr);
    else if (bad == cnt) v = some_value(s, P, "", vn, cls);
    else v = some_value(s, P, P.keep(s.text(1 + s.u(4), "abc")), vn, cls);
    if (!head) head = (KeyValuePair*) v;
    else head->link(v);
  }
  P.vals.push_back(head);
  const int8_t ret = head->serialize(&out, TCode::CBOR);
  CHECK(0 > ret, "serialize() of a map %s returned %d", bad == cnt ? "without keys" : "with a null string", ret);
  CHECK(flat(&out) == before, "a refused serialize() wrote %s", quote(flat(&out)).c_str());
  if (cnt > 1) nontrivial();
}

/*******************************************************************************
* Encoder and decoder, by events
*******************************************************************************/
struct Ev {  NodeKind kind; uint64_t v; std::string s;  };
static const NodeKind K_ERR = (NodeKind) 100;
static const NodeKind K_ANY = (NodeKind) 101;         // whatever comes from here on
static std::string show(const Ev& e) {
  if (e.kind == K_ERR) return "error";
  if (e.kind == K_ANY) return "anything";
  Node n;
  n.kind = e.kind;
  n.v = e.v;
  n.s = e.s;
  char t[64];
  if (e.kind == K_ARR) {  snprintf(t, sizeof t, "array(%llu)", (unsigned long long) e.v);  return t;  }
  if (e.kind == K_MAP) {  snprintf(t, sizeof t, "map(%llu)", (unsigned long long) e.v);    return t;  }
  if (e.kind == K_TAG) {  snprintf(t, sizeof t, "tag(%llu)", (unsigned long long) e.v);    return t;  }
  return show(n);
}
struct Catch : public cbor::listener {
  std::vector<Ev> evs;
  void add(NodeKind k, uint64_t v) {  evs.push_back(Ev{k, v, ""});  }
  void sg(int64_t v) {  if (v < 0) add(K_NINT, (uint64_t) (-1 - v)); else add(K_UINT, (uint64_t) v);  }
  void on_integer(int8_t v)   {  sg(v);  }
  void on_integer(int16_t v)  {  sg(v);  }
  void on_integer(int32_t v)  {  sg(v);  }
  void on_integer(int64_t v)  {  sg(v);  }
  void on_integer(uint8_t v)  {  add(K_UINT, v);  }
  void on_integer(uint16_t v) {  add(K_UINT, v);  }
  void on_integer(uint32_t v) {  add(K_UINT, v);  }
  void on_integer(uint64_t v) {  add(K_UINT, v);  }
  void on_float32(float f)    {  uint32_t u;  memcpy(&u, &f, 4);  add(K_F32, u);  }
  void on_double(double f)    {  uint64_t u;  memcpy(&u, &f, 8);  add(K_F64, u);  }
  void on_bytes(uint8_t* d, int n) {  evs.push_back(Ev{K_BYTES, 0, std::string((char*) d, (size_t) n)});  }
  void on_string(char* d)     {  evs.push_back(Ev{K_STR, 0, d});  }
  void on_array(int n)        {  add(K_ARR, (uint64_t) n);  }
  void on_map(int n)          {  add(K_MAP, (uint64_t) n);  }
  void on_tag(unsigned int t) {  add(K_TAG, t);  }
  void on_special(unsigned int c) {  add(K_SIMPLE, c);  }
  void on_bool(bool b)        {  add(K_BOOL, b);  }
  void on_null()              {  add(K_NULL, 0);  }
  void on_undefined()         {  add(K_UNDEF, 0);  }
  void on_error(const char*)  {  add(K_ERR, 0);  }
  void on_extra_integer(uint64_t v, int sign) {  add(sign < 0 ? K_NINT : K_UINT, v);  }
  void on_extra_tag(uint64_t t) {  add(K_TAG, t);  }
};
static bool nan32(uint64_t v) {  return (v & 0x7FFFFFFF) > 0x7F800000;  }
static bool nan64(uint64_t v) {  return (v & INT64_MAX) > 0x7FF0000000000000ULL;  }
static bool same(const Ev& a, const Ev& b) {
  if (a.kind != b.kind) return false;
  if (a.kind == K_STR) return 0 == strcmp(a.s.c_str(), b.s.c_str());
  if (a.kind == K_BYTES) return a.s == b.s;
  if (a.kind == K_F32) return a.v == b.v || (nan32(a.v) && nan32(b.v));
  if (a.kind == K_F64) return a.v == b.v || (nan64(a.v) && nan64(b.v));
  if (a.kind == K_NULL || a.kind == K_UNDEF || a.kind == K_ERR) return true;
  return a.v == b.v;
}
/* The events of a byte stream, as far as it goes. Returns the bytes they take. */
static size_t ref_events(const std::string& b, std::vector<Ev>& out) {
  size_t at = 0;
  while (at < b.size()) {
    const unsigned major = (uint8_t) b[at] >> 5, minor = (uint8_t) b[at] & 31;
    size_t p = at + 1;
    if (minor >= 28) {  out.push_back(Ev{K_ERR, 0, ""});  return at;  }
    uint64_t v = minor;
    if (minor >= 24) {
      const size_t w = (size_t) 1 << (minor - 24);
      if (b.size() - p < w) return at;
      v = 0;
      for (size_t k = 0; k < w; k++) v = (v << 8) | (uint8_t) b[p + k];
      p += w;
    }
    Ev e{K_UINT, v, ""};
    switch (major) {
      case 0:  break;
      case 1:  e.kind = K_NINT;  break;
      case 2: case 3:
        // Lengths with 64 bits, and those over the range of an int, are refused.
        if (minor == 27 || v >= 0x7FFFFFFF) {  out.push_back(Ev{K_ERR, 0, ""});  return at;  }
        if (v > b.size() - p) return at;
        e.kind = major == 2 ? K_BYTES : K_STR;
        e.s = b.substr(p, (size_t) v);
        p += (size_t) v;
        break;
      case 4: case 5:
        if (minor == 27 || v > 0x7FFFFFFF) {  out.push_back(Ev{K_ERR, 0, ""});  return at;  }
        e.kind = major == 4 ? K_ARR : K_MAP;
        break;
      case 6:  e.kind = K_TAG;  break;
      default:
        if (minor == 20 || minor == 21) {  e.kind = K_BOOL;  e.v = minor - 20;  }
        else if (minor == 22) e.kind = K_NULL;
        else if (minor == 23) e.kind = K_UNDEF;
        else if (minor == 26) e.kind = K_F32;
        else if (minor == 27) e.kind = K_F64;
        else e.kind = K_SIMPLE;
        break;
    }
    out.push_back(e);
    at = p;
  }
  return at;
}
static void check_events(const std::vector<Ev>& got, const std::vector<Ev>& want, const char* how) {
  for (size_t i = 0; i < want.size(); i++) {
    if (want[i].kind == K_ANY) return;
    CHECK(i < got.size(), "%s: %zu events, the next should be %s", how, i, show(want[i]).c_str());
    CHECK(same(got[i], want[i]), "%s: event %zu is %s, expected %s", how, i, show(got[i]).c_str(), show(want[i]).c_str());
  }
  CHECK(got.size() == want.size(), "%s: %zu events, expected %zu; the first extra one is %s", how, got.size(), want.size(), show(got[want.size()]).c_str());
}
/* Run the decoder over the bytes, by one of several routes. */
static void decode_events(Src& s, const std::string& bytes, std::vector<Ev>& got, bool& failed, const char*& how) {
  Catch c;
  if (s.b(33)) {
    how = "input_static";
    // Exactly sized, so that reads past it are seen.
    uint8_t* buf = (uint8_t*) malloc(bytes.size() ? bytes.size() : 1);
    memcpy(buf, bytes.data(), bytes.size());
    cbor::input_static in(buf, (int) bytes.size());
    cbor::decoder d(in, c);
    d.run();
    failed = d.failed();
    free(buf);
  }
  else {
    const bool consume = s.b(50);
    const bool piecemeal = s.b(60);
    how = piecemeal ? "input_stringbuilder, piecemeal" : "input_stringbuilder";
    StringBuilder sb;
    {
      cbor::input_stringbuilder in(&sb, consume);
      cbor::decoder d(in);
      d.set_listener(c);
      if (piecemeal) {
        size_t at = 0;
        while (at < bytes.size()) {
          size_t n = 1 + ((bytes.size() - at > 2000) ? s.u((uint32_t) (bytes.size() - at)) : s.size((uint32_t) (bytes.size() - at > 40 ? 40 : bytes.size() - at)));
          if (n > bytes.size() - at) n = bytes.size() - at;
          StringBuilder part((uint8_t*) bytes.data() + at, (uint32_t) n);
          sb.concatHandoff(&part);
          at += n;
          if (s.b(70)) d.run();
        }
      }
      else frag(s, &sb, bytes);
      d.run();
      failed = d.failed();
    }
    if (!consume) CHECK(flat(&sb) == bytes, "decoding altered an input that wasn't to be consumed");
  }
  got = c.evs;
}

static void c02_encoder(Src& s) {
  std::vector<Ev> want;
  StringBuilder sb;
  const bool fixed = s.b(40);
  const bool given = fixed && s.b(50);
  uint8_t* mem = (uint8_t*) malloc(20000);
  cbor::output_static os(20000, given ? mem : nullptr);
  cbor::output_stringbuilder ob(&sb);
  cbor::output* out = fixed ? (cbor::output*) &os : (cbor::output*) &ob;
  cbor::encoder enc(*out);
  unsigned n = 0;
  auto ev = [&](NodeKind k, uint64_t v) {  want.push_back(Ev{k, v, ""});  };
  auto sg = [&](int64_t v) {  if (v < 0) ev(K_NINT, (uint64_t) (-1 - v)); else ev(K_UINT, (uint64_t) v);  };
  while (more(s, n, 30, 8)) {
    switch (s.weighted({8, 2, 2, 3, 2, 2, 2, 1, 1, 4})) {
      case 0:
        switch (s.u(8)) {
          case 0: {  uint8_t v  = (uint8_t) s.word(8);    enc.write_int(v);  ev(K_UINT, v);  break;  }
          case 1: {  uint16_t v = (uint16_t) s.word(16);  enc.write_int(v);  ev(K_UINT, v);  break;  }
          case 2: {  uint32_t v = (uint32_t) s.word(32);  enc.write_int(v);  ev(K_UINT, v);  break;  }
          case 3: {  uint64_t v = s.word(64);             enc.write_int(v);  ev(K_UINT, v);  break;  }
          case 4: {  int8_t v   = (int8_t) s.sword(8);    enc.write_int(v);  sg(v);  break;  }
          case 5: {  int16_t v  = (int16_t) s.sword(16);  enc.write_int(v);  sg(v);  break;  }
          case 6: {  int32_t v  = (int32_t) s.sword(32);  enc.write_int(v);  sg(v);  break;  }
          case 7: {  int64_t v  = s.sword(64);            enc.write_int(v);  sg(v);  break;  }
        }
        break;
      case 1: {  float f  = s.f32(true);  uint32_t u;  memcpy(&u, &f, 4);  enc.write_float(f);   ev(K_F32, u);  break;  }
      case 2: {  double f = s.f64(true);  uint64_t u;  memcpy(&u, &f, 8);  enc.write_double(f);  ev(K_F64, u);  break;  }
      case 3: {
        const std::string t = (!fixed && s.big && s.b(40)) ? s.filler(s.large(s.big), "abcXYZ 019") : some_text(s);
        if (s.b(50)) enc.write_string(t.c_str()); else enc.write_string(t.data(), (uint32_t) t.size());
        want.push_back(Ev{K_STR, 0, t});
        break;
      }
      case 4: {
        const std::string t = (!fixed && s.big && s.b(40)) ? s.filler(s.large(s.big), nullptr) : s.bytes(s.b(5) ? 200 + s.u(200) : s.size(40));
        enc.write_bytes((const uint8_t*) t.data(), (uint32_t) t.size());
        want.push_back(Ev{K_BYTES, 0, t});
        break;
      }
      case 5: {  uint32_t v = (uint32_t) s.word(31);  enc.write_array(v);  ev(K_ARR, v);  break;  }
      case 6: {  uint32_t v = (uint32_t) s.word(31);  if (s.b(50)) {  enc.write_map(v);  ev(K_MAP, v);  } else {  v = (uint32_t) s.word(32);  enc.write_tag(v);  ev(K_TAG, v);  }  break;  }
      case 7: {
        const uint32_t v = s.b(50) ? s.u(20) : 32 + s.u(224);
        enc.write_special(v);
        ev(K_SIMPLE, v);
        break;
      }
      case 8: {  bool b = s.b(50);  enc.write_bool(b);  ev(K_BOOL, b);  break;  }
      case 9: {
        const unsigned cnt = (!fixed && s.big && s.b(60)) ? s.large(s.big / 2) : s.size(20);
        std::string raw;
        int8_t ret = 0;
        unsigned tag = 0;
        #define TA(T, TAG) {  std::vector<T> a(cnt + 1);  const std::string r = (cnt > 20) ? s.filler(cnt * sizeof(T), nullptr) : s.bytes(cnt * sizeof(T));  memcpy(a.data(), r.data(), r.size());  raw = r;  tag = TAG;  ret = enc.write_typed_array(a.data(), cnt);  break;  }
        switch (s.u(10)) {
          case 0: TA(uint8_t, 68)  case 1: TA(uint16_t, 69)  case 2: TA(uint32_t, 70)  case 3: TA(uint64_t, 71)
          case 4: TA(int8_t, 76)   case 5: TA(int16_t, 77)   case 6: TA(int32_t, 78)   case 7: TA(int64_t, 79)
          case 8: TA(float, 85)    case 9: TA(double, 86)
        }
        #undef TA
        if (cnt) {
          CHECK(0 == ret, "write_typed_array() of %u returned %d", cnt, ret);
          ev(K_TAG, tag);
          want.push_back(Ev{K_BYTES, 0, raw});
        }
        else CHECK(0 > ret, "write_typed_array() of nothing returned %d", ret);
        break;
      }
    }
  }
  std::string bytes((const char*) out->data(), out->size());
  if (!fixed) CHECK(bytes == flat(&sb), "output_stringbuilder::data()");
  if (given) CHECK(out->data() == mem, "output_static didn't use the given buffer");
  std::vector<Ev> ref;
  const size_t used = ref_events(bytes, ref);
  CHECK(used == bytes.size(), "the encoder's output %s is incomplete", hex(bytes.data(), bytes.size()).c_str());
  check_events(ref, want, "encoder, by the reference decoder");
  std::vector<Ev> got;
  bool failed = false;
  const char* how = "";
  decode_events(s, bytes, got, failed, how);
  CHECK(!failed, "%s: decoder failed", how);
  check_events(got, want, how);
  if (want.size() > 4) nontrivial();
  free(mem);
}
TARGET_F(C02, encoder, 8000, 160000, F_LEAK) {  c02_encoder(s);  }
TARGET_F(C02, encoder_large, 300, 6000, F_LEAK | F_NOGUIDE) {  s.big = 140000;  c02_encoder(s);  }

/*******************************************************************************
* C03
*******************************************************************************/
/* Any item of the supported kinds. */
static Node some_node(Src& s, unsigned depth, bool in_map) {
  Node n;
  switch (s.weighted({8, 5, 2, 3, 5, 4, 4, depth < 4 ? 4u : 0, depth < 4 ? 5u : 0, in_map ? 0u : 2, 1})) {
    case 0:  return n_uint(s.word(s.b(50) ? 64 : 16));
    case 1:  return n_sint(-1 - (int64_t) (s.word(s.b(50) ? 63 : 16)));
    case 2:  return n_bool(s.b(50));
    case 3:  return s.b(50) ? n_f32(s.f32(true)) : n_f64(s.f64(true));
    case 4:  return n_str(some_text(s));
    case 5:  return n_bytes(s.bytes(s.size(30)));
    case 6: {
      const VTy& t = VTYS[s.u(8)];
      return n_tag(VENDOR | tcn(t.tc), n_tag(t.tag, n_bytes(s.bytes(3 * t.size))));
    }
    case 7: {
      n.kind = K_ARR;
      for (unsigned k = 1 + s.size(5); k > 0; k--) n.c.push_back(some_node(s, depth + 1, in_map));
      return n;
    }
    case 8: {
      n.kind = K_MAP;
      for (unsigned k = 1 + s.size(5); k > 0; k--) {
        n.c.push_back(n_str(s.text(s.size(6), "abcXYZ")));
        n.c.push_back(some_node(s, depth + 1, true));
      }
      return n;
    }
    case 9:  n.kind = s.b(50) ? K_NULL : K_UNDEF;  return n;
    default: {
      Node m;
      m.kind = K_MAP;
      for (const char* f = "getawbl"; *f; f++) if (s.b(60)) {
        m.c.push_back(n_str(std::string(1, *f)));
        m.c.push_back(n_uint((uint32_t) s.word(32)));
      }
      if (m.c.empty()) return n_uint(1);
      return n_tag(VENDOR | tcn(TCode::STOPWATCH), m);
    }
  }
}

TARGET_F(C03, items, 8000, 160000, F_LEAK) {
  std::string all;
  std::vector<Node> nodes;
  std::vector<size_t> ends;
  for (unsigned k = 1 + s.u(3); k > 0; k--) {
    nodes.push_back(some_node(s, 0, false));
    ref_encode(&s, nodes.back(), all);
    ends.push_back(all.size());
    note("item %s", show(nodes.back()).c_str());
  }
  note("bytes %s", hex(all.data(), all.size(), 200).c_str());
  if (all.size() > 6000) discard();
  std::string tail;
  if (s.b(50)) {             // the beginning of another
    std::string enc;
    ref_encode(&s, some_node(s, 0, false), enc);
    tail = enc.substr(0, s.u((uint32_t) enc.size()));
  }
  StringBuilder in;
  frag(s, &in, all + tail);
  C3PValueDecoder dec(&in);
  for (size_t i = 0; i < nodes.size(); i++) {
    C3PValue* v = dec.next(s.b(20));
    CHECK(v, "%s was not decoded", show(nodes[i]).c_str());
    check_list(v, flatten(nodes[i]), nodes[i]);
    CHECK(flat(&in) == (all + tail).substr(ends[i]), "decoding %s left %s", show(nodes[i]).c_str(), quote(flat(&in)).c_str());
    if (nodes[i].c.size()) nontrivial();
    delete v;
  }
  for (int k = 0; k < 2; k++) {
    C3PValue* v = dec.next();
    CHECK(!v, "part of an item (%s) was decoded", hex(tail.data(), tail.size()).c_str());
    CHECK(flat(&in) == tail, "a failed decode left %s of %s", quote(flat(&in)).c_str(), quote(tail).c_str());
  }
}

/* An item arrives piece by piece: nothing comes out, and nothing is taken, until the last byte is there. */
TARGET_F(C03, piecemeal, 3000, 60000, F_LEAK) {
  const Node n = some_node(s, 0, false);
  std::string enc;
  ref_encode(&s, n, enc);
  if (enc.size() > 600) discard();
  note("item %s", show(n).c_str());
  StringBuilder in;
  size_t at = 0;
  const bool bytewise = enc.size() < 100 && s.b(70);
  while (at < enc.size()) {
    size_t k = bytewise ? 1 : 1 + s.size((uint32_t) (enc.size() - at));
    if (k > enc.size() - at) k = enc.size() - at;
    StringBuilder part((uint8_t*) enc.data() + at, (uint32_t) k);
    in.concatHandoff(&part);
    at += k;
    C3PValue* v = s.b(50) ? C3PValue::deserialize(&in, TCode::CBOR) : C3PValueDecoder(&in).next();
    if (at < enc.size()) {
      CHECK(!v, "%zu of the %zu bytes of %s were decoded", at, enc.size(), show(n).c_str());
      CHECK(flat(&in) == enc.substr(0, at), "a failed decode of part of %s changed the input", show(n).c_str());
    }
    else {
      CHECK(v, "%s was not decoded", show(n).c_str());
      check_list(v, flatten(n), n);
      CHECK(0 == in.length(), "decoding %s left %d bytes", show(n).c_str(), in.length());
      delete v;
    }
  }
  if (enc.size() > 4) nontrivial();
}

/* Bytes that might be CBOR. */
static std::string some_bytes(Src& s, bool& mutated) {
  std::string b;
  mutated = true;
  const unsigned how = s.weighted({6, 2, 2});
  if (how == 0) {
    ref_encode(&s, some_node(s, 0, false), b);
    if (s.b(30)) ref_encode(&s, some_node(s, 0, false), b);
    if (b.size() > 800) b.resize(800);
    for (unsigned k = s.u(4); k > 0 && b.size(); k--) {
      const size_t at = s.u((uint32_t) b.size());
      switch (s.u(5)) {
        case 0:  b[at] = (char) s.u(256);  break;
        case 1:  b[at] = (char) (b[at] ^ (1 << s.u(8)));  break;
        case 2:  b.erase(at, 1 + s.u(3));  break;
        case 3:  b.insert(at, s.bytes(1 + s.u(3)));  break;
        case 4:  b[at] = (char) ((s.u(8) << 5) | (24 + s.u(8)));  break;
      }
    }
  }
  else if (how == 1) b = s.bytes(s.size(60));
  else {
    // Heads, mostly.
    for (unsigned k = 1 + s.u(12); k > 0; k--) {
      const unsigned major = s.u(8);
      const unsigned minor = s.b(50) ? s.u(4) : s.u(32);
      if (major == 6 && s.b(60)) put_head(b, 6, VENDOR | s.u(256), 0);
      else {
        b.push_back((char) ((major << 5) | minor));
        if (minor >= 24 && minor < 28) {
          const unsigned w = 1u << (minor - 24);
          for (unsigned j = 0; j < w; j++) b.push_back((char) (s.b(70) && j + 1 < w ? 0 : s.u(256)));
        }
        else if (major == 2 || major == 3) b += s.bytes(minor < 24 ? minor : 0);
      }
    }
  }
  return b;
}
/* A TimeSeries takes a window of any size from its encoding, and Images buffers: a matter of memory, not of decoding. */
static bool huge_alloc(const std::string& b) {
  const char t1[3] = {(char) 0xD9, (char) 0xE9, (char) tcn(TCode::TIMESERIES)};
  for (size_t i = 0; i + 3 <= b.size(); i++) if (0 == memcmp(b.data() + i + 0, t1, 3)) return true;
  return b.find(std::string("\x00\x00\xE9", 3) + (char) tcn(TCode::TIMESERIES)) != std::string::npos;
}

TARGET_F(C03, bytes, 12000, 300000, F_LEAK) {
  bool mut;
  const std::string b = some_bytes(s, mut);
  note("bytes %s", hex(b.data(), b.size(), 300).c_str());
  if (huge_alloc(b)) discard();
  StringBuilder in;
  frag(s, &in, b);
  Node n;
  size_t at = 0;
  const Status st = ref_decode(b, at, n);
  const bool forced = s.b(25);
  C3PValueDecoder dec(&in);
  C3PValue* v = dec.next(forced);
  const std::string left = flat(&in);
  if (v) {
    CHECK(st == S_OK, "%s, which is %s, was decoded", hex(b.data(), b.size()).c_str(), st == S_SHORT ? "incomplete" : "not CBOR");
    CHECK(left == b.substr(at), "%s left %s", show(n).c_str(), hex(left.data(), left.size()).c_str());
    if (supported(n)) {
      check_list(v, flatten(n), n);
      label("decoded");
    }
    else label("decoded, unsupported");
    StringBuilder tmp;
    v->printDebug(&tmp);     // Whatever it is, it can be used.
    v->serialize(&tmp, TCode::CBOR);
    delete v;
    nontrivial();
  }
  else {
    if (st == S_OK) CHECK(!supported(n), "%s was not decoded", show(n).c_str());
    CHECK(left.size() <= b.size() && left == b.substr(b.size() - left.size()), "a failed decode altered the input");
    if (!forced) CHECK(left == b, "a failed decode took %zu bytes", b.size() - left.size());
    label(st == S_OK ? "unsupported" : st == S_SHORT ? "incomplete" : "malformed");
  }
}

TARGET_F(C03, events, 8000, 200000, F_LEAK) {
  bool mut;
  const std::string b = some_bytes(s, mut);
  note("bytes %s", hex(b.data(), b.size(), 300).c_str());
  std::vector<Ev> want, got;
  ref_events(b, want);
  bool failed = false;
  const char* how = "";
  decode_events(s, b, got, failed, how);
  check_events(got, want, how);
  if (want.empty() || want.back().kind != K_ANY) CHECK(failed == (want.size() && want.back().kind == K_ERR), "%s: failed() is %d", how, failed);
  if (want.size() > 2) nontrivial();
}

TARGET_F(C03, unserialize, 8000, 200000, F_LEAK) {
  bool mut;
  std::string b = some_bytes(s, mut);
  note("bytes %s", hex(b.data(), b.size(), 300).c_str());
  uint8_t* buf = (uint8_t*) malloc(b.size() ? b.size() : 1);
  memcpy(buf, b.data(), b.size());
  KeyValuePair* k = KeyValuePair::unserialize(buf, (unsigned) b.size(), TCode::CBOR);
  CHECK(0 == memcmp(buf, b.data(), b.size()), "unserialize() altered its input");
  free(buf);
  if (k) {
    StringBuilder tmp;
    k->printDebug(&tmp);
    k->serialize(&tmp, TCode::CBOR);
    k->serialize(&tmp, TCode::STR);
    if (k->count() > 1) nontrivial();
    delete k;
  }
}
