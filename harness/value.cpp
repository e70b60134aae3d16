/*
* C01: C3PValue and KeyValuePair hold, convert and link values without altering them.
*/
#include "pbt.h"
#include <deque>
#include "CppPotpourri.h"
#include "AbstractPlatform.h"
#include "StringBuilder.h"
#include "C3PValue/C3PValue.h"
#include "C3PValue/KeyValuePair.h"
#include "Vector3.h"
#include <math.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
using namespace pbt;

static std::string flat(StringBuilder* b) {
  const int n = b->length();
  if (n <= 0) return std::string();
  std::string r((size_t) n, '\0');
  b->copyToBuffer((uint8_t*) &r[0], (uint32_t) n);
  return r;
}

/*******************************************************************************
* Numbers, by definition.
*******************************************************************************/
struct Ty {  TCode tc; const char* name; char k; unsigned bits;  };   // k: u, i, b, f
static const Ty TYS[11] = {
  {TCode::UINT8, "u8", 'u', 8}, {TCode::UINT16, "u16", 'u', 16}, {TCode::UINT32, "u32", 'u', 32}, {TCode::UINT64, "u64", 'u', 64},
  {TCode::INT8, "i8", 'i', 8}, {TCode::INT16, "i16", 'i', 16}, {TCode::INT32, "i32", 'i', 32}, {TCode::INT64, "i64", 'i', 64},
  {TCode::BOOLEAN, "bool", 'b', 8}, {TCode::FLOAT, "float", 'f', 32}, {TCode::DOUBLE, "double", 'f', 64},
};

struct Num {
  const Ty* t;
  bool      neg;      // integers and booleans: sign and magnitude
  uint64_t  mag;
  double    d;        // floats
};

static uint64_t int_bits(const Num& n) {  return n.neg ? (uint64_t) 0 - n.mag : n.mag;  }
/* The native representation. */
static std::string enc(const Num& n) {
  std::string r(n.t->bits / 8, '\0');
  if (n.t->k == 'f') {
    if (n.t->bits == 32) {  float f = (float) n.d;  memcpy(&r[0], &f, 4);  }
    else memcpy(&r[0], &n.d, 8);
  }
  else {
    const uint64_t v = int_bits(n);
    memcpy(&r[0], &v, r.size());
  }
  return r;
}
static Num dec(const Ty* t, const void* p) {
  Num n = {t, false, 0, 0};
  if (t->k == 'f') {
    if (t->bits == 32) {  float f;  memcpy(&f, p, 4);  n.d = f;  }
    else memcpy(&n.d, p, 8);
    return n;
  }
  uint64_t v = 0;
  memcpy(&v, p, t->bits / 8);
  if (t->k == 'i' && (v >> (t->bits - 1))) {
    if (t->bits < 64) v |= ~(uint64_t) 0 << t->bits;
    n.neg = true;
    n.mag = (uint64_t) 0 - v;
  }
  else n.mag = v;
  return n;
}
static std::string show(const Num& n) {
  char b[64];
  if (n.t->k == 'f') snprintf(b, sizeof(b), "%s %.17g", n.t->name, n.d);
  else snprintf(b, sizeof(b), "%s %s%llu", n.t->name, n.neg ? "-" : "", (unsigned long long) n.mag);
  return b;
}
/* Exact, or refused. To floating point: nearest, where the type is convertible at all. */
static bool convert(const Num& n, const Ty* to, Num* out) {
  *out = Num{to, false, 0, 0};
  const bool zero = (n.t->k == 'f') ? (n.d == 0) : (n.mag == 0);
  if (to->k == 'b') {  out->mag = zero ? 0 : 1;  return true;  }
  if (n.t->k == 'f') {
    if (to->k != 'f' || to->bits < n.t->bits) return false;
    out->d = n.d;
    return true;
  }
  if (to->k == 'f') {
    if (to->bits == 32) {
      if (n.t->bits == 64) return false;
      const float m = (float) n.mag;
      out->d = n.neg ? -m : m;
    }
    else {
      const double m = (double) n.mag;
      out->d = n.neg ? -m : m;
    }
    return true;
  }
  out->neg = n.neg;
  out->mag = n.mag;
  if (to->k == 'u') return !n.neg && (to->bits == 64 || n.mag < ((uint64_t) 1 << to->bits));
  const uint64_t lim = (uint64_t) 1 << (to->bits - 1);
  return n.neg ? n.mag <= lim : n.mag < lim;
}
static Num gen(Src& s, const Ty* t) {
  Num n = {t, false, 0, 0};
  if (t->k == 'b') n.mag = s.u(2);
  else if (t->k == 'f') n.d = (t->bits == 32) ? (double) s.f32(false) : s.f64(false);
  else if (t->k == 'u') n.mag = s.word(t->bits);
  else {
    const int64_t v = s.sword(t->bits);
    n.neg = v < 0;
    n.mag = n.neg ? (uint64_t) 0 - (uint64_t) v : (uint64_t) v;
  }
  return n;
}
/* A number near a boundary of another type. */
static Num gen_edge(Src& s, const Ty* t) {
  Num n = gen(s, t);
  if ((t->k == 'u' || t->k == 'i') && s.b(40)) {
    const unsigned at = s.pick({7u, 8u, 15u, 16u, 24u, 31u, 32u, 53u, 63u});
    uint64_t m = ((uint64_t) 1 << at) + (uint64_t) s.i(-2, 2);
    Num c = {&TYS[3], false, m, 0}, r;
    if (t->k == 'i' && s.b(50)) {  c.neg = true;  c.t = &TYS[7];  }
    if (convert(c, t, &r)) return r;
  }
  return n;
}
static bool same(const Num& a, const void* p) {
  const std::string e = enc(a);
  if (a.t->k == 'f') {   // by value: signed zeros are the same number
    const Num o = dec(a.t, p);
    return o.d == a.d;
  }
  return 0 == memcmp(&e[0], p, e.size());
}
static std::string text_of(const Num& n) {
  char b[400];
  if (n.t->k == 'b') return n.mag ? "true" : "false";
  if (n.t->k == 'f') snprintf(b, sizeof(b), (n.t->bits == 32) ? "%.4f" : "%.6f", n.d);
  else snprintf(b, sizeof(b), "%s%llu", n.neg ? "-" : "", (unsigned long long) n.mag);
  return b;
}

/* Construction from the native type: by TCode and set, or by the typed constructors. */
static C3PValue* construct(Src& s, const Num& n, bool* kvp) {
  const std::string e = enc(n);
  union {  uint8_t u8; uint16_t u16; uint32_t u32; uint64_t u64; int8_t i8; int16_t i16; int32_t i32; int64_t i64; bool b; float f; double d; uint8_t raw[8];  } u;
  memset(&u, 0, sizeof(u));
  memcpy(u.raw, &e[0], e.size());
  const unsigned how = s.u(4);
  *kvp = how >= 2;
  #define BUILD(member) ((how == 1) ? new C3PValue(u.member) : (how == 2) ? (C3PValue*) new KeyValuePair("key", u.member) : (C3PValue*) new KeyValuePair(u.member))
  if (how == 0) {
    C3PValue* v = new C3PValue(n.t->tc);
    uint8_t z[8] = {0};
    uint8_t got[8];
    memset(got, 0xAA, 8);
    CHECK(0 == v->get_as(n.t->tc, got), "a new C3PValue(%s) can't be read", n.t->name);
    CHECK(0 == memcmp(got, z, e.size()), "a new C3PValue(%s) without a value isn't zero", n.t->name);
    CHECK(1 == v->trace(), "a new value's trace is %u", v->trace());
    CHECK(0 == v->set_from(n.t->tc, u.raw), "set_from() of %s into its own type was refused", show(n).c_str());
    CHECK(2 == v->trace(), "one set took the trace to %u", v->trace());
    return v;
  }
  switch (n.t->tc) {
    case TCode::UINT8:    return BUILD(u8);
    case TCode::UINT16:   return BUILD(u16);
    case TCode::UINT32:   return BUILD(u32);
    case TCode::UINT64:   return BUILD(u64);
    case TCode::INT8:     return BUILD(i8);
    case TCode::INT16:    return BUILD(i16);
    case TCode::INT32:    return BUILD(i32);
    case TCode::INT64:    return BUILD(i64);
    case TCode::BOOLEAN:  return BUILD(b);
    case TCode::FLOAT:    return BUILD(f);
    default:              return BUILD(d);
  }
}
/* set() by the overload for the native type. */
static int8_t set_native(C3PValue* v, const Num& n) {
  const std::string e = enc(n);
  uint64_t raw = 0;
  memcpy(&raw, &e[0], e.size());
  switch (n.t->tc) {
    case TCode::UINT8:    return v->set((uint8_t) raw);
    case TCode::UINT16:   return v->set((uint16_t) raw);
    case TCode::UINT32:   return v->set((uint32_t) raw);
    case TCode::UINT64:   return v->set((uint64_t) raw);
    case TCode::INT8:     return v->set((int8_t) raw);
    case TCode::INT16:    return v->set((int16_t) raw);
    case TCode::INT32:    return v->set((int32_t) raw);
    case TCode::INT64:    return v->set((int64_t) raw);
    case TCode::BOOLEAN:  return v->set((bool) raw);
    case TCode::FLOAT:    return v->set((float) n.d);
    default:              return v->set((double) n.d);
  }
}

static void check_getters(C3PValue* v, const Num& m) {
  int8_t ok;
  Num r;
  #define GETTER(call, type, idx) do { \
    ok = 99; \
    const type got = v->call(&ok); \
    const bool fits = convert(m, &TYS[idx], &r); \
    CHECK(ok == (fits ? 1 : 0), #call "() of %s reported success %d", show(m).c_str(), ok); \
    if (fits) CHECK(same(r, &got), #call "() of %s gave another value", show(m).c_str()); \
    else CHECK(got == 0, #call "() of %s failed, but didn't return zero", show(m).c_str()); \
    const type again = v->call(); \
    CHECK(again == got, #call "() is different without its argument"); \
  } while (0)
  GETTER(get_as_uint, unsigned int, 2);
  GETTER(get_as_int, int, 6);
  GETTER(get_as_uint64, uint64_t, 3);
  GETTER(get_as_int64, int64_t, 7);
  GETTER(get_as_float, float, 9);
  GETTER(get_as_double, double, 10);
  ok = 99;
  const bool b = v->get_as_bool(&ok);
  convert(m, &TYS[8], &r);
  CHECK(b == (r.mag != 0), "get_as_bool() of %s is %d", show(m).c_str(), b);
  CHECK(ok == 1, "get_as_bool() of %s reported success %d", show(m).c_str(), ok);
}

static void check_get(Src& s, C3PValue* v, const Num& m, const Ty* to) {
  uint8_t buf[32], before[32];
  for (unsigned i = 0; i < 32; i++) buf[i] = (uint8_t) (0xC0 + i);
  memcpy(before, buf, 32);
  Num r;
  const bool fits = convert(m, to, &r);
  const int8_t ret = v->get_as(to->tc, buf + 8);
  const unsigned w = to->bits / 8;
  if (fits) {
    CHECK(ret == 0, "get_as(%s) of %s was refused (%d)", to->name, show(m).c_str(), ret);
    CHECK(same(r, buf + 8), "get_as(%s) of %s gave %s", to->name, show(m).c_str(), show(dec(to, buf + 8)).c_str());
    CHECK(0 == memcmp(buf, before, 8) && 0 == memcmp(buf + 8 + w, before + 8 + w, 24 - w), "get_as(%s) of %s wrote outside the destination", to->name, show(m).c_str());
  }
  else {
    CHECK(ret < 0, "get_as(%s) of %s was allowed, and gave %s", to->name, show(m).c_str(), show(dec(to, buf + 8)).c_str());
    CHECK(0 == memcmp(buf, before, 32), "get_as(%s) of %s was refused, but wrote to the destination", to->name, show(m).c_str());
  }
  const int8_t risk = C3PType::conversionRisk(m.t->tc, to->tc);
  if (risk == 0) CHECK(ret == 0, "conversionRisk(%s, %s) is 0, but %s was refused", m.t->name, to->name, show(m).c_str());
  if (risk < 0)  CHECK(ret < 0, "conversionRisk(%s, %s) is %d, but %s was converted", m.t->name, to->name, risk, show(m).c_str());
}

TARGET_F(C01, numbers, 6000, 120000, F_LEAK) {
  const Ty* t = &TYS[s.u(11)];
  Num m = gen_edge(s, t);
  bool kvp = false;
  C3PValue* v = construct(s, m, &kvp);
  note("value: %s%s", show(m).c_str(), kvp ? " (with key)" : "");
  uint16_t trace = v->trace();
  uint16_t seen  = trace;
  unsigned n = 0, refused = 0, taken = 0;
  while (more(s, n, 24, 7)) {
    switch (s.u(6)) {
      case 0: case 1: {    // set from another type
        const Ty* st = &TYS[s.u(11)];
        Num src = gen_edge(s, st), r;
        const bool fits = convert(src, t, &r);
        int8_t ret;
        const unsigned how = s.u(3);
        if (how == 0) ret = set_native(v, src);
        else if (how == 1) {
          // Exactly the bytes of the source type, and no more.
          const std::string e = enc(src);
          uint8_t* mem = (uint8_t*) malloc(e.size());
          memcpy(mem, &e[0], e.size());
          ret = v->set_from(st->tc, mem);
          CHECK(0 == memcmp(mem, &e[0], e.size()), "set_from() changed its source");
          free(mem);
        }
        else {
          bool k2;
          C3PValue* o = construct(s, src, &k2);
          ret = v->set(o);
          uint8_t raw[8];
          CHECK(0 == o->get_as(st->tc, raw) && same(src, raw), "set() changed its source value");
          delete o;
        }
        note("set %s%s -> %d", show(src).c_str(), how == 2 ? " (from a value)" : "", ret);
        CHECK((ret == 0) == fits, "set of %s into %s returned %d", show(src).c_str(), t->name, ret);
        if (fits) {  m = r;  trace++;  taken++;  }
        else refused++;
        break;
      }
      case 2: {
        const Ty* to = &TYS[s.u(11)];
        check_get(s, v, m, to);
        break;
      }
      case 3: check_getters(v, m);  break;
      case 4: {
        StringBuilder out("x");
        const bool with_type = s.b(30);
        v->toString(&out, with_type);
        std::string want = "x";
        if (with_type) want += std::string("(") + typecodeToStr(t->tc) + ") ";
        want += text_of(m);
        CHECK(flat(&out) == want, "toString() of %s is %s, expected %s", show(m).c_str(), quote(flat(&out)).c_str(), quote(want).c_str());
        break;
      }
      case 5: {
        if (s.b(3)) {    // Many writes. The trace counts them all.
          const uint32_t reps = s.large(70000);
          note("set %s, %u times", show(m).c_str(), reps);
          for (uint32_t i = 0; i < reps; i++) CHECK(0 == set_native(v, m), "set() of %s", show(m).c_str());
          trace = (uint16_t) (trace + reps);
          if (reps > 256) label("more than 256 writes");
        }
        const bool was = (seen != v->trace());
        CHECK(v->dirty(&seen) == was, "dirty() with a %s trace", was ? "stale" : "current");
        CHECK(seen == v->trace() && !v->dirty(&seen), "dirty() didn't bring the caller's trace up to date");
        CHECK(!v->dirty(nullptr), "dirty(nullptr)");
        break;
      }
    }
    CHECK(v->trace() == trace, "the trace is %u, expected %u", v->trace(), trace);
    uint8_t raw[8];
    CHECK(0 == v->get_as(t->tc, raw) && same(m, raw), "the value is %s, expected %s", show(dec(t, raw)).c_str(), show(m).c_str());
    CHECK(v->tcode() == t->tc && v->is_numeric() && v->length() == t->bits / 8, "tcode %s, numeric %d, length %u for a %s", typecodeToStr(v->tcode()), v->is_numeric(), v->length(), t->name);
    CHECK(v->has_key() == kvp, "has_key() is %d", v->has_key());
  }
  if (refused && taken) nontrivial();
  if (refused) label("conversion refused");
  if (taken) label("conversion taken");
  if (kvp) label("with key");
  delete v;
}

/* Every pair of types, for one number each. */
TARGET(C01, conversion_matrix, 1500, 30000) {
  unsigned fits_n = 0, refused_n = 0;
  for (unsigned i = 0; i < 11; i++) {
    const Num m = gen_edge(s, &TYS[i]);
    note("%s", show(m).c_str());
    bool kvp;
    C3PValue* v = construct(s, m, &kvp);
    for (unsigned j = 0; j < 11; j++) {
      check_get(s, v, m, &TYS[j]);
      Num r;
      if (convert(m, &TYS[j], &r)) fits_n++;
      else refused_n++;
      C3PValue d(TYS[j].tc);
      const int8_t ret = d.set(v);
      CHECK((ret == 0) == convert(m, &TYS[j], &r), "set() of %s into %s returned %d", show(m).c_str(), TYS[j].name, ret);
      uint8_t raw[8];
      CHECK(0 == d.get_as(TYS[j].tc, raw), "can't read back");
      if (ret == 0) CHECK(same(r, raw), "%s set into %s became %s", show(m).c_str(), TYS[j].name, show(dec(&TYS[j], raw)).c_str());
      else CHECK(same(Num{&TYS[j], false, 0, 0}, raw), "%s refused by %s, which changed to %s", show(m).c_str(), TYS[j].name, show(dec(&TYS[j], raw)).c_str());
    }
    check_getters(v, m);
    delete v;
  }
  if (fits_n > 20 && refused_n > 20) nontrivial();
}

/*******************************************************************************
* Vectors
*******************************************************************************/
template <class T> struct VInfo;
#define VINFO(T, TC, F) template <> struct VInfo<T> {  static constexpr TCode tc = TCode::TC;  static const char* fmt() {  return F;  }  }
VINFO(int8_t, VECT_3_INT8, "(%d, %d, %d)");      VINFO(int16_t, VECT_3_INT16, "(%d, %d, %d)");    VINFO(int32_t, VECT_3_INT32, "(%d, %d, %d)");
VINFO(uint8_t, VECT_3_UINT8, "(%u, %u, %u)");    VINFO(uint16_t, VECT_3_UINT16, "(%u, %u, %u)");  VINFO(uint32_t, VECT_3_UINT32, "(%u, %u, %u)");
VINFO(float, VECT_3_FLOAT, "(%.4f, %.4f, %.4f)");  VINFO(double, VECT_3_DOUBLE, "(%.6f, %.6f, %.6f)");
static const TCode VTCS[8] = {TCode::VECT_3_INT8, TCode::VECT_3_INT16, TCode::VECT_3_INT32, TCode::VECT_3_UINT8, TCode::VECT_3_UINT16, TCode::VECT_3_UINT32, TCode::VECT_3_FLOAT, TCode::VECT_3_DOUBLE};

template <class T> T comp(Src& s);
template <> int8_t   comp<int8_t>(Src& s) {    return (int8_t) s.sword(8);    }
template <> int16_t  comp<int16_t>(Src& s) {   return (int16_t) s.sword(16);  }
template <> int32_t  comp<int32_t>(Src& s) {   return (int32_t) s.sword(32);  }
template <> uint8_t  comp<uint8_t>(Src& s) {   return (uint8_t) s.word(8);    }
template <> uint16_t comp<uint16_t>(Src& s) {  return (uint16_t) s.word(16);  }
template <> uint32_t comp<uint32_t>(Src& s) {  return (uint32_t) s.word(32);  }
template <> float    comp<float>(Src& s) {     return s.f32(false);           }
template <> double   comp<double>(Src& s) {    return s.f64(false);           }

template <class T> void vec_case(Src& s) {
  const TCode TC = VInfo<T>::tc;
  Vector3<T> src(comp<T>(s), comp<T>(s), comp<T>(s));
  C3PValue* v;
  const unsigned how = s.u(3);
  if (how == 0) v = new C3PValue(&src);
  else if (how == 1) v = new KeyValuePair("v", &src);
  else {
    v = new C3PValue(TC);
    Vector3<T> z;
    memset((void*) &z, 0x5A, sizeof(z));
    CHECK(0 == v->get_as(&z) && z.x == 0 && z.y == 0 && z.z == 0, "a new vector without a value isn't zero");
    CHECK(0 == v->set(&src), "set() of a vector of its own type was refused");
  }
  T m[3] = {src.x, src.y, src.z};
  src.x = (T) (src.x + 1);  src.y = 0;  src.z = (T) 7;    // Held by value.
  unsigned n = 0, refused = 0, taken = 0;
  while (more(s, n, 12, 5)) {
    const uint16_t tr = v->trace();
    switch (s.u(5)) {
      case 0: {
        Vector3<T> nv(comp<T>(s), comp<T>(s), comp<T>(s));
        CHECK(0 == v->set(&nv) && v->trace() == (uint16_t) (tr + 1), "set() of a vector of its own type");
        m[0] = nv.x;  m[1] = nv.y;  m[2] = nv.z;
        taken++;
        break;
      }
      case 1: {    // Another vector, or a number
        C3PValue o(VTCS[s.u(8)]);
        const bool ok = o.tcode() == TC;
        const int8_t ret = v->set(&o);
        note("set(%s) -> %d", typecodeToStr(o.tcode()), ret);
        CHECK((ret == 0) == ok, "set() of a %s from a %s returned %d", typecodeToStr(TC), typecodeToStr(o.tcode()), ret);
        if (ok) {  m[0] = m[1] = m[2] = 0;  taken++;  }
        else refused++;
        CHECK(v->trace() == (uint16_t) (tr + (ok ? 1 : 0)), "trace");
        break;
      }
      case 2: {
        C3PValue o(TYS[s.u(11)].tc);
        CHECK(0 > v->set(&o) && v->trace() == tr, "a %s was set from a %s", typecodeToStr(TC), typecodeToStr(o.tcode()));
        CHECK(0 > o.set(v), "a %s was set from a %s", typecodeToStr(o.tcode()), typecodeToStr(TC));
        refused++;
        break;
      }
      case 3: {    // Binary of exactly the right length
        const uint32_t w = s.b(60) ? (uint32_t) (3 * sizeof(T)) : s.u(30);
        const bool ok = (w == 3 * sizeof(T));
        T c[3] = {comp<T>(s), comp<T>(s), comp<T>(s)};
        uint8_t* mem = (uint8_t*) malloc(w ? w : 1);
        if (ok) memcpy(mem, c, w);
        else memset(mem, 0x33, w ? w : 1);
        C3PValue o(mem, w);
        const int8_t ret = v->set(&o);
        note("set(%u bytes) -> %d", w, ret);
        CHECK((ret == 0) == ok, "set() of a %s from %u bytes returned %d", typecodeToStr(TC), w, ret);
        free(mem);
        if (ok) {  memcpy(m, c, sizeof(m));  taken++;  }
        else refused++;
        break;
      }
      case 4: {
        const TCode to = s.b(50) ? VTCS[s.u(8)] : TYS[s.u(11)].tc;
        if (to == TC) break;
        uint8_t buf[32], want[32];
        memset(buf, 0x77, 32);
        memcpy(want, buf, 32);
        CHECK(0 > v->get_as(to, buf), "a %s could be read as a %s", typecodeToStr(TC), typecodeToStr(to));
        CHECK(0 == memcmp(buf, want, 32), "refused get_as() wrote to its destination");
        refused++;
        break;
      }
    }
    uint8_t buf[8 + sizeof(Vector3<T>) + 8];
    memset(buf, 0x66, sizeof(buf));
    CHECK(0 == v->get_as(TC, buf + 8), "get_as() of its own type");
    Vector3<T> got;
    memcpy((void*) &got, buf + 8, sizeof(got));
    CHECK(got.x == m[0] && got.y == m[1] && got.z == m[2], "the vector changed");
    CHECK(buf[7] == 0x66 && buf[8 + sizeof(got)] == 0x66, "get_as() wrote outside its destination");
    CHECK(v->tcode() == TC && v->length() == 3 * sizeof(T) && !v->is_numeric(), "type of a %s", typecodeToStr(TC));
  }
  StringBuilder out;
  v->toString(&out);
  char want[1200];
  snprintf(want, sizeof(want), VInfo<T>::fmt(), m[0], m[1], m[2]);
  CHECK(flat(&out) == want, "toString() is %s, expected %s", quote(flat(&out)).c_str(), quote(want).c_str());
  if (taken && refused) nontrivial();
  delete v;
}

TARGET_F(C01, vectors, 2500, 50000, F_LEAK) {
  switch (s.u(8)) {
    case 0:  vec_case<int8_t>(s);    break;
    case 1:  vec_case<int16_t>(s);   break;
    case 2:  vec_case<int32_t>(s);   break;
    case 3:  vec_case<uint8_t>(s);   break;
    case 4:  vec_case<uint16_t>(s);  break;
    case 5:  vec_case<uint32_t>(s);  break;
    case 6:  vec_case<float>(s);     break;
    case 7:  vec_case<double>(s);    break;
  }
}

/*******************************************************************************
* Text, blobs and string builders
*******************************************************************************/
TARGET_F(C01, strings_and_blobs, 3000, 60000, F_LEAK) {
  const unsigned kind = s.u(5);
  const uint32_t len = s.size(40);
  if (kind <= 1) {
    std::string str = s.text(len, "abc xyz%\n\"");
    char* mem = strdup(str.c_str());
    const bool copied = (kind == 1);
    const bool key = !copied && s.b(40);
    C3PValue* v = copied ? new C3PValue(mem) : key ? (C3PValue*) new KeyValuePair("k", (const char*) mem) : new C3PValue((const char*) mem);
    if (copied) {    // The value has its own copy, and frees it.
      memset(mem, '#', str.size());
      label("deep copy");
    }
    char* got = nullptr;
    CHECK(0 == v->get_as(&got) && got && str == got, "a string reads back as %s", got ? quote(got).c_str() : "null");
    CHECK(copied == (got != mem), "the string was %s", copied ? "not copied" : "copied");
    CHECK(v->reapValue() == copied, "reapValue() is %d", v->reapValue());
    CHECK(v->length() == str.size() + 1, "length() of a string is %u, expected %zu", v->length(), str.size() + 1);
    CHECK(v->tcode() == TCode::STR, "tcode");
    StringBuilder out;
    v->toString(&out);
    CHECK(flat(&out) == str, "toString() of a string");
    StringBuilder dest("pre:");
    StringBuilder* dp = &dest;
    CHECK(0 == v->get_as(&dp), "get_as(StringBuilder) of a string");
    CHECK(dp == &dest && flat(&dest) == "pre:" + str, "get_as(StringBuilder) appended %s", quote(flat(&dest)).c_str());
    uint8_t raw[8];
    memset(raw, 0x11, 8);
    for (unsigned i = 0; i < 11; i++) {
      CHECK(0 > v->get_as(TYS[i].tc, raw), "a string could be read as a %s", TYS[i].name);
      C3PValue o(TYS[i].tc);
      CHECK(0 > v->set(&o) && 0 > o.set(v), "a string and a %s were convertible", TYS[i].name);
    }
    for (unsigned i = 0; i < 8; i++) CHECK(raw[i] == 0x11, "refused get_as() wrote to its destination");
    CHECK(1 == v->trace(), "refused set()s changed the trace");
    {    // Retargeting a reference. A copy that was replaced is released.
      const char* other = "another";
      CHECK(0 == v->set(other), "set() of a string");
      const char* g2 = nullptr;
      CHECK(0 == v->get_as(&g2) && g2 == other, "set() of a string by reference");
      CHECK(2 == v->trace(), "trace");
      C3PValue src((const char*) mem);
      CHECK(0 == v->set(&src), "set() from a string value");
      CHECK(0 == v->get_as(&g2) && g2 == mem, "set() from a string value, by reference");
      CHECK(!v->reapValue(), "the value owns a string that it was only referred to");
    }
    if (len) nontrivial();
    delete v;
    CHECK(copied || str == mem, "a referenced string was changed");
    free(mem);
  }
  else if (kind == 2 || kind == 3) {
    const std::string data = s.bytes(len);
    uint8_t* mem = (uint8_t*) malloc(data.size() ? data.size() : 1);
    memcpy(mem, data.data(), data.size());
    const bool owned = s.b(50);
    C3PValue* v = (kind == 2) ? new C3PValue(mem, (uint32_t) data.size()) : (C3PValue*) new KeyValuePair("blob", mem, (uint32_t) data.size());
    if (owned) {  v->reapValue(true);  label("owned blob");  }
    CHECK(v->has_key() == (kind == 3), "has_key()");
    uint8_t* p = nullptr;
    uint32_t l = 99;
    CHECK(v->is_ptr_len() && 0 == v->get_as(&p, &l) && p == mem && l == data.size(), "a blob reads back at another place, or with another length");
    CHECK(v->length() == data.size(), "length() of a blob is %u", v->length());
    int8_t ok = 0;
    const C3PBinBinder bb = v->get_as_ptr_len(&ok);
    CHECK(ok == 1 && bb.buf == mem && bb.len == data.size(), "get_as_ptr_len()");
    uint8_t raw[16];
    for (unsigned i = 0; i < 11; i++) {
      CHECK(0 > v->get_as(TYS[i].tc, raw), "a blob could be read as a %s", TYS[i].name);
      C3PValue o(TYS[i].tc);
      CHECK(0 > v->set(&o) && 0 > o.set(v), "a blob and a %s were convertible", TYS[i].name);
    }
    CHECK(1 == v->trace(), "trace");
    C3PValue ref(TCode::BINARY);
    CHECK(0 == ref.set(v) && 2 == ref.trace(), "set() of a blob from another");
    CHECK(0 == ref.get_as(&p, &l) && p == mem && l == data.size(), "set() of a blob from another");
    uint8_t other[4] = {1, 2, 3, 4};
    CHECK(0 == ref.set(other, 4), "set(ptr, len)");
    CHECK(3 == ref.trace(), "three values, and the trace of a blob is %u", ref.trace());
    {
      C3PValue fresh(TCode::BINARY);
      uint16_t seen = fresh.trace();
      CHECK(1 == seen && !fresh.dirty(&seen), "a new blob's trace");
      CHECK(0 == fresh.set(other, 4) && 2 == fresh.trace() && fresh.dirty(&seen), "set(ptr, len) of an empty blob left the trace at %u", fresh.trace());
      CHECK(0 == fresh.set(other, 4) && 3 == fresh.trace() && fresh.dirty(&seen), "set(ptr, len) of the same memory left the trace at %u", fresh.trace());
      CHECK(0 == fresh.set(nullptr, 0) && 4 == fresh.trace() && fresh.dirty(&seen) && !fresh.dirty(&seen), "set(null, 0) left the trace at %u", fresh.trace());
    }
    CHECK(0 == ref.get_as(&p, &l) && p == other && l == 4, "set(ptr, len)");
    CHECK(0 == v->get_as(&p, &l) && p == mem && l == data.size(), "setting one blob changed another");
    CHECK(0 == memcmp(mem, data.data(), data.size()), "the blob's content changed");
    C3PValue num((uint32_t) 77);
    CHECK(0 > num.get_as(&p, &l) && 0 > num.set(other, 4) && 77 == num.get_as_uint(), "pointer-length accessors on a number");
    if (len) nontrivial();
    if (s.b(30)) {    // Retargeting. What was owned is released, and the replacement isn't owned.
      C3PValue two(other, 4);
      CHECK(0 == (s.b(50) ? v->set(other, 4) : v->set(&two)), "set() of a blob");
      CHECK(0 == v->get_as(&p, &l) && p == other && l == 4 && !v->reapValue(), "set() of a blob");
    }
    delete v;
    if (!owned) {
      CHECK(0 == memcmp(mem, data.data(), data.size()), "a referenced blob was changed");
      free(mem);
    }
  }
  else {
    StringBuilder* sb = new StringBuilder();
    std::string m;
    const unsigned parts = s.u(4);
    for (unsigned i = 0; i < parts; i++) {
      std::string p = s.text(s.size(12), "abcdefg ");
      m += p;
      sb->concat(p.c_str());
    }
    const bool owned = s.b(50);
    C3PValue* v = s.b(50) ? new C3PValue(sb) : (C3PValue*) new KeyValuePair("sb", sb);
    if (owned) v->reapValue(true);
    CHECK(v->tcode() == TCode::STR_BUILDER && v->length() == m.size(), "length() of a StringBuilder value is %u, expected %zu", v->length(), m.size());
    StringBuilder* got = nullptr;
    CHECK(0 == v->get_as(&got) && got == sb, "get_as(StringBuilder**) into a null pointer");
    StringBuilder dest("D");
    got = &dest;
    CHECK(0 == v->get_as(&got) && got == &dest && flat(&dest) == "D" + m, "get_as(StringBuilder**) into a builder gave %s", quote(flat(&dest)).c_str());
    StringBuilder out;
    v->toString(&out);
    CHECK(flat(&out) == m && flat(sb) == m, "toString() of a StringBuilder");
    uint8_t raw[16];
    for (unsigned i = 0; i < 11; i++) {
      CHECK(0 > v->get_as(TYS[i].tc, raw), "a StringBuilder could be read as a %s", TYS[i].name);
      C3PValue o(TYS[i].tc);
      CHECK(0 > v->set(&o) && 0 > o.set(v), "a StringBuilder and a %s were convertible", TYS[i].name);
    }
    if (parts > 1) nontrivial();
    if (!owned) {
      StringBuilder other("other");
      C3PValue ov(&other);
      CHECK(0 == v->set(&ov), "set() of a StringBuilder value from another");
      got = nullptr;
      CHECK(0 == v->get_as(&got) && got == &other, "set() of a StringBuilder value from another");
      delete v;
      CHECK(flat(&other) == "other" && flat(sb) == m, "a referenced StringBuilder was changed");
      delete sb;
    }
    else if (s.b(50)) {
      StringBuilder other("other");
      CHECK(0 == v->set(&other) && !v->reapValue(), "set() of a StringBuilder value");
      delete v;
      CHECK(flat(&other) == "other", "a referenced StringBuilder was changed");
    }
    else delete v;
  }
}

/*******************************************************************************
* Lists of values
*******************************************************************************/
static unsigned live;
struct CntV : public C3PValue {
  CntV(int32_t x) : C3PValue(x) {  live++;  }
  virtual ~CntV() {  live--;  }
};
struct CntK : public KeyValuePair {
  CntK(const char* k, int32_t x) : KeyValuePair(k, x) {  live++;  }
  CntK(char* k, int32_t x) : KeyValuePair(k, x) {  live++;  }
  virtual ~CntK() {  live--;  }
};

struct El {  C3PValue* p; int id; bool key; std::string k; bool reap;  };

TARGET_F(C01, lists, 5000, 100000, F_LEAK) {
  live = 0;
  // Keys sometimes share a long beginning, and differ only after it.
  const std::string PRE(s.b(75) ? 0 : s.pick<unsigned>({1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256}), 'p');
  std::deque<std::string> keep;
  int next_id = 0;
  std::vector<El> m;
  auto make = [&](bool keyed) -> El {
    El e;
    e.id  = next_id++;
    e.key = keyed;
    e.reap = false;
    if (keyed) {
      e.k = (s.b(90) ? PRE : "") + s.text(s.u(3), "ab");
      if (s.b(50)) {
        char* tmp = strdup(e.k.c_str());   // A key that doesn't last.
        e.p = new CntK(tmp, e.id);
        memset(tmp, '!', e.k.size());
        free(tmp);
      }
      else {
        keep.push_back(e.k);
        e.p = new CntK((const char*) keep.back().c_str(), e.id);
      }
    }
    else e.p = new CntV(e.id);
    return e;
  };
  m.push_back(make(s.b(60)));
  auto kill = [&](El& e) {  delete e.p;  };
  unsigned n = 0, removals = 0;
  while (more(s, n, 30, 10)) {
    switch (s.weighted({5, 2, 2, 1, 1})) {
      case 0: {    // link, from any element
        El e = make(s.b(60));
        e.reap = s.b(75);
        C3PValue* via = m[s.u((uint32_t) m.size())].p;
        C3PValue* ret = e.reap && s.b(50) ? via->link(e.p) : via->link(e.p, e.reap);
        note("link #%d (%s) reap=%d", e.id, e.key ? e.k.c_str() : "-", e.reap);
        CHECK(ret == e.p, "link() didn't return its argument");
        CHECK(e.p->reapContainer() == e.reap, "link() left reapContainer() at %d", e.p->reapContainer());
        m.push_back(e);
        break;
      }
      case 1: {    // drop
        const uint32_t i = s.u((uint32_t) m.size());
        const bool destruct = s.b(50);
        C3PValue* head = m[0].p;
        El e = m[i];
        if (m.size() == 1) break;
        note("drop #%d destruct=%d", e.id, destruct);
        const unsigned before = live;
        const int8_t ret = head->drop(&head, e.p, destruct);
        CHECK(0 == ret, "drop() of an element returned %d", ret);
        m.erase(m.begin() + i);
        CHECK(head == m[0].p, "drop() left the head at the wrong element");
        if (destruct && e.reap) CHECK(live == before - 1, "drop() destroyed %d values", (int) (before - live));
        else {
          CHECK(live == before, "drop() destroyed %d values", (int) (before - live));
          CHECK(e.p->nextValue() == nullptr, "a dropped value still has siblings");
          CHECK(e.p->get_as_int() == e.id, "a dropped value was changed");
          kill(e);
        }
        removals++;
        break;
      }
      case 2: {    // unlink: an element, and all after it
        if (m.size() < 2) break;
        const uint32_t i = 1 + s.u((uint32_t) m.size() - 1);
        const uint32_t via = s.u(i);
        const bool destruct = s.b(50);
        note("unlink #%d via #%d destruct=%d", m[i].id, m[via].id, destruct);
        const unsigned before = live;
        CHECK(0 == m[via].p->unlink(m[i].p, destruct), "unlink() of an element");
        std::vector<El> tail(m.begin() + i, m.end());
        m.resize(i);
        if (destruct && tail[0].reap) {
          // It goes, and takes those it owns.
          size_t gone = 1;
          while (gone < tail.size() && tail[gone].reap) gone++;
          CHECK(live == before - gone, "unlink() destroyed %d values, expected %zu", (int) (before - live), gone);
          // The rest became unreachable from here, but aren't ours to free.
          if (gone < tail.size()) {
            size_t k = gone;
            while (k < tail.size()) {
              kill(tail[k]);
              k++;
              while (k < tail.size() && tail[k].reap) k++;
            }
          }
        }
        else {
          CHECK(live == before, "unlink() destroyed %d values", (int) (before - live));
          size_t k = 0;
          while (k < tail.size()) {
            kill(tail[k]);
            k++;
            while (k < tail.size() && tail[k].reap) k++;
          }
        }
        removals++;
        break;
      }
      case 3: {    // absent
        CntV other(5);
        C3PValue* head = m[0].p;
        CHECK(0 > head->drop(&head, &other, true) && head == m[0].p, "drop() of something not in the list");
        CHECK(0 > head->unlink(&other, true), "unlink() of something not in the list");
        break;
      }
      case 4: {    // change a key
        const uint32_t i = s.u((uint32_t) m.size());
        if (!m[i].key) break;
        char tmp[300];
        const std::string k = PRE + s.text(s.u(3), "ab");
        strcpy(tmp, k.c_str());
        CHECK(0 == ((KeyValuePair*) m[i].p)->setKey(tmp), "setKey()");
        memset(tmp, 'z', sizeof(tmp));
        m[i].k = k;
        break;
      }
    }
    // The list is what it should be.
    CHECK(live == m.size(), "%u values are alive, expected %zu", live, m.size());
    CHECK(m[0].p->count() == m.size(), "count() is %u, expected %zu", m[0].p->count(), m.size());
    C3PValue* it = m[0].p;
    for (size_t i = 0; i < m.size(); i++) {
      CHECK(it == m[i].p, "the list differs at %zu", i);
      CHECK(m[0].p->valueWithIdx((uint32_t) i) == m[i].p, "valueWithIdx(%zu)", i);
      int32_t x = -1;
      CHECK(0 == m[0].p->valueWithIdx((uint32_t) i, &x) && x == m[i].id, "valueWithIdx(%zu) gave %d", i, x);
      CHECK(it->get_as_int() == m[i].id, "element %zu changed", i);
      CHECK(it->has_key() == m[i].key, "has_key() of element %zu", i);
      if (m[i].key) CHECK(m[i].k == ((KeyValuePair*) it)->getKey(), "key of element %zu is %s", i, ((KeyValuePair*) it)->getKey());
      it = it->nextValue();
    }
    CHECK(!it, "the list goes on");
    int32_t x = -7;
    CHECK(nullptr == m[0].p->valueWithIdx((uint32_t) m.size()) && 0 > m[0].p->valueWithIdx((uint32_t) m.size(), &x) && x == -7, "valueWithIdx() past the end");
    if (m[0].key) {
      KeyValuePair* head = (KeyValuePair*) m[0].p;
      static const char* KEYS[] = {"", "a", "b", "aa", "ab", "ba", "bb", "zz"};
      for (const char* tail : KEYS) {
        const std::string full = PRE + tail;
        const char* k = full.c_str();
        C3PValue* want = nullptr;
        int id = -7;
        for (auto& e : m) if (e.key && e.k == k) {  want = e.p;  id = e.id;  break;  }
        CHECK(head->valueWithKey(k) == want, "valueWithKey(\"%s\") gave the wrong element", k);
        int32_t y = -7;
        const int8_t ret = head->valueWithKey(k, &y);
        CHECK((ret == 0) == (want != nullptr) && y == id, "valueWithKey(\"%s\") gave %d, expected %d", k, y, id);
      }
      StringBuilder keys;
      std::string want;
      int cnt = 0;
      KeyValuePair* kit = head;
      for (auto& e : m) if (e.key) {
        want += e.k;
        cnt++;
        CHECK(kit == e.p, "nextKVP() skipped or repeated an element");
        kit = kit->nextKVP();
      }
      CHECK(!kit, "nextKVP() goes on");
      const int got = head->collectKeys(&keys);
      CHECK(got == cnt && flat(&keys) == want, "collectKeys() gave %d keys %s, expected %d %s", got, quote(flat(&keys)).c_str(), cnt, quote(want).c_str());
    }
  }
  if (removals && m.size() > 2) nontrivial();
  // Whoever owns the head frees what the chain owns.
  size_t k = 0;
  while (k < m.size()) {
    kill(m[k]);
    k++;
    while (k < m.size() && m[k].reap) k++;
  }
  CHECK(live == 0, "%u values were left alive", live);
}
