/*
* D01: a SimpleDataRecord that is saved can be loaded, and anything else is refused.
* D02: a ConfRecord holds a value of the declared type for each of its keys, and survives storage.
*/
#include "pbt.h"
#include "CppPotpourri.h"
#include "AbstractPlatform.h"
#include "StringBuilder.h"
#include "EnumWrapper.h"
#include "C3PValue/C3PValue.h"
#include "C3PValue/KeyValuePair.h"
#include "Storage/Storage.h"
#include "Storage/RecordTypes/ConfRecord.h"
#include <string.h>
#include <stdlib.h>
#include <deque>
#include <memory>
#include <string>
#include <vector>
using namespace pbt;

static std::string flat(StringBuilder* b) {
  const int n = b->length();
  if (n <= 0) return std::string();
  std::string r((size_t) n, '\0');
  b->copyToBuffer((uint8_t*) &r[0], (uint32_t) n);
  return r;
}
static void frag(Src& s, StringBuilder* b, const std::string& m) {
  size_t at = 0;
  for (unsigned pieces = 0; at < m.size(); pieces++) {
    size_t n = (pieces > 200) ? m.size() : 1 + (s.b(50) ? m.size() : s.size((uint32_t) m.size() - (uint32_t) at));
    if (n > m.size() - at) n = m.size() - at;
    StringBuilder part((uint8_t*) m.data() + at, (uint32_t) n);
    b->concatHandoff(&part);
    at += n;
  }
}
/* Through the pointer (in a buffer of exact size), or through a StringBuilder. */
static int8_t load_from(Src& s, SimpleDataRecord* r, uint32_t tag, const std::string& in) {
  if (s.b(50)) {
    std::unique_ptr<uint8_t[]> heap(new uint8_t[in.size()]);
    memcpy(heap.get(), in.data(), in.size());
    return r->load(tag, heap.get(), (uint32_t) in.size());
  }
  StringBuilder b;
  frag(s, &b, in);
  return r->load(tag, &b);
}

struct Blob : public SimpleDataRecord {
  std::string content;
  bool bad_out = false, bad_in = false, any_format = false;
  unsigned taken = 0;
  Blob(uint32_t tag, StorageRecordType t) : SimpleDataRecord(tag, t) {}
  int8_t serialize(StringBuilder* o, TCode f) {
    if (bad_out) return -1;
    CHECK(f == TCode::CBOR, "the format is %s", typecodeToStr(f));
    StringBuilder part((uint8_t*) content.data(), (uint32_t) content.size());
    if (!content.empty()) o->concatHandoff(&part);
    return 0;
  }
  int8_t deserialize(StringBuilder* i, TCode f) {
    if (any_format && f != TCode::CBOR) return -1;
    CHECK(f == TCode::CBOR, "the format is %s", typecodeToStr(f));
    if (bad_in) return -1;
    content = flat(i);
    taken++;
    return 0;
  }
};

static const StorageRecordType RT[] = {  StorageRecordType::ROOT, StorageRecordType::KEY_LISTING, StorageRecordType::C3POBJ_ON_ICE, StorageRecordType::LOG, StorageRecordType::CONFIG_OBJ, StorageRecordType::FIRMWARE_BLOB  };
static const uint32_t DESC = 40;

TARGET_F(D01, records, 4000, 120000, F_LEAK) {
  const uint32_t tag = (uint32_t) s.word(32);
  const StorageRecordType type = RT[s.u(6)];
  Blob r(s.b(50) ? tag : (uint32_t) s.word(32), type);
  r.content = s.b(2) ? s.filler(s.large(140000), nullptr) : s.bytes(s.b(90) ? s.size(80) : s.u(3000));
  const std::string orig = r.content;
  const std::string name = s.b(85) ? "n" + s.text(s.size(30), "abc_ -9") : std::string(250 + s.u(300), 'n');
  const std::string before = s.b(30) ? s.bytes(1 + s.size(50)) : std::string();
  CHECK(!r.wasLoaded() && r.recordType() == type, "a new record");
  StringBuilder out;
  frag(s, &out, before);
  if (s.b(20)) {
    CHECK(-1 == r.save(tag, "", &out) && flat(&out) == before, "a record without name was saved");
    r.bad_out = true;
    CHECK(-2 == r.save(tag, name.c_str(), &out) && flat(&out) == before, "a record that doesn't serialize was saved");
    r.bad_out = false;
  }
  if (s.b(30)) {     // It had another name before. That must leave no trace.
    const std::string other = "n" + s.text(s.size(30), "xyz");
    StringBuilder o2;
    CHECK(0 == r.save(tag, other.c_str(), &o2), "save() under another name");
    label("renamed");
  }
  std::string rec;
  for (unsigned i = 0, n = 1 + s.u(2); i < n; i++) {
    if (i) {  out.clear();  frag(s, &out, before);  }
    CHECK(0 == r.save(tag, name.c_str(), &out), "save()");
    std::string w = flat(&out);
    CHECK(w.size() == before.size() + DESC + orig.size() && 0 == w.compare(0, before.size(), before), "save() wrote %zu bytes for %zu of content", w.size() - before.size(), orig.size());
    w.erase(0, before.size());
    CHECK(w.substr(DESC) == orig, "the content in the record was changed");
    CHECK(i == 0 || w == rec, "a record that is saved again differs");
    std::string padded = name.substr(0, 16);
    padded.resize(16, '\0');
    CHECK(w.substr(0, DESC).find(padded) != std::string::npos, "the descriptor doesn't have the (padded) name, but is %s", hex(w.data(), DESC, DESC).c_str());
    rec = w;
    CHECK(!r.isDirty() && !r.wasLoaded() && r.recordType() == type && r.content == orig, "a saved record is dirty, or changed");
  }
  note("%s, %zu bytes of content after %zu: %s", DataRecord::recordTypeStr(type), orig.size(), before.size(), hex(rec.data(), rec.size(), 400).c_str());
  StringBuilder dbg;
  r.printDebug(&dbg);
  CHECK(flat(&dbg).find(name.substr(0, 16) + "\n") != std::string::npos, "printDebug() doesn't have the name, but %s", quote(flat(&dbg)).c_str());
  /* Changes are noticed. */
  if (!orig.empty()) {
    const uint32_t at = s.u((uint32_t) orig.size());
    const uint32_t h = r.hash();
    r.content[at] ^= (char) (1 + s.u(255));
    CHECK(r.isDirty() && r.hash() != h, "a change of byte %u went unnoticed", at);
    r.content[at] = orig[at];
    CHECK(!r.isDirty() && r.hash() == h, "dirty without a change");
    r.content.pop_back();
    CHECK(r.isDirty(), "a removed byte went unnoticed");
    r.content = orig;
  }
  r.content += (char) s.u(256);
  CHECK(r.isDirty(), "an added byte went unnoticed");
  r.content = orig;
  /* It loads, whatever follows it. */
  {
    Blob l(s.b(50) ? tag : (uint32_t) s.word(32), type);
    l.content = s.bytes(s.size(20));
    const int8_t ret = load_from(s, &l, tag, rec + (s.b(40) ? s.bytes(s.size(60)) : std::string()));
    CHECK(ret == 0, "load() returned %d", ret);
    CHECK(l.taken == 1 && l.content == orig, "the record was loaded with other content (%s)", hex(l.content.data(), l.content.size()).c_str());
    CHECK(l.wasLoaded() && !l.isDirty() && l.hash() == r.hash() && l.timestamp() == r.timestamp() && l.recordType() == type, "the loaded record is dirty, or differs otherwise");
    StringBuilder d2;
    l.printDebug(&d2);
    CHECK(flat(&d2) == flat(&dbg), "the loaded record prints as %s", quote(flat(&d2)).c_str());
    if (s.b(30)) {
      StringBuilder o2;
      CHECK(0 == l.save(tag, name.c_str(), &o2) && flat(&o2) == rec, "the loaded record is saved as another");
    }
    if (s.b(20)) {    // Once more, into the same.
      CHECK(0 == load_from(s, &l, tag, rec) && l.content == orig, "load() again");
    }
  }
  /* A record that another device made at some time keeps that time. */
  if (s.b(30) && r.timestamp() == 0 && rec.substr(28, 8) == std::string(8, '\0')) {
    const uint64_t when = s.word(64);
    std::string d = rec;
    for (int i = 0; i < 8; i++) d[28 + i] = (char) (when >> (8 * i));
    Blob l(tag, type);
    CHECK(0 == load_from(s, &l, tag, d) && l.content == orig, "load() of a record with a time");
    CHECK(l.timestamp() == when, "a record made at %llx was loaded with the time %llx", (unsigned long long) when, (unsigned long long) l.timestamp());
    StringBuilder o2;
    CHECK(0 == l.save(tag, name.c_str(), &o2) && flat(&o2) == d, "a record made at %llx is saved as another", (unsigned long long) when);
  }
  /* Anything else is refused. */
  for (int i = 0; i < 4; i++) {
    std::string d = rec;
    uint32_t t = tag;
    StorageRecordType ty = type;
    int8_t want = 0;
    Blob l(tag, type);
    bool may = false;      // It might still be good.
    switch (s.u(8)) {
      case 6: {
          /* Lost in a run: erased, or never written. */
          const uint32_t a = s.u((uint32_t) d.size()), b = s.b(40) ? (uint32_t) d.size() : (uint32_t) s.i(a + 1, (int64_t) d.size());
          const char c = s.b(60) ? 0 : (char) 0xFF;
          for (uint32_t at = a; at < b; at++) d[at] = c;
          may = d.substr(DESC) == orig;
        } break;
      case 7: {
          /* Its hash or its length is lost, and its content damaged. */
          if (orig.empty()) continue;
          const uint32_t at = DESC + s.u((uint32_t) orig.size());
          d[at] ^= (char) (1 + s.u(255));
          const uint32_t f = s.b(70) ? 36 : 24;
          const char c = s.b(60) ? 0 : (char) 0xFF;
          for (uint32_t k = f; k < f + 4; k++) d[k] = c;
          want = -3;
          if (f == 24) want = 0;
        } break;
      case 0:  d.resize(s.u((uint32_t) d.size()));  want = (d.size() < DESC) ? -1 : 0;  break;
      case 1:  d[4] ^= (char) (1 + s.u(255));  want = -1;  break;
      case 2:  do {  t = s.b(50) ? tag ^ (1u << s.u(32)) : (uint32_t) s.word(32);  } while (t == tag);  want = -2;  break;
      case 3: {
          if (orig.empty()) continue;
          const uint32_t at = DESC + s.u((uint32_t) orig.size());
          d[at] ^= (char) (1 + s.u(255));
          want = -3;
        } break;
      case 4: {
          const unsigned k = s.u(6);
          if (RT[k] == type) continue;
          ty = RT[k];
          want = -1;
        } break;
      default:  l.bad_in = true;  want = -4;  break;
    }
    Blob m(tag, ty);
    m.bad_in = l.bad_in;
    m.any_format = may;      // That byte might be damaged, and nothing else.
    m.content = "mine";
    const int8_t ret = load_from(s, &m, t, d);
    if (may && ret == 0) {
      CHECK(m.content == orig && m.taken == 1, "a record with a damaged descriptor was loaded with other content");
      continue;
    }
    CHECK(ret < 0 && (want == 0 || ret == want), "load() returned %d for %s, and not %d", ret, hex(d.data(), d.size()).c_str(), want);
    CHECK(m.content == "mine" && m.taken == 0 && !m.wasLoaded(), "a record that was refused left its content");
  }
  if (orig.size() > 8) nontrivial();
}

/* Any bytes. */
TARGET_F(D01, any_bytes, 3000, 100000, F_LEAK) {
  std::string d = s.bytes(s.b(30) ? s.size(40) : 40 + s.size(40));
  const uint32_t tag = (uint32_t) s.word(32);
  const StorageRecordType type = RT[s.u(6)];
  if (d.size() >= DESC) {
    for (int i = 0; i < 4; i++) d[i] = (char) (tag >> (8 * i));
    d[4] = 1;
    d[6] = (char) type;
    if (s.b(80)) {
      const uint32_t n = s.b(50) ? (uint32_t) d.size() - DESC : (s.b(50) ? s.u(100) : (uint32_t) s.word(32));
      for (int i = 0; i < 4; i++) d[24 + i] = (char) (n >> (8 * i));
    }
    if (s.b(30)) d[7] = (char) TCode::CBOR;
    else d[7] = (char) TCode::CBOR;
  }
  Blob l(tag, type);
  const int8_t ret = load_from(s, &l, tag, d);
  note("%s -> %d", hex(d.data(), d.size()).c_str(), ret);
  if (ret == 0) {
    CHECK(d.size() >= DESC && l.content.size() <= d.size() - DESC && 0 == d.compare(DESC, l.content.size(), l.content), "content from nowhere");
    label("accepted");
  }
  else CHECK(l.taken == 0, "content was taken from a record that was refused");
  if (d.size() > DESC) nontrivial();
}

/* ---- D02 ---- */

enum class K : uint16_t {};
typedef ConfRecordValidation<K> Rec;
struct List {
  std::deque<std::string> names;
  std::vector<TCode> types;
  std::vector<EnumDef<K>> defs;
  std::unique_ptr<EnumDefList<K>> list;
  std::string name;
};
static const TCode TYPES[] = {  TCode::UINT8, TCode::UINT16, TCode::UINT32, TCode::UINT64, TCode::INT8, TCode::INT16, TCode::INT32, TCode::INT64, TCode::BOOLEAN, TCode::FLOAT, TCode::DOUBLE, TCode::STR, TCode::VECT_3_FLOAT, TCode::VECT_3_INT8, TCode::VECT_3_UINT32  };

static void build(Src& s, List* l) {
  l->defs.clear();
  const bool catchall = s.b(60);
  const size_t at = s.u((uint32_t) l->names.size() + 1);
  l->defs.reserve(l->names.size() + 1);
  for (size_t i = 0; i <= l->names.size(); i++) {
    if (catchall && i == at) l->defs.emplace_back((K) 999, "INVALID", ENUM_FLAG_MASK_INVALID_CATCHALL, (uint8_t) TCode::NONE);
    if (i < l->names.size()) l->defs.emplace_back((K) i, l->names[i].c_str(), 0, (uint8_t) l->types[i]);
  }
  l->list.reset(new EnumDefList<K>(l->defs.data(), (uint32_t) l->defs.size(), l->name.c_str()));
}
static void some_list(Src& s, List* l) {
  const unsigned n = 1 + (s.b(1) ? s.large(300) : s.size(12));
  l->name = "Conf" + s.text(s.size(6), "abc");
  for (unsigned i = 0; i < n; i++) {
    l->names.push_back(s.b(15) ? std::string(i % 2 ? "type" : "ts") + (i > 1 ? std::to_string(i) : "") : "key" + s.text(s.size(4), "ABxy_") + std::to_string(i));
    l->types.push_back(TYPES[s.u(sizeof(TYPES) / sizeof(TYPES[0]))]);
  }
  build(s, l);
}

/* What a record should have. Independent values of each key's type. */
struct Model {
  List* l;
  std::vector<std::unique_ptr<C3PValue>> v;
  std::vector<uint8_t> is_set;
  explicit Model(List* x) : l(x), is_set(x->names.size(), 0) {
    for (TCode t : l->types) v.emplace_back(new C3PValue(t));
  }
};
static std::deque<std::string> keep;

/* One value, to the model and to the record. */
template <class T> static void put(Src& s, Rec* r, Model* m, unsigned k, T val, const char* txt) {
  const bool want = (0 == m->v[k]->set(val));
  const bool by_name = s.b(50);
  const int8_t ret = by_name ? ((ConfRecord*) r)->setConf(m->l->names[k].c_str(), val) : r->setConf((K) k, val);
  note("%s (%s) = %s -> %d", m->l->names[k].c_str(), typecodeToStr(m->l->types[k]), txt, ret);
  CHECK(ret == (want ? 0 : -3), "setConf() of a %s to %s returned %d", typecodeToStr(m->l->types[k]), txt, ret);
  if (want) m->is_set[k] = 1;
}
static void put_any(Src& s, Rec* r, Model* m) {
  const unsigned k = s.u((uint32_t) m->v.size());
  unsigned t = s.u(13);
  if (s.b(50)) for (unsigned i = 0; i < 13; i++) if (TYPES[i] == m->l->types[k]) t = i;
  char b[80];
  switch (t) {
    #define P(N, T, EXPR, FMT)  case N: {  T x = (EXPR);  snprintf(b, sizeof(b), FMT, x);  put<T>(s, r, m, k, x, b);  } break;
    P(0, uint8_t, (uint8_t) s.word(8), "%u")
    P(1, uint16_t, (uint16_t) s.word(16), "%u")
    P(2, uint32_t, (uint32_t) s.word(32), "%u")
    P(3, uint64_t, (uint64_t) s.word(64), "%llu")
    P(4, int8_t, (int8_t) s.sword(8), "%d")
    P(5, int16_t, (int16_t) s.sword(16), "%d")
    P(6, int32_t, (int32_t) s.sword(32), "%d")
    P(7, int64_t, (int64_t) s.sword(64), "%lld")
    P(8, bool, s.b(50), "%d")
    case 9: {  float f = s.f32();  if (f != f) f = 2.5f;  snprintf(b, sizeof(b), "%g", f);  put<float>(s, r, m, k, f, b);  } break;
    case 10: {  double f = s.f64();  if (f != f) f = 2.5;  snprintf(b, sizeof(b), "%g", f);  put<double>(s, r, m, k, f, b);  } break;
    case 11: {
        keep.push_back(s.b(1) ? s.filler(s.large(70000), "abc XYZ\"\n") : s.text(s.size(20), "abc XYZ\"\n"));
        const char* t = keep.back().c_str();
        if (s.b(50)) put<const char*>(s, r, m, k, t, quote(keep.back()).c_str());
        else put<char*>(s, r, m, k, (char*) t, quote(keep.back()).c_str());
      } break;
    default: {
        Vector3f f(s.f32(), s.f32(), s.f32());
        if (f.x != f.x || f.y != f.y || f.z != f.z) f.set(1, 2, 3);
        put<Vector3f*>(s, r, m, k, &f, "a vector");
      } break;
  }
}
template <class T> static void get(Src& s, Rec* r, Model* m, unsigned k, const char* what) {
  T a, b;
  memset((void*) &a, 0x5A, sizeof(T));
  memset((void*) &b, 0x5A, sizeof(T));
  const bool want = (0 == m->v[k]->get_as(&a));
  const int8_t ret = s.b(50) ? ((ConfRecord*) r)->getConf(m->l->names[k].c_str(), &b) : r->getConf((K) k, &b);
  CHECK(ret == (want ? 0 : -3), "getConf() of %s (%s), as %s, returned %d", m->l->names[k].c_str(), typecodeToStr(m->l->types[k]), what, ret);
  CHECK(0 == memcmp((void*) &a, (void*) &b, sizeof(T)), "getConf() of %s (%s), as %s, gave something else", m->l->names[k].c_str(), typecodeToStr(m->l->types[k]), what);
}
static std::string text_of(C3PValue* v) {  StringBuilder o;  v->toString(&o);  return flat(&o);  }

/* Every key has its type, and its value. */
static void compare(Src& s, Rec* r, Model* m, const char* when) {
  CHECK(r->keyCount() == m->v.size(), "keyCount() %u, of %zu, %s", r->keyCount(), m->v.size(), when);
  StringBuilder kl;
  r->keyList(&kl);
  CHECK((size_t) kl.count() == m->v.size(), "keyList() has %d, of %zu, %s", kl.count(), m->v.size(), when);
  for (size_t i = 0; i < m->v.size(); i++) CHECK(m->l->names[i] == kl.position((int) i), "keyList() has %s in place of %s", kl.position((int) i), m->l->names[i].c_str());
  KeyValuePair* kvp = r->getKVP();
  CHECK(kvp && r->allocated(), "getKVP() gave nothing, %s", when);
  CHECK((size_t) kvp->count() == m->v.size(), "the record has %d values, of %zu, %s", kvp->count(), m->v.size(), when);
  for (unsigned k = 0; k < m->v.size(); k++) {
    KeyValuePair* x = kvp->valueWithKey(m->l->names[k].c_str());
    CHECK(x, "%s is missing, %s", m->l->names[k].c_str(), when);
    CHECK(x->tcode() == m->l->types[k], "%s became a %s, of %s, %s", m->l->names[k].c_str(), typecodeToStr(x->tcode()), typecodeToStr(m->l->types[k]), when);
    switch (m->l->types[k]) {
      case TCode::STR: {
          const char* a = nullptr;
          const char* b = nullptr;
          CHECK(0 == m->v[k]->get_as(&a) && 0 == r->getConf((K) k, &b), "getConf() of a string, %s", when);
          CHECK((a == nullptr) == (b == nullptr) && (!a || 0 == strcmp(a, b)), "%s is %s, of %s, %s", m->l->names[k].c_str(), b ? quote(b).c_str() : "unset", a ? quote(a).c_str() : "unset", when);
        } break;
      case TCode::VECT_3_FLOAT:  get<Vector3f>(s, r, m, k, "a vector");  break;
      default: {
          const std::string a = text_of(m->v[k].get()), b = text_of(x);
          CHECK(a == b, "%s is %s, of %s, %s", m->l->names[k].c_str(), b.c_str(), a.c_str(), when);
          switch (m->l->types[k]) {
            case TCode::FLOAT:   get<float>(s, r, m, k, "FLOAT");     break;
            case TCode::DOUBLE:  get<double>(s, r, m, k, "DOUBLE");   break;
            case TCode::INT64:   get<int64_t>(s, r, m, k, "INT64");   break;
            case TCode::UINT64:  get<uint64_t>(s, r, m, k, "UINT64"); break;
            default:  break;
          }
        } break;
    }
  }
}
static void get_any(Src& s, Rec* r, Model* m) {
  const unsigned k = s.u((uint32_t) m->v.size());
  switch (s.u(12)) {
    case 0:  get<uint8_t>(s, r, m, k, "UINT8");    break;
    case 1:  get<uint16_t>(s, r, m, k, "UINT16");  break;
    case 2:  get<uint32_t>(s, r, m, k, "UINT32");  break;
    case 3:  get<uint64_t>(s, r, m, k, "UINT64");  break;
    case 4:  get<int8_t>(s, r, m, k, "INT8");      break;
    case 5:  get<int16_t>(s, r, m, k, "INT16");    break;
    case 6:  get<int32_t>(s, r, m, k, "INT32");    break;
    case 7:  get<int64_t>(s, r, m, k, "INT64");    break;
    case 8:  get<bool>(s, r, m, k, "BOOLEAN");     break;
    case 9:  get<float>(s, r, m, k, "FLOAT");      break;
    case 10: get<double>(s, r, m, k, "DOUBLE");    break;
    default: get<Vector3f>(s, r, m, k, "VECT_3_FLOAT");  break;
  }
}

/* The end of the CBOR item at the given place, or 0. */
static size_t item(const std::string& d, size_t at, int depth) {
  if (at >= d.size() || depth > 10) return 0;
  const uint8_t h = (uint8_t) d[at++];
  const unsigned major = h >> 5, info = h & 31;
  uint64_t v = info;
  if (info >= 24) {
    if (info > 27) return 0;
    const unsigned n = 1u << (info - 24);
    if (d.size() - at < n) return 0;
    v = 0;
    for (unsigned i = 0; i < n; i++) v = (v << 8) | (uint8_t) d[at++];
  }
  switch (major) {
    case 0: case 1: case 7:  return at;
    case 2: case 3:  return (d.size() - at >= v) ? at + (size_t) v : 0;
    case 6:  return item(d, at, depth + 1);
    default:
      for (uint64_t i = 0; i < v * (major == 5 ? 2 : 1); i++) {
        at = item(d, at, depth + 1);
        if (!at) return 0;
      }
      return at;
  }
}

/* Into a record whose list has some of the same keys, in another order. */
static void copy_to(Model* from, const std::vector<int>& map, Model* to) {
  for (size_t k = 0; k < to->v.size(); k++) {
    if (map[k] < 0) continue;
    C3PValue* src = from->v[(size_t) map[k]].get();
    if (to->l->types[k] == TCode::STR) {
      const char* a = nullptr;
      src->get_as(&a);
      if (!a) continue;     // It was never set.
      keep.push_back(a);
      to->v[k]->set(keep.back().c_str());
    }
    else to->v[k]->set(src);
    to->is_set[k] = 1;
  }
}

TARGET_F(D02, conf, 3000, 80000, F_LEAK) {
  keep.clear();
  List l;
  some_list(s, &l);
  const uint32_t tag = (uint32_t) s.word(32);
  Rec r(tag, l.list.get());
  Model m(&l);
  CHECK(!r.allocated() && r.recordType() == StorageRecordType::CONFIG_OBJ, "a new record");
  if (s.b(30)) compare(s, &r, &m, "before anything was set");
  unsigned step = 0, sets = 0;
  while (more(s, step, 40, 12)) {
    switch (s.weighted({8, 4, 1, 1})) {
      case 0:  put_any(s, &r, &m);  sets++;  break;
      case 1:  get_any(s, &r, &m);  break;
      case 2: {
          const std::string no = "no" + s.text(s.size(4), "abc");
          uint32_t x = 7;
          CHECK(-2 == ((ConfRecord&) r).setConf(no.c_str(), x), "an unknown key was set");
          CHECK(-2 == ((ConfRecord&) r).getConf(no.c_str(), &x) && x == 7, "an unknown key was read");
        } break;
      default:  compare(s, &r, &m, "after setting values");  break;
    }
  }
  compare(s, &r, &m, "after setting values");
  StringBuilder dbg;
  r.printConfRecord(&dbg);
  const std::string dump = flat(&dbg);
  for (auto& n : l.names) CHECK(dump.find(n) != std::string::npos, "printConfRecord() doesn't have %s", n.c_str());
  /* To storage. */
  StringBuilder out;
  CHECK(0 == r.save(tag, "conf", &out), "save()");
  const std::string rec = flat(&out);
  note("rec %s", hex(rec.data(), rec.size(), 400).c_str());
  CHECK(rec.size() > DESC && item(rec, DESC, 0) == rec.size(), "the record isn't one CBOR item: %s", hex(rec.data() + DESC, rec.size() - DESC).c_str());
  compare(s, &r, &m, "after save()");
  CHECK(!r.isDirty(), "dirty after save()");
  /* Into a record with the same list, or a later one. */
  List l2;
  std::vector<int> map;
  const bool same = s.b(60);
  if (!same) {
    l2.name = l.name;
    for (size_t i = 0; i < l.names.size(); i++) {
      if (s.b(20)) {  l2.names.push_back("new" + std::to_string(i));  l2.types.push_back(TYPES[s.u(13)]);  map.push_back(-1);  }
      if (s.b(80)) {  l2.names.push_back(l.names[i]);  l2.types.push_back(l.types[i]);  map.push_back((int) i);  }
    }
    if (l2.names.empty()) {  l2.names.push_back("new");  l2.types.push_back(TCode::UINT8);  map.push_back(-1);  }
    build(s, &l2);
    label("another list");
  }
  else for (size_t i = 0; i < l.names.size(); i++) map.push_back((int) i);
  List* tl = same ? &l : &l2;
  {
    Rec q(s.b(50) ? tag : 0, tl->list.get());
    Model mq(tl);
    for (unsigned i = 0, n = s.u(4); i < n; i++) put_any(s, &q, &mq);
    const int8_t ret = load_from(s, &q, tag, rec + (s.b(20) ? s.bytes(s.size(10)) : std::string()));
    CHECK(ret == 0, "load() of a configuration returned %d", ret);
    copy_to(&m, map, &mq);
    compare(s, &q, &mq, "after load()");
    CHECK(q.wasLoaded(), "wasLoaded()");
    bool all = same;
    for (size_t k = 0; k < mq.v.size(); k++) if (mq.l->types[k] == TCode::STR && !m.is_set[same ? k : 0]) all = false;
    if (all) {
      CHECK(!q.isDirty() && q.hash() == r.hash(), "a record is dirty after it was loaded");
      StringBuilder o2;
      CHECK(0 == q.save(tag, "conf", &o2) && flat(&o2) == rec, "a loaded record is saved as another");
    }
    /* It can be used as before. */
    for (unsigned i = 0, n = s.u(4); i < n; i++) put_any(s, &q, &mq);
    compare(s, &q, &mq, "after load() and changes");
    if (s.b(30)) {
      CHECK(0 == load_from(s, &q, tag, rec), "load() again");
      copy_to(&m, map, &mq);
      compare(s, &q, &mq, "after another load()");
    }
    /* Damaged, or of another list: refused, and nothing is changed. */
    std::string d = rec;
    d[DESC + s.u((uint32_t) (rec.size() - DESC))] ^= (char) (1 + s.u(255));
    CHECK(0 > load_from(s, &q, tag, d), "a damaged configuration was loaded");
    compare(s, &q, &mq, "after a damaged configuration was refused");
  }
  List other;
  switch (s.u(l.name.size() > 1 ? 4 : 3)) {
    case 0:  other.name = l.name + "2";  break;
    case 1:  other.name = "x" + l.name;  break;
    case 2:  other.name = l.name;  other.name[s.u((uint32_t) l.name.size())] ^= 0x20;  break;
    default: other.name = l.name.substr(0, l.name.size() - 1);  break;
  }
  other.names = l.names;
  other.types = l.types;
  build(s, &other);
  {
    Rec q(tag, other.list.get());
    Model mq(&other);
    CHECK(0 > load_from(s, &q, tag, rec), "the configuration of another list was loaded");
    compare(s, &q, &mq, "after another list's configuration was refused");
  }
  /* Into a list where some numbers have another type. Each takes what it can hold; and it is told, if one can't. */
  if (s.b(50)) {
    List l3;
    l3.name = l.name;
    l3.names = l.names;
    l3.types = l.types;
    unsigned retyped = 0;
    for (auto& ty : l3.types) {
      if (ty == TCode::STR || !s.b(40)) continue;
      TCode n = TYPES[s.u(13)];
      if (n == TCode::STR || n == ty) continue;
      ty = n;
      retyped++;
    }
    if (retyped) {
      build(s, &l3);
      Rec q(tag, l3.list.get());
      Model mq(&l3);
      bool fits = true;
      for (size_t k = 0; k < l.names.size(); k++) {
        if (l3.types[k] == TCode::STR) {
          const char* a = nullptr;
          m.v[k]->get_as(&a);
          if (a) mq.v[k]->set(a);
        }
        else {
          /* It is read as what CBOR makes of it. */
          StringBuilder w;
          CHECK(0 == m.v[k]->serialize(&w, TCode::CBOR), "serialize() of a value");
          std::unique_ptr<C3PValue> x(C3PValue::deserialize(&w, TCode::CBOR));
          CHECK(x, "a value doesn't read back");
          if (0 != mq.v[k]->set(x.get())) fits = false;
        }
      }
      const int8_t ret = load_from(s, &q, tag, rec);
      label("another type");
      if (!fits) label("a value that doesn't fit");
      CHECK((ret == 0) == fits, "load() returned %d for a configuration with other types, that %s", ret, fits ? "fits" : "doesn't fit");
      compare(s, &q, &mq, "after load() of other types");
    }
  }
  compare(s, &r, &m, "at the end");
  if (sets > 3 && m.v.size() > 2) nontrivial();
}

/* Any bytes in place of a configuration. The record stays one. */
TARGET_F(D02, any_content, 3000, 100000, F_LEAK) {
  keep.clear();
  List l;
  some_list(s, &l);
  Rec r(0, l.list.get());
  Model m(&l);
  for (unsigned i = 0, n = s.u(8); i < n; i++) put_any(s, &r, &m);
  r.allocated(true);
  StringBuilder out;
  CHECK(0 == r.serialize(&out, TCode::CBOR), "serialize()");
  std::string d = flat(&out);
  for (unsigned i = 0, n = 1 + s.u(4); i < n; i++) {
    const uint32_t at = s.u((uint32_t) d.size());
    switch (s.u(4)) {
      case 0:  d[at] = (char) s.u(256);  break;
      case 1:  if (d.size() > 1) d.erase(at, 1);  break;
      case 2:  d.insert(at, 1, (char) s.u(256));  break;
      default: if (d.size() > 1) d.resize(1 + at % (d.size() - 1));  break;
    }
  }
  StringBuilder in;
  frag(s, &in, d);
  const int8_t ret = r.deserialize(&in, TCode::CBOR);
  note("%s -> %d", hex(d.data(), d.size()).c_str(), ret);
  KeyValuePair* kvp = r.getKVP();
  CHECK(kvp && (size_t) kvp->count() == l.names.size(), "the record has lost its values");
  for (size_t k = 0; k < l.names.size(); k++) {
    KeyValuePair* x = kvp->valueWithKey(l.names[k].c_str());
    CHECK(x && x->tcode() == l.types[k], "%s is missing, or has another type", l.names[k].c_str());
  }
  StringBuilder o;
  r.printConfRecord(&o);
  StringBuilder o2;
  CHECK(0 == r.serialize(&o2, TCode::CBOR), "serialize() after deserialize()");
  if (ret == 0) label("accepted");
  nontrivial();
}
