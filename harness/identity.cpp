/*
* Y01: UUIDs and identities survive their text and storage forms, and malformed storage is refused.
*/
#include "pbt.h"
#include "CppPotpourri.h"
#include "AbstractPlatform.h"
#include "StringBuilder.h"
#include "uuid.h"
#include "C3PValue/C3PValue.h"
#include "C3PValue/KeyValuePair.h"
#include "Identity/Identity.h"
#include <string.h>
#include <stdlib.h>
#include <memory>
#include <string>
#include <vector>
using namespace pbt;

static std::string flat(StringBuilder* b) {
  const int n = b->length();
  if (n <= 0) return std::string();
  std::string r((size_t) n, '\0');
  b->copyToBuffer((uint8_t*) &r[0], (uint32_t) n);
  return r;
}
static int nib(char c) {
  if (c >= '0' && c <= '9') return c - '0';
  if (c >= 'a' && c <= 'f') return c - 'a' + 10;
  if (c >= 'A' && c <= 'F') return c - 'A' + 10;
  return -1;
}
static std::string text_of(const uint8_t* b) {
  static const char* H = "0123456789abcdef";
  std::string r;
  for (int i = 0; i < 16; i++) {
    if (i == 4 || i == 6 || i == 8 || i == 10) r += '-';
    r += H[b[i] >> 4];
    r += H[b[i] & 15];
  }
  return r;
}
static std::string some_text(Src& s) {
  std::string t;
  const unsigned n = s.b(50) ? 28 + s.u(14) : s.size(60);
  for (unsigned i = 0; i < n; i++) {
    switch (s.weighted({10, 2, 1})) {
      case 0:  t += "0123456789abcdefABCDEF"[s.u(22)];  break;
      case 1:  t += "-{}: "[s.u(5)];  break;
      default: t += (char) (1 + s.u(255));  break;
    }
  }
  return t;
}

TARGET(Y01, uuids, 6000, 150000) {
  UUID a, b;
  for (int i = 0; i < 16; i++) {
    a.id[i] = (uint8_t) s.u(256);
    b.id[i] = (uint8_t) s.u(256);
  }
  /* To text, and back. */
  const int len = s.b(70) ? 37 + (int) s.u(10) : (int) s.u(37);
  std::vector<char> buf((size_t) len, 'x');
  uuid_to_str(&a, buf.data(), len);
  const std::string want = text_of(a.id);
  if (len < 37) {
    for (char c : buf) CHECK(c == 'x', "a buffer of %d was written to", len);
    label("short buffer");
  }
  else {
    CHECK(0 == strcmp(buf.data(), want.c_str()), "%s was written as %s", want.c_str(), buf.data());
    for (int i = 37; i < len; i++) CHECK(buf[(size_t) i] == 'x', "more than 37 bytes were written");
    UUID c;
    uuid_from_str(buf.data(), &c);
    CHECK(0 == uuid_compare(&a, &c), "%s was read back as %s", want.c_str(), text_of(c.id).c_str());
  }
  StringBuilder sb("<");
  uuid_to_sb(&a, &sb);
  CHECK(flat(&sb) == "<" + want, "uuid_to_sb() wrote %s", quote(flat(&sb)).c_str());
  /* Any text. */
  const std::string t = some_text(s);
  uint8_t model[16];
  memcpy(model, b.id, 16);
  unsigned at = 0, digits = 0;
  int hi = -1;
  for (char c : t) {
    const int v = nib(c);
    if (v < 0) continue;
    digits++;
    if (hi < 0) hi = v;
    else {
      if (at < 16) model[at++] = (uint8_t) (hi * 16 + v);
      hi = -1;
    }
  }
  struct {  UUID u;  uint8_t guard[8];  } box;
  memset(box.guard, 0x5A, 8);
  box.u = b;
  uuid_from_str(t.c_str(), &box.u);
  CHECK(0 == memcmp(model, box.u.id, 16), "%s was read as %s, and not %s", quote(t).c_str(), text_of(box.u.id).c_str(), text_of(model).c_str());
  for (uint8_t g : box.guard) CHECK(g == 0x5A, "%s was read beyond the UUID's 16 bytes", quote(t).c_str());
  /* Comparison and copy. */
  UUID d = a;
  CHECK(0 == uuid_compare(&a, &d), "equal UUIDs differ");
  const unsigned k = s.u(16), bit = s.u(8);
  d.id[k] ^= (uint8_t) (1u << bit);
  CHECK(0 != uuid_compare(&a, &d) && 0 != uuid_compare(&d, &a), "UUIDs that differ in byte %u compare equal", k);
  uuid_copy(&a, &d);
  CHECK(0 == memcmp(a.id, d.id, 16), "uuid_copy()");
  /* Generation. */
  platform_rng(s.draw(0xFFFFFF));
  UUID g1, g2;
  uuid_gen(&g1);
  uuid_gen(&g2);
  CHECK((g1.id[8] & 0xC0) == 0x80 && (g1.id[6] & 0xF0) == 0x40, "%s isn't a version-4 UUID", text_of(g1.id).c_str());
  CHECK(0 != uuid_compare(&g1, &g2), "the same UUID was generated twice");
  if (digits >= 32) nontrivial();
}

static std::string raw_of(Identity* id) {
  std::string r(16, '\0');
  ((IdentityUUID*) id)->copyRaw((uint8_t*) &r[0]);
  return r;
}

TARGET_F(Y01, identities, 6000, 120000, F_LEAK) {
  platform_rng(s.draw(0xFFFFFF));
  const std::string name = s.text(s.b(80) ? s.size(30) : s.u(900), "abcdefgh XYZ.-_0");
  const bool given = s.b(50);
  std::string txt = some_text(s);
  std::unique_ptr<IdentityUUID> id(given ? new IdentityUUID(name.c_str(), (char*) txt.c_str()) : new IdentityUUID(name.c_str()));
  const bool self = s.b(40);
  if (self) id->isSelf(true);
  CHECK(name == id->getHandle(), "the handle %s became %s", quote(name).c_str(), quote(id->getHandle()).c_str());
  CHECK(id->identityType() == IdentFormat::UUID, "the type is %s", Identity::identityTypeString(id->identityType()));
  CHECK(id->isSelf() == self, "isSelf()");
  if (!given) CHECK(id->isValid() && id->isDirty(), "a new identity is valid, and not yet persisted");
  CHECK(id->length() == (int) name.size() + 22, "length() %d, with a handle of %zu", id->length(), name.size());
  const std::string raw = raw_of(id.get());
  if (given) {
    UUID u;
    uuid_from_str(txt.c_str(), &u);
    CHECK(0 == memcmp(u.id, raw.data(), 16), "the given UUID wasn't used");
  }
  StringBuilder o;
  id->toString(&o);
  CHECK(flat(&o).find(text_of((const uint8_t*) raw.data())) != std::string::npos, "toString() gives %s", quote(flat(&o)).c_str());
  StringBuilder o2;
  Identity::staticToString(id.get(), &o2);
  CHECK(flat(&o2).find(name) != std::string::npos, "staticToString() doesn't have the handle");
  CHECK(id->getIdentity(IdentFormat::UUID) == id.get() && id->getIdentity(IdentFormat::L2_MAC) == nullptr, "getIdentity(format)");
  CHECK(id->getIdentity(std::string(name).c_str()) == id.get() && id->getIdentity((name + "x").c_str()) == nullptr, "getIdentity(name)");
  /* To storage. A buffer that is too small isn't enough, and isn't exceeded. */
  const int L = id->length();
  std::vector<uint8_t> b((size_t) L + s.u(8), 0xEE);
  CHECK(L == id->toBuffer(b.data()), "toBuffer() returned something other than %d", L);
  for (size_t i = (size_t) L; i < b.size(); i++) CHECK(b[i] == 0xEE, "toBuffer() wrote more than %d bytes", L);
  {
    std::unique_ptr<uint8_t[]> exact(new uint8_t[(size_t) L]);
    CHECK(L == id->serialize(exact.get(), (uint16_t) L), "serialize() into %d bytes", L);
    CHECK(0 == memcmp(exact.get(), b.data(), (size_t) L), "serialize() gives different results");
    const int n = (int) s.u((uint32_t) L);
    std::unique_ptr<uint8_t[]> less(new uint8_t[(size_t) n + 1]);
    less[(size_t) n] = 0xEE;
    CHECK(0 == id->serialize(less.get(), (uint16_t) n), "serialize() into %d bytes, of %d", n, L);
    CHECK(less[(size_t) n] == 0xEE, "serialize() went beyond its %d bytes", n);
  }
  /* And back. */
  auto same = [&](Identity* x, const char* how) {
    CHECK(x, "%s gave nothing", how);
    CHECK(name == x->getHandle(), "%s changed the handle to %s", how, quote(x->getHandle()).c_str());
    CHECK(x->identityType() == IdentFormat::UUID && raw_of(x) == raw, "%s changed the UUID", how);
    CHECK(x->isSelf() == self, "%s changed the ownership", how);
    CHECK(!x->isDirty(), "%s gave an identity that isn't persisted", how);
    CHECK(x->length() == L, "%s changed the length to %d, from %d", how, x->length(), L);
    std::vector<uint8_t> again((size_t) L);
    CHECK(L == x->toBuffer(again.data()) && 0 == memcmp(again.data(), b.data(), (size_t) L), "%s gave an identity with another storage form", how);
  };
  {
    std::unique_ptr<uint8_t[]> heap(new uint8_t[b.size()]);
    memcpy(heap.get(), b.data(), b.size());
    std::unique_ptr<Identity> x(Identity::fromBuffer(heap.get(), (int) b.size()));
    heap.reset();
    same(x.get(), "fromBuffer()");
  }
  {
    KeyValuePair k("who", (Identity*) id.get());
    if (s.b(50)) k.append((uint32_t) 7, "n");
    StringBuilder c;
    CHECK(0 == k.serialize(&c, TCode::CBOR), "an identity didn't go to CBOR");
    std::string enc = flat(&c);
    std::unique_ptr<KeyValuePair> back(KeyValuePair::unserialize((uint8_t*) &enc[0], (uint32_t) enc.size(), TCode::CBOR));
    CHECK(back, "an identity didn't come back from CBOR");
    KeyValuePair* v = back->valueWithKey("who");
    CHECK(v && v->tcode() == TCode::IDENTITY, "an identity came back from CBOR as something else");
    Identity* x = nullptr;
    CHECK(0 == v->get_as(&x), "an identity can't be taken from its value");
    same(x, "CBOR");
  }
  /* Cut short, or damaged. */
  for (int i = 0; i < 4; i++) {
    std::string d((const char*) b.data(), (size_t) L);
    if (s.b(40)) d.resize(s.u((uint32_t) d.size()));
    for (unsigned j = 0, n = s.u(4); j < n && !d.empty(); j++) {
      const uint32_t at = s.b(50) ? s.u((uint32_t) std::min<size_t>(d.size(), 8)) : s.u((uint32_t) d.size());
      if (s.b(70)) d[at] = (char) s.word(8);
      else d.insert(at, 1, (char) s.word(8));
    }
    std::unique_ptr<uint8_t[]> heap(new uint8_t[d.size()]);
    memcpy(heap.get(), d.data(), d.size());
    std::unique_ptr<Identity> x(Identity::fromBuffer(heap.get(), (int) d.size()));
    heap.reset();
    if (d.size() < 23 && d.size() != (size_t) L) CHECK(!x || d.size() >= 22, "%s was accepted", hex(d.data(), d.size()).c_str());
    if (x) {
      label("damaged, and accepted");
      CHECK(x->identityType() == IdentFormat::UUID, "a type from nowhere");
      const std::string h = x->getHandle();
      CHECK(6 + h.size() + 16 <= d.size(), "%s was accepted", hex(d.data(), d.size()).c_str());
      CHECK(0 == d.compare(5, h.size(), h) && d[5 + h.size()] == 0, "a handle from nowhere");
      CHECK(0 == d.compare(6 + h.size(), 16, raw_of(x.get())), "a UUID from nowhere");
    }
    else label("damaged, and refused");
  }
  if (name.size() > 2) nontrivial();
}

/* Any bytes. */
TARGET_F(Y01, any_bytes, 4000, 100000, F_LEAK) {
  std::string d = s.bytes(s.size(60));
  if (d.size() >= 5 && s.b(80)) {
    const uint32_t n = s.b(70) ? (uint32_t) d.size() - s.size(3) : s.u(100);
    d[0] = (char) (n >> 8);
    d[1] = (char) n;
    d[4] = 2;
  }
  std::unique_ptr<uint8_t[]> heap(new uint8_t[d.size()]);
  memcpy(heap.get(), d.data(), d.size());
  std::unique_ptr<Identity> x(Identity::fromBuffer(heap.get(), (int) d.size()));
  heap.reset();
  if (x) {
    StringBuilder o;
    Identity::staticToString(x.get(), &o);
    const std::string h = x->getHandle();
    CHECK(6 + h.size() + 16 <= d.size(), "%s was accepted", hex(d.data(), d.size()).c_str());
    CHECK(0 == d.compare(6 + h.size(), 16, raw_of(x.get())), "a UUID from nowhere");
    nontrivial();
  }
}
