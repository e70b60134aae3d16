/*
* I01: an Image's buffer, and its stored form.
* I02: pixels can be set and read in every format, and nothing else changes.
* I03: shapes and text cover the pixels they should, clipped to the image.
*/
#include "pbt.h"
#include "CppPotpourri.h"
#include "AbstractPlatform.h"
#include "StringBuilder.h"
#include "Image/Image.h"
#include "Image/ImageUtils.h"
#include "Image/Fonts/FreeSans9pt7b.h"
#include "Image/Fonts/FreeMonoOblique12pt7b.h"
#include "Image/Fonts/Picopixel.h"
#include <string.h>
#include <stdlib.h>
#include <math.h>
#include <algorithm>
#include <functional>
#include <memory>
#include <set>
#include <string>
#include <vector>
using namespace pbt;
typedef ImgBufferFormat F;
static const uint64_t FONT_HASH = 0x9355773a66515493ull;

static const F ALL[] = {F::MONOCHROME, F::GREY_24, F::GREY_16, F::GREY_8, F::GREY_4, F::R8_G8_B8_ALPHA, F::R8_G8_B8, F::R5_G6_B5, F::R3_G3_B2};
static const F DRAWN[] = {F::MONOCHROME, F::GREY_24, F::GREY_16, F::GREY_8, F::R8_G8_B8_ALPHA, F::R8_G8_B8, F::R5_G6_B5, F::R3_G3_B2};
static unsigned bpp(F f) {
  switch (f) {
    case F::MONOCHROME:  return 1;
    case F::GREY_4:      return 4;
    case F::GREY_8:   case F::R3_G3_B2:   return 8;
    case F::GREY_16:  case F::R5_G6_B5:   return 16;
    case F::GREY_24:  case F::R8_G8_B8:   return 24;
    case F::R8_G8_B8_ALPHA:  return 32;
    default:  return 0;
  }
}
static size_t bytes_of(uint32_t x, uint32_t y, F f) {  return (size_t) (((uint64_t) x * y * bpp(f) + 7) / 8);  }
static std::string flat(StringBuilder* b) {
  const int n = b->length();
  if (n <= 0) return std::string();
  std::string r((size_t) n, '\0');
  b->copyToBuffer((uint8_t*) &r[0], (uint32_t) n);
  return r;
}

/* ---- I01 ---- */

struct Model {
  uint32_t x = 0, y = 0;
  F f = F::UNALLOCATED;
  bool has = false, foreign = false;
  std::string d;
};
static std::string str(const Model& m) {
  char b[100];
  snprintf(b, sizeof(b), "%u x %u %s%s", m.x, m.y, Image::formatString(m.f), m.has ? (m.foreign ? ", foreign buffer" : ", own buffer") : "");
  return b;
}
static void compare(Image* i, const Model& m, const uint8_t* foreign, const char* when) {
  CHECK(i->x() == m.x && i->y() == m.y && i->format() == m.f, "the image is %u x %u %s, of %s, %s", i->x(), i->y(), Image::formatString(i->format()), str(m).c_str(), when);
  CHECK(i->allocated() == m.has, "allocated() is %d (%s) %s", i->allocated(), str(m).c_str(), when);
  CHECK(i->bytesUsed() == bytes_of(m.x, m.y, m.f), "bytesUsed() is %u (%s) %s", i->bytesUsed(), str(m).c_str(), when);
  CHECK(i->pixels() == m.x * m.y, "pixels() is %u (%s)", i->pixels(), str(m).c_str());
  CHECK(i->bitsPerPixel() == bpp(m.f), "bitsPerPixel() is %u (%s)", i->bitsPerPixel(), str(m).c_str());
  CHECK(!i->locked(), "locked()");
  if (m.has) {
    CHECK(!m.foreign || i->buffer() == foreign, "the given buffer isn't the one in use, %s", when);
    CHECK(0 == memcmp(i->buffer(), m.d.data(), m.d.size()), "the buffer has other content (%s) %s", str(m).c_str(), when);
  }
  else CHECK(nullptr == i->buffer(), "a buffer that isn't allocated");
}
static std::string stored(const Model& m, uint8_t flags) {
  std::string r;
  for (int k = 3; k >= 0; k--) r += (char) (m.x >> (8 * k));
  for (int k = 3; k >= 0; k--) r += (char) (m.y >> (8 * k));
  r += (char) m.f;
  r += (char) flags;
  return r + m.d;
}
static bool load(Image* i, const std::string& d, int* ret) {
  std::unique_ptr<uint8_t[]> heap(new uint8_t[d.size()]);
  memcpy(heap.get(), d.data(), d.size());
  *ret = i->deserialize(heap.get(), (uint32_t) d.size());
  return *ret == 0;
}

TARGET_F(I01, buffers, 4000, 120000, F_LEAK) {
  Model m;
  std::unique_ptr<uint8_t[]> foreign;
  std::unique_ptr<Image> img;
  auto dim = [&]() {  return (PixUInt) (s.b(80) ? s.size(20) : s.size(200));  };
  auto fmt = [&]() {  return ALL[s.u(sizeof(ALL) / sizeof(ALL[0]))];  };
  auto data = [&](uint32_t x, uint32_t y, F f) {   // In a heap buffer of exact size.
    const size_t n = bytes_of(x, y, f);
    std::string r = s.bytes((uint32_t) std::min<size_t>(n, 24));
    while (r.size() < n) r += r.empty() ? std::string(1, '\0') : r.substr(0, std::min(r.size(), n - r.size()));
    return r;
  };
  auto give = [&](const std::string& d) {
    uint8_t* p = new uint8_t[d.size() ? d.size() : 1];
    memcpy(p, d.data(), d.size());
    return p;
  };
  switch (s.u(4)) {
    case 0:  img.reset(new Image());  break;
    case 1:  m.x = dim();  m.y = dim();  img.reset(new Image((PixUInt) m.x, (PixUInt) m.y));  break;
    case 2:  m.x = dim();  m.y = dim();  m.f = fmt();  img.reset(new Image((PixUInt) m.x, (PixUInt) m.y, m.f));  break;
    default:
      m.x = dim();  m.y = dim();  m.f = fmt();  m.has = m.foreign = true;
      m.d = data(m.x, m.y, m.f);
      foreign.reset(give(m.d));
      img.reset(new Image((PixUInt) m.x, (PixUInt) m.y, m.f, foreign.get()));
      break;
  }
  Image* i = img.get();
  compare(i, m, foreign.get(), "when new");
  unsigned step = 0, changes = 0;
  bool tw = false, cp = false, fx = false, fy = false;
  while (more(s, step, 30, 9)) {
    char what[120];
    switch (s.u(10)) {
      case 0: {
          const PixUInt x = dim(), y = dim();
          const bool want = (m.f != F::UNALLOCATED) && !m.foreign;
          const bool r = i->setSize(x, y);
          snprintf(what, sizeof(what), "setSize(%u, %u) -> %d", x, y, r);
          CHECK(r == want, "%s (%s)", what, str(m).c_str());
          if (!m.foreign) {  m.x = x;  m.y = y;  }
          if (r) {  m.has = true;  m.d.assign(bytes_of(x, y, m.f), '\0');  }
        } break;
      case 1: {
          const bool want = (m.f != F::UNALLOCATED) && !m.foreign;
          const bool r = i->reallocate();
          snprintf(what, sizeof(what), "reallocate() -> %d", r);
          CHECK(r == want, "%s (%s)", what, str(m).c_str());
          if (r) {  m.has = true;  m.d.assign(bytes_of(m.x, m.y, m.f), '\0');  }
        } break;
      case 2: case 3: {
          const bool with = s.b(60);
          const F f = with ? fmt() : m.f;
          const std::string d = data(m.x, m.y, f);
          std::unique_ptr<uint8_t[]> buf(give(d));
          const bool want = (f != F::UNALLOCATED);
          const bool r = with ? i->setBuffer(buf.get(), f) : i->setBuffer(buf.get());
          snprintf(what, sizeof(what), "setBuffer(%s) -> %d", with ? Image::formatString(f) : "", r);
          CHECK(r == want, "%s (%s)", what, str(m).c_str());
          if (r) {  m.f = f;  m.has = m.foreign = true;  m.d = d;  foreign = std::move(buf);  }
        } break;
      case 4: case 5: {
          const bool with = s.b(60);
          const F f = with ? (s.b(10) ? F::UNALLOCATED : fmt()) : m.f;
          const std::string d = data(m.x, m.y, f);
          std::unique_ptr<uint8_t[]> buf(give(d));
          const bool want = (f != F::UNALLOCATED) && (!m.foreign || bpp(f) == bpp(m.f));
          const bool r = with ? i->setBufferByCopy(buf.get(), f) : i->setBufferByCopy(buf.get());
          snprintf(what, sizeof(what), "setBufferByCopy(%s) -> %d", with ? Image::formatString(f) : "", r);
          CHECK(r == want, "%s (%s)", what, str(m).c_str());
          if (r) {  m.f = f;  m.has = true;  m.d = d;  }
        } break;
      case 6:
        if (!s.b(30)) continue;
        i->wipe();
        m = Model();
        tw = cp = fx = fy = false;
        snprintf(what, sizeof(what), "wipe()");
        break;
      case 7:   // Through the buffer.
        if (!m.has || m.d.empty()) continue;
        {
          const uint32_t at = s.u((uint32_t) m.d.size());
          m.d[at] = (char) s.u(256);
          i->buffer()[at] = (uint8_t) m.d[at];
          snprintf(what, sizeof(what), "buffer()[%u]", at);
        }
        break;
      case 8:
        tw = s.b();  cp = s.b();  fx = s.b();  fy = s.b();
        i->textWrap(tw);  i->cp437(cp);  i->flipX(fx);  i->flipY(fy);
        CHECK(i->textWrap() == tw && i->cp437() == cp && i->flipX() == fx && i->flipY() == fy, "flags");
        snprintf(what, sizeof(what), "flags");
        break;
      default: {
          StringBuilder out("pre");
          const int ret = i->serialize(&out);
          std::string d = flat(&out);
          snprintf(what, sizeof(what), "serialize() -> %d", ret);
          CHECK(ret == (m.has ? 0 : -1) && 0 == d.compare(0, 3, "pre"), "%s (%s)", what, str(m).c_str());
          d.erase(0, 3);
          if (ret) {
            uint32_t n = 77;
            CHECK(d.empty() && -1 == i->serialize((uint8_t*) what, &n) && -1 == i->serializeWithoutBuffer((uint8_t*) what, &n), "an image without buffer is serialized");
            break;
          }
          const std::string want = stored(m, (uint8_t) (d.size() > 9 ? d[9] : 0));
          CHECK(d == want, "serialize() gave %s, of %s", hex(d.data(), d.size()).c_str(), hex(want.data(), want.size()).c_str());
          std::unique_ptr<uint8_t[]> b1(new uint8_t[d.size()]), b2(new uint8_t[10]);
          uint32_t n1 = (uint32_t) d.size(), n2 = 10;
          CHECK(0 == i->serialize(b1.get(), &n1) && n1 == d.size() && 0 == memcmp(b1.get(), d.data(), n1), "the two forms of serialize() differ");
          CHECK(0 == i->serializeWithoutBuffer(b2.get(), &n2) && n2 == 10 && 0 == memcmp(b2.get(), d.data(), 10), "serializeWithoutBuffer() differs");
          int r2;
          Image j;
          if (m.d.empty()) {  CHECK(!load(&j, d, &r2), "an image without pixels came from storage");  break;  }
          CHECK(load(&j, d, &r2), "deserialize() returned %d for %s", r2, str(m).c_str());
          compare(&j, m, j.buffer(), "after deserialize()");
          CHECK(j.buffer() != i->buffer(), "the buffer is shared");
          CHECK(j.textWrap() == tw && j.cp437() == cp && j.flipX() == fx && j.flipY() == fy, "flags after deserialize()");
          CHECK(!load(&j, d, &r2), "an image that has a format was replaced");
          compare(&j, m, j.buffer(), "after deserialize() was refused");
          if (s.b(50)) CHECK(j.reallocate(), "the memory of a loaded image isn't its own");
          /* Another length is refused. */
          Image k;
          std::string bad = d;
          if (s.b()) bad.resize(s.u((uint32_t) d.size()));
          else bad += s.bytes(1 + s.size(5));
          CHECK(!load(&k, bad, &r2) && !k.allocated() && k.format() == F::UNALLOCATED, "%zu bytes of %zu were loaded", bad.size(), d.size());
          /* As a value, by CBOR. */
          if (s.b(40)) {
            KeyValuePair a("img", i);
            StringBuilder cb;
            CHECK(0 == a.serialize(&cb, TCode::CBOR), "CBOR of an image");
            std::string enc((char*) cb.string(), (size_t) cb.length());
            std::unique_ptr<KeyValuePair> back(KeyValuePair::unserialize((uint8_t*) &enc[0], (uint32_t) enc.size(), TCode::CBOR));
            CHECK(back, "an image doesn't come back from CBOR");
            KeyValuePair* v = back->valueWithKey("img");
            CHECK(v && v->tcode() == TCode::IMAGE, "an image came back from CBOR as something else");
            Image* q = nullptr;
            CHECK(0 == v->get_as(&q) && q, "get_as(Image*)");
            compare(q, m, q->buffer(), "after CBOR");
            label("cbor");
          }
          label("stored");
        } break;
    }
    note("%s (%s)", what, str(m).c_str());
    compare(i, m, foreign.get(), what);
    changes++;
  }
  StringBuilder info;
  i->printImageInfo(&info);
  if (changes > 3 && m.x && m.y) nontrivial();
}

/* Any bytes in place of a stored image. */
TARGET_F(I01, any_bytes, 4000, 200000, F_LEAK) {
  Model m;
  m.x = s.size(40);
  m.y = s.size(40);
  m.f = ALL[s.u(sizeof(ALL) / sizeof(ALL[0]))];
  m.d.assign(bytes_of(m.x, m.y, m.f), 'x');
  std::string d = stored(m, (uint8_t) s.u(256));
  for (unsigned k = 0, n = s.u(4); k < n; k++) {
    switch (s.u(3)) {
      case 0:  if (!d.empty()) d[s.u((uint32_t) std::min<size_t>(d.size(), 10))] = (char) s.word(8);  break;
      case 1:  d.resize(s.u((uint32_t) d.size() + 4));  break;
      default: d = s.bytes(s.size(30));  break;
    }
  }
  Image i;
  int ret;
  const bool ok = load(&i, d, &ret);
  bool want = d.size() > 10;
  if (want) {
    uint64_t x = 0, y = 0;
    for (int k = 0; k < 4; k++) {  x = (x << 8) | (uint8_t) d[k];  y = (y << 8) | (uint8_t) d[k + 4];  }
    const unsigned bits = bpp((F) d[8]);
    want = bits && x <= 0xFFFF && y <= 0xFFFF && (x * y * bits + 7) / 8 == d.size() - 10;
  }
  note("%s -> %d", hex(d.data(), d.size()).c_str(), ret);
  CHECK(ok == want, "deserialize() of %s returned %d", hex(d.data(), d.size()).c_str(), ret);
  if (ok) {
    CHECK(i.allocated() && i.bytesUsed() == d.size() - 10 && 0 == memcmp(i.buffer(), d.data() + 10, d.size() - 10), "the image has another content");
    CHECK(!i.locked(), "a loaded image is locked");
    for (int k = 0; k < 8; k++) i.setPixel((PixUInt) s.word(16), (PixUInt) s.word(16), (uint32_t) s.word(32));
    label("accepted");
    nontrivial();
  }
  else {
    CHECK(!i.allocated() && i.format() == F::UNALLOCATED, "a refused image left something");
    if (d.size() > 10) nontrivial();
  }
}

/* Sizes that don't need memory. */
TARGET(I01, sizes, 2000, 20000) {
  const uint32_t x = (uint32_t) s.word(16), y = (uint32_t) s.word(16);
  const F f = ALL[s.u(sizeof(ALL) / sizeof(ALL[0]))];
  Image i((PixUInt) x, (PixUInt) y, f);
  const uint64_t want = ((uint64_t) x * y * bpp(f) + 7) / 8;
  if (want > 0xFFFFFFFFull) return;
  note("%u x %u %s", x, y, Image::formatString(f));
  CHECK(i.pixels() == (uint64_t) x * y, "pixels() of %u x %u is %u", x, y, i.pixels());
  CHECK(i.bytesUsed() == want, "bytesUsed() of %u x %u %s is %u, of %llu", x, y, Image::formatString(f), i.bytesUsed(), (unsigned long long) want);
  if (x > 255 && y > 255) nontrivial();
}

/* ---- I02 ---- */

static uint32_t kept(F f, uint32_t c) {
  switch (bpp(f)) {
    case 1:   return c ? 0xFFFFFFFF : 0;
    case 32:  return c;
    default:  return c & ((1u << bpp(f)) - 1);
  }
}
static uint32_t of_rgb(F f, uint8_t r, uint8_t g, uint8_t b) {
  switch (f) {
    case F::R8_G8_B8:  return ((uint32_t) r << 16) | ((uint32_t) g << 8) | b;
    case F::R5_G6_B5:  return ((uint32_t) (r >> 3) << 11) | ((uint32_t) (g >> 2) << 5) | (b >> 3);
    case F::R3_G3_B2:  return ((uint32_t) (r >> 5) << 5) | ((uint32_t) (g >> 5) << 2) | (b >> 6);
    default:           return (r || g || b) ? 0xFFFFFFFF : 0;
  }
}
static uint32_t convert(F from, F to, uint32_t c) {
  uint32_t a = 0, r = 0, g = 0, b = 0;
  switch (from) {
    case F::R8_G8_B8_ALPHA:  r = c >> 24;  g = (c >> 16) & 255;  b = (c >> 8) & 255;  a = c & 255;  break;
    case F::R8_G8_B8:        r = (c >> 16) & 255;  g = (c >> 8) & 255;  b = c & 255;  break;
    case F::R5_G6_B5:        r = ((c >> 11) & 31) << 3;  g = ((c >> 5) & 63) << 2;  b = (c & 31) << 3;  break;
    case F::R3_G3_B2:        r = ((c >> 5) & 7) << 5;  g = ((c >> 2) & 7) << 5;  b = (c & 3) << 6;  break;
    default:                 a = r = g = b = (c ? 255 : 0);  break;
  }
  switch (to) {
    case F::R8_G8_B8_ALPHA:  return (r << 24) | (g << 16) | (b << 8) | a;
    case F::MONOCHROME:      return c ? 0xFFFFFFFF : 0;
    default:                 return of_rgb(to, (uint8_t) r, (uint8_t) g, (uint8_t) b);
  }
}
static bool is_color(F f) {  return f == F::R8_G8_B8_ALPHA || f == F::R8_G8_B8 || f == F::R5_G6_B5 || f == F::R3_G3_B2;  }

TARGET_F(I02, pixels, 4000, 120000, F_LEAK) {
  const uint32_t W = 1 + s.size(30), H = 1 + s.size(30);
  const F f = DRAWN[s.u(sizeof(DRAWN) / sizeof(DRAWN[0]))];
  Image i((PixUInt) W, (PixUInt) H, f);
  const ImgOrientation rot = (ImgOrientation) s.u(4);
  const bool fx = s.b(30), fy = s.b(30);
  const bool turned = (rot == ImgOrientation::ROTATION_90 || rot == ImgOrientation::ROTATION_270);
  i.orientation(rot);
  i.flipX(fx);
  i.flipY(fy);
  CHECK(i.orientation() == rot && i.flipX() == fx && i.flipY() == fy, "orientation");
  CHECK(i.isColor() == is_color(f), "isColor()");
  if (s.b(10)) {   // Without memory, nothing happens.
    CHECK(!i.setPixel(0, 0, 1) && !i.setPixel(0, 0, 1, 1, 1) && 0 == i.getPixel(0, 0), "pixels of an image without buffer");
    i.fill(1);
  }
  std::unique_ptr<uint8_t[]> own;
  if (s.b(40)) {
    own.reset(new uint8_t[bytes_of(W, H, f)]);
    memset(own.get(), 0, bytes_of(W, H, f));
    i.setBuffer(own.get());
  }
  else CHECK(i.reallocate(), "reallocate()");
  const uint32_t LW = turned ? H : W, LH = turned ? W : H;
  std::vector<uint32_t> m(LW * LH, 0);
  auto all = [&](const char* when) {
    for (uint32_t y = 0; y < LH; y++) for (uint32_t x = 0; x < LW; x++)
      CHECK(i.getPixel((PixUInt) x, (PixUInt) y) == m[y * LW + x], "pixel (%u, %u) of %u x %u %s (rotation %d, flips %d %d) is %08x, of %08x, %s", x, y, W, H, Image::formatString(f), (int) rot, fx, fy, i.getPixel((PixUInt) x, (PixUInt) y), m[y * LW + x], when);
  };
  unsigned step = 0, sets = 0;
  while (more(s, step, 60, 20)) {
    const bool out = s.b(12);
    const uint32_t x = out ? (uint32_t) s.word(16) : s.u(LW), y = (out && s.b(60)) ? (uint32_t) s.word(16) : s.u(LH);
    const bool in = x < LW && y < LH;
    const uint32_t c = s.b(30) ? 0xFFFFFFFF : (uint32_t) s.word(32);
    char what[100];
    switch (s.weighted({6, 3, 1, 3})) {
      case 0:
        snprintf(what, sizeof(what), "setPixel(%u, %u, %08x)", x, y, c);
        CHECK(in == i.setPixel((PixUInt) x, (PixUInt) y, c), "%s returned %d", what, !in);
        if (in) m[y * LW + x] = kept(f, c);
        sets++;
        break;
      case 1:
        if (f == F::GREY_8 || f == F::GREY_16 || f == F::GREY_24 || f == F::R8_G8_B8_ALPHA) continue;
        {
          const uint8_t r = (uint8_t) s.word(8), g = (uint8_t) s.word(8), b = (uint8_t) s.word(8);
          snprintf(what, sizeof(what), "setPixel(%u, %u, %u, %u, %u)", x, y, r, g, b);
          CHECK(in == i.setPixel((PixUInt) x, (PixUInt) y, r, g, b), "%s returned %d", what, !in);
          if (in) m[y * LW + x] = of_rgb(f, r, g, b);
          sets++;
        }
        break;
      case 2:
        snprintf(what, sizeof(what), "fill(%08x)", c);
        i.fill(c);
        for (auto& p : m) p = kept(f, c);
        break;
      default: {
          const uint32_t p = i.getPixel((PixUInt) x, (PixUInt) y);
          snprintf(what, sizeof(what), "getPixel(%u, %u) -> %08x", x, y, p);
          CHECK(p == (in ? m[y * LW + x] : 0), "%s of %u x %u", what, W, H);
          if (is_color(f) || f == F::MONOCHROME) {
            const F to = s.pick({F::R8_G8_B8_ALPHA, F::R8_G8_B8, F::R5_G6_B5, F::R3_G3_B2, F::MONOCHROME});
            const uint32_t q = i.getPixelAsFormat((PixUInt) x, (PixUInt) y, to);
            const uint32_t want = (to == f) ? p : convert(f, to, p);
            CHECK(q == want, "%08x of %s is %08x in %s, of %08x", p, Image::formatString(f), q, Image::formatString(to), want);
          }
          CHECK(i.convertColor(c) == c, "convertColor() within a format");
        } continue;
    }
    note("%s", what);
    if (s.b(30)) all(what);
  }
  all("at the end");
  CHECK(!i.locked(), "locked()");
  /* The bytes, by a second image on the same buffer. */
  if (!turned) {
    Image raw((PixUInt) W, (PixUInt) H, f, i.buffer());
    const bool r180 = (rot == ImgOrientation::ROTATION_180);
    for (uint32_t y = 0; y < H; y++) for (uint32_t x = 0; x < W; x++) {
      const uint32_t px = (r180 != fx) ? W - 1 - x : x, py = (r180 != fy) ? H - 1 - y : y;
      CHECK(raw.getPixel((PixUInt) px, (PixUInt) py) == m[y * W + x], "(%u, %u) isn't at (%u, %u) with rotation %d, flips %d %d", x, y, px, py, (int) rot, fx, fy);
      if (bpp(f) >= 8) {
        const uint8_t* p = i.buffer() + (py * W + px) * (bpp(f) / 8);
        uint32_t v = 0;
        for (unsigned k = 0; k < bpp(f) / 8; k++) v = (f == F::R8_G8_B8_ALPHA) ? (v | ((uint32_t) p[k] << (8 * k))) : ((v << 8) | p[k]);
        CHECK(v == m[y * W + x], "the bytes of (%u, %u)", px, py);
      }
    }
  }
  if (sets > 4 && W > 1 && H > 1) nontrivial();
}

/* ---- I03 ---- */

typedef std::set<std::pair<int, int>> Pts;     // x, y
static const int D = 96;                       // Margin of the large image.
struct Canvas {
  std::unique_ptr<Image> i;
  int ox, oy;      // Where the origin is.
  Canvas(int w, int h, F f, int o, uint32_t bg) : i(new Image((PixUInt) w, (PixUInt) h, f)), ox(o), oy(o) {
    CHECK(i->reallocate(), "reallocate()");
    i->fill(bg);
  }
  PixUInt X(int x) {  return (PixUInt) (x + ox);  }
  PixUInt Y(int y) {  return (PixUInt) (y + oy);  }
  Pts not_(uint32_t bg) {
    Pts r;
    for (int y = 0; y < i->y(); y++) for (int x = 0; x < i->x(); x++) if (i->getPixel((PixUInt) x, (PixUInt) y) != bg) r.insert({x - ox, y - oy});
    return r;
  }
};
static void hull(const Pts& p, Pts* out) {     // Filled by columns.
  std::set<int> xs;
  for (auto& q : p) xs.insert(q.first);
  for (int x : xs) {
    auto a = p.lower_bound({x, -100000});
    auto b = std::prev(p.upper_bound({x, 100000}));
    for (int y = a->second; y <= b->second; y++) out->insert({x, y});
  }
}
static Pts rect(int x, int y, int w, int h) {
  Pts r;
  for (int i = 0; i < w; i++) for (int j = 0; j < h; j++) r.insert({x + i, y + j});
  return r;
}
static std::string show(const Pts& a, const Pts& b) {
  std::string r;
  int n = 0;
  for (auto& p : a) if (!b.count(p) && n++ < 6) r += " (" + std::to_string(p.first) + "," + std::to_string(p.second) + ")";
  return r.empty() ? " none" : r;
}
#define SAME(got, want, what) do {  const Pts g_ = (got), w_ = (want);  CHECK(g_ == w_, "%s: too many%s, missing%s", what, show(g_, w_).c_str(), show(w_, g_).c_str());  } while (0)

static void check_line(const Pts& p, int x0, int y0, int x1, int y1, const char* what) {
  const int dx = abs(x1 - x0), dy = abs(y1 - y0), n = std::max(dx, dy) + 1;
  CHECK((int) p.size() == n, "%s has %zu pixels, of %d", what, p.size(), n);
  CHECK(p.count({x0, y0}) && p.count({x1, y1}), "%s lacks an end", what);
  for (auto& q : p) {
    /* One pixel for every step along the long axis, the nearest (or a tie). */
    const bool steep = dy > dx;
    const long a = steep ? q.second - y0 : q.first - x0, b = steep ? q.first - x0 : q.second - y0;
    const long la = steep ? y1 - y0 : x1 - x0, lb = steep ? x1 - x0 : y1 - y0;
    CHECK(la == 0 ? (a == 0) : (a * la >= 0 && labs(a) <= labs(la)), "%s has (%d, %d)", what, q.first, q.second);
    CHECK(labs(2 * (b * la - a * lb)) <= 2 * labs(la), "%s has (%d, %d), which is off the line", what, q.first, q.second);
  }
  std::set<int> along;
  for (auto& q : p) along.insert(dy > dx ? q.second : q.first);
  CHECK((int) along.size() == n, "%s has gaps", what);
}
static void check_circle(const Pts& p, int x0, int y0, int r, const char* what) {
  for (auto& q : p) {
    const int x = q.first - x0, y = q.second - y0;
    CHECK(fabs(sqrt((double) x * x + (double) y * y) - r) < 0.80, "%s has (%d, %d)", what, q.first, q.second);
    for (int k = 0; k < 8; k++) {
      const int a = (k & 1) ? -x : x, b = (k & 2) ? -y : y;
      CHECK(p.count((k & 4) ? std::make_pair(x0 + b, y0 + a) : std::make_pair(x0 + a, y0 + b)), "%s isn't symmetric at (%d, %d)", what, q.first, q.second);
    }
  }
  for (int x = -r; x <= r; x++) {
    auto it = p.lower_bound({x0 + x, -100000});
    CHECK(it != p.end() && it->first == x0 + x, "%s has nothing at x = %d", what, x0 + x);
  }
  CHECK(p.count({x0 + r, y0}) && p.count({x0, y0 + r}), "%s lacks its extremes", what);
}
static Pts triangle(int x0, int y0, int x1, int y1, int x2, int y2) {
  if (y0 > y1) {  std::swap(x0, x1);  std::swap(y0, y1);  }
  if (y1 > y2) {  std::swap(x1, x2);  std::swap(y1, y2);  }
  if (y0 > y1) {  std::swap(x0, x1);  std::swap(y0, y1);  }
  Pts r;
  for (int y = y0; y <= y2; y++) {
    int a, b;
    if (y0 == y2) {  a = std::min({x0, x1, x2});  b = std::max({x0, x1, x2});  }
    else {
      b = x0 + (x2 - x0) * (y - y0) / (y2 - y0);
      if (y < y1 || y1 == y2) a = x0 + (x1 - x0) * (y - y0) / (y1 - y0);
      else a = x1 + (x2 - x1) * (y - y1) / (y2 - y1);
    }
    for (int x = std::min(a, b); x <= std::max(a, b); x++) r.insert({x, y});
  }
  return r;
}

TARGET_F(I03, shapes, 1500, 60000, F_LEAK) {
  const int W = 1 + (int) s.size(36), H = 1 + (int) s.size(36);
  const F f = DRAWN[s.u(sizeof(DRAWN) / sizeof(DRAWN[0]))];
  const uint32_t bg = kept(f, (f == F::MONOCHROME) ? 0 : (uint32_t) s.word(32));
  uint32_t c = (f == F::MONOCHROME) ? 1 : (uint32_t) s.word(32);
  if (kept(f, c) == bg) c = ~c;
  Canvas small(W, H, f, 0, bg), big(W + 2 * D, H + 2 * D, f, D, bg);
  auto cx = [&]() {  return (int) (s.b(80) ? s.u((uint32_t) W) : s.u((uint32_t) W + 20));  };
  auto cy = [&]() {  return (int) (s.b(80) ? s.u((uint32_t) H) : s.u((uint32_t) H + 20));  };
  Canvas* cs[2] = {&small, &big};
  char what[160];
  bool whole = true;
  switch (s.u(11)) {
    case 0: {
        const int x0 = cx(), y0 = cy(), x1 = cx(), y1 = cy();
        snprintf(what, sizeof(what), "drawLine(%d, %d, %d, %d)", x0, y0, x1, y1);
        for (Canvas* k : cs) k->i->drawLine(k->X(x0), k->Y(y0), k->X(x1), k->Y(y1), c);
        check_line(big.not_(bg), x0, y0, x1, y1, what);
      } break;
    case 1: {
        const int x = cx(), y = cy(), n = (int) s.size(40);
        const bool v = s.b();
        snprintf(what, sizeof(what), "drawFast%cLine(%d, %d, %d)", v ? 'V' : 'H', x, y, n);
        for (Canvas* k : cs) {
          if (v) k->i->drawFastVLine(k->X(x), k->Y(y), (PixUInt) n, c);
          else   k->i->drawFastHLine(k->X(x), k->Y(y), (PixUInt) n, c);
        }
        SAME(big.not_(bg), rect(x, y, v ? 1 : n, v ? n : 1), what);
      } break;
    case 2: {
        const int x = cx(), y = cy(), w = (int) s.size(40), h = (int) s.size(40);
        snprintf(what, sizeof(what), "fillRect(%d, %d, %d, %d)", x, y, w, h);
        for (Canvas* k : cs) k->i->fillRect(k->X(x), k->Y(y), (PixUInt) w, (PixUInt) h, c);
        SAME(big.not_(bg), rect(x, y, w, h), what);
      } break;
    case 3: {
        const int x = cx(), y = cy(), w = 1 + (int) s.size(40), h = 1 + (int) s.size(40);
        snprintf(what, sizeof(what), "drawRect(%d, %d, %d, %d)", x, y, w, h);
        for (Canvas* k : cs) k->i->drawRect(k->X(x), k->Y(y), (PixUInt) w, (PixUInt) h, c);
        Pts want = rect(x, y, w, h);
        for (auto& p : rect(x + 1, y + 1, w - 2, h - 2)) want.erase(p);
        SAME(big.not_(bg), want, what);
      } break;
    case 4: {
        const int x = cx(), y = cy(), r = (int) s.size(45);
        snprintf(what, sizeof(what), "drawCircle(%d, %d, %d)", x, y, r);
        for (Canvas* k : cs) k->i->drawCircle(k->X(x), k->Y(y), (PixUInt) r, c);
        check_circle(big.not_(bg), x, y, r, what);
      } break;
    case 5: {
        const int x = cx(), y = cy(), r = (int) s.size(45);
        snprintf(what, sizeof(what), "fillCircle(%d, %d, %d)", x, y, r);
        for (Canvas* k : cs) k->i->fillCircle(k->X(x), k->Y(y), (PixUInt) r, c);
        Canvas line(W + 2 * D, H + 2 * D, f, D, bg);
        line.i->drawCircle(line.X(x), line.Y(y), (PixUInt) r, c);
        Pts want;
        hull(line.not_(bg), &want);
        SAME(big.not_(bg), want, what);
      } break;
    case 6: {
        const int x = cx(), y = cy(), w = 1 + (int) s.size(40), h = 1 + (int) s.size(40), r = (int) s.size(25);
        snprintf(what, sizeof(what), "drawRoundRect(%d, %d, %d, %d, %d)", x, y, w, h, r);
        for (Canvas* k : cs) k->i->drawRoundRect(k->X(x), k->Y(y), (PixUInt) w, (PixUInt) h, (PixUInt) r, c);
        const int q = std::min(r, std::min(w, h) / 2);
        const Pts got = big.not_(bg);
        for (auto& p : got) {
          const int a = p.first - x, b = p.second - y;
          CHECK(a >= 0 && b >= 0 && a < w && b < h, "%s has (%d, %d), out of its rectangle", what, p.first, p.second);
          CHECK(got.count({x + w - 1 - a, p.second}) && got.count({p.first, y + h - 1 - b}), "%s isn't symmetric at (%d, %d)", what, p.first, p.second);
          if ((a >= q && a < w - q) || (b >= q && b < h - q)) CHECK(a == 0 || b == 0 || a == w - 1 || b == h - 1, "%s has (%d, %d), which is inside", what, p.first, p.second);
        }
        for (int a = q; a < w - q; a++) CHECK(got.count({x + a, y}) && got.count({x + a, y + h - 1}), "%s lacks an edge at x = %d", what, x + a);
        for (int b = q; b < h - q; b++) CHECK(got.count({x, y + b}) && got.count({x + w - 1, y + b}), "%s lacks an edge at y = %d", what, y + b);
        for (int a = 0; a < w; a++) {  auto it = got.lower_bound({x + a, -100000});  CHECK(it != got.end() && it->first == x + a, "%s has a gap at x = %d", what, x + a);  }
      } break;
    case 7: {
        const int x = cx(), y = cy(), w = 1 + (int) s.size(40), h = 1 + (int) s.size(40), r = (int) s.size(25);
        snprintf(what, sizeof(what), "fillRoundRect(%d, %d, %d, %d, %d)", x, y, w, h, r);
        for (Canvas* k : cs) k->i->fillRoundRect(k->X(x), k->Y(y), (PixUInt) w, (PixUInt) h, (PixUInt) r, c);
        Canvas line(W + 2 * D, H + 2 * D, f, D, bg);
        line.i->drawRoundRect(line.X(x), line.Y(y), (PixUInt) w, (PixUInt) h, (PixUInt) r, c);
        Pts want;
        hull(line.not_(bg), &want);
        SAME(big.not_(bg), want, what);
      } break;
    case 8: {
        const int x0 = cx(), y0 = cy(), x1 = cx(), y1 = cy(), x2 = cx(), y2 = cy();
        snprintf(what, sizeof(what), "drawTriangle(%d, %d, %d, %d, %d, %d)", x0, y0, x1, y1, x2, y2);
        for (Canvas* k : cs) k->i->drawTriangle(k->X(x0), k->Y(y0), k->X(x1), k->Y(y1), k->X(x2), k->Y(y2), c);
        Canvas line(W + 2 * D, H + 2 * D, f, D, bg);
        line.i->drawLine(line.X(x0), line.Y(y0), line.X(x1), line.Y(y1), c);
        line.i->drawLine(line.X(x1), line.Y(y1), line.X(x2), line.Y(y2), c);
        line.i->drawLine(line.X(x2), line.Y(y2), line.X(x0), line.Y(y0), c);
        SAME(big.not_(bg), line.not_(bg), what);
      } break;
    case 9: {
        const int x0 = cx(), y0 = cy(), x1 = cx(), y1 = cy(), x2 = cx(), y2 = cy();
        snprintf(what, sizeof(what), "fillTriangle(%d, %d, %d, %d, %d, %d)", x0, y0, x1, y1, x2, y2);
        for (Canvas* k : cs) k->i->fillTriangle(k->X(x0), k->Y(y0), k->X(x1), k->Y(y1), k->X(x2), k->Y(y2), c);
        SAME(big.not_(bg), triangle(x0, y0, x1, y1, x2, y2), what);
      } break;
    default: {
        if (bpp(f) != 8) return;
        const int x = cx(), y = cy(), w = (int) s.size(20), h = (int) s.size(20);
        std::string bm = s.bytes((uint32_t) (w * h));
        std::unique_ptr<uint8_t[]> heap(new uint8_t[bm.size()]);
        memcpy(heap.get(), bm.data(), bm.size());
        snprintf(what, sizeof(what), "drawBitmap(%d, %d, %d, %d)", x, y, w, h);
        for (Canvas* k : cs) k->i->drawBitmap(k->X(x), k->Y(y), heap.get(), (PixUInt) w, (PixUInt) h);
        for (int j = 0; j < h; j++) for (int i = 0; i < w; i++) CHECK(big.i->getPixel(big.X(x + i), big.Y(y + j)) == (uint8_t) bm[j * w + i], "%s: pixel (%d, %d)", what, i, j);
        whole = false;
      } break;
  }
  note("%s on %d x %d %s", what, W, H, Image::formatString(f));
  /* One color, and clipped to the image. */
  unsigned drawn = 0, clipped = 0;
  for (int y = -D; y < H + D; y++) for (int x = -D; x < W + D; x++) {
    const uint32_t p = big.i->getPixel(big.X(x), big.Y(y));
    if (whole) CHECK(p == bg || p == kept(f, c), "%s: the color of (%d, %d) is %08x", what, x, y, p);
    if (x >= 0 && y >= 0 && x < W && y < H) {
      CHECK(small.i->getPixel((PixUInt) x, (PixUInt) y) == p, "%s isn't clipped right: (%d, %d) of %d x %d", what, x, y, W, H);
      if (p != bg) drawn++;
    }
    else if (p != bg) clipped++;
  }
  CHECK(!small.i->locked(), "locked after drawing");
  if (clipped) label("clipped");
  if (drawn > 4) nontrivial();
}

/* Any coordinates. */
TARGET(I03, anywhere, 1500, 60000) {
  const uint32_t W = s.size(20), H = s.size(20);
  const F f = ALL[s.u(sizeof(ALL) / sizeof(ALL[0]))];
  Image i((PixUInt) W, (PixUInt) H, f);
  std::unique_ptr<uint8_t[]> own(new uint8_t[bytes_of(W, H, f)]);
  const bool mem = s.b(90);
  if (mem) i.setBuffer(own.get());
  i.orientation((ImgOrientation) s.u(4));
  i.flipX(s.b(20));
  i.flipY(s.b(20));
  const uint32_t c = (uint32_t) s.word(32);
  unsigned step = 0;
  while (more(s, step, 5, 2)) {
    PixUInt v[6];
    for (auto& q : v) q = (PixUInt) (s.b(30) ? s.size(40) : s.word(16));
    const PixUInt few = (PixUInt) s.size(30);
    const unsigned op = s.u(13);
    note("%u: %u %u %u %u %u %u, %u", op, v[0], v[1], v[2], v[3], v[4], v[5], few);
    switch (op) {
      case 0:  i.drawLine(v[0], v[1], v[2], v[3], c);  break;
      case 1:  i.drawFastHLine(v[0], v[1], v[2], c);  break;
      case 2:  i.drawFastVLine(v[0], v[1], v[2], c);  break;
      case 3:  i.fillRect(v[0], v[1], v[2], few, c);  break;
      case 4:  i.fillRect(v[0], v[1], few, v[2], c);  break;
      case 5:  i.drawRect(v[0], v[1], v[2], v[3], c);  break;
      case 6:  i.drawCircle(v[0], v[1], v[2], c);  break;
      case 7:  i.fillCircle(v[0], v[1], few, c);  break;
      case 8:  i.drawRoundRect(v[0], v[1], v[2], v[3], v[4], c);  break;
      case 9:  i.fillRoundRect(v[0], v[1], few, few, v[4], c);  break;
      case 10: i.drawTriangle(v[0], v[1], v[2], v[3], v[4], v[5], c);  break;
      case 11: i.drawChar(v[0], v[1], (unsigned char) v[2], c, (uint32_t) s.word(32), (uint8_t) s.size(12));  break;
      default: i.fillTriangle((PixUInt) s.size(60), (PixUInt) s.size(60), (PixUInt) s.size(60), (PixUInt) s.size(60), (PixUInt) s.size(60), (PixUInt) s.size(60), c);  break;
    }
  }
  if (step > 1 && mem) nontrivial();
}

/* Text */
static const GFXfont* const FONTS[] = {nullptr, &FreeSans9pt7b, &FreeMonoOblique12pt7b, &Picopixel};

static void ref_char(Pts* p, const GFXfont* f, int x, int y, uint8_t c, int size) {
  const GFXglyph* g = f->glyph + (c - f->first);
  unsigned bit = 0;
  for (int yy = 0; yy < g->height; yy++) for (int xx = 0; xx < g->width; xx++, bit++) {
    if (f->bitmap[g->bitmapOffset + bit / 8] & (0x80 >> (bit & 7)))
      for (auto& q : rect(x + (g->xOffset + xx) * size, y + (g->yOffset + yy) * size, size, size)) p->insert(q);
  }
}

TARGET_F(I03, chars, 1200, 40000, F_LEAK) {
  const GFXfont* font = FONTS[s.weighted({5, 2, 2, 1})];
  const int W = 1 + (int) s.size(40), H = 1 + (int) s.size(40);
  const F f = s.pick({F::R3_G3_B2, F::R5_G6_B5, F::R8_G8_B8});
  const uint32_t bg = kept(f, 0x1234567), c = kept(f, 0x765432), cell = kept(f, 0x0F0F0F);
  const bool opaque = s.b(40);
  const int size = 1 + (int) s.size(3);
  Canvas small(W, H, f, 0, bg), big(W + 2 * D, H + 2 * D, f, D, bg), one(W + 2 * D, H + 2 * D, f, D, bg);
  const uint8_t ch = (uint8_t) (font ? font->first + s.u(font->last - font->first + 1u) : s.u(256));
  const int x = (int) s.u((uint32_t) W), y = (int) s.u((uint32_t) H);
  const bool cp = s.b();
  note("drawChar(%d, %d, %u, size %d) on %d x %d%s", x, y, ch, size, W, H, opaque ? ", opaque" : "");
  for (Canvas* k : {&small, &big, &one}) {
    k->i->setFont(font);
    k->i->cp437(cp);
    k->i->drawChar(k->X(x), k->Y(y), ch, c, opaque ? cell : c, (uint8_t) (k == &one ? 1 : size));
  }
  const Pts got = big.not_(bg);
  for (int py = 0; py < H; py++) for (int px = 0; px < W; px++)
    CHECK(small.i->getPixel((PixUInt) px, (PixUInt) py) == big.i->getPixel(big.X(px), big.Y(py)), "a character isn't clipped right at (%d, %d)", px, py);
  Pts fg;
  for (auto& q : got) if (big.i->getPixel(big.X(q.first), big.Y(q.second)) == c) fg.insert(q);
  if (font) {
    Pts want;
    ref_char(&want, font, x, y, ch, size);
    SAME(got, want, "a character");
    SAME(fg, want, "a character's color");
  }
  else {
    Pts want;
    for (auto& q : one.not_(bg)) if (one.i->getPixel(one.X(q.first), one.Y(q.second)) == c)
      for (auto& r : rect(x + (q.first - x) * size, y + (q.second - y) * size, size, size)) want.insert(r);
    SAME(fg, want, "a magnified character");
    if (opaque) SAME(got, rect(x, y, 6 * size, 8 * size), "an opaque character's cell");
    else SAME(got, fg, "a transparent character");
    for (auto& q : fg) CHECK(q.first < x + 5 * size, "a character is too wide");
  }
  if (got.size() > 3) nontrivial();
}

TARGET_F(I03, text, 2000, 40000, F_LEAK) {
  const GFXfont* font = FONTS[s.weighted({5, 2, 2, 1})];
  const int W = 10 + (int) s.size(150), H = 10 + (int) s.size(100);
  const F f = F::R5_G6_B5;
  Image i((PixUInt) W, (PixUInt) H, f), ref((PixUInt) W, (PixUInt) H, f);
  CHECK(i.reallocate() && ref.reallocate(), "reallocate()");
  const int ts = (int) s.u(4);
  const bool wrap = s.b(), opaque = s.b(40);
  const uint32_t c = 0x1234, bg = opaque ? 0x4321 : c;
  i.setFont(font);
  ref.setFont(font);
  i.setTextSize((uint8_t) ts);
  const int z = ts ? ts : 1;
  if (opaque) i.setTextColor(c, bg);
  else i.setTextColor(c);
  i.textWrap(wrap);
  const int x0 = (int) s.u((uint32_t) W), y0 = (int) s.u((uint32_t) H);
  i.setCursor((PixUInt) x0, (PixUInt) y0);
  std::string t = s.text(s.size(14), font ? "abjMX_. 19\n\r\t\x7f\x01" : "abjMX_. 19\n\r\x7f\x01\xb1");
  const bool tabs = !font && s.b(20);
  if (tabs) t.insert(s.u((uint32_t) t.size() + 1), "\t");
  note("%s at %d, %d on %d x %d, size %d%s", quote(t).c_str(), x0, y0, W, H, ts, wrap ? ", wrapped" : "");
  /* Where each character goes. */
  int x = x0, y = y0;
  std::vector<int> cells;    // x, y, w, h
  bool in = true;
  const int lh = z * (font ? font->yAdvance : 8);
  std::string u;
  for (char k : t) {  if (k == '\t' && !font) u += "  "; else u += k;  }
  for (char k : u) {
    const uint8_t ch = (uint8_t) k;
    if (ch == '\n') {  x = 0;  y += lh;  continue;  }
    if (ch == '\r') continue;
    if (font) {
      if (ch < font->first || ch > font->last) continue;
      const GFXglyph* g = font->glyph + (ch - font->first);
      if (g->width && g->height) {
        if (wrap && x + z * (g->xOffset + g->width) > W) {  x = 0;  y += lh;  }
        if (x + z * g->xOffset < 0 || y + z * g->yOffset < 0) in = false;
        ref.drawChar((PixUInt) x, (PixUInt) y, ch, c, bg, (uint8_t) z);
        for (int v : {x + z * g->xOffset, y + z * g->yOffset, z * g->width, z * g->height}) cells.push_back(v);
      }
      x += z * g->xAdvance;
    }
    else {
      if (wrap && x + 6 * z > W) {  x = 0;  y += 8 * z;  }
      ref.drawChar((PixUInt) x, (PixUInt) y, ch, c, bg, (uint8_t) z);
      for (int v : {x, y, 6 * z, 8 * z}) cells.push_back(v);
      x += 6 * z;
    }
  }
  std::unique_ptr<char[]> exact(new char[t.size() + 1]);
  memcpy(exact.get(), t.c_str(), t.size() + 1);
  StringBuilder sb;
  sb.concat(exact.get());
  PixUInt b[3][4];
  for (auto& q : b) for (auto& v : q) v = 7777;
  i.getTextBounds((const char*) exact.get(), (PixUInt) x0, (PixUInt) y0, &b[0][0], &b[0][1], &b[0][2], &b[0][3]);
  i.getTextBounds((const uint8_t*) exact.get(), (PixUInt) x0, (PixUInt) y0, &b[1][0], &b[1][1], &b[1][2], &b[1][3]);
  i.getTextBounds(&sb, (PixUInt) x0, (PixUInt) y0, &b[2][0], &b[2][1], &b[2][2], &b[2][3]);
  for (int k = 1; k < 3; k++) CHECK(0 == memcmp(b[0], b[k], sizeof(b[0])), "the forms of getTextBounds() differ: %u %u %u %u, of %u %u %u %u", b[k][0], b[k][1], b[k][2], b[k][3], b[0][0], b[0][1], b[0][2], b[0][3]);
  CHECK(i.getCursorX() == x0 && i.getCursorY() == y0, "getTextBounds() moved the cursor");
  switch (s.u(3)) {
    case 0:  i.writeString(exact.get());  break;
    case 1:  if (!t.empty()) {  i.writeString(&sb);  break;  }   // fall through
    default: for (char k : t) i.writeChar((uint8_t) k);  break;
  }
  CHECK(i.getCursorX() == (PixUInt) x && i.getCursorY() == (PixUInt) y, "the cursor is at (%u, %u), of (%d, %d)", i.getCursorX(), i.getCursorY(), x, y);
  CHECK(0 == memcmp(i.buffer(), ref.buffer(), i.bytesUsed()), "the text isn't its characters");
  CHECK(i.getFontHeight() == lh && (font || i.getFontWidth() == 6 * z), "the font's size");
  /* The bounds have all that was drawn. Only where all is within pixel addresses, and begins within the image. */
  int l = 1 << 20, tp = 1 << 20, r = -1, bt = -1;
  for (size_t k = 0; k < cells.size(); k += 4) {
    if (cells[k] > W - 1 || cells[k + 1] > H - 1) in = false;
    l = std::min(l, cells[k]);
    tp = std::min(tp, cells[k + 1]);
    r = std::max(r, cells[k] + cells[k + 2] - 1);
    bt = std::max(bt, cells[k + 1] + cells[k + 3] - 1);
  }
  if (cells.empty()) CHECK(b[0][0] == x0 && b[0][1] == y0 && b[0][2] == 0 && b[0][3] == 0, "the bounds of nothing are %u %u %u %u", b[0][0], b[0][1], b[0][2], b[0][3]);
  else if (in) {
    if (r >= l && bt >= tp) CHECK(b[0][0] == l && b[0][1] == tp && b[0][2] == r - l + 1 && b[0][3] == bt - tp + 1, "the bounds are %u %u %u %u, of %d %d %d %d", b[0][0], b[0][1], b[0][2], b[0][3], l, tp, r - l + 1, bt - tp + 1);
    label("measured");
  }
  if (cells.size() >= 12) nontrivial();
}

/* The built-in font, as the project has it: 256 glyphs of 5 columns. */
REGRESSION(I03, builtin_font) {
  uint64_t h = 1469598103934665603ull;
  for (int cp = 0; cp < 2; cp++) for (int c = 0; c < 256; c++) {
    Image i(6, 8, F::GREY_8);
    CHECK(i.reallocate(), "reallocate()");
    i.cp437(cp);
    i.drawChar(0, 0, (unsigned char) c, 1, 1, 1);
    h = fnv(i.buffer(), 48, h);
    if (c == 'A') {
      static const uint8_t A[5] = {0x7C, 0x12, 0x11, 0x12, 0x7C};
      for (int x = 0; x < 6; x++) for (int y = 0; y < 8; y++) CHECK(i.getPixel((PixUInt) x, (PixUInt) y) == ((x < 5 && (A[x] & (1 << y))) ? 1u : 0u), "the glyph of A at (%d, %d)", x, y);
    }
  }
  CHECK(h == FONT_HASH, "the built-in font has the hash %016llx", (unsigned long long) h);
}

/* Scaling. */
TARGET_F(I03, scaler, 2000, 40000, F_LEAK) {
  const F fs = s.pick({F::R8_G8_B8, F::R5_G6_B5, F::R3_G3_B2}), ft = s.pick({F::R8_G8_B8, F::R5_G6_B5, F::R3_G3_B2});
  const uint32_t SW = 1 + s.u(17), SH = 1 + s.u(17), TW = 1 + s.u(40), TH = 1 + s.u(40);
  Image a((PixUInt) SW, (PixUInt) SH, fs), b((PixUInt) TW, (PixUInt) TH, ft);
  const bool mem_a = s.b(95), mem_b = s.b(95), mem = mem_a && mem_b;
  if (mem_a) CHECK(a.reallocate(), "reallocate()");
  if (mem_b) CHECK(b.reallocate(), "reallocate()");
  for (uint32_t y = 0; y < SH; y++) for (uint32_t x = 0; x < SW; x++) a.setPixel((PixUInt) x, (PixUInt) y, (uint32_t) ((x * 77 + y * 3001 + 5) * 2654435761u));
  b.fill(0xA5);
  const uint32_t bg = b.getPixel(0, 0);
  const bool down = s.b(30);
  const uint32_t n = 1u << s.size(3);
  const float scale = down ? 1.0f / (float) n : (float) n;
  uint32_t sx = 0, sy = 0, sw = 0, sh = 0;
  if (s.b(60)) {  sx = s.size(10);  sy = s.size(10);  sw = 1 + s.size(16);  sh = 1 + s.size(16);  }
  uint32_t tx = s.size(12), ty = s.size(12);
  if (s.b(60)) {   // Something that fits.
    sx = s.u(SW);  sy = s.u(SH);
    sw = 1 + s.u(SW - sx);  sh = 1 + s.u(SH - sy);
    if (!down) {  sw = std::max(1u, std::min(sw, TW / n));  sh = std::max(1u, std::min(sh, TH / n));  }
    const uint32_t w = down ? sw / n : sw * n, h = down ? sh / n : sh * n;
    tx = (w < TW) ? s.u(TW - w + 1) : 0;
    ty = (h < TH) ? s.u(TH - h + 1) : 0;
  }
  ImageScaler sc(&a, &b, scale, (PixUInt) sx, (PixUInt) sy, (PixUInt) sw, (PixUInt) sh, (PixUInt) tx, (PixUInt) ty);
  if (!sw) sw = SW;
  if (!sh) sh = SH;
  CHECK(sc.scale() == scale, "scale()");
  const int ret = sc.apply();
  const uint32_t ow = down ? sw / n : sw * n, oh = down ? sh / n : sh * n;
  const int want = !mem ? -1 : (sx + sw > SW || sy + sh > SH) ? -2 : (tx + ow > TW || ty + oh > TH) ? -3 : 0;
  note("%ux%u at (%u, %u) of %ux%u, by %g, to (%u, %u) of %ux%u -> %d", sw, sh, sx, sy, SW, SH, scale, tx, ty, TW, TH, ret);
  CHECK(ret == want, "apply() returned %d, of %d", ret, want);
  if (!mem) return;
  for (uint32_t y = 0; y < TH; y++) for (uint32_t x = 0; x < TW; x++) {
    uint32_t w = bg;
    if (ret == 0 && x >= tx && y >= ty && x < tx + ow && y < ty + oh) {
      const uint32_t px = sx + (down ? (x - tx) * n : (x - tx) / n), py = sy + (down ? (y - ty) * n : (y - ty) / n);
      const uint32_t c = a.getPixel((PixUInt) px, (PixUInt) py);
      w = (fs == ft) ? c : convert(fs, ft, c);
    }
    CHECK(b.getPixel((PixUInt) x, (PixUInt) y) == w, "pixel (%u, %u) is %08x, of %08x", x, y, b.getPixel((PixUInt) x, (PixUInt) y), w);
  }
  if (ret == 0 && ow * oh > 4) nontrivial();
}
