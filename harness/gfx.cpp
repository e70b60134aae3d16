/*
* I04: a graph shows every sample at its height, inside its frame.
* I05: bars and compasses show their values, inside their rectangle.
*/
#include "pbt.h"
#include "CppPotpourri.h"
#include "AbstractPlatform.h"
#include "StringBuilder.h"
#include "Image/Image.h"
#include "Image/ImageUtils.h"
#include "Image/ImageUtils/ImageGraph.h"
#include <math.h>
#include <stdlib.h>
#include <algorithm>
#include <memory>
#include <string>
#include <vector>
using namespace pbt;
typedef ImgBufferFormat F;

static const uint32_t OUT = 0x00112233, BG = 0x00010203, FG = 0x00F0F0F0, TRACE = 0x00A05030, GRID = 0x00202020;

/* The picture, with what was there before. */
struct Pic {
  std::unique_ptr<Image> i;
  int w, h;
  std::vector<uint32_t> before;
  Pic(int W, int H) : i(new Image((PixUInt) W, (PixUInt) H, F::R8_G8_B8)), w(W), h(H) {
    CHECK(i->reallocate(), "reallocate()");
    i->fill(OUT);
    keep();
  }
  uint32_t at(int x, int y) {  return i->getPixel((PixUInt) x, (PixUInt) y);  }
  void keep() {
    before.clear();
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) before.push_back(at(x, y));
  }
  /* Nothing but the rectangle may have changed. */
  void outside(int x0, int y0, int rw, int rh, const char* what) {
    for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) {
      if (x >= x0 && y >= y0 && x < x0 + rw && y < y0 + rh) continue;
      CHECK(at(x, y) == before[(size_t) y * w + x], "%s at (%d, %d), %d by %d, has changed the pixel at (%d, %d)", what, x0, y0, rw, rh, x, y);
    }
  }
};

/*******************************************************************************
* I04
*******************************************************************************/
template <class T> static T datum(Src& s, unsigned mode);
template <> uint32_t datum<uint32_t>(Src& s, unsigned mode) {  return mode == 0 ? s.u(40) : mode == 1 ? 1000 + s.u(300) : (uint32_t) s.word(32);  }
template <> float datum<float>(Src& s, unsigned mode) {
  if (mode == 0) return (float) ((int) s.u(80) - 40) / 4;
  if (mode == 1) return -100.0f - (float) s.u(300);
  const float f = s.f32(false);
  return fabsf(f) > 1e18f || (f != 0 && fabsf(f) < 1e-18f) ? 3.0f : f;
}

template <class T> static void graph(Src& s) {
  const bool WORDS = std::is_integral<T>::value;
  const unsigned wide_pic = s.weighted({90, 5, 5});   // Some are larger than 255 pixels.
  Pic p(4 + (int) s.u(wide_pic == 1 ? 330 : 80), 4 + (int) s.u(wide_pic == 2 ? 330 : 70));
  int w = 2 + (int) s.size((uint32_t) p.w - 2), h = 2 + (int) s.size((uint32_t) p.h - 2);
  if (s.b(50)) {  w = std::max(w, std::min(p.w, 12));  h = std::max(h, std::min(p.h, 10));  }
  int x = (int) s.u((uint32_t) (p.w - w) + 1), y = (int) s.u((uint32_t) (p.h - h) + 1);
  const bool fits = !s.b(8);
  if (!fits) {  if (s.b(50)) x = p.w - w + 1 + (int) s.u(20);  else y = p.h - h + 1 + (int) s.u(20);  }
  const unsigned mode = s.u(3);
  std::vector<T> d;
  const size_t n = s.b(6) ? 0 : s.b(20) ? 1 + s.u(3) : 1 + s.size(wide_pic == 1 ? 350 : 110);
  const T same = datum<T>(s, mode);
  const bool flat = s.b(8);
  for (size_t i = 0; i < n; i++) d.push_back(flat ? same : datum<T>(s, mode));
  ImageGraph<T> g((PixUInt) w, (PixUInt) h);
  g.bg_color = BG;
  g.fg_color = FG;
  ImageGraphTrace<T> src;
  src.color = TRACE;
  src.enabled = s.b(95);
  src.autoscale_y = s.b(50);
  src.draw_curve = s.b(30);
  src.draw_grid = s.b(40);
  if (s.b(70)) src.major_grid_x = (PixUInt) (1 + s.u(20));
  if (s.b(30)) src.minor_grid_x = (PixUInt) (1 + s.u(9));
  if (s.b(40)) src.major_grid_y = (PixUInt) (1 + s.u(20));
  if (s.b(30)) src.minor_grid_y = (PixUInt) (1 + s.u(9));
  src.grid_lock_x = s.b(50);
  src.grid_lock_y = s.b(50);
  src.offset_x = s.b(50) ? s.u(30) : (uint32_t) s.word(32);
  const bool texts = s.b(20);
  if (texts) {
    src.show_x_range = s.b(50);
    src.show_y_range = s.b(50);
    src.show_value = s.b(50);
    if (s.b(60)) src.accented_idx = (int32_t) s.u(90);
  }
  /* The data ends where its memory does. */
  std::unique_ptr<T[]> mem(n ? new T[n] : nullptr);
  std::copy(d.begin(), d.end(), mem.get());
  src.dataset = mem.get();
  src.data_len = (uint32_t) n;
  if (s.b(40)) {  ImageGraphTrace<T> t2;  CHECK(t2.copyFrom(&src) == (src.enabled && n > 0), "copyFrom()");  g.trace0.copyFrom(&t2);  }
  else g.trace0.copyFrom(&src);
  note("graph of %zu %s, %d by %d at (%d, %d) of %d by %d%s%s%s%s%s", n, WORDS ? "words" : "floats", w, h, x, y, p.w, p.h, src.enabled ? "" : ", disabled", src.autoscale_y ? ", autoscaled" : "", src.draw_curve ? ", curve" : "", src.draw_grid ? ", grid" : "", texts ? ", texts" : "");
  for (size_t i = 0; i < n && i < 12; i++) note("  [%zu] = %.9g", i, (double) d[i]);
  g.drawGraph(p.i.get(), (PixUInt) x, (PixUInt) y);
  if (!fits) {
    p.outside(0, 0, 0, 0, "a graph that doesn't fit,");
    label("doesn't fit");
    return;
  }
  const bool accent = src.accented_idx >= 0;
  if (!texts) p.outside(x, y, w, h, "a graph");
  /* The plot: right of the axis, and above it. */
  const int px = x + 1, pw = w - 2, ph = h - 2;
  const int bottom = y + h - 1;       // The axis
  const size_t shown = src.enabled ? std::min(n, (size_t) pw) : 0;
  if (!texts) {
    for (int j = y + 1; j < y + h - 1; j++) CHECK(p.at(x, j) == FG || p.at(x, j) == BG, "the axis at (%d, %d) has the color %x", x, j, p.at(x, j));
    for (int i = x; i < x + w - 1; i++) CHECK(p.at(i, bottom) == FG || (i >= px && p.at(i, bottom) == TRACE), "the axis at (%d, %d) has the color %x", i, bottom, p.at(i, bottom));
  }
  if (shown && !texts) {
    const T lo = g.trace0.minValue(), hi = g.trace0.maxValue();
    const T dlo = *std::min_element(d.begin(), d.begin() + shown), dhi = *std::max_element(d.begin(), d.begin() + shown);
    CHECK(lo <= dlo && hi >= dhi, "the range %.9g to %.9g doesn't have the samples from %.9g to %.9g", (double) lo, (double) hi, (double) dlo, (double) dhi);
    CHECK((lo == dlo || lo == T(0)) && (hi == dhi || hi == T(0)), "the range %.9g to %.9g is wider than the samples from %.9g to %.9g and zero", (double) lo, (double) hi, (double) dlo, (double) dhi);
    if (src.autoscale_y && dlo >= T(0)) CHECK(lo == dlo && hi == dhi, "autoscaled to %.9g to %.9g, of samples from %.9g to %.9g", (double) lo, (double) hi, (double) dlo, (double) dhi);
    if (!src.autoscale_y && dlo >= T(0)) CHECK(lo == T(0) && hi == dhi, "scaled to %.9g to %.9g, of samples from %.9g to %.9g", (double) lo, (double) hi, (double) dlo, (double) dhi);
    for (int i = 0; i < pw + 1 && px + i < x + w; i++) {
      std::vector<int> ys;
      for (int j = y; j < y + h; j++) if (p.at(px + i, j) == TRACE) ys.push_back(j);
      if ((size_t) i >= shown) {  CHECK(ys.empty(), "column %d of %zu samples has a point at %d", i, shown, ys[0]);  continue;  }
      const double want = hi == lo ? 0 : ((double) d[(size_t) i] - (double) lo) / ((double) hi - (double) lo) * ph;
      bool ok = false;
      for (int v : ys) ok |= fabs((bottom - v) - want) <= 1.001L;
      CHECK(ok, "sample %d of %.9g, in the range of %.9g to %.9g, isn't at its height of %.3g in column %d (%zu points%s%d)", i, (double) d[(size_t) i], (double) lo, (double) hi, want, px + i, ys.size(), ys.empty() ? "" : ", at ", ys.empty() ? 0 : bottom - ys[0]);
      const bool curve = WORDS && src.draw_curve;
      if (!curve) CHECK(ys.size() == 1, "sample %d has %zu points", i, ys.size());
      if (hi != lo && d[(size_t) i] == lo) CHECK(ys.back() == bottom, "the least sample isn't on the axis, but %d over it", bottom - ys.back());
    }
    if (pw > 3 && ph > 3 && shown > 2) nontrivial();
  }
  else if (!texts) {
    for (int i = x; i < x + w; i++) for (int j = y; j < y + h; j++) CHECK(p.at(i, j) == BG || p.at(i, j) == FG, "an empty graph has the color %x at (%d, %d)", p.at(i, j), i, j);
  }
  if (shown && !texts && WORDS && src.draw_grid && src.major_grid_x && !src.major_grid_y) {
    /* Upright grid lines, in the distance of the grid, and moving with the data if they aren't locked. */
    int lines = 0;
    for (int i = 0; i < pw; i++) {
      bool some = false, all = true;
      for (int j = y + 1; j < y + 1 + ph - 1; j++) {
        some |= p.at(px + i, j) == GRID;
        all &= p.at(px + i, j) == GRID || p.at(px + i, j) == TRACE;
      }
      if (!some) continue;
      lines++;
      CHECK(all, "the grid line in column %d has gaps", i);
      const uint32_t pos = (uint32_t) i + (src.grid_lock_x ? 0 : src.offset_x % src.major_grid_x);
      CHECK(pos % src.major_grid_x == 0, "a grid line in column %d, with the offset %u and a grid of %u%s", i, src.offset_x, (unsigned) src.major_grid_x, src.grid_lock_x ? " (locked)" : "");
    }
    if (ph > 6 && !src.draw_curve) {
      const int want = pw / src.major_grid_x;
      CHECK(lines >= want - 1, "%d grid lines in %d columns with a grid of %u", lines, pw, (unsigned) src.major_grid_x);
      label("grid");
    }
  }
  if (accent) label("accented");
}

TARGET_F(I04, words, 5000, 150000, F_LEAK) {  graph<uint32_t>(s);  }
TARGET_F(I04, floats, 5000, 150000, F_LEAK) {  graph<float>(s);  }

/*******************************************************************************
* I05
*******************************************************************************/
TARGET_F(I05, progress, 4000, 70000, F_LEAK) {
  const unsigned wide_pic = s.weighted({90, 5, 5});   // Some are larger than 255 pixels.
  Pic p(6 + (int) s.u(wide_pic == 1 ? 330 : 90), 6 + (int) s.u(wide_pic == 2 ? 330 : 80));
  UIGfxWrapper ui(p.i.get());
  ui.fg_color = FG;
  ui.bg_color = BG;
  const bool vert = s.b(50);
  const int w = 4 + (int) s.u((uint32_t) p.w - 3), h = 4 + (int) s.u((uint32_t) p.h - 3);
  const int x = (int) s.u((uint32_t) (p.w - w) + 1), y = (int) s.u((uint32_t) (p.h - h) + 1);
  note("%s bar of %d by %d at (%d, %d) of %d by %d", vert ? "upright" : "level", w, h, x, y, p.w, p.h);
  unsigned n = 0;
  const int len = (vert ? h : w) - 2, wide = vert ? w : h;
  while (more(s, n, 6, 2)) {
    const float v = s.b(25) ? (s.b(50) ? 0.0f : 1.0f) : s.b(50) ? (float) s.u(101) / 100 : (float) s.u(10000) / 9999;
    const bool val = s.b(20), base = s.b(50);
    if (vert) ui.drawProgressBarV((PixUInt) x, (PixUInt) y, (PixUInt) w, (PixUInt) h, TRACE, base, val, v);
    else ui.drawProgressBarH((PixUInt) x, (PixUInt) y, (PixUInt) w, (PixUInt) h, TRACE, base, val, v);
    note("%.4f%s%s", (double) v, val ? ", with its value" : "", base ? ", cleared" : "");
    if (val) {  if (w < 34 || h < 16 || vert) return;  p.outside(x, y, w, h, "a bar with its value");  continue;  }
    p.outside(x, y, w, h, "a bar");
    /* Away from the rounded corners, it's full up to its value. */
    for (int a = 5; a < wide - 5; a++) {
      int full = 0;
      for (int i = 0; i < len; i++) {
        const uint32_t c = vert ? p.at(x + a, y + h - 2 - i) : p.at(x + 1 + i, y + a);
        CHECK(c == TRACE || c == BG, "the color at %d of %d is %x", i, len, c);
        if (c == TRACE) {
          CHECK(full == i, "a bar at %.4f of %d is full at %d, but not before", (double) v, len, i);
          full++;
        }
      }
      CHECK(fabs(full - (double) v * len) < 1.01L && (v != 0 || full == 0) && (v != 1 || full == len), "a bar of %d at %.4f is full up to %d", len, (double) v, full);
      const uint32_t e0 = vert ? p.at(x + a, y) : p.at(x, y + a), e1 = vert ? p.at(x + a, y + h - 1) : p.at(x + w - 1, y + a);
      CHECK(e0 == FG && e1 == FG, "the outline has the colors %x and %x", e0, e1);
      if (len > 6 && n > 1) nontrivial();
    }
  }
}

TARGET_F(I05, zoom, 4000, 70000, F_LEAK) {
  const unsigned wide_pic = s.weighted({90, 5, 5});   // Some are larger than 255 pixels.
  Pic p(6 + (int) s.u(wide_pic == 1 ? 330 : 90), 6 + (int) s.u(wide_pic == 2 ? 330 : 80));
  UIGfxWrapper ui(p.i.get());
  ui.fg_color = FG;
  ui.bg_color = BG;
  const bool vert = s.b(50);
  const int w = 4 + (int) s.u((uint32_t) p.w - 3), h = 4 + (int) s.u((uint32_t) p.h - 3);
  const int x = (int) s.u((uint32_t) (p.w - w) + 1), y = (int) s.u((uint32_t) (p.h - h) + 1);
  note("%s zoom bar of %d by %d at (%d, %d) of %d by %d", vert ? "upright" : "level", w, h, x, y, p.w, p.h);
  unsigned n = 0;
  const int len = (vert ? h : w) - 2, wide = vert ? w : h, r = std::min(w, h) / 5;
  while (more(s, n, 6, 2)) {
    float a = s.b(20) ? 0 : (float) s.u(101) / 100, b = s.b(20) ? 1 : (float) s.u(101) / 100;
    if (a > b) std::swap(a, b);
    if (vert) ui.drawZoomBarV((PixUInt) x, (PixUInt) y, (PixUInt) w, (PixUInt) h, TRACE, false, b, a);
    else ui.drawZoomBarH((PixUInt) x, (PixUInt) y, (PixUInt) w, (PixUInt) h, TRACE, false, a, b);
    note("from %.2f to %.2f", (double) a, (double) b);
    p.outside(x, y, w, h, "a zoom bar");
    for (int k = r + 1; k < wide - r - 1; k++) {
      int first = -1, last = -1;
      for (int i = 0; i < len; i++) {
        const uint32_t c = vert ? p.at(x + k, y + h - 2 - i) : p.at(x + 1 + i, y + k);
        CHECK(c == TRACE || c == BG, "the color at %d of %d is %x", i, len, c);
        if (c != TRACE) continue;
        CHECK(first < 0 || last == i - 1, "a zoom bar from %.2f to %.2f has a gap at %d of %d", (double) a, (double) b, i, len);
        if (first < 0) first = i;
        last = i;
      }
      const double want0 = (double) a * len, want1 = (double) b * len;
      if (want1 - want0 >= 2.01L) CHECK(first >= 0 && fabs(first - want0) < 2.01L && fabs(last + 1 - want1) < 2.01L, "a zoom bar of %d from %.2f to %.2f shows %d to %d", len, (double) a, (double) b, first, last);
      else CHECK(last - first <= 3, "a zoom bar of %d from %.2f to %.2f shows %d to %d", len, (double) a, (double) b, first, last);
      if (len > 6 && want1 - want0 > 2) nontrivial();
    }
  }
}

TARGET_F(I05, compass, 4000, 70000, F_LEAK) {
  const unsigned wide_pic = s.weighted({90, 5, 5});   // Some are larger than 255 pixels.
  Pic p(6 + (int) s.u(wide_pic == 1 ? 330 : 90), 6 + (int) s.u(wide_pic == 2 ? 330 : 80));
  UIGfxWrapper ui(p.i.get());
  ui.fg_color = FG;
  ui.bg_color = BG;
  const int w = 6 + (int) s.u((uint32_t) p.w - 5), h = 6 + (int) s.u((uint32_t) p.h - 5);
  const int x = (int) s.u((uint32_t) (p.w - w) + 1), y = (int) s.u((uint32_t) (p.h - h) + 1);
  const uint32_t RED = p.i->convertColor(0x000000FF), WHITE = p.i->convertColor(0x00FFFFFF);
  unsigned n = 0;
  while (more(s, n, 5, 2)) {
    const float v = s.b(50) ? (float) ((int) s.u(1440) - 720) : (float) s.u(36000) / 100;
    note("compass of %d by %d at (%d, %d) of %d by %d: %.2f", w, h, x, y, p.w, p.h, (double) v);
    ui.drawCompass((PixUInt) x, (PixUInt) y, (PixUInt) w, (PixUInt) h, s.b(50), s.b(50), v, 0);
    p.outside(x, y, w, h, "a compass");
    const int ox = x + w / 2, oy = y + h / 2;
    const double ext = std::min(w, h) / 2 - 1, rad = (double) v * 3.14159265358979323846L / 180;
    const double tx = cos(rad) * ext, ty = sin(rad) * ext;
    bool north = false, south = false;
    for (int i = -1; i <= 1; i++) for (int j = -1; j <= 1; j++) {
      auto at = [&](double cx, double cy) {
        const int px = (int) lround(cx) + i, py = (int) lround(cy) + j;
        return (px < 0 || py < 0 || px >= p.w || py >= p.h) ? BG : p.at(px, py);
      };
      north |= at(ox + tx, oy + ty) == RED;
      south |= at(ox - tx, oy - ty) == WHITE;
    }
    CHECK(north && south, "the needle of a compass at %.2f degrees doesn't reach (%.1f, %.1f) and (%.1f, %.1f)", (double) v, ox + tx, oy + ty, ox - tx, oy - ty);
    /* Both halves are straight, and point away from each other. */
    for (int i = x; i < x + w; i++) for (int j = y; j < y + h; j++) {
      const uint32_t c = p.at(i, j);
      if (c != RED && c != WHITE) continue;
      const double dx = i - ox, dy = j - oy, along = (dx * tx + dy * ty) / ext, off = fabs(dx * ty - dy * tx) / ext;
      CHECK(off < 1.6L && (c == RED ? along > -1.1L : along < 1.1L), "the needle of a compass at %.2f degrees has the color %x at (%d, %d)", (double) v, c, i, j);
    }
    if (ext > 4) nontrivial();
  }
}

/*******************************************************************************
* What was repaired
*******************************************************************************/
REGRESSION(I04, no_data) {
  for (int k = 0; k < 2; k++) {
    Pic p(20, 20);
    ImageGraph<uint32_t> g(k ? 2 : 10, 10);
    std::unique_ptr<uint32_t[]> one(new uint32_t[1]{5});
    g.trace0.enabled = true;
    g.trace0.show_value = true;
    if (k) {  g.trace0.dataset = one.get();  g.trace0.data_len = 1;  }
    g.drawGraph(p.i.get(), 0, 0);
    ImageGraph<float> f(10, 10);
    f.trace0.enabled = f.trace0.show_value = true;
    f.drawGraph(p.i.get(), 0, 0);
  }
}
REGRESSION(I04, minor_grid) {
  Pic p(20, 20);
  uint32_t d[4] = {1, 2, 3, 4};
  ImageGraph<uint32_t> g(16, 16);
  g.trace0.enabled = g.trace0.draw_grid = true;
  g.trace0.minor_grid_x = g.trace0.minor_grid_y = 2;
  g.trace0.dataset = d;
  g.trace0.data_len = 4;
  g.drawGraph(p.i.get(), 0, 0);
}
REGRESSION(I04, least_float) {
  Pic p(20, 20);
  float d[2] = {0, 4};
  ImageGraph<float> g(10, 10);
  g.trace0.enabled = true;
  g.trace0.dataset = d;
  g.trace0.data_len = 2;
  g.drawGraph(p.i.get(), 3, 3);
  p.outside(3, 3, 10, 10, "a graph");
}
REGRESSION(I05, erased) {
  Pic p(40, 40);
  UIGfxWrapper ui(p.i.get());
  ui.fg_color = FG;
  ui.bg_color = BG;
  ui.drawProgressBarH(5, 5, 20, 12, TRACE, false, false, 0.5f);
  p.outside(5, 5, 20, 12, "a bar");
  p.keep();
  ui.drawProgressBarV(5, 20, 12, 14, TRACE, false, false, 0.1f);
  p.outside(5, 20, 12, 14, "a bar");
}
REGRESSION(I05, zoom_below) {
  Pic p(40, 40);
  UIGfxWrapper ui(p.i.get());
  ui.drawZoomBarV(5, 5, 12, 20, TRACE, false, 0.5f, 0.0f);
  p.outside(5, 5, 12, 20, "a zoom bar");
}
