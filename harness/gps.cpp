/*
* P05: a stream of NMEA sentences gives the location it states.
*/
#include "pbt.h"
#include "CppPotpourri.h"
#include "StringBuilder.h"
#include "Pipes/BufferAccepter/GPSWrapper/GPSWrapper.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#include <map>
#include <memory>
#include <vector>
using namespace pbt;

static std::string flat(StringBuilder* b) {
  const int n = b->length();
  if (n <= 0) return std::string();
  std::string r((size_t) n, '\0');
  b->copyToBuffer((uint8_t*) &r[0], (uint32_t) n);
  return r;
}

namespace {
enum Kind {  REJECT, RMC, GGA, GSA, GLL, GST, GSV, VTG  };
struct Effect {
  Kind kind = REJECT;
  double lat = 0, lon = 0, hdop = 0, vdop = 0, alt = 0, bearing = 0, kph = 0;    // NAN: it isn't stated
  int64_t when = -1;
  int sats = 0;
};
struct Frame {
  double lat = 0, lon = 0, hdop = 0, vdop = 0, alt = 0, bearing = 0, speed = 0;
  int64_t when = 0;
  int sats = 0;
};
struct Model {
  std::string acc;
  std::map<std::string, Effect> known;
  unsigned parsed = 0, rejected = 0;
  Frame f;
  std::vector<Frame> calls;
  void line(const std::string& l) {
    auto it = known.find(l);
    Effect e;
    if (it != known.end()) e = it->second;
    else if (checks(l)) discard();     // A chance sentence. The harness has no opinion.
    if (e.kind == REJECT) {  rejected++;  return;  }
    parsed++;
    switch (e.kind) {
      case RMC:  f.lat = e.lat;  f.lon = e.lon;  if (e.when >= 0) f.when = e.when;  break;
      case GGA:  f.sats = e.sats;  if (!isnan(e.alt)) f.alt = e.alt;  break;
      case GSA:  f.hdop = e.hdop;  f.vdop = e.vdop;  break;
      case VTG:  f.bearing = e.bearing;  if (!isnan(e.kph)) f.speed = e.kph * 1000000 / 3600;  calls.push_back(f);  break;
      default:   break;
    }
  }
  static bool checks(const std::string& l) {
    if (l.empty() || l[0] != '$') return false;
    /* A return ends the line: one ahead of the '*' means that there is no checksum. */
    size_t star = 1;
    while (star < l.size() && l[star] != '*' && l[star] >= 32 && l[star] < 127) star++;
    if (star == l.size()) return false;
    if (l[star] != '*') return l[star] == '\r';
    if (star + 2 >= l.size()) return false;
    uint8_t x = 0;
    for (size_t i = 1; i < star; i++) x ^= (uint8_t) l[i];
    char* end = nullptr;
    const std::string h = l.substr(star + 1, 2);
    const unsigned long v = strtoul(h.c_str(), &end, 16);
    return isxdigit((unsigned char) h[0]) && isxdigit((unsigned char) h[1]) && v == x;
  }
  void push(const std::string& d) {
    acc += d;
    if (acc.size() > 140) {
      std::string rest = acc;
      std::vector<std::string> lines;
      for (size_t nl; (nl = rest.find('\n')) != std::string::npos; rest.erase(0, nl + 1)) if (nl) lines.push_back(rest.substr(0, nl));
      if (!lines.empty() || !rest.empty()) {
        for (auto& l : lines) line(l);
        acc = rest;
      }
    }
    if (acc.size() > 1024) acc.erase(0, acc.size() - 1024);
  }
};

static Model* model = nullptr;
static unsigned called = 0;

static bool near(double a, double b, double tol) {  return (isnan(a) && isnan(b)) || fabs(a - b) <= tol;  }
static void compare(const LocationFrame& x, const Frame& f, const char* where) {
  CHECK(near(x.lat, f.lat, 5e-5) && near(x.lon, f.lon, 5e-5), "%s: the location is %.6f, %.6f, of %.6f, %.6f", where, x.lat, x.lon, f.lat, f.lon);
  CHECK(near(x.dop_horiz, f.hdop, 1e-6 * (1 + fabs(f.hdop))) && near(x.dop_vert, f.vdop, 1e-6 * (1 + fabs(f.vdop))), "%s: the DOP is %f, %f, of %f, %f", where, x.dop_horiz, x.dop_vert, f.hdop, f.vdop);
  CHECK((int64_t) x.timestamp == f.when, "%s: the time is %lld, of %lld", where, (long long) x.timestamp, (long long) f.when);
  CHECK(near(x.mag_bearing, f.bearing, 1e-4), "%s: the bearing is %f, of %f", where, (double) x.mag_bearing, f.bearing);
  CHECK(near((double) (int32_t) x.altitude, f.alt, 1.5 + 1e-6 * fabs(f.alt)), "%s: the altitude is %d mm, of %.1f", where, (int32_t) x.altitude, f.alt);
  CHECK(near((double) x.speed, f.speed, 1.5 + 1e-6 * fabs(f.speed)), "%s: the speed is %u mm/s, of %.1f", where, x.speed, f.speed);
  CHECK(x.sat_count == f.sats, "%s: %u satellites, of %d", where, x.sat_count, f.sats);
}
/* The calls of one push are compared one by one, once the model has seen the same push. */
static std::vector<LocationFrame> seen;
static int8_t on_location(LocationFrame* f) {
  called++;
  seen.push_back(*f);
  return 0;
}

/* Fields. */
struct Gen {
  Src& s;
  std::string body;
  bool ok = true;
  int bad_at = -1, at = 0;      // Which field is to be wrong.
  Gen(Src& x) : s(x) {}
  void raw(const std::string& f) {  if (!body.empty()) body += ',';  body += f;  at++;  }
  static double val(const std::string& t) {  return t.empty() ? NAN : atof(t.c_str());  }
  std::string digits(unsigned n) {  std::string r;  while (n--) r += (char) ('0' + s.u(10));  return r;  }
  /* A number of so many digits before the point, and up to so many after. */
  double num(unsigned ip, unsigned fp, unsigned empty = 10, bool neg = false) {
    if (bad_at == at) {
      ok = false;
      const char* const wrong[] = {"1x2", "abc", "1-2", "--3", "99999999999", ".", "-", "1..2", "1 2", "0x10", "1e5", "2147483648", "2147483649", "4294967297", "-2147483648", "1 "};
      raw(wrong[s.u(16)]);
      return NAN;
    }
    if (s.b(empty)) {  raw("");  return NAN;  }
    std::string t = digits(1 + s.u(ip));
    if (fp && s.b(80)) {
      t += '.';
      const unsigned k = s.b(10) ? s.u(18) : s.u(fp + 1);
      t += digits(k);
    }
    std::string pre;
    if (s.b(5)) pre += std::string(1 + s.u(2), ' ');
    const bool minus = neg && s.b(30);
    if (minus) pre += '-';
    else if (s.b(5)) pre += '+';
    raw(pre + t);
    return (minus ? -1 : 1) * atof(t.c_str());
  }
  double coord(unsigned degs, const char* dirs) {
    if (bad_at == at) {
      ok = false;
      raw(s.b() ? "12a4.5" : "4807.0.38");
      raw(std::string(1, dirs[s.u(2)]));
      return NAN;
    }
    if (bad_at == at + 1) {
      ok = false;
      raw("1234.5");
      raw(std::string(1, s.pick({'X', 'n', '1', '-', ' '})));
      return NAN;
    }
    if (s.b(8)) {  raw("");  raw("");  return NAN;  }
    const unsigned d = s.u(degs), m = s.u(60);
    char t[40];
    snprintf(t, sizeof(t), degs > 100 ? "%03u%02u" : "%02u%02u", d, m);
    std::string x = t;
    if (s.b(90)) x += "." + digits(s.b(10) ? s.u(14) : 1 + s.u(5));
    const std::string mins = x.substr(degs > 100 ? 3 : 2);
    const unsigned w = s.u(2);
    raw(x);
    raw(std::string(1, dirs[w]));
    return (w ? -1 : 1) * (d + atof(mins.c_str()) / 60);
  }
  int whole(int lo, int hi) {
    if (bad_at == at) {  ok = false;  raw(s.pick({"1x", "x", "1.5", "--1"}));  return 0;  }
    if (s.b(10)) {  raw("");  return 0;  }
    const int v = (int) s.i(lo, hi);
    char t[24];
    snprintf(t, sizeof(t), s.b(50) ? "%02d" : "%d", v);
    raw(t);
    return v;
  }
  void chr(const char* which) {  raw(s.b(8) ? "" : std::string(1, which[s.u((uint32_t) strlen(which))]));  }
  void must(char c) {
    if (bad_at == at) {  ok = false;  raw(s.b() ? "" : std::string(1, (char) (c + 1)));  return;  }
    raw(std::string(1, c));
  }
  /* hhmmss.ss */
  int64_t time() {
    if (bad_at == at) {  ok = false;  raw(s.pick({"12345", "1234x6", "x", "12:34:56"}));  return -1;  }
    if (s.b(8)) {  raw("");  return -1;  }
    const unsigned h = s.u(24), m = s.u(60), x = s.u(60);
    char t[16];
    snprintf(t, sizeof(t), "%02u%02u%02u", h, m, x);
    raw(std::string(t) + (s.b(50) ? "." + digits(s.u(5)) : ""));
    return h * 3600 + m * 60 + x;
  }
  /* ddmmyy, as days since 1970 */
  int64_t date() {
    if (bad_at == at) {  ok = false;  raw(s.pick({"12345", "1x0120", "x"}));  return -1;  }
    if (s.b(8)) {  raw("");  return -1;  }
    static const int ML[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    const unsigned y = s.u(38), m = s.u(12);   // Two digits; time_t has 32 bits in this build, and ends in 2038.
    const bool leap = (y % 4 == 0);
    const unsigned d = 1 + s.u((uint32_t) (ML[m] + ((m == 1 && leap) ? 1 : 0)));
    char t[16];
    snprintf(t, sizeof(t), "%02u%02u%02u", d, m + 1, y);
    raw(t);
    int64_t days = 10957 + 365 * (int64_t) y + (y + 3) / 4;
    for (unsigned k = 0; k < m; k++) days += ML[k] + ((k == 1 && leap) ? 1 : 0);
    return days + d - 1;
  }
  /* Possibly cut before the given field. */
  void cut(int field) {
    if (bad_at != at || field != at) return;
  }
};

static std::string finish(Src& s, const std::string& body) {
  uint8_t x = 0;
  for (char c : body) x ^= (uint8_t) c;
  char t[8];
  snprintf(t, sizeof(t), s.b(80) ? "*%02X" : "*%02x", x);
  return "$" + body + t;
}

/* One line, without its newline. */
static std::string sentence(Src& s, Model& m) {
  const Kind k = s.pick({RMC, RMC, GGA, GSA, GLL, GST, GSV, VTG, VTG});
  static const char* const NAMES[] = {"", "RMC", "GGA", "GSA", "GLL", "GST", "GSV", "VTG"};
  static const int FIELDS[] = {0, 12, 15, 18, 7, 9, 4, 9};
  Gen g(s);
  Effect e;
  e.kind = k;
  std::string talker = s.b(70) ? std::string(s.pick({"GP", "GN", "GL", "GA", "BD"})) : std::string(1, (char) ('A' + s.u(26))) + (char) ('A' + s.u(26));
  g.raw(talker + NAMES[k]);
  if (s.b(12)) g.bad_at = 1 + (int) s.u(k == GSV ? 19 : (uint32_t) FIELDS[k] - 1);
  const char* how = "a";
  switch (k) {
    case RMC: {
        const int64_t t = g.time();
        g.chr("AV");
        e.lat = g.coord(90, "NS");
        e.lon = g.coord(180, "EW");
        g.num(3, 2);
        g.num(3, 2);
        const int64_t d = g.date();
        e.when = (t >= 0 && d >= 0) ? d * 86400 + t : -1;
        if (s.b(80)) {  g.num(3, 1);  g.chr("E");  }
        else {  g.raw("");  g.raw("");  }
      } break;
    case GGA: {
        g.time();
        g.coord(90, "NS");
        g.coord(180, "EW");
        g.whole(0, 8);
        e.sats = g.whole(0, 40);
        g.num(2, 2);
        e.alt = g.num(5, 2, 10, true) * 1000;
        if (s.b(90)) g.raw("M");
        else {  g.raw(s.b() ? "" : "F");  e.alt = NAN;  }
        g.num(2, 1, 10, true);
        g.chr("M");
        g.whole(0, 30);
        g.raw(s.b() ? "" : "0123");
      } break;
    case GSA:
      g.chr("AM");
      g.whole(1, 3);
      for (int i = 0; i < 12; i++) {  if (s.b(50)) g.whole(1, 40);  else g.raw("");  }
      g.num(2, 2);
      e.hdop = g.num(2, 2);
      e.vdop = g.num(2, 2);
      break;
    case GLL:
      g.coord(90, "NS");
      g.coord(180, "EW");
      g.time();
      g.chr("AV");
      if (s.b()) g.chr("ADE");
      break;
    case GST:
      g.time();
      for (int i = 0; i < 7; i++) g.num(3, 3);
      break;
    case GSV:
      g.whole(1, 4);
      g.whole(1, 4);
      g.whole(0, 16);
      for (int i = 0, n = 4 * (int) s.u(5); i < n; i++) g.whole(0, 359);
      break;
    default: {
        g.num(3, 2);
        g.must('T');
        e.bearing = g.num(3, 2);
        g.must('M');
        g.num(3, 3);
        g.must('N');
        e.kph = g.num(3, 3);
        g.must('K');
        if (s.b()) g.chr("ADEN");
      } break;
  }
  std::string body = g.body;
  if (g.bad_at >= 0 && g.ok) {  // No field was at that place, or it can hold anything.
    g.bad_at = -1;
  }
  if (!g.ok) {  e.kind = REJECT;  how = "a wrong";  }
  else if (s.b(5)) {            // Too few fields.
    const int keep = (int) s.u((uint32_t) FIELDS[k] - 1);
    size_t p = 0;
    for (int i = 0; i <= keep && p != std::string::npos; i++) p = body.find(',', p + (i ? 1 : 0));
    if (p != std::string::npos) {  body.resize(p);  e.kind = REJECT;  how = "a short";  if (k == GSV && keep >= 3) discard();  }
  }
  else if (s.b(5)) {            // A type that isn't known.
    body.replace(2, 3, s.pick({"RMB", "ZDA", "XXX", "rmc", "GSU"}));
    e.kind = REJECT;
    how = "an unknown";
  }
  else if (s.b(4)) {            // A byte that has no place in a sentence.
    char c = (char) (s.b(70) ? 1 + s.u(31) : 127 + s.u(129));
    if (c == '\n' || c == '\r') c = '\t';
    body.insert(3 + s.u((uint32_t) body.size() - 2), 1, c);
    e.kind = REJECT;
    how = "an unprintable";
  }
  else if (k == GST && s.b(20) && body.back() != ',') {   // At the limit of the length: more decimals change nothing.
    if (body.find('.', body.rfind(',')) == std::string::npos) body += '.';
    while (body.size() < 134) body += '0';
    body.append(s.u(8), '0');
    std::string r = finish(s, body);
    if (s.b(60)) r += '\r';
    if (r.size() > 143) {  e.kind = REJECT;  how = "an overlong";  }
    m.known[r] = e;
    note("%s %s: %s", how, NAMES[k], quote(r).c_str());
    return r;
  }
  if (body.size() > 138) discard();
  std::string r = finish(s, body);
  if (e.kind != REJECT && s.b(4)) {   // The checksum may be missing.
    r.resize(r.size() - 3);
    r += '\r';
  }
  else if (s.b(8)) {
    /* Damage. */
    const size_t p = s.u((uint32_t) r.size());
    r[p] = (char) (s.b() ? r[p] ^ (1 << s.u(7)) : 32 + s.u(95));
    if (r.find('\n') != std::string::npos || r.find('\0') != std::string::npos) discard();
    if (Model::checks(r) && !m.known.count(r)) {
      /* As it was, or another writing of it. */
      if (p == r.size() - 1 || p == r.size() - 2) m.known[r] = e;
      else if (r != finish(s, body)) discard();
    }
    else if (!m.known.count(r)) {  m.known[r] = Effect();  how = "a damaged";  e.kind = REJECT;  }
    if (r.find('*') != std::string::npos && s.b(80)) {  const Effect x = m.known.count(r) ? m.known[r] : e;  r += '\r';  m.known[r] = x;  }
    note("%s %s: %s", how, NAMES[k], quote(r).c_str());
    return r;
  }
  else if (s.b(80)) r += '\r';
  m.known[r] = e;
  note("%s %s: %s", how, NAMES[k], quote(r).c_str());
  return r;
}

static std::string noise(Src& s) {
  std::string r;
  for (uint32_t n = s.size(s.b(5) ? 1500 : 60); n; n--) r += s.b(8) ? s.pick({'$', '*', ',', '\r', '\t'}) : (char) (1 + s.u(255));
  for (char& c : r) if (c == '\n') c = ' ';
  return r;
}
}  // namespace

TARGET_F(P05, stream, 3000, 120000, F_LEAK) {
  setenv("TZ", s.pick({"UTC0", "EST5EDT", "CET-1CEST", "NPT-5:45"}), 1);
  tzset();
  GPSWrapper g;
  Model m;
  model = &m;
  called = 0;
  seen.clear();
  CHECK(0 == g.init(), "init()");
  const bool cb = s.b(95);
  if (cb) g.setCallback(on_location);
  std::string stream;
  unsigned n = 0, lines = 0;
  while (more(s, n, 40, 14)) {
    switch (s.weighted({10, 1, 1})) {
      case 0:  stream += sentence(s, m) + "\n";  lines++;  break;
      case 1:  stream += noise(s) + (s.b(80) ? "\n" : "");  break;
      default: stream += std::string(1 + s.u(3), '\n');  break;
    }
  }
  if (s.b(70)) stream += std::string(150, 'x') + "\n";
  size_t at = 0, compared = 0;
  const int style = (int) s.u(4);
  while (at < stream.size()) {
    size_t k;
    if (style == 0) k = 1 + s.size(40);
    else if (style == 1) k = 1 + s.size(2500);
    else {              // As lines come from a port.
      size_t nl = stream.find('\n', at);
      k = (nl == std::string::npos ? stream.size() : nl + 1) - at;
      if (style == 3 && s.b(30)) k = 1 + s.u((uint32_t) k);
    }
    if (k > stream.size() - at) k = stream.size() - at;
    const std::string d = stream.substr(at, k);
    at += k;
    const int32_t room = m.acc.size() <= 1024 ? (int32_t) (1024 - m.acc.size()) : 0;
    CHECK(g.bufferAvailable() == room, "bufferAvailable() is %d, of %d", g.bufferAvailable(), room);
    StringBuilder b((uint8_t*) d.data(), (uint32_t) d.size());
    const int8_t ret = g.pushBuffer(&b);
    CHECK(ret == 1 && b.isEmpty(), "pushBuffer() returned %d and left %d bytes", ret, b.length());
    m.push(d);
    note("%zu bytes: %u parsed, %u rejected", d.size(), m.parsed, m.rejected);
    CHECK(g.sentencesParsed() == m.parsed && g.sentencesRejected() == m.rejected, "%u sentences were parsed and %u rejected, of %u and %u", g.sentencesParsed(), g.sentencesRejected(), m.parsed, m.rejected);
    if (cb) {
      CHECK(called == m.calls.size(), "%u calls, of %zu", called, m.calls.size());
      for (; compared < seen.size(); compared++) compare(seen[compared], m.calls[compared], "in the callback");
    }
    compare(g._loc_frame, m.f, "after a push");
  }
  StringBuilder out;
  g.printDebug(&out);
  const std::string t = flat(&out);
  char want[80];
  snprintf(want, sizeof(want), "Sat count: %d\n", m.f.sats);
  CHECK(t.find(want) != std::string::npos, "printDebug() has not '%s': %s", want, quote(t).c_str());
  if (m.calls.size() > 1) label("locations");
  if (m.rejected) label("rejected lines");
  if (m.parsed > 3) nontrivial();
}

/* Whatever came, later sentences are understood. */
TARGET_F(P05, any_bytes, 2000, 80000, F_LEAK) {
  GPSWrapper g;
  seen.clear();
  g.setCallback(on_location);
  size_t total = 0;
  for (unsigned k = 0, n = 1 + s.size(6); k < n; k++) {
    std::string d;
    if (s.b(40)) {
      Model m;
      d = sentence(s, m);
      for (unsigned e = s.size(4); e; e--) d[s.u((uint32_t) d.size())] = (char) s.pick({(char) s.u(256), ',', '*', '$', '\0', '9', '.'});
      if (s.b()) {      // With a right checksum, so that it is looked into.
        const size_t star = d.find('*');
        if (star != std::string::npos && d[0] == '$') {  d = finish(s, d.substr(1, star - 1)) + "\r";  }
      }
      d += "\n";
    }
    else {
      for (uint32_t c = s.size(s.b(10) ? 3000 : 200); c; c--) d += (char) s.u(256);
    }
    total += d.size();
    StringBuilder b((uint8_t*) d.data(), (uint32_t) d.size());
    CHECK(1 == g.pushBuffer(&b), "pushBuffer()");
    CHECK(g.bufferAvailable() >= 0 && g.bufferAvailable() <= 1024, "bufferAvailable() is %d", g.bufferAvailable());
  }
  const unsigned was = g.sentencesParsed();
  unsigned rounds = 0;
  while (g.sentencesParsed() < was + 3) {
    CHECK(rounds++ < 8, "no sentence is understood any more");
    const std::string d = "$GPVTG,054.7,T,034.4,M,005.5,N,010.2,K*48\r\n";
    for (int i = 0; i < 6; i++) {
      StringBuilder b((uint8_t*) d.data(), (uint32_t) d.size());
      g.pushBuffer(&b);
    }
  }
  CHECK(near(g._loc_frame.mag_bearing, 34.4, 1e-4) && near(g._loc_frame.speed, 2833.3, 2), "the location after noise");
  if (total > 40) nontrivial();
}

/* Distances. */
TARGET(P05, distance, 10000, 400000) {
  auto pick = [&](double range) -> double {
    switch (s.u(4)) {
      case 0:  return range * ((int) s.u(5) - 2) / 2;
      case 1:  return ((double) s.i(-1000, 1000)) / 1000;
      default: return range * ((double) s.i(-1000000, 1000000)) / 1000000;
    }
  };
  LocationFrame a, b;
  a.lat = pick(90);
  a.lon = pick(180);
  if (s.b(20)) {  b.lat = -a.lat;  b.lon = a.lon + (a.lon > 0 ? -180 : 180);  }
  else if (s.b(20)) {  b.lat = std::min<double>(90, a.lat + s.u(1000) * 1e-5);  b.lon = a.lon + s.u(1000) * 1e-5;  }
  else {  b.lat = pick(90);  b.lon = pick(180);  }
  const long double R = 6371009.0L, D = 3.14159265358979323846L / 180;
  long double v[2][3];
  for (int i = 0; i < 2; i++) {
    const long double la = (i ? b.lat : a.lat) * D, lo = (i ? b.lon : a.lon) * D;
    v[i][0] = cosl(la) * cosl(lo);
    v[i][1] = cosl(la) * sinl(lo);
    v[i][2] = sinl(la);
  }
  const long double cx = v[0][1] * v[1][2] - v[0][2] * v[1][1], cy = v[0][2] * v[1][0] - v[0][0] * v[1][2], cz = v[0][0] * v[1][1] - v[0][1] * v[1][0];
  const long double want = R * atan2l(sqrtl(cx * cx + cy * cy + cz * cz), v[0][0] * v[1][0] + v[0][1] * v[1][1] + v[0][2] * v[1][2]);
  const int32_t d = GPSWrapper::haversineDistance(&a, &b), e = GPSWrapper::haversineDistance(&b, &a);
  note("(%f, %f) to (%f, %f): %d m", a.lat, a.lon, b.lat, b.lon, d);
  CHECK(fabsl((long double) d - want) <= 3 + want * 1e-6L, "the distance from (%f, %f) to (%f, %f) is %d m, of %.1Lf", a.lat, a.lon, b.lat, b.lon, d, want);
  CHECK(abs(d - e) <= 2, "%d m there, and %d m back", d, e);
  if (want > 1) nontrivial();
}
