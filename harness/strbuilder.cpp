/*
* S01: a StringBuilder is a byte string; its fragmentation is invisible to everything but the token API.
* S02: tokens, search and replacement agree with their definitions on the flat string.
*/
#include "pbt.h"
#include "StringBuilder.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include <ctype.h>
using namespace pbt;
typedef std::vector<std::string> Frags;

static std::string flat(const Frags& f) {  std::string r;  for (auto& x : f) r += x;  return r;  }

static Frags real_frags(StringBuilder& sb) {
  Frags r;
  const int N = sb.count();
  for (int i = 0; i < N; i++) {
    int len = -1;
    uint8_t* p = sb.position(i, &len);
    CHECK(nullptr != p && len >= 0, "position(%d) of %d gave ptr=%p len=%d", i, N, p, len);
    r.push_back(std::string((char*) p, (size_t) len));
  }
  return r;
}
static std::string real_bytes(StringBuilder& sb) {   // Without collapsing.
  const int L = sb.length();
  CHECK(L >= 0, "length() = %d", L);
  std::string r((size_t) L, '\0');
  std::string guard((size_t) L + 8, (char) 0x5A);
  const int n = sb.copyToBuffer((uint8_t*) &guard[0], (uint32_t) L, 0);
  CHECK(n == L, "copyToBuffer() of the whole string copied %d of %d", n, L);
  for (int k = 0; k < 8; k++) CHECK(guard[L + k] == 0x5A, "copyToBuffer() wrote past its limit");
  r.assign(guard.data(), (size_t) L);
  return r;
}
static void same(const char* what, const std::string& got, const std::string& want) {
  if (got != want) {
    size_t k = 0;
    while (k < got.size() && k < want.size() && got[k] == want[k]) k++;
    fail("%s: content differs at byte %u: got %u bytes %s, expected %u bytes %s", what, (unsigned) k, (unsigned) got.size(), quote(got).c_str(), (unsigned) want.size(), quote(want).c_str());
  }
}
static void show(const char* tag, const Frags& f) {
  if (!tracing()) return;
  std::string r;
  for (auto& x : f) {  r += quote(x, 24);  r += ' ';  }
  note("    %s = [ %s]", tag, r.c_str());
}

/* Structure is left to the implementation for some operations; content is not. */
static void resync(const char* what, StringBuilder& sb, Frags& m) {
  Frags r = real_frags(sb);
  same(what, flat(r), flat(m));
  m = r;
}
static void full_check(StringBuilder& sb, const Frags& m, const char* what) {
  const std::string F = flat(m);
  CHECK(sb.length() == (int) F.size(), "%s: length() = %d, expected %u", what, sb.length(), (unsigned) F.size());
  same(what, real_bytes(sb), F);
  CHECK(sb.isEmpty() == F.empty(), "%s: isEmpty() = %d for %u bytes", what, sb.isEmpty(), (unsigned) F.size());
  CHECK(sb.isEmpty(false) == (F.empty() || (F.size() == 1 && F[0] == 0)), "%s: isEmpty(false) = %d for %s", what, sb.isEmpty(false), quote(F).c_str());
}

static std::string gen_bytes(Src& s, uint32_t max) {
  const uint32_t n = s.size(max);
  switch (s.weighted({4, 3, 3})) {
    case 0:  return s.text(n, "ab");
    case 1:  return s.text(n, "abcXYZ 01,./%\n");
    default: return s.bytes(n);
  }
}
static std::string nonul(std::string x) {  for (char& c : x) if (0 == c) c = 'n';  return x;  }

static int cf(StringBuilder* sb, const char* fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  int r = sb->vconcatf(fmt, ap);
  va_end(ap);
  return r;
}

static void op_build(Src& s, StringBuilder* sb, Frags* m, unsigned K) {
  const unsigned a = s.u(K);
  StringBuilder& A = sb[a];
  Frags& M = m[a];
  switch (s.weighted({6, 4, 3, 3, 2, 3, 3, 3, 3})) {
    case 0: {
        std::string x = gen_bytes(s, 60);
        note("[%u].concat(%s)", a, quote(x).c_str());
        A.concat((uint8_t*) x.data(), (int) x.size());
        if (x.size()) M.push_back(x);
      }
      break;
    case 1: {
        std::string x = gen_bytes(s, 60);
        note("[%u].prepend(%s)", a, quote(x).c_str());
        A.prepend((uint8_t*) x.data(), (int) x.size());
        if (x.size()) M.insert(M.begin(), x);
      }
      break;
    case 2: {
        std::string x = nonul(gen_bytes(s, 30));
        note("[%u].concat(cstr %s)", a, quote(x).c_str());
        if (s.b()) A.concat(x.c_str()); else A.concat((char*) x.c_str());
        if (x.size()) M.push_back(x);
      }
      break;
    case 3: {
        char buf[400];
        switch (s.u(6)) {
          case 0: {  int v = (int) s.sword(32);  A.concat(v);  snprintf(buf, sizeof(buf), "%d", v);  }  break;
          case 1: {  unsigned int v = (unsigned) s.word(32);  A.concat(v);  snprintf(buf, sizeof(buf), "%u", v);  }  break;
          case 2: {  double v = s.f64();  A.concat(v);  snprintf(buf, sizeof(buf), "%f", v);  }  break;
          case 3: {  uint8_t v = (uint8_t) s.word(8);  A.concat(v);  M.push_back(std::string(1, (char) v));  note("[%u].concat(u8 %u)", a, v);  return;  }
          case 4: {  char v = (char) (1 + s.u(127));  A.concat(v);  buf[0] = v;  buf[1] = 0;  }  break;
          default: {  bool v = s.b();  A.concat(v);  snprintf(buf, sizeof(buf), "%s", v ? "T" : "F");  }  break;
        }
        note("[%u].concat(number %s)", a, buf);
        M.push_back(buf);
      }
      break;
    case 4: {
        std::string x = nonul(gen_bytes(s, 40));
        note("[%u].prepend(cstr %s)", a, quote(x).c_str());
        A.prepend(x.c_str());
        if (x.size()) M.insert(M.begin(), x);
      }
      break;
    case 5: {   // concatf
        std::string t = nonul(s.text(s.size(20), "abc d:"));
        std::string arg = nonul(s.text(s.b(10) ? 500 + s.u(700) : s.size(30), "xyz"));
        const int iv = (int) s.sword(32);
        const unsigned w = s.b(10) ? s.u(900) : s.u(12);
        std::string want;
        char* tmp = nullptr;
        int r = 0;
        std::string fmt;
        switch (s.u(5)) {
          case 4:
            fmt = t + "<%s>";
            if (0 > asprintf(&tmp, fmt.c_str(), arg.c_str())) return;
            r = s.b() ? A.concatf(fmt.c_str(), (char*) arg.c_str()) : A.concatf(fmt.c_str(), arg.c_str());
            break;
          case 0:
            fmt = t + "%s|%d";
            if (0 > asprintf(&tmp, fmt.c_str(), arg.c_str(), iv)) return;
            r = s.b() ? A.concatf(fmt.c_str(), arg.c_str(), iv) : cf(&A, fmt.c_str(), arg.c_str(), iv);
            break;
          case 1:
            fmt = "%*d%%" + t + "%08x";
            if (0 > asprintf(&tmp, fmt.c_str(), (int) w, iv, iv)) return;
            r = A.concatf(fmt.c_str(), (int) w, iv, iv);
            break;
          case 2: {
              const double d = s.f64();
              fmt = t + "%.3f %c %u";
              if (0 > asprintf(&tmp, fmt.c_str(), d, 'q', (unsigned) iv)) return;
              r = A.concatf(fmt.c_str(), d, 'q', (unsigned) iv);
            }
            break;
          default:
            fmt = t;
            for (unsigned k = 0; k < w; k++) fmt += 'k';
            if (0 > asprintf(&tmp, "%s", fmt.c_str())) return;
            r = A.concatf(fmt.c_str());
            break;
        }
        want = tmp;
        free(tmp);
        note("[%u].concatf(%s) -> %s", a, quote(fmt, 40).c_str(), quote(want, 60).c_str());
        if (want.size() > 500) label("concatf output over 500 bytes");
        CHECK(r == (int) want.size(), "concatf(%s) returned %d, wrote %u bytes", quote(fmt, 40).c_str(), r, (unsigned) want.size());
        if (want.size()) M.push_back(want);
      }
      break;
    case 6: {   // raw buffer handoff
        std::string x = gen_bytes(s, 50);
        uint8_t* p = (uint8_t*) malloc(x.size() + 1);
        memcpy(p, x.data(), x.size());
        p[x.size()] = 0;
        note("[%u].concatHandoff(raw %s)", a, quote(x).c_str());
        if (x.empty()) {  free(p);  }
        else {  A.concatHandoff(p, (int) x.size());  M.push_back(x);  }
      }
      break;
    case 7:
      note("[%u].clear()", a);
      A.clear();  M.clear();
      break;
    default: {
        // Many small fragments.
        const unsigned n = s.u(24);
        std::string x = s.text(n, "ab");
        note("[%u].concat(each byte of %s)", a, quote(x).c_str());
        for (char c : x) {  A.concat((uint8_t) c);  M.push_back(std::string(1, c));  }
      }
      break;
  }
}

static void op_move(Src& s, StringBuilder* sb, Frags* m, unsigned K) {
  const unsigned a = s.u(K);
  unsigned b = s.u(K - 1);
  if (b >= a) b++;
  StringBuilder& A = sb[a];
  StringBuilder& B = sb[b];
  Frags& MA = m[a];
  Frags& MB = m[b];
  const int LB = (int) flat(MB).size();
  const int LA = (int) flat(MA).size();
  switch (s.weighted({2, 2, 6, 4, 3, 3, 4, 4, 2, 2})) {
    case 0:
      note("[%u].concatHandoff([%u])", a, b);
      A.concatHandoff(&B);
      MA.insert(MA.end(), MB.begin(), MB.end());  MB.clear();
      break;
    case 1:
      note("[%u].prependHandoff([%u])", a, b);
      A.prependHandoff(&B);
      MA.insert(MA.begin(), MB.begin(), MB.end());  MB.clear();
      break;
    case 2: {   // limit: biased to fragment boundaries
        unsigned lim = s.u((unsigned) LB + 3);
        if (s.b(60) && !MB.empty()) {
          lim = 0;
          const unsigned nf = s.u((unsigned) MB.size() + 1);
          for (unsigned k = 0; k < nf; k++) lim += (unsigned) MB[k].size();
          lim += s.u(3);
          if (lim) lim--;
        }
        note("[%u].concatHandoffLimit([%u], %u)", a, b, lim);
        show("donor", MB);
        const std::string FB = flat(MB);
        A.concatHandoffLimit(&B, lim);
        MA.push_back(FB.substr(0, lim));
        MB = Frags{FB.substr(std::min<size_t>(lim, FB.size()))};
        if (lim > 0 && lim < FB.size()) label("handoff limit splits the donor");
        resync("recipient of concatHandoffLimit", A, MA);
        resync("donor of concatHandoffLimit", B, MB);
      }
      break;
    case 3: {
        const unsigned lim = s.u((unsigned) LB + 3);
        note("[%u].concatLimit([%u], %u)", a, b, lim);
        A.concatLimit(&B, lim);
        MA.push_back(flat(MB).substr(0, lim));
        resync("recipient of concatLimit", A, MA);
      }
      break;
    case 4:
      note("[%u].concat([%u])", a, b);
      A.concat(&B);
      MA.push_back(flat(MB));
      resync("recipient of concat(StringBuilder*)", A, MA);
      break;
    case 5: {
        const unsigned pos = s.u((unsigned) MB.size() + 2), cnt = s.b(15) ? s.u((unsigned) MB.size() + 2) : s.u(5);
        note("[%u].concatHandoffPositions([%u], %u, %u)", a, b, pos, cnt);
        const int r = A.concatHandoffPositions(&B, pos, cnt);
        unsigned want = (pos < MB.size()) ? std::min<unsigned>(cnt, (unsigned) MB.size() - pos) : 0;
        CHECK(r == (int) want, "concatHandoffPositions(%u, %u) of %u fragments returned %d", pos, cnt, (unsigned) MB.size(), r);
        for (unsigned k = 0; k < want; k++) {  MA.push_back(MB[pos]);  MB.erase(MB.begin() + pos);  }
      }
      break;
    case 6: {
        const int n = (int) s.u((unsigned) LA + 3) - 1;
        note("[%u].cull(%d)", a, n);
        std::string F = flat(MA);
        A.cull(n);
        if (n > 0) {  F = F.substr(std::min<size_t>((size_t) n, F.size()));  MA = Frags{F};  }
        resync("cull(n)", A, MA);
      }
      break;
    case 7: {
        const int off = (int) s.u((unsigned) LA + 2), len = (int) s.u((unsigned) LA + 3);
        note("[%u].cull(%d, %d)", a, off, len);
        std::string F = flat(MA);
        A.cull(off, len);
        if (0 == len) MA.clear();
        else if (off + len <= (int) F.size()) MA = Frags{F.substr((size_t) off, (size_t) len)};
        else label("cull of an absent range (content kept)");
        resync("cull(offset, len)", A, MA);
      }
      break;
    case 8:
      if (s.b()) {
        note("[%u].toUpper()", a);
        A.toUpper();
        for (auto& f : MA) for (char& c : f) c = (char) toupper((unsigned char) c);
      }
      else {
        note("[%u].toLower()", a);
        A.toLower();
        for (auto& f : MA) for (char& c : f) c = (char) tolower((unsigned char) c);
      }
      break;
    default: {
        note("[%u].string()", a);
        std::string F = flat(MA);
        uint8_t* p = A.string();
        CHECK(nullptr != p, "string() returned null");
        same("string()", std::string((char*) p, F.size()), F);
        CHECK(0 == p[F.size()], "string() is not terminated after its %u bytes", (unsigned) F.size());
        if (!F.empty()) MA = Frags{F};
        CHECK(A.count() == (int) MA.size(), "count() after string() is %u", A.count());
      }
      break;
  }
}

static void op_read(Src& s, StringBuilder* sb, Frags* m, unsigned K) {
  const unsigned a = s.u(K);
  const std::string F = flat(m[a]);
  const int L = (int) F.size();
  switch (s.u(3)) {
    case 0: {
        const int off = (int) s.u((unsigned) L + 3);
        const uint8_t want = (off < L) ? (uint8_t) F[off] : 0;
        CHECK(sb[a].byteAt(off) == want, "byteAt(%d) = %u, expected %u", off, sb[a].byteAt(off), want);
      }
      break;
    case 1: {
        const uint32_t lim = s.u((unsigned) L + 3), off = s.u((unsigned) L + 3);
        std::string buf((size_t) lim + 8, (char) 0x77);
        const int n = sb[a].copyToBuffer((uint8_t*) &buf[0], lim, off);
        std::string want = (off < F.size()) ? F.substr(off, lim) : "";
        CHECK(n == (int) want.size(), "copyToBuffer(limit %u, offset %u) of %d bytes copied %d", lim, off, L, n);
        same("copyToBuffer()", buf.substr(0, want.size()), want);
        for (size_t k = want.size(); k < buf.size(); k++) CHECK(buf[k] == 0x77, "copyToBuffer() wrote past what it reported");
      }
      break;
    default: {
        size_t mx = 0;
        for (auto& f : m[a]) mx = std::max(mx, f.size());
        CHECK(sb[a].maximumFragmentLength() == (int) mx, "maximumFragmentLength() = %d, expected %u", sb[a].maximumFragmentLength(), (unsigned) mx);
      }
      break;
  }
}

TARGET_F(S01, content_model, 40000, 600000, F_LEAK) {
  const unsigned K = 3;
  StringBuilder sb[K];
  Frags m[K];
  unsigned n = 0, moves = 0;
  bool fragged = false;
  while (more(s, n, 40, 14)) {
    switch (s.weighted({5, 5, 2})) {
      case 0:  op_build(s, sb, m, K);  break;
      case 1:  for (auto& x : m) fragged |= (x.size() > 1);  op_move(s, sb, m, K);  moves++;  break;
      default: op_read(s, sb, m, K);  break;
    }
    for (unsigned k = 0; k < K; k++) {
      char what[32];
      snprintf(what, sizeof(what), "buffer [%u]", k);
      full_check(sb[k], m[k], what);
      CHECK(sb[k].count() == (int) m[k].size(), "%s: count() = %u, expected %u", what, sb[k].count(), (unsigned) m[k].size());
    }
  }
  for (unsigned k = 0; k < K; k++) same("string() at the end", std::string((char*) sb[k].string(), (size_t) sb[k].length()), flat(m[k]));
  if (fragged && moves >= 2) nontrivial();
}

/* The same model with long content and with many fragments, where narrow counters would wrap. */
static void op_large(Src& s, StringBuilder* sb, Frags* m, unsigned K) {
  const unsigned a = s.u(K);
  StringBuilder& A = sb[a];
  Frags& M = m[a];
  if (flat(M).size() > 200000 || M.size() > 3000) {  note("[%u].clear()", a);  A.clear();  M.clear();  return;  }
  switch (s.weighted({4, 3, 2, 3, 1})) {
    case 0: {
        std::string x = s.filler(s.large(70000), s.b() ? nullptr : "abcXYZ 01,./%");
        note("[%u].concat(%u bytes)", a, (unsigned) x.size());
        A.concat((uint8_t*) x.data(), (int) x.size());
        if (x.size()) M.push_back(x);
      }
      break;
    case 1: {
        std::string x = s.filler(s.large(1500), "ab");
        note("[%u].concat(each of %u bytes)", a, (unsigned) x.size());
        for (char c : x) {  A.concat((uint8_t) c);  M.push_back(std::string(1, c));  }
      }
      break;
    case 2: {
        std::string x = s.filler(s.large(70000), nullptr);
        note("[%u].prepend(%u bytes)", a, (unsigned) x.size());
        A.prepend((uint8_t*) x.data(), (int) x.size());
        if (x.size()) M.insert(M.begin(), x);
      }
      break;
    case 3: {
        std::string x = s.filler(s.large(70000), "abcXYZ 01,./%");
        note("[%u].%u-byte C string", a, (unsigned) x.size());
        if (s.b()) {
          const int r = A.concatf("%s", x.c_str());
          CHECK(r == (int) x.size(), "concatf(\"%%s\") of %u bytes returned %d", (unsigned) x.size(), r);
        }
        else A.concat(x.c_str());
        if (x.size()) M.push_back(x);
      }
      break;
    default: {
        std::string x = s.filler(s.large(70000), nullptr);
        uint8_t* p = (uint8_t*) malloc(x.size() + 1);
        memcpy(p, x.data(), x.size());
        p[x.size()] = 0;
        note("[%u].concatHandoff(raw %u bytes)", a, (unsigned) x.size());
        if (x.empty()) {  free(p);  }
        else {  A.concatHandoff(p, (int) x.size());  M.push_back(x);  }
      }
      break;
  }
}

TARGET_F(S01, content_model_large, 250, 4000, F_LEAK | F_NOGUIDE) {
  const unsigned K = 2;
  StringBuilder sb[K];
  Frags m[K];
  unsigned n = 0, moves = 0;
  bool big = false;
  while (more(s, n, 12, 7)) {
    switch (s.weighted({5, 5, 2})) {
      case 0:  op_large(s, sb, m, K);  break;
      case 1:  op_move(s, sb, m, K);  moves++;  break;
      default: op_read(s, sb, m, K);  break;
    }
    for (unsigned k = 0; k < K; k++) {
      char what[32];
      snprintf(what, sizeof(what), "buffer [%u]", k);
      full_check(sb[k], m[k], what);
      CHECK(sb[k].count() == (int) m[k].size(), "%s: count() = %u, expected %u", what, sb[k].count(), (unsigned) m[k].size());
      if (m[k].size() > 256) {  big = true;  label("more than 256 fragments");  }
      if (flat(m[k]).size() > 32768) {  big = true;  label("more than 32 KB");  }
      if (flat(m[k]).size() > 65536) label("more than 64 KB");
    }
  }
  for (unsigned k = 0; k < K; k++) same("string() at the end", std::string((char*) sb[k].string(), (size_t) sb[k].length()), flat(m[k]));
  if (big && moves) nontrivial();
}

/* --------------------------------------------------------------------------- S02 */
static Frags strtok_model(const std::string& f, const std::string& delims) {
  Frags r;
  std::string cur;
  for (char c : f) {
    if (std::string::npos != delims.find(c)) {  if (!cur.empty()) r.push_back(cur);  cur.clear();  }
    else cur += c;
  }
  if (!cur.empty()) r.push_back(cur);
  return r;
}

static void frag_build(Src& s, StringBuilder& sb, Frags& m, const char* alpha, uint32_t maxf) {
  const unsigned nf = s.u(maxf);
  for (unsigned k = 0; k < nf; k++) {
    std::string x = s.text(1 + s.size(9), alpha);
    sb.concat((uint8_t*) x.data(), (int) x.size());
    m.push_back(x);
  }
}
static std::string needle_from(Src& s, const std::string& F, const char* alpha) {
  if (!F.empty() && s.b(70)) {
    const size_t off = s.u((unsigned) F.size());
    std::string r = F.substr(off, 1 + s.size(8));
    if (s.b(20)) r += s.text(1, alpha);
    return r;
  }
  return s.text(1 + s.size(5), alpha);
}

TARGET_F(S02, search, 50000, 800000, F_LEAK) {
  const char* ALPHA = s.pick<const char*>({"ab", "aab", "abc", "abcdef"});
  StringBuilder sb;
  Frags m;
  frag_build(s, sb, m, ALPHA, 9);
  const std::string F = flat(m);
  show("haystack", m);
  const unsigned Q = 1 + s.u(4);
  for (unsigned q = 0; q < Q; q++) {
    const std::string N = needle_from(s, F, ALPHA);
    const int off = s.b(50) ? 0 : (int) s.u((unsigned) F.size() + 2);
    size_t w = F.find(N, (size_t) off);
    const int want = (w == std::string::npos) ? -1 : (int) w;
    note("locate(%s, %d) expects %d", quote(N).c_str(), off, want);
    const int got = s.b() ? sb.locate((const uint8_t*) N.data(), (int) N.size(), off) : sb.locate(N.c_str(), off);
    CHECK(got == want, "locate(%s, offset %d) in %s = %d, expected %d", quote(N).c_str(), off, quote(F).c_str(), got, want);
    CHECK(sb.contains(N.c_str()) == (F.find(N) != std::string::npos), "contains(%s) in %s", quote(N).c_str(), quote(F).c_str());
    const char c = N[0];
    CHECK(sb.contains(c) == (F.find(c) != std::string::npos), "contains('%c') in %s", c, quote(F).c_str());
    if (m.size() > 1 && N.size() > 1 && want >= 0) {  nontrivial();  label("multi-fragment hit");  }
    if (want < 0) label("miss");
  }
  if (!F.empty()) {
    std::string O = F;
    CHECK(1 == sb.cmpBinString((uint8_t*) O.data(), (int) O.size()), "cmpBinString() of the same %u bytes is not 1", (unsigned) O.size());
    O[s.u((unsigned) O.size())] ^= (char) (1 << s.u(7));
    CHECK(0 == sb.cmpBinString((uint8_t*) O.data(), (int) O.size()), "cmpBinString() of different bytes is not 0");
  }
  CHECK(sb.count() == (int) m.size(), "searching changed the fragment count");
  same("after search", real_bytes(sb), F);
}

TARGET_F(S02, replace, 40000, 600000, F_LEAK) {
  const char* ALPHA = s.pick<const char*>({"ab", "aab", "abc", "abcdef"});
  StringBuilder sb;
  Frags m;
  frag_build(s, sb, m, ALPHA, 9);
  std::string F = flat(m);
  show("haystack", m);
  const std::string N = needle_from(s, F, ALPHA);
  const std::string R = s.text(s.size(8), ALPHA);
  std::string want;
  int hits = 0;
  for (size_t p = 0; p < F.size();) {
    if (0 == F.compare(p, N.size(), N)) {  want += R;  p += N.size();  hits++;  }
    else want += F[p++];
  }
  note("replace(%s, %s) expects %d hits -> %s", quote(N).c_str(), quote(R).c_str(), hits, quote(want).c_str());
  const int got = sb.replace(N.c_str(), (R.empty() && s.b()) ? nullptr : R.c_str());
  CHECK(got == hits, "replace(%s, %s) in %s reported %d, expected %d", quote(N).c_str(), quote(R).c_str(), quote(F).c_str(), got, hits);
  same("replace()", real_bytes(sb), want);
  CHECK(sb.length() == (int) want.size(), "length after replace()");
  if (hits && m.size() > 1) nontrivial();
  if (hits > 1) label("several hits");
  if (want.empty() && hits) label("replaced into nothing");
}

/* Long haystacks: hits and offsets past the range of narrow integer types, and many of them. */
TARGET_F(S02, search_large, 400, 6000, F_LEAK | F_NOGUIDE) {
  StringBuilder sb;
  Frags m;
  const unsigned nf = 1 + s.u(5);
  const char* ALPHA = s.pick<const char*>({"ab", "abcdefghijklmnopqrstuvwxyz 0123456789"});
  for (unsigned k = 0; k < nf; k++) {
    std::string x = s.filler(1 + s.large(70000), ALPHA);
    sb.concat((uint8_t*) x.data(), (int) x.size());
    m.push_back(x);
  }
  std::string F = flat(m);
  unsigned plants = s.weighted({2, 4, 2}) ;
  plants = (2 == plants) ? 200 + s.u(400) : plants;
  const std::string N = s.pick<const char*>({"#", "#!", "#-#!", "#########!"});
  note("%u bytes in %u fragments, %u plants of %s", (unsigned) F.size(), nf, plants, N.c_str());
  if (F.size() <= N.size()) return;
  sb.clear();
  const uint64_t x0 = s.draw(0xFFFFFFFFULL);
  for (unsigned k = 0; k < plants; k++) {
    size_t at = (1 == plants) ? (size_t) (F.size() - N.size() - s.size((uint32_t) (F.size() - N.size()))) : (size_t) ((x0 + k * 2654435761ULL) % (F.size() - N.size() + 1));
    F.replace(at, N.size(), N);
  }
  size_t p = 0;
  for (auto& f : m) {  f = F.substr(p, f.size());  p += f.size();  sb.concat((uint8_t*) f.data(), (int) f.size());  }
  const size_t off = s.b() ? 0 : s.u((uint32_t) F.size());
  const size_t w = F.find(N, off);
  const int want = (w == std::string::npos) ? -1 : (int) w;
  const int got = sb.locate((const uint8_t*) N.data(), (int) N.size(), (int) off);
  CHECK(got == want, "locate(%s, offset %u) in %u bytes = %d, expected %d", N.c_str(), (unsigned) off, (unsigned) F.size(), got, want);
  if (want > 65535) label("a hit past 64 KB");
  CHECK(1 == sb.cmpBinString((uint8_t*) F.data(), (int) F.size()), "cmpBinString() of the same %u bytes is not 1", (unsigned) F.size());
  {
    std::string O = F;
    O[F.size() - 1 - s.size((uint32_t) F.size() - 1)] ^= 0x40;
    CHECK(0 == sb.cmpBinString((uint8_t*) O.data(), (int) O.size()), "cmpBinString() of different bytes is not 0");
  }
  const std::string R = s.filler(s.size(300), "xyz");
  std::string out;
  int hits = 0;
  for (size_t q = 0; q < F.size();) {
    if (0 == F.compare(q, N.size(), N)) {  out += R;  q += N.size();  hits++;  }
    else out += F[q++];
  }
  const int rr = sb.replace(N.c_str(), R.c_str());
  CHECK(rr == hits, "replace() reported %d, expected %d", rr, hits);
  same("replace()", real_bytes(sb), out);
  if (hits > 255) label("more than 255 hits");
  if (F.size() > 32768 && hits) nontrivial();
}

TARGET_F(S02, tokens_large, 400, 6000, F_LEAK | F_NOGUIDE) {
  StringBuilder sb;
  const std::string F = s.filler(1 + s.large(70000), s.pick<const char*>({"a,", "abc,", "abcdefghijklmnopqrstuvwxyz ,"}));
  const unsigned cut = s.u((unsigned) F.size() + 1);
  if (cut) sb.concat((uint8_t*) F.data(), (int) cut);
  if (cut < F.size()) sb.concat((uint8_t*) F.data() + cut, (int) (F.size() - cut));
  Frags t;
  int r;
  if (s.b()) {
    std::string G = F;
    sb.clear();
    for (size_t k = 4000; k + 1 < G.size(); k++) if (k % 7) G[k] = 'q';   // Keeps the count of tokens in reach.
    sb.concat((uint8_t*) G.data(), (int) G.size());
    t = strtok_model(G, ",");
    r = sb.split(",");
    note("split() of %u bytes into %u", (unsigned) G.size(), (unsigned) t.size());
    CHECK(r == (int) t.size(), "split() of %u bytes returned %d, expected %u", (unsigned) G.size(), r, (unsigned) t.size());
    if (t.empty()) return;
  }
  else {
    const unsigned lo = 1 + (unsigned) (F.size() / 1500);
    const unsigned c = s.b() ? lo + s.size((uint32_t) F.size()) : std::max(lo, s.large((uint32_t) F.size() + 2));
    for (size_t p = 0; p < F.size(); p += c) t.push_back(F.substr(p, c));
    note("chunk(%u) of %u bytes into %u", c, (unsigned) F.size(), (unsigned) t.size());
    r = sb.chunk((int) c);
    CHECK(r == (int) t.size(), "chunk(%u) of %u bytes returned %d, expected %u", c, (unsigned) F.size(), r, (unsigned) t.size());
  }
  Frags got = real_frags(sb);
  CHECK(got.size() == t.size(), "%u tokens, expected %u", (unsigned) got.size(), (unsigned) t.size());
  for (unsigned k = 0; k < t.size(); k++) same("token", got[k], t[k]);
  for (unsigned q = 0; q < 3; q++) {
    const unsigned k = s.u((unsigned) t.size());
    if (std::string::npos == t[k].find('\0')) same("position()", sb.position((int) k), t[k]);
  }
  if (s.b(30)) {
    const unsigned k = s.u((unsigned) t.size() + 2);
    CHECK(sb.drop_position(k) == (k < t.size()), "drop_position(%u)", k);
    if (k < t.size()) t.erase(t.begin() + k);
    CHECK(sb.count() == (int) t.size(), "count() after a drop");
    same("after a drop", real_bytes(sb), flat(t));
  }
  if (t.size() > 1) {
    std::string j;
    for (size_t k = 0; k < t.size(); k++) {  if (k) j += "--";  j += t[k];  }
    r = sb.implode("--");
    CHECK(r == (int) t.size(), "implode() of %u tokens returned %d", (unsigned) t.size(), r);
    same("implode()", real_bytes(sb), j);
  }
  if (t.size() > 256) label("more than 256 tokens");
  if (F.size() > 1000) nontrivial();
}

TARGET_F(S02, tokens, 50000, 700000, F_LEAK) {
  StringBuilder sb;
  Frags m;
  unsigned n = 0;
  bool tokd = false;
  frag_build(s, sb, m, "abc ,;", 6);
  show("start", m);
  while (more(s, n, 12, 5)) {
    const std::string F = flat(m);
    switch (s.weighted({3, 3, 3, 3, 2, 2})) {
      case 0: {
          std::string d = s.pick<const char*>({",", " ", ", ", ";,", "a", "xyz"});
          note("split(%s)", quote(d).c_str());
          const int r = sb.split(d.c_str());
          Frags t = strtok_model(F, d);
          CHECK(r == (int) t.size(), "split(%s) of %s returned %d, expected %u tokens", quote(d).c_str(), quote(F).c_str(), r, (unsigned) t.size());
          if (!t.empty()) m = t;
          else if (!F.empty()) {  m = Frags{F};  label("split with no tokens");  }
          tokd |= (t.size() > 1);
        }
        break;
      case 1: {
          const int c = 1 + (int) s.u((unsigned) F.size() + 3);
          note("chunk(%d)", c);
          const int r = sb.chunk(c);
          Frags t;
          for (size_t p = 0; p < F.size(); p += (size_t) c) t.push_back(F.substr(p, (size_t) c));
          if (!F.empty()) CHECK(r == (int) t.size(), "chunk(%d) of %u bytes returned %d", c, (unsigned) F.size(), r);
          m = t;
          tokd |= (t.size() > 1);
        }
        break;
      case 2: {
          std::string d = s.pick<const char*>({",", "--", " and ", "a"});
          note("implode(%s)", quote(d).c_str());
          const int r = sb.implode(d.c_str());
          if (m.size() > 1) {   // Two fragments are at least two bytes.
            std::string j;
            for (size_t k = 0; k < m.size(); k++) {  if (k) j += d;  j += m[k];  }
            CHECK(r == (int) m.size(), "implode(%s) of %u tokens (%u bytes) returned %d", quote(d).c_str(), (unsigned) m.size(), (unsigned) F.size(), r);
            m = Frags{j};
          }
          else CHECK(r == 0, "implode() of %u tokens returned %d", (unsigned) m.size(), r);
        }
        break;
      case 3: {
          const unsigned p = s.u((unsigned) m.size() + 2);
          note("drop_position(%u)", p);
          const bool r = sb.drop_position(p);
          CHECK(r == (p < m.size()), "drop_position(%u) of %u returned %d", p, (unsigned) m.size(), r);
          if (p < m.size()) m.erase(m.begin() + p);
        }
        break;
      case 4: {
          const unsigned p = s.u((unsigned) m.size() + 2);
          if (p < m.size()) {
            same("position()", sb.position((int) p), m[p].c_str());
            std::string t = m[p];
            size_t b = t.find_first_not_of(" \t\n\r\v\f");
            std::string w = (b == std::string::npos) ? "" : t.substr(b, t.find_last_not_of(" \t\n\r\v\f") - b + 1);
            StringBuilder c;
            c.concat(t.c_str());
            same("position_trimmed()", c.position_trimmed(0), w);
          }
          else {
            same("position() out of range", sb.position((int) p), "");
            same("position_trimmed() out of range", sb.position_trimmed((int) p), "");
          }
        }
        break;
      default: {
          std::string x = s.text(1 + s.size(12), "abc ,;");
          note("concat(%s)", quote(x).c_str());
          sb.concat((uint8_t*) x.data(), (int) x.size());
          m.push_back(x);
        }
        break;
    }
    Frags r = real_frags(sb);
    if (r != m) {
      std::string a, b;
      for (auto& x : r) a += quote(x) + " ";
      for (auto& x : m) b += quote(x) + " ";
      fail("tokens are [%s], expected [%s]", a.c_str(), b.c_str());
    }
    CHECK(sb.count() == (int) m.size(), "count()");
  }
  if (tokd && n > 2) nontrivial();
}

/* Numeric reading of tokens. */
TARGET(S02, token_numbers, 20000, 300000) {
  StringBuilder sb;
  const unsigned pad = s.u(3);
  for (unsigned k = 0; k < pad; k++) sb.concat("pad");
  char buf[64];
  switch (s.u(6)) {
    case 0: {
        const int v = (int) s.sword(32);
        snprintf(buf, sizeof(buf), "%d", v);
        sb.concat((const char*) buf);
        CHECK(sb.position_as_int((int) pad) == v, "position_as_int(\"%s\") = %d", buf, sb.position_as_int((int) pad));
      }
      break;
    case 1: {
        const uint32_t v = (uint32_t) s.word(32);
        snprintf(buf, sizeof(buf), s.b() ? "0x%x" : "0x%08X", v);
        sb.concat((const char*) buf);
        CHECK((uint32_t) sb.position_as_int((int) pad) == v, "position_as_int(\"%s\") = %d", buf, sb.position_as_int((int) pad));
        CHECK(sb.position_as_uint64((int) pad) == v, "position_as_uint64(\"%s\")", buf);
      }
      break;
    case 2: {
        const uint64_t v = s.word(64);
        snprintf(buf, sizeof(buf), s.b() ? "0x%llx" : "0x%016llX", (unsigned long long) v);
        sb.concat((const char*) buf);
        CHECK(sb.position_as_uint64((int) pad) == v, "position_as_uint64(\"%s\") = 0x%llx", buf, (unsigned long long) sb.position_as_uint64((int) pad));
        if (v > 0xFFFFFFFFULL) nontrivial();
      }
      break;
    case 3: {
        const uint64_t v = s.word(64);
        snprintf(buf, sizeof(buf), "%llu", (unsigned long long) v);
        sb.concat((const char*) buf);
        CHECK(sb.position_as_uint64((int) pad) == v, "position_as_uint64(\"%s\") = %llu", buf, (unsigned long long) sb.position_as_uint64((int) pad));
        if (v > 0xFFFFFFFFULL) nontrivial();
      }
      break;
    case 4: {
        const double v = s.f64();
        snprintf(buf, sizeof(buf), "%.17g", v);
        sb.concat((const char*) buf);
        CHECK(sb.position_as_double((int) pad) == v, "position_as_double(\"%s\")", buf);
      }
      break;
    default: {
        std::string t = s.text(s.size(12), "xyz -+.,");
        CHECK(0 == sb.position_as_int((int) pad + 1), "position_as_int() of an absent token");
        CHECK(0 == sb.position_as_uint64((int) pad + 1), "position_as_uint64() of an absent token");
        CHECK(0.0 == sb.position_as_double((int) pad + 1), "position_as_double() of an absent token");
        return;
      }
  }
  note("%s", buf);
  if (pad) nontrivial();
}

/* The static string helpers. */
TARGET(S02, statics, 20000, 300000) {
  const char* ALPHA = "abABcC z";
  std::string h = s.text(s.size(24), ALPHA);
  std::string n = s.b(60) && !h.empty() ? h.substr(s.u((unsigned) h.size()), 1 + s.size(6)) : s.text(s.size(5), ALPHA);
  for (char& c : n) if (s.b(30)) c = (char) (isupper(c) ? tolower(c) : toupper(c));
  auto up = [](std::string x) {  for (char& c : x) c = (char) toupper(c);  return x;  };
  size_t w = n.empty() ? std::string::npos : up(h).find(up(n));
  char* got = StringBuilder::strcasestr(h.c_str(), n.c_str());
  CHECK((got ? (size_t) (got - h.c_str()) : std::string::npos) == w, "strcasestr(%s, %s)", quote(h).c_str(), quote(n).c_str());
  std::string o = s.b(50) ? h : n;
  for (char& c : o) if (s.b(30)) c = (char) (isupper(c) ? tolower(c) : toupper(c));
  CHECK((0 == StringBuilder::strcasecmp(h.c_str(), o.c_str())) == (up(h) == up(o)), "strcasecmp(%s, %s) = %d", quote(h).c_str(), quote(o).c_str(), StringBuilder::strcasecmp(h.c_str(), o.c_str()));
  // trim
  std::string ws = s.text(s.size(4), " \t\n") + h + s.text(s.size(4), " \t\r");
  std::vector<char> buf(ws.begin(), ws.end());
  buf.push_back(0);
  size_t b = ws.find_first_not_of(" \t\n\r");
  std::string want = (b == std::string::npos) ? "" : ws.substr(b, ws.find_last_not_of(" \t\n\r") - b + 1);
  same("trim()", StringBuilder::trim(buf.data()), want);
  // deep_copy
  const unsigned lim = s.u(30);
  char* d = StringBuilder::deep_copy(h.c_str(), lim);
  CHECK(nullptr != d, "deep_copy() failed");
  same("deep_copy()", d, lim ? h.substr(0, lim) : h);
  free(d);
  if (w != std::string::npos && h.size() > 3) nontrivial();
  note("haystack %s needle %s", quote(h).c_str(), quote(n).c_str());
}
