/*
* K01: the console runs the command of each complete line, once, in order.
* K02: its settings, help and history.
*/
#include "pbt.h"
#include "CppPotpourri.h"
#include "AbstractPlatform.h"
#include "StringBuilder.h"
#include "EnumeratedTypeCodes.h"
#include "Console/C3PConsole.h"
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <algorithm>
#include <deque>
#include <memory>
using namespace pbt;

static std::string flat(StringBuilder* b) {
  const int n = b->length();
  if (n <= 0) return std::string();
  std::string r((size_t) n, '\0');
  b->copyToBuffer((uint8_t*) &r[0], (uint32_t) n);
  return r;
}
static void frag(Src& s, StringBuilder* b, const std::string& m) {
  size_t at = 0;
  for (unsigned pieces = 0; at < m.size(); pieces++) {
    size_t n = (pieces > 200) ? m.size() : 1 + s.size((uint32_t) (m.size() - at));
    if (n > m.size() - at) n = m.size() - at;
    StringBuilder part((uint8_t*) m.data() + at, (uint32_t) n);
    b->concatHandoff(&part);
    at += n;
  }
}

struct Call {
  int which;
  std::vector<std::string> args;
  bool operator==(const Call& o) const {  return which == o.which && args == o.args;  }
};
static std::string show(const Call& c) {
  std::string r = "command " + std::to_string(c.which) + "(";
  for (auto& a : c.args) r += " " + quote(a);
  return r + " )";
}

static std::vector<Call>* calls = nullptr;
static int cb_ret = 0;
static const unsigned NCB = 6;
static int called(int which, StringBuilder* out, StringBuilder* args) {
  CHECK(calls, "a callback, outside of a push");
  CHECK(out && args, "a callback without a log or arguments");
  Call c;
  c.which = which;
  for (int i = 0; i < args->count(); i++) c.args.push_back(args->position_trimmed(i));
  calls->push_back(c);
  out->concatf("ran %d with %u\n", which, (unsigned) c.args.size());
  return cb_ret;
}
template <int N> static int cb(StringBuilder* out, StringBuilder* args) {  return called(N, out, args);  }
static const consoleCallback CBS[NCB] = {cb<0>, cb<1>, cb<2>, cb<3>, cb<4>, cb<5>};

struct Out : public BufferAccepter {
  std::string got;
  int8_t mode = 1;        // 1: takes everything. -1: takes nothing.
  unsigned pushes = 0;
  int8_t pushBuffer(StringBuilder* b) {
    pushes++;
    CHECK(b && b->length() > 0, "the console pushed nothing");
    if (mode < 0) return -1;
    got += flat(b);
    b->clear();
    return 1;
  }
  int32_t bufferAvailable() {  return (mode < 0) ? 0 : 65536;  }
};

struct Def {
  std::string name;
  char sc;
  unsigned req;
  int which;
};

static std::string lower(std::string x) {  for (char& c : x) if (c >= 'A' && c <= 'Z') c = (char) (c + 32);  return x;  }
static std::string trim(const std::string& x) {
  size_t a = 0, b = x.size();
  while (a < b && isspace((unsigned char) x[a])) a++;
  while (b > a && isspace((unsigned char) x[b-1])) b--;
  return x.substr(a, b - a);
}

struct Model {
  std::vector<Def> defs;
  std::string pending;
  std::deque<std::string> history;
  unsigned depth = 8;
  bool hist_fail = false, echo = false, help_fail = false, prompt = false;
  LineTerm term = LineTerm::LF;
  uint16_t max_len = 0;
  unsigned lines = 0, unknown = 0, short_args = 0, overflows = 0;

  const Def* find(const std::string& w) {
    for (auto& d : defs) if (lower(d.name) == lower(w)) return &d;
    if (w.size() == 1) for (auto& d : defs) if (d.sc == w[0]) return &d;
    return nullptr;
  }
  void keep(const std::string& l) {
    history.push_back(l);
    while (history.size() > depth) history.pop_front();
  }
  std::string terminator() {
    switch (term) {
      case LineTerm::ZEROBYTE: return std::string(1, '\0');
      case LineTerm::CR:       return "\r";
      case LineTerm::LF:       return "\n";
      case LineTerm::CRLF:     return "\r\n";
      default: break;
    }
    return "";
  }
  /* Feeds some input. Returns the calls it should make. */
  void feed(const std::string& in, std::vector<Call>& out) {
    pending += in;
    if (pending.size() > max_len) {
      overflows++;
      pending.clear();
      return;
    }
    const std::string t = terminator();
    size_t at;
    while (std::string::npos != (at = pending.find(t))) {
      const std::string line = trim(pending.substr(0, at));
      pending.erase(0, at + t.size());
      if (line.empty()) continue;
      lines++;
      std::vector<std::string> w;
      size_t p = 0;
      while (p < line.size()) {
        size_t q = line.find(' ', p);
        if (q == std::string::npos) q = line.size();
        if (q > p) w.push_back(trim(line.substr(p, q - p)));
        p = q + 1;
      }
      const Def* d = find(w[0]);
      bool ok = false;
      if (!d) unknown++;
      else if (w.size() - 1 < d->req) short_args++;
      else {
        Call c;
        c.which = d->which;
        c.args.assign(w.begin() + 1, w.end());
        out.push_back(c);
        ok = true;
      }
      if (ok || hist_fail) keep(line);
    }
  }
};

static std::string some_word(Src& s) {
  if (s.b(1)) return s.filler(1 + s.large(s.b(70) ? 300 : 40000), "abcXY019-_");
  return s.text(1 + s.size(8), "abcXY019-_");
}

static std::string some_line(Src& s, Model& m) {
  std::string r;
  if (s.b(15)) r += std::string(1 + s.u(3), s.b(70) ? ' ' : '\t');
  switch (s.weighted({10, 3, 2, 1})) {
    case 0: {
        std::string n = m.defs[s.u((uint32_t) m.defs.size())].name;
        for (char& c : n) if (s.b(25)) c = (char) ((c >= 'a' && c <= 'z') ? c - 32 : (c >= 'A' && c <= 'Z') ? c + 32 : c);
        r += n;
      } break;
    case 1: {
        const char c = m.defs[s.u((uint32_t) m.defs.size())].sc;
        r += c ? c : 'q';
      } break;
    case 2:  r += some_word(s);  break;
    default: break;      // blank
  }
  const unsigned n = s.b(1) ? s.u(300) : s.size(5);
  for (unsigned i = 0; i < n; i++) {
    r += std::string(s.b(80) ? 1 : 1 + s.u(3), ' ');
    if (s.b(6)) r += '\t';
    r += some_word(s);
    if (s.b(6)) r += '\t';
  }
  if (s.b(15)) r += std::string(1 + s.u(3), ' ');
  return r;
}

/* Defines some commands, by every way there is. */
static void define(Src& s, ParsingConsole* con, Model& m, std::deque<std::string>& names, std::vector<std::unique_ptr<ConsoleCommand>>& own, ConsoleCommand** block) {
  const unsigned n = 1 + s.u(NCB);
  for (unsigned i = 0; i < n; i++) {
    Def d;
    d.name = s.b(20) ? std::string(1, "abAB1"[s.u(5)]) : s.text(1 + s.size(7), "abAB1");
    d.sc = s.b(60) ? "abAB1xyz"[s.u(8)] : '\0';
    d.req = s.b(50) ? 0 : s.u(4);
    d.which = (int) i;
    m.defs.push_back(d);
  }
  unsigned i = 0;
  while (i < n) {
    Def& d = m.defs[i];
    names.push_back(d.name);
    const char* c = names.back().c_str();
    switch (s.u(4)) {
      case 0:
        d.sc = '\0';
        CHECK(0 == con->defineCommand(c, "help", "params", (uint8_t) d.req, CBS[i]), "defineCommand()");
        break;
      case 1:
        CHECK(0 == con->defineCommand(c, d.sc, "help", "params", (uint8_t) d.req, CBS[i]), "defineCommand()");
        break;
      case 2:
        own.emplace_back(new ConsoleCommand(c, d.sc, "help", "params", (uint8_t) d.req, CBS[i]));
        CHECK(0 == con->defineCommand(own.back().get()), "defineCommand()");
        break;
      default: {
          if (*block) {
            CHECK(0 == con->defineCommand(c, d.sc, "help", "params", (uint8_t) d.req, CBS[i]), "defineCommand()");
            break;
          }
          const unsigned k = 1 + s.u(n - i);
          ConsoleCommand* b = (ConsoleCommand*) malloc(sizeof(ConsoleCommand) * k);
          for (unsigned j = 0; j < k; j++) {
            names.push_back(m.defs[i + j].name);
            new (b + j) ConsoleCommand(names.back().c_str(), m.defs[i + j].sc, "help", "params", (uint8_t) m.defs[i + j].req, CBS[i + j]);
          }
          CHECK(0 == con->defineCommands(b, (int) k), "defineCommands()");
          *block = b;
          i += k - 1;
        } break;
    }
    i++;
  }
  for (auto& d : m.defs) note("command %d: %s, shortcut %d, at least %u arguments", d.which, quote(d.name).c_str(), d.sc, d.req);
}

struct Rig {
  std::deque<std::string> names;
  std::vector<std::unique_ptr<ConsoleCommand>> own;
  ConsoleCommand* block = nullptr;
  std::unique_ptr<ParsingConsole> con;
  Out out;
  Model m;
  std::vector<Call> got;
  ~Rig() {  con.reset();  free(block);  calls = nullptr;  }
};

static void check_history(Rig& r) {
  CHECK(r.con->historyDepth() == r.m.history.size(), "historyDepth() %u, of %zu", r.con->historyDepth(), r.m.history.size());
  CHECK(r.con->maxHistoryDepth() == r.m.depth, "maxHistoryDepth() %u, not %u", r.con->maxHistoryDepth(), r.m.depth);
  StringBuilder h;
  r.con->printHistory(&h);
  const std::string t = flat(&h);
  std::string want;
  for (size_t i = 0; i < r.m.history.size(); i++) want += "\t" + std::to_string(i) + ":  " + r.m.history[i] + "\n";
  CHECK(t.size() >= want.size() && 0 == t.compare(t.size() - want.size(), want.size(), want),
    "printHistory() gives %s, and the history is %s", quote(t).c_str(), quote(want).c_str());
}

static void push(Src& s, Rig& r, const std::string& in) {
  std::vector<Call> want;
  r.got.clear();
  StringBuilder buf;
  frag(s, &buf, in);
  cb_ret = s.i(-1, 1);
  const int8_t ret = r.con->pushBuffer(&buf);
  note("push %s -> %d, %zu calls", quote(in).c_str(), ret, r.got.size());
  if (in.empty()) {
    CHECK(ret == -1, "an empty push returned %d", ret);
  }
  else if (in[0] == '\b') {
    if (!r.m.pending.empty()) r.m.pending.pop_back();
    CHECK(flat(&buf) == in.substr(1), "after a backspace, the buffer has %s left, of %s", quote(flat(&buf)).c_str(), quote(in).c_str());
    CHECK(ret == (in.size() > 1 ? 0 : 1), "a push of %s returned %d", quote(in).c_str(), ret);
  }
  else {
    CHECK(ret == 1, "a push of %s returned %d", quote(in).c_str(), ret);
    CHECK(0 == buf.length(), "a push of %s left %s", quote(in).c_str(), quote(flat(&buf)).c_str());
    r.m.feed(in, want);
  }
  for (size_t i = 0; i < want.size() && i < r.got.size(); i++) {
    CHECK(r.got[i] == want[i], "call %zu was %s, and should have been %s", i, show(r.got[i]).c_str(), show(want[i]).c_str());
  }
  CHECK(r.got.size() == want.size(), "%s made %zu calls, not %zu. The %s is %s", quote(in).c_str(), r.got.size(), want.size(),
    r.got.size() > want.size() ? "first extra" : "first missing", show(r.got.size() > want.size() ? r.got[want.size()] : want[r.got.size()]).c_str());
}

TARGET_F(K01, lines, 5000, 120000, F_LEAK) {
  Rig r;
  calls = &r.got;
  Model& m = r.m;
  m.max_len = (uint16_t) (s.b(60) ? 400 : (s.b(30) ? 65535 - s.u(3) * 20000 : 8 + s.u(60)));
  r.con.reset(new ParsingConsole(m.max_len));
  CHECK(0 == r.con->init(), "init()");
  define(s, r.con.get(), m, r.names, r.own, &r.block);
  const bool attached = s.b(60);
  if (attached) r.con->setEfferant(&r.out);
  if (s.b(60)) {  m.term = (LineTerm) s.u(4);  r.con->setRXTerminator(m.term);  }
  if (s.b(30)) {  m.hist_fail = true;  r.con->historyFail(true);  }
  if (s.b(30)) {  r.con->printHelpOnFail(true);  }
  if (s.b(30)) {  m.depth = s.u(5);  r.con->maxHistoryDepth((uint8_t) m.depth);  }
  if (s.b(20)) {  r.con->emitPrompt(true);  r.con->setPromptString("%s> ");  }
  if (s.b(20)) {  r.con->localEcho(true);  }
  note("terminator %s, at most %u bytes", lineTerminatorNameStr(m.term), m.max_len);
  std::string stream;      // what the user typed, that was not pushed yet
  unsigned split = 0, multi = 0, bs = 0;
  size_t longest = 0;
  unsigned step = 0;
  while (more(s, step, 40, 14)) {
    switch (s.weighted({6, 8, 1, 1, 1})) {
      case 0: {
          stream += some_line(s, m);
          if (s.b(92)) stream += m.terminator();
          if (s.b(5)) stream.insert(s.u((uint32_t) stream.size() + 1), 1, s.pick({'\x7f', '\x1b', '\x01', '\x03', '\x04', '\x15', '\x1f', '\x80', '\xff', '\b'}));
          if (s.b(5)) stream += m.term == LineTerm::CR ? '\n' : '\r';
        } break;
      case 1: {
          uint32_t n = s.b(50) ? (uint32_t) stream.size() : s.u((uint32_t) stream.size() + 1);
          if (s.b(8)) {   // Up to a byte from no keyboard's letters, which then comes alone.
            const size_t odd = stream.find_first_of("\x7f\x1b\x01\x03\x04\x15\x1f\x80\xff");
            if (odd != std::string::npos) n = odd ? (uint32_t) odd : 1;
          }
          std::string in = stream.substr(0, n);
          stream.erase(0, n);
          const unsigned before = m.lines;
          longest = std::max(longest, in.size());
          push(s, r, in);
          if (m.lines - before > 1) multi++;
          if ((m.lines - before) && !m.pending.empty()) split++;
        } break;
      case 2: {
          std::string in = "\b";
          if (s.b(30)) in += some_word(s);
          if (!m.pending.empty()) bs++;
          push(s, r, in);
        } break;
      case 3:
        if (s.b(50)) {
          CHECK(-1 == r.con->pushBuffer(nullptr), "a null push was accepted");
        }
        else {
          /* Lines are text: there are no zero bytes in them (only after). */
          if (std::string::npos != m.pending.find('\0')) break;
          m.term = (LineTerm) s.u(4);
          if (m.term != LineTerm::ZEROBYTE) stream.erase(std::remove(stream.begin(), stream.end(), '\0'), stream.end());
          r.con->setRXTerminator(m.term);
          CHECK(r.con->getRXTerminator() == m.term, "getRXTerminator()");
          note("terminator %s", lineTerminatorNameStr(m.term));
        }
        break;
      default:
        r.out.mode = (int8_t) (s.b(70) ? 1 : -1);
        break;
    }
    check_history(r);
  }
  StringBuilder log;
  r.con->fetchLog(&log);
  if (m.unknown) label("unknown command");
  if (m.short_args) label("too few arguments");
  if (m.overflows) label("overflow");
  if (multi) label("several lines in a push");
  if (split) label("a push that ends in the middle of a line");
  if (bs) label("backspace");
  if (longest > 255) label("a push of more than 255 bytes");
  if (m.term == LineTerm::ZEROBYTE) label("zero-byte terminator");
  if (split && (m.unknown || m.short_args || bs || multi)) nontrivial();
}


TARGET_F(K02, output, 4000, 100000, F_LEAK) {
  Rig r;
  calls = &r.got;
  Model& m = r.m;
  m.max_len = 400;
  r.con.reset(new ParsingConsole(m.max_len));
  define(s, r.con.get(), m, r.names, r.own, &r.block);
  const bool attached = s.b(60);
  if (attached) r.con->setEfferant(&r.out);
  std::string want, seen;     // all that should have come out; and what fetchLog() gave
  unsigned blocked = 0, kept = 0, wr = 0;
  unsigned step = 0;
  while (more(s, step, 30, 10)) {
    switch (s.weighted({6, 3, 2, 2})) {
      case 0: {
          const Def& d = m.defs[s.u((uint32_t) m.defs.size())];
          const unsigned na = d.req + s.u(3);
          std::string line = d.name;
          for (unsigned i = 0; i < na; i++) line += " " + some_word(s);
          if (line.size() >= m.max_len) break;
          const Def* f = m.find(d.name);
          const bool enough = na >= f->req;
          std::vector<Call> w;
          m.feed(line + "\n", w);
          r.got.clear();
          cb_ret = 0;
          StringBuilder buf;
          frag(s, &buf, line + "\n");
          note("run %s", quote(line).c_str());
          CHECK(1 == r.con->pushBuffer(&buf), "pushBuffer()");
          if (enough) want += "\nran " + std::to_string(f->which) + " with " + std::to_string(na) + "\n";
          else discard();       // the error has help in it
        } break;
      case 1: {
          const std::string t = s.b(2) ? s.filler(s.large(70000), "abc %\n") : s.text(s.size(40), "abc %\n");
          StringBuilder b;
          frag(s, &b, t);
          note("print %s", quote(t).c_str());
          r.con->printToLog(&b);
          CHECK(0 == b.length(), "printToLog() didn't take its log");
          want += t;
        } break;
      case 2:
        r.out.mode = (int8_t) (s.b(60) ? 1 : -1);
        note("mode %d", r.out.mode);
        break;
      default: {
          StringBuilder l;
          r.con->fetchLog(&l);
          const std::string t = flat(&l);
          note("fetch %zu", t.size());
          if (!t.empty()) kept++;
          seen += t;
          /* Fetched text comes after what went out before. */
          CHECK(r.out.got + seen == want || !attached || kept, "log");
          if (!attached) CHECK(seen == want, "fetchLog() gave %s, and %s was written", quote(seen).c_str(), quote(want).c_str());
          else {
            CHECK(r.out.got + t == want, "%s went out, fetchLog() gave %s, and %s was written", quote(r.out.got).c_str(), quote(t).c_str(), quote(want).c_str());
            want = r.out.got;       // what was fetched won't go out
          }
        } break;
    }
    wr = (unsigned) want.size();
    if (attached && r.out.got != want) blocked++;
    if (attached && (r.out.got.size() < want.size())) CHECK(0 == want.compare(0, r.out.got.size(), r.out.got), "%s went out, and %s was written", quote(r.out.got).c_str(), quote(want).c_str());
    if (!attached) CHECK(0 == r.out.pushes, "output went to an accepter that isn't attached");
  }
  if (attached) {
    r.out.mode = 1;
    r.con->printToLog(nullptr);
    CHECK(r.out.got == want, "%s went out, and %s was written", quote(r.out.got).c_str(), quote(want).c_str());
  }
  if (attached) label("attached");
  if (blocked) label("blocked output");
  if (wr && (blocked || kept)) nontrivial();
}

/* The configuration command changes the setting it names, and no other. */
TARGET_F(K02, settings, 4000, 100000, F_LEAK) {
  Rig r;
  calls = &r.got;
  Model& m = r.m;
  m.max_len = 200;
  r.con.reset(new ParsingConsole(m.max_len));
  define(s, r.con.get(), m, r.names, r.own, &r.block);
  bool force = false;
  unsigned changes = 0, hist = 0;
  unsigned step = 0;
  while (more(s, step, 30, 10)) {
    std::vector<std::string> a;
    switch (s.u(9)) {
      case 0: case 1: case 2: case 3: {
          const unsigned k = s.u(4);
          const bool set = s.b(75), v = s.b(50);
          static const char* N[4] = {"echo", "help-on-fail", "prompt", "force"};
          a.push_back(N[k]);
          if (set) {
            a.push_back(v ? std::to_string(1 + s.u(3)) : "0");
            bool* f[4] = {&m.echo, &m.help_fail, &m.prompt, &force};
            if (*f[k] != v) changes++;
            *f[k] = v;
          }
        } break;
      case 4: {
          a.push_back("history");
          a.push_back("depth");
          if (s.b(80)) {
            m.depth = s.b(80) ? s.u(6) : s.u(256);
            a.push_back(std::to_string(m.depth));
            while (m.history.size() > m.depth) m.history.pop_front();
            changes++;
          }
        } break;
      case 5: {
          a.push_back("history");
          a.push_back("logerrors");
          if (s.b(80)) {
            const bool v = s.b(50);
            a.push_back(v ? "1" : "0");
            m.hist_fail = v;
            changes++;
          }
        } break;
      case 6:
        a.push_back("history");
        if (s.b(70)) {
          a.push_back("clear");
          m.history.clear();
        }
        break;
      case 7: {
          a.push_back("rxterm");
          if (s.b(80)) {
            const unsigned t = s.u(6);
            a.push_back(std::to_string(t));
            if (t < 4) {  m.term = (LineTerm) t;  changes++;  }
          }
        } break;
      default: {
          std::string l = some_line(s, m);
          l += m.terminator();
          const bool e = m.echo;
          push(s, r, l);
          (void) e;
          if (!m.history.empty()) hist++;
        } break;
    }
    if (!a.empty()) {
      std::string t;
      StringBuilder args, out;
      for (auto& x : a) {
        std::string y = x;
        if (s.b(15)) for (char& c : y) if (c >= 'a' && c <= 'z') c = (char) (c - 32);
        StringBuilder one((char*) y.c_str());
        args.concatHandoff(&one);
        t += " " + y;
      }
      note("conf%s", t.c_str());
      CHECK(0 == r.con->console_handler_conf(&out, &args), "conf%s failed", t.c_str());
      CHECK(out.length() > 0 || (a.size() == 1 && a[0] == "history"), "conf%s reported nothing", t.c_str());
    }
    CHECK(r.con->localEcho() == m.echo, "localEcho() %d", r.con->localEcho());
    CHECK(r.con->printHelpOnFail() == m.help_fail, "printHelpOnFail() %d", r.con->printHelpOnFail());
    CHECK(r.con->emitPrompt() == m.prompt, "emitPrompt() %d", r.con->emitPrompt());
    CHECK(r.con->forceReturn() == force, "forceReturn() %d", r.con->forceReturn());
    CHECK(r.con->historyFail() == m.hist_fail, "historyFail() %d", r.con->historyFail());
    CHECK(r.con->getRXTerminator() == m.term, "getRXTerminator() %d", (int) r.con->getRXTerminator());
    check_history(r);
  }
  StringBuilder out, bad((char*) "no-such-setting"), none;
  CHECK(0 != r.con->console_handler_conf(&out, &bad), "an unknown setting was accepted");
  /* Help names every command. */
  StringBuilder help;
  r.con->console_handler_help(&help, &none);
  const std::string h = flat(&help);
  for (auto& d : m.defs) {
    CHECK(std::string::npos != h.find("\n" + d.name + " "), "the help (%s) doesn't have %s", quote(h).c_str(), quote(d.name).c_str());
  }
  if (!m.defs.empty()) {
    const Def& d = m.defs[s.u((uint32_t) m.defs.size())];
    StringBuilder one, arg((char*) d.name.c_str());
    r.con->console_handler_help(&one, &arg);
    CHECK(std::string::npos != flat(&one).find("params"), "the help for %s is %s", quote(d.name).c_str(), quote(flat(&one)).c_str());
  }
  if (changes > 1 && hist) nontrivial();
}
