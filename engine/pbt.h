/*
* pbt.h: a small property-based testing engine for 32-bit sanitized builds.
*
* A property is a function that draws all of its randomness from a Src. Every
* draw is one bounded integer (a "choice"); a case is fully described by its
* choice sequence, which is what gets mutated (coverage-guided phase), shrunk,
* saved as the replay file, and replayed. Draws past the end of a replayed
* sequence yield 0, which every generator maps to its simplest value.
*
* Cases run in forked children, so sanitizer aborts, signals and runaway loops
* in the code under test are ordinary failures that shrink like any other.
*/
#ifndef PBT_H
#define PBT_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <initializer_list>

namespace pbt {

class Src {
  public:
    /* Uniform in [0, max]. The only primitive. */
    uint64_t draw(uint64_t max);

    /* Uniform integer in [lo, hi]; shrinks towards lo. */
    int64_t  i(int64_t lo, int64_t hi) {  return lo + (int64_t) draw((uint64_t) (hi - lo));  }
    uint32_t u(uint32_t n) {              return (uint32_t) draw(n ? n - 1 : 0);            }
    /* True with pct% probability; shrinks to false. */
    bool     b(unsigned pct = 50) {       return draw(99) >= (100 - pct);                   }
    /* Skewed towards small: 0..hi, shrinks to 0. */
    uint32_t size(uint32_t hi);
    /* Interesting integer of the given bit width (boundaries, powers of two, small, random). */
    uint64_t word(unsigned bits);
    int64_t  sword(unsigned bits);
    /* Finite or special floats/doubles. */
    float    f32(bool specials = false);
    double   f64(bool specials = false);
    /* Weighted choice; returns the index. */
    unsigned weighted(std::initializer_list<unsigned> w);
    template <class T> T pick(std::initializer_list<T> l) {  return *(l.begin() + u((uint32_t) l.size()));  }
    template <class T> const T& pick(const std::vector<T>& l) {  return l[u((uint32_t) l.size())];  }
    /* Byte strings. */
    std::string bytes(uint32_t len);                         // any byte value
    std::string text(uint32_t len, const char* alphabet);    // from the alphabet
    /* Large sizes: near the limits of narrow integer types (and powers of two), or anything up to hi. */
    uint32_t large(uint32_t hi);
    /* size(hi), unless the target asked for large amounts: then every third or so is a large(big). */
    uint32_t big = 0;
    uint32_t amount(uint32_t hi) {  return (big && b(35)) ? large(big) : size(hi);  }
    /* Long content from one drawn seed, so that it costs (and shrinks) as a single choice. Null alphabet: any byte. */
    std::string filler(uint32_t len, const char* alphabet);
};

/* Loop control for op sequences: runs between 0 and max times with the given mean. */
bool more(Src& s, unsigned& n, unsigned max, unsigned mean);

[[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void label(const char* name);              // classify this case (counted once per case)
void nontrivial();                         // this case is non-trivial by the property's rule
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // history line, only kept when tracing
bool tracing();
bool thorough();                           // tier
void excluded(const char* finding_id);     // a known finding's input was excluded by construction
/* Skip the rest of this case (precondition unmet). */
[[noreturn]] void discard();

std::string hex(const void* p, size_t n, size_t max = 64);
std::string quote(const std::string& s, size_t max = 96);

enum { F_NONE = 0, F_LEAK = 1, F_NOGUIDE = 2 };

struct Target {
  const char* prop;
  const char* name;
  void (*fn)(Src&);
  uint64_t quick;       // cases, quick tier
  uint64_t thorough;    // cases, thorough tier
  unsigned flags;
  const char* kf;       // known finding id, for single-shot reproductions
};
struct Reg {  Reg(const Target&);  };

uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ULL);

/* Platform state owned by the harness (see platform.cpp). */
extern uint64_t sim_micros;          // what micros() returns (then advances by sim_tick)
extern uint64_t sim_tick;
void  platform_reset();              // called before every case
void  platform_rng(uint64_t seed);
extern std::string* sim_log;         // c3p_log() sink, if set

}  // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define TARGET_F(prop, name, quick, thor, flags) \
  static void PBT_CAT(t_, name)(pbt::Src& s); \
  static pbt::Reg PBT_CAT(r_, name)(pbt::Target{#prop, #name, PBT_CAT(t_, name), quick, thor, flags, nullptr}); \
  static void PBT_CAT(t_, name)(pbt::Src& s)
#define TARGET(prop, name, quick, thor) TARGET_F(prop, name, quick, thor, 0)
/* A plain deterministic regression case. */
#define REGRESSION(prop, name) \
  static void PBT_CAT(t_, name)(); \
  static void PBT_CAT(w_, name)(pbt::Src&) {  PBT_CAT(t_, name)();  } \
  static pbt::Reg PBT_CAT(r_, name)(pbt::Target{#prop, #name, PBT_CAT(w_, name), 1, 1, pbt::F_NOGUIDE, nullptr}); \
  static void PBT_CAT(t_, name)()
/* The reproduction of a recorded (unrepaired) finding: the check of the property on one specific input. */
#define FINDING(prop, kfid) \
  static void PBT_CAT(t_, kfid)(); \
  static void PBT_CAT(w_, kfid)(pbt::Src&) {  PBT_CAT(t_, kfid)();  } \
  static pbt::Reg PBT_CAT(r_, kfid)(pbt::Target{#prop, #kfid, PBT_CAT(w_, kfid), 1, 1, pbt::F_NOGUIDE, #kfid}); \
  static void PBT_CAT(t_, kfid)()

#define CHECK(cond, ...) do { if (!(cond)) { pbt::fail("" __VA_ARGS__); } } while (0)

#endif
