/*
* The platform functions that an application of CppPotpourri has to provide,
* under control of the harness: time only moves when the harness (or a sleep)
* moves it, and randomness is a function of a per-case seed.
*/
#include "pbt.h"
#include <string.h>
#include "AbstractPlatform.h"
#include "StringBuilder.h"

namespace pbt {
uint64_t sim_micros = 0;
uint64_t sim_tick   = 0;
std::string* sim_log = nullptr;
static uint64_t prng = 1;
void platform_rng(uint64_t seed) {  prng = seed * 2 + 1;  }
void platform_reset() {
  sim_micros = 1000000;
  sim_tick   = 0;
  sim_log    = nullptr;
  platform_rng(12345);
}
static uint8_t rnd8() {
  prng = prng * 6364136223846793005ULL + 1442695040888963407ULL;
  return (uint8_t) (prng >> 56);
}
}

uint32_t randomUInt32() {
  uint32_t r = 0;
  for (int i = 0; i < 4; i++) r = (r << 8) | pbt::rnd8();
  return r;
}
int8_t random_fill(uint8_t* buf, size_t len) {
  for (size_t i = 0; i < len; i++) buf[i] = pbt::rnd8();
  return 0;
}
long unsigned micros() {
  const uint64_t r = pbt::sim_micros;
  pbt::sim_micros += pbt::sim_tick;
  return (long unsigned) r;
}
long unsigned millis() {
  const uint64_t r = pbt::sim_micros;
  pbt::sim_micros += pbt::sim_tick;
  return (long unsigned) (r / 1000);
}
void sleep_ms(uint32_t ms) {  pbt::sim_micros += (uint64_t) ms * 1000;  }
void sleep_us(uint32_t us) {  pbt::sim_micros += us;  }
void c3p_log(uint8_t severity, const char* tag, StringBuilder* msg) {
  if (pbt::sim_log) {
    *pbt::sim_log += (char) ('0' + (severity % 10));
    *pbt::sim_log += ' ';
    *pbt::sim_log += tag;
    *pbt::sim_log += ' ';
    *pbt::sim_log += (const char*) msg->string();
    *pbt::sim_log += '\n';
  }
}
