#ifndef VERIF_C05_ORDER_H_
#define VERIF_C05_ORDER_H_
#include <cstddef>
#include <cstdint>
namespace brunsli {
bool v_dec_order(uint32_t* order);
bool v_dec_order_native(const uint8_t* words, size_t n, uint32_t* order);
}
// Side-channel bits between encoder and decoder.  An item is one single bit, or the digits d1 d2 .. dk of 3 bits with
// d1 = .. = d(k-1) = 7 and dk < 7: their sum determines them.
struct Tape {
  size_t item;
  uint32_t partial;  // sum of the digits of the current item so far
  uint8_t nbits[80];
  uint32_t sum[80];
};
extern Tape v_tape;
// ghost Lehmer code and permutation shared by the replaced ComputeLehmerCode and DecodeLehmerCode
struct GhostLehmer {
  uint32_t code[64], sigma[64];
  bool valid;
};
extern GhostLehmer v_lehmer;
#endif
