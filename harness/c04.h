#ifndef VERIF_C04_H_
#define VERIF_C04_H_
#include "c/dec/bit_reader.h"
#include "v.h"
namespace brunsli {
// A bit reader over a buffer that arrives in two parts.
struct VBits {
  BrunsliBitReader br;
  const uint8_t* data;
  size_t n, first, used;
  bool second;
  void start(const uint8_t* d, size_t total, size_t split, size_t skip) {
    data = d;
    n = total;
    first = split;
    second = split == total;
    BrunsliBitReaderInit(&br);
    BrunsliBitReaderResume(&br, data, first);
    if (skip) BrunsliBitReaderRead(&br, (uint32_t)skip);
  }
  bool resume() {
    if (second) return false;
    second = true;
    const size_t unused = BrunsliBitReaderSuspend(&br);
    v_assert(unused <= first, "suspend-returns-at-most-the-chunk");
    used = first - unused;
    BrunsliBitReaderResume(&br, data + used, n - used);
    return true;
  }
  // number of bits consumed so far, from the start of data
  size_t position() {
    const bool healthy = BrunsliBitReaderIsHealthy(&br);
    v_assert(healthy, "reader-stays-healthy");
    return 8 * (size_t)(br.next_ - data) - br.num_bits_;
  }
};
bool v_dec_varint(VBits* v, size_t max_bits, size_t* value);
bool v_dec_limited8(VBits* v, size_t max_symbols, size_t* value);
bool v_dec_limited2(VBits* v, size_t max_symbols, size_t* value);
uint32_t v_dec_u8(VBits* v);
int v_dec_base128(const uint8_t* data, size_t len, size_t pos, size_t* value, size_t* newpos);
}  // namespace brunsli
#endif
