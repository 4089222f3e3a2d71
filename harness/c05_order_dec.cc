// Decoder side of the coefficient order contract.
#include "c/dec/brunsli_decode.cc"
#include "v.h"
#include "c05_order.h"
namespace brunsli {
bool v_dec_order(uint32_t* order) {
  BitSource br;
  br.val_ = 0;
  br.bit_pos_ = 0;
  WordSource in(NULL, 0, false);
  return DecodeCoeffOrder(order, &br, &in);
}
bool v_dec_order_native(const uint8_t* words, size_t n, uint32_t* order) {
  WordSource in(words, n, false);
  BitSource br;
  br.Init(&in);
  return DecodeCoeffOrder(order, &br, &in) && !in.error_ && in.pos_ == n && br.Finish();
}
}  // namespace brunsli
