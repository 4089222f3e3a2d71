// Decoder side of C04: gives the harness access to functions local to brunsli_decode.cc.
#include "c/dec/brunsli_decode.cc"
#include "c04.h"
namespace brunsli {
bool v_dec_varint(VBits* v, size_t max_bits, size_t* value) {
  VarintState s;
  s.value = 77;
  bool ok = DecodeVarint(&s, &v->br, max_bits);
  if (!ok && v->resume()) ok = DecodeVarint(&s, &v->br, max_bits);
  *value = s.value;
  return ok;
}
template <size_t K>
static bool limited(VBits* v, size_t max_symbols, size_t* value) {
  VarintState s;
  s.value = 77;
  bool ok = DecodeLimitedVarint<K>(&s, &v->br, max_symbols);
  if (!ok && v->resume()) ok = DecodeLimitedVarint<K>(&s, &v->br, max_symbols);
  *value = s.value;
  return ok;
}
bool v_dec_limited8(VBits* v, size_t max_symbols, size_t* value) { return limited<8>(v, max_symbols, value); }
bool v_dec_limited2(VBits* v, size_t max_symbols, size_t* value) { return limited<2>(v, max_symbols, value); }
uint32_t v_dec_u8(VBits* v) { return DecodeVarLenUint8(&v->br); }
int v_dec_base128(const uint8_t* data, size_t len, size_t pos, size_t* value, size_t* newpos) {
  State state;
  state.data = data;
  state.len = len;
  state.pos = pos;
  BrunsliStatus st = DecodeBase128(&state, value);
  *newpos = state.pos;
  return st == BRUNSLI_OK ? 0 : st == BRUNSLI_NOT_ENOUGH_DATA ? 1 : 2;
}
}  // namespace brunsli
