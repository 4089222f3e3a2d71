#ifndef VERIF_C08_H_
#define VERIF_C08_H_
#include <cstddef>
#include <cstdint>
namespace brunsli {
void v_dec_open(size_t tables, size_t comps, const uint8_t* precision);
int v_dec_step(bool last);  // runs DecodeQuantDataSection until the tape limit; 1 done, 0 suspended, -1 refused
void v_dec_at(size_t table, size_t k, int delta, uint8_t wide, uint8_t pred);  // put it before coefficient k
bool v_dec_is_at(size_t table, size_t k, int delta, uint8_t wide);
bool v_dec_is_after(size_t table, uint8_t wide);
int v_dec_pred(size_t k);
int v_dec_value(size_t table, size_t k);
void v_dec_set_value(size_t table, size_t k, int v);
size_t v_dec_quant_idx(size_t c);
bool v_dec_native(const uint8_t* data, size_t len, size_t tables, size_t comps, const uint8_t* precision);
}
// Ghost copy of the bits between EncodeQuantTables and DecodeQuantDataSection: a slot is a fixed-width field or a varint
// (nbits 0).  A zero in a gate slot means that the following gate[slot] slots are not stored.
struct V_Tape {
  size_t slot, limit;
  uint8_t nbits[400], gate[400];
  uint32_t value[400];
};
extern V_Tape v_tape;
#endif
