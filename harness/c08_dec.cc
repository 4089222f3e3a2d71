// Decoder side of the quantisation table contract.
#include "c/dec/brunsli_decode.cc"
#include "v.h"
#include "c08.h"
namespace brunsli {
static State* v_state;
static JPEGData* v_jpg;
void v_dec_open(size_t tables, size_t comps, const uint8_t* precision) {
  v_state = new State;
  v_jpg = new JPEGData;
  v_state->internal.reset(new internal::dec::InternalState);
  v_jpg->quant.resize(tables);
  for (size_t i = 0; i < tables; ++i) v_jpg->quant[i].precision = precision[i];
  v_jpg->components.resize(comps);
  v_state->data = NULL;
  v_state->len = v_state->pos = 0;
}
int v_dec_step(bool last) {
  v_state->internal->section.projected_end = last ? 0 : 1;
  BrunsliStatus status = DecodeQuantDataSection(v_state, v_jpg);
  return status == BRUNSLI_OK ? 1 : status == BRUNSLI_NOT_ENOUGH_DATA ? 0 : -1;
}
void v_dec_at(size_t table, size_t k, int delta, uint8_t wide, uint8_t pred) {
  internal::dec::QuantDataState& qs = v_state->internal->quant;
  if (qs.stage == internal::dec::QuantDataState::INIT) {
    BrunsliBitReaderInit(&qs.br);
    qs.predictor.resize(64);
  }
  qs.stage = internal::dec::QuantDataState::READ_DIFF_IS_ZERO;
  qs.i = table;
  qs.j = k;
  qs.delta = delta;
  qs.data_precision = wide;
  if (k < 64) qs.predictor[kJPEGNaturalOrder[k]] = pred;
}
bool v_dec_is_at(size_t table, size_t k, int delta, uint8_t wide) {
  internal::dec::QuantDataState& qs = v_state->internal->quant;
  return qs.stage == internal::dec::QuantDataState::READ_DIFF_IS_ZERO && qs.i == table && qs.j == k && qs.delta == delta &&
         qs.data_precision == wide;
}
bool v_dec_is_after(size_t table, uint8_t wide) {
  internal::dec::QuantDataState& qs = v_state->internal->quant;
  const bool last = table + 1 == v_jpg->quant.size();
  return qs.stage == (last ? internal::dec::QuantDataState::READ_QUANT_IDX : internal::dec::QuantDataState::READ_STOCK) &&
         qs.i == (last ? 0 : table + 1) && qs.data_precision == wide;
}
int v_dec_pred(size_t k) { return v_state->internal->quant.predictor[k]; }
int v_dec_value(size_t t, size_t k) { return v_jpg->quant[t].values[k]; }
void v_dec_set_value(size_t t, size_t k, int v) { v_jpg->quant[t].values[k] = v; }
size_t v_dec_quant_idx(size_t c) { return v_jpg->components[c].quant_idx; }
bool v_dec_native(const uint8_t* data, size_t len, size_t tables, size_t comps, const uint8_t* precision) {
  v_dec_open(tables, comps, precision);
  v_state->data = data;
  v_state->internal->section.projected_end = len;
  BrunsliStatus status = BRUNSLI_NOT_ENOUGH_DATA;
  size_t upto = 0;
  while (status == BRUNSLI_NOT_ENOUGH_DATA && upto <= len) {  // in pieces
    v_state->len = upto;
    status = DecodeQuantDataSection(v_state, v_jpg);
    if (upto == len) break;
    upto += 1 + (upto * 7) % 5;
    if (upto > len) upto = len;
  }
  return status == BRUNSLI_OK;
}
}  // namespace brunsli
extern "C" bool c08_read_varint(brunsli::internal::dec::VarintState* s, void*, size_t max_bits) {
  v_tape.slot = v_determined(v_tape.slot);
  v_assert(v_tape.nbits[v_tape.slot] == 0 && max_bits == 16, "reads-what-was-written");
  s->value = v_tape.value[v_tape.slot];
  ++v_tape.slot;
  return true;
}
