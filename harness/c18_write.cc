// C18: WriteJpeg (c/dec/jpeg_data_writer.cc) hands everything SerializeJpeg produces to the callback.
#include "c/dec/jpeg_data_writer.cc"
#include "v.h"
using namespace brunsli;
namespace {
const JPEGData* v_jpg;
int v_rounds, v_last_status, v_data;
size_t v_produced;
const uint8_t* v_buf;
internal::dec::State* v_state;
bool v_pending, v_short, v_failed;
}  // namespace
extern "C" internal::dec::SerializationStatus c18_serialize(internal::dec::State* state, const JPEGData* jpg, size_t* available_out,
                                                            uint8_t** next_out) {
  v_assert(jpg == v_jpg && state->stage == internal::dec::Stage::DONE, "whole-image-is-there");
  v_assert(!v_pending && !v_short && !v_failed, "everything-before-was-taken");
  if (v_rounds > 0) {
    v_assert(v_last_status == (int)internal::dec::SerializationStatus::NEEDS_MORE_OUTPUT && state == v_state, "same-state-goes-on");
  }
  v_assert(*available_out > 0, "has-room");
  // the loop of WriteJpeg carries no other state: the second round stands for every later one
  if (++v_rounds == 3) v_assume(false);
  v_state = state;
  v_buf = *next_out;
  v_produced = v_nondet("produced", v_rounds, 64);
  v_assume(v_produced <= *available_out);
  *next_out += v_produced;
  *available_out -= v_produced;
  v_last_status = (int)v_range("status", v_rounds, 2, 0, 3);
  const bool fine = v_last_status == (int)internal::dec::SerializationStatus::DONE ||
                    v_last_status == (int)internal::dec::SerializationStatus::NEEDS_MORE_OUTPUT;
  v_failed = !fine;
  v_pending = fine && v_produced > 0;
  return (internal::dec::SerializationStatus)v_last_status;
}
static size_t c18_sink(void* data, const uint8_t* buf, size_t size) {
  v_assert(data == &v_data && v_pending && buf == v_buf && size == v_produced, "exactly-what-was-produced");
  v_pending = false;
  const size_t r = v_nondet("taken", v_rounds, 64);
  if (r != size) v_short = true;
  return r;
}
HARNESS(c18_write) {
  if (v_native()) return;  // drv_sink
  v_rounds = 0;
  v_pending = v_short = v_failed = false;
  JPEGData jpg;
  v_jpg = &jpg;
  const bool ok = WriteJpeg(jpg, JPEGOutput(c18_sink, &v_data));
  if (ok) {
    v_cover("success");
    v_assert(!v_pending && !v_short && !v_failed && v_last_status == (int)internal::dec::SerializationStatus::DONE, "success-means-delivered");
  } else {
    v_cover("failure");
    v_assert(v_short || v_failed, "fails-only-if-something-failed");
  }
}
