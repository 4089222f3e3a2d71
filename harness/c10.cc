// C10: metadata.  Real code: TransformApp0Marker, TransformApp2Marker, TransformApp12Marker, TransformApp14Marker,
// TransformAppMarker, EncodeMetaData (c/enc/brunsli_encode.cc), GenerateApp0Marker, GenerateAppMarker, ProcessMetaData
// (c/dec/brunsli_decode.cc).
#include "c/dec/brunsli_decode.cc"
#include "c10.h"
using namespace brunsli;
using brunsli::internal::dec::MetadataState;

typedef std::vector<uint8_t> Bytes;
static void set_bytes(Bytes* v, uint8_t* p, size_t n) {
  v->_M_impl._M_start = p;
  v->_M_impl._M_finish = p + n;
  v->_M_impl._M_end_of_storage = p + n;
}
static void drop_bytes(Bytes* v) { v->_M_impl._M_start = v->_M_impl._M_finish = v->_M_impl._M_end_of_storage = NULL; }

static const size_t kMax = 70000;
// The template short forms: whatever segment has one, the decoder expands it back to exactly that segment.
template <class T>
static void short_form(size_t size, T transform) {
  const size_t n = v_range("n", 0, 64, 0, 4000);
  if (v_native()) v_assume(n == size || n < 30);
  uint8_t* p = (uint8_t*)v_array("segment", 1, 4000);
  Bytes s, out;
  set_bytes(&s, p, n);
  const bool yes = transform(s, &out);
  if (yes) {
    v_assert(n == size, "only-segments-of-the-template-size");
    v_assert(out.size() == (size == 17 ? 1 : 2), "short-form-size");
    Bytes back;
    if (size == 17) {
      v_assert(out[0] < 0x40, "short-form-is-a-short-marker");
      back = GenerateApp0Marker(out[0]);
    } else {
      v_assert(out[0] == (size == 3161 ? 0x80 : size == 18 ? 0x81 : 0x82), "short-form-is-a-short-marker");
      back = GenerateAppMarker(out[0], out[1]);
    }
    v_cover("short");
    v_assert(back.size() == n, "expands-to-the-same-size");
    bool same = true;
    for (size_t k = 0; k < size; ++k) same = same & (back[k] == p[k]);
    v_assert(same, "expands-to-the-same-bytes");
  }
  drop_bytes(&s);
}
HARNESS(c10_app0) { short_form(17, v_enc_app0); }
HARNESS(c10_app2) { short_form(3161, v_enc_app2); }
HARNESS(c10_app12) { short_form(18, v_enc_app12); }
HARNESS(c10_app14) { short_form(15, v_enc_app14); }

// One segment handed to the decoder in two pieces, cut anywhere; the decoder is between segments before and after it.
static void feed(MetadataState* ms, JPEGData* jpg, const uint8_t* p, size_t n, size_t cut) {
  v_assert(ProcessMetaData(p, cut, ms, jpg), "accepted");
  v_assert(ProcessMetaData(p + cut, n - cut, ms, jpg), "accepted");
}
static void any_counts(MetadataState* ms) {
  ms->short_marker_count = v_range("short_markers", 0, 64, 0, kBrunsliShortMarkerLimit - 1);
  ms->marker = (uint8_t)v_nondet("old_marker", 0, 8);
  ms->length_hi = (uint8_t)v_nondet("old_length", 0, 8);
  ms->remaining_multibyte_length = 0;
  ms->stage = MetadataState::READ_MARKER;
}
HARNESS(c10_segment) {
  const size_t n = v_range("n", 0, 64, 3, v_native() ? 300 : 65536);
  uint8_t* p = (uint8_t*)v_array("segment", 1, 65536);
  const bool com = v_nondet("com", 0, 1);
  p[0] = com ? 0xFE : (uint8_t)v_range("type", 0, 8, 0xE0, 0xEF);
  p[1] = (uint8_t)((n - 1) >> 8);
  p[2] = (uint8_t)(n - 1);
  const size_t cut = v_range("cut", 0, 64, 0, 65536);
  v_assume(cut <= n);
  const size_t k = v_range("k", 0, 64, 0, 65535);
  v_assume(k < n);
  const uint8_t orig = p[k];
  MetadataState ms;
  JPEGData jpg;
  any_counts(&ms);
  ms.short_marker_count = 0;
  feed(&ms, &jpg, p, n, cut);
  v_cover("done");
  v_assert(ms.stage == MetadataState::READ_MARKER && ms.short_marker_count == 0, "between-segments-again");
  v_assert(jpg.app_data.size() == (com ? 0 : 1) && jpg.com_data.size() == (com ? 1 : 0), "one-segment");
  const Bytes& got = com ? jpg.com_data[0] : jpg.app_data[0];
  v_assert(got.size() == n, "segment-size");
  v_assert(got[k] == orig, "segment-bytes");
}
// Any part of a segment's payload, with any amount received before.
HARNESS(c10_payload) {
  const size_t max = v_native() ? 300 : 65533;
  const size_t have = v_range("have", 0, 64, 3, max);
  const size_t left = v_range("left", 0, 64, 1, max);
  const size_t n = v_range("n", 0, 64, 1, max);
  v_assume(n <= left && have + left <= 65536);
  uint8_t* p = (uint8_t*)v_array("piece", 1, 65536);
  uint8_t* q = (uint8_t*)v_array("received", 1, 65536);
  const size_t k = v_range("k", 0, 64, 0, 2 * max);
  v_assume(k < have + n);
  const uint8_t want = k < have ? q[k] : p[k - have];
  MetadataState ms;
  JPEGData jpg;
  any_counts(&ms);
  const size_t shorts = ms.short_marker_count;
  ms.stage = MetadataState::READ_MULTIBYTE;
  ms.remaining_multibyte_length = left;
  Bytes sink;
  if (v_native()) sink.assign(q, q + have); else set_bytes(&sink, q, have);
  ms.multibyte_sink = &sink;
  v_assert(ProcessMetaData(p, n, &ms, &jpg), "accepted");
  v_cover("taken");
  v_assert(sink.size() == have + n, "all-bytes-are-appended");
  v_assert(sink[k] == want, "bytes-are-appended-unchanged");
  v_assert(ms.remaining_multibyte_length == left - n, "remaining-length");
  v_assert(ms.stage == (n == left ? MetadataState::READ_MARKER : MetadataState::READ_MULTIBYTE), "segment-ends-where-declared");
  v_assert(ms.short_marker_count == shorts && jpg.app_data.empty() && jpg.com_data.empty() && jpg.tail_data.empty(), "nothing-else");
  if (!v_native()) drop_bytes(&sink);
}
// A short form, handed over in one or two pieces.
HARNESS(c10_short) {
  uint8_t p[2];
  p[0] = (uint8_t)v_nondet("marker", 0, 8);
  p[1] = (uint8_t)v_nondet("code", 0, 8);
  v_assume(p[0] < 0x40 || (p[0] >= 0x80 && p[0] <= 0x82));
  const size_t n = p[0] < 0x40 ? 1 : 2;
  const size_t cut = v_concrete(v_range("cut", 0, 64, 0, 2), 0, 2);
  v_assume(cut <= n);
  MetadataState ms;
  JPEGData jpg;
  any_counts(&ms);
  const size_t shorts = ms.short_marker_count;
  feed(&ms, &jpg, p, n, cut);
  v_cover("done");
  v_assert(ms.stage == MetadataState::READ_MARKER && ms.short_marker_count == shorts + 1, "between-segments-again");
  v_assert(jpg.app_data.size() == 1 && jpg.com_data.empty() && jpg.tail_data.empty(), "one-segment");
  const Bytes want = n == 1 ? GenerateApp0Marker(p[0]) : GenerateAppMarker(p[0], p[1]);
  const Bytes& got = jpg.app_data[0];
  v_assert(got.size() == want.size() && got.size() == (n == 1 ? 17u : p[0] == 0x80 ? 3161u : p[0] == 0x81 ? 18u : 15u), "segment-size");
  v_assert(got == want, "segment-bytes");
}
// The tail takes everything that follows it.
HARNESS(c10_tail) {
  const size_t max = v_native() ? 300 : (1u << 30);
  const size_t have = v_range("have", 0, 64, 0, max);
  const size_t n = v_range("n", 0, 64, 1, max);
  uint8_t* p = (uint8_t*)v_array("piece", 1, 1u << 30);
  uint8_t* q = (uint8_t*)v_array("received", 1, 1u << 30);
  MetadataState ms;
  JPEGData jpg;
  any_counts(&ms);
  const uint8_t start = 0xD9;
  v_assert(ProcessMetaData(&start, 1, &ms, &jpg), "accepted");
  v_assert(ms.stage == MetadataState::READ_TAIL && jpg.tail_data.empty(), "tail-starts-empty");
  const size_t k = v_range("k", 0, 64, 0, 2 * max);
  v_assume(k < have + n);
  const uint8_t want = k < have ? q[k] : p[k - have];
  if (v_native()) jpg.tail_data.assign(q, q + have); else set_bytes(&jpg.tail_data, q, have);
  v_assert(ProcessMetaData(p, n, &ms, &jpg), "accepted");
  v_cover("taken");
  v_assert(jpg.tail_data.size() == have + n && jpg.tail_data[k] == want, "bytes-are-appended-unchanged");
  v_assert(ms.stage == MetadataState::READ_TAIL && jpg.app_data.empty() && jpg.com_data.empty(), "tail-goes-on");
  if (!v_native()) drop_bytes(&jpg.tail_data);
}
// What is not a marker is refused, and so is more than the format's limits.
HARNESS(c10_refuse) {
  uint8_t p[3];
  for (size_t i = 0; i < 3; ++i) p[i] = (uint8_t)v_nondet("bytes", i, 8);
  MetadataState ms;
  JPEGData jpg;
  any_counts(&ms);
  ms.short_marker_count = v_range("shorts", 0, 64, 0, kBrunsliShortMarkerLimit);
  const size_t shorts = ms.short_marker_count;
  const bool ok = ProcessMetaData(p, 3, &ms, &jpg);
  const uint8_t m = p[0];
  const bool one = m < 0x40, two = m >= 0x80 && m <= 0x82, tail = m == 0xD9, many = m == 0xFE || (m >> 4) == 0xE;
  if (ok) {
    v_cover("accepted");
    v_assert(one || two || tail || many, "only-known-markers");
    v_assert(ms.short_marker_count <= kBrunsliShortMarkerLimit, "short-form-limit");
    v_assert(!(one || two) || shorts < kBrunsliShortMarkerLimit, "short-form-limit");
    if (many) v_assert((p[1] << 8) + p[2] >= 2, "length-includes-itself");
  } else {
    v_cover("refused");
    // (no segment has been stored yet)
    if (many && shorts == 0) v_assert((p[1] << 8) + p[2] < 2, "good-segment-is-accepted");
    v_assert(!tail, "tail-is-accepted");
    if (two && shorts < kBrunsliShortMarkerLimit - 1) {
      const uint8_t m2 = p[2];
      v_assert(!(m2 < 0x40 || (m2 >= 0x80 && m2 <= 0x82) || m2 == 0xD9 || m2 == 0xFE || (m2 >> 4) == 0xE), "known-marker-is-accepted");
    }
  }
}

// DecodeMetaDataSection around the external decompressor.  The decompressor and ProcessMetaData are used through their
// contracts; a second round of the loop starts from a state this harness starts from, so it ends at the second call.
static struct {
  uint32_t calls;
  int result;
  const uint8_t* chunk;
  size_t chunk_size, offered, used, processed, before;
  bool valid, taken, can_finish;
  internal::dec::State* state;
  MetadataState* ms;
} g10;
extern "C" BrotliDecoderResult c10_stream(BrotliDecoderState*, size_t* available_in, const uint8_t** next_in, size_t* available_out,
                                          uint8_t** next_out, size_t* total_out) {
  internal::dec::State* state = g10.state;
  v_assert(*available_out == 0 && next_out == NULL, "output-is-taken-afterwards");
  v_assert(*next_in == state->data + state->pos, "input-continues-where-the-last-stopped");
  v_assert(*available_in <= state->len - state->pos, "only-existing-input");
  v_assert(state->pos + *available_in <= state->internal->section.projected_end, "only-the-section");
  v_assert(g10.ms->decompressed_size <= g10.ms->metadata_size, "not-more-than-declared-so-far");
  v_assert(*available_in == std::min(state->len - state->pos, state->internal->section.projected_end - state->pos), "all-available-input-is-offered");
  if (g10.calls++ > 0) {
    v_assert(g10.processed == 1 && g10.result == BROTLI_DECODER_RESULT_NEEDS_MORE_OUTPUT, "goes-on-only-for-more-output");
    v_assume(false);
  }
  g10.offered = *available_in;
  g10.used = (size_t)v_range("used", 0, 64, 0, v_native() ? 4 : 1ull << 40);
  v_assume(g10.used <= g10.offered);
  *available_in -= g10.used;
  *next_in += g10.used;
  g10.result = (int)v_range("result", 0, 32, 0, 3);
  // the external decoder asks for more input only after it has taken all it was given
  if (g10.result == BROTLI_DECODER_RESULT_NEEDS_MORE_INPUT) v_assume(g10.used == g10.offered);
  return (BrotliDecoderResult)g10.result;
}
extern "C" const uint8_t* c10_take(BrotliDecoderState*, size_t* size) {
  v_assert(!g10.taken && *size == 0, "takes-everything-there-is");
  g10.taken = true;
  g10.chunk_size = (size_t)v_range("chunk", 0, 64, 0, v_native() ? 4 : 1ull << 40);
  *size = g10.chunk_size;
  return g10.chunk;
}
extern "C" bool c10_process(const uint8_t* data, size_t len, MetadataState* ms, JPEGData*) {
  v_assert(data == g10.chunk && len == g10.chunk_size && ms == g10.ms && g10.taken, "processes-what-was-decompressed");
  ++g10.processed;
  g10.valid = v_nondet("valid", 0, 1);
  ms->stage = (size_t)v_range("stage", 0, 64, 0, 5);
  return g10.valid;
}
extern "C" void c10_destroy(BrotliDecoderState*) { g10.before += 1; }
HARNESS(c10_section) {
  internal::dec::State state;
  internal::dec::InternalState& s = *state.internal;
  MetadataState& ms = s.metadata;
  uint8_t byte[1], chunk[1];
  JPEGData jpg;
  const size_t max = v_native() ? 8 : 1ull << 40;
  state.len = v_range("len", 0, 64, 0, max);
  state.pos = v_range("pos", 0, 64, 0, max);
  v_assume(state.pos <= state.len);
  uint8_t* data = (uint8_t*)v_array("data", 1, 1ull << 40);
  state.data = data;
  s.section.projected_end = v_range("end", 0, 64, 0, 2 * max);
  v_assume(state.pos <= s.section.projected_end);
  ms.decompression_stage = internal::dec::MetadataDecompressionStage::DECOMPRESSING;
  ms.metadata_size = v_range("declared", 0, 64, 0, max);
  ms.decompressed_size = v_range("decompressed", 0, 64, 0, max);
  v_assume(ms.decompressed_size <= ms.metadata_size);
  ms.brotli = (BrotliDecoderState*)byte;
  ms.stage = (size_t)v_range("stage_before", 0, 64, 0, 5);
  const size_t before = ms.decompressed_size, pos = state.pos;
  g10.calls = 0;
  g10.chunk = chunk;
  g10.processed = g10.before = 0;
  g10.taken = false;
  g10.state = &state;
  g10.ms = &ms;
  const BrunsliStatus r = DecodeMetaDataSection(&state, &jpg);
  if (r == BRUNSLI_OK) {
    v_cover("finished");
    v_assert(g10.result == BROTLI_DECODER_RESULT_SUCCESS, "compressed-stream-is-complete");
    v_assert(g10.processed == 1 && g10.valid, "everything-was-processed");
    v_assert(before + g10.chunk_size == ms.metadata_size, "declared-size-is-exact");
    v_assert(pos + g10.used == s.section.projected_end && state.pos == s.section.projected_end, "section-is-consumed");
    v_assert(ms.stage == MetadataState::READ_MARKER || ms.stage == MetadataState::READ_TAIL, "no-segment-is-cut");
    v_assert(ms.decompression_stage == internal::dec::MetadataDecompressionStage::DONE, "done");
  } else if (r == BRUNSLI_NOT_ENOUGH_DATA) {
    v_cover("suspended");
    v_assert(g10.result == BROTLI_DECODER_RESULT_NEEDS_MORE_INPUT && g10.processed == 1 && g10.valid, "only-when-starved");
    v_assert(state.pos == pos + g10.used && state.pos == state.len, "input-is-used-up");
    v_assert(state.pos < s.section.projected_end, "section-goes-on");
    v_assert(ms.decompressed_size == before + g10.chunk_size && ms.decompressed_size <= ms.metadata_size, "size-is-tracked");
    v_assert(ms.decompression_stage == internal::dec::MetadataDecompressionStage::DECOMPRESSING && g10.before == 0, "resumes-here");
  } else {
    v_cover("refused");
    v_assert(r == BRUNSLI_INVALID_BRN, "refused");
    v_assert(ms.decompression_stage == internal::dec::MetadataDecompressionStage::DONE, "done");
    const bool bad = g10.result == BROTLI_DECODER_RESULT_ERROR || before + g10.chunk_size > ms.metadata_size || !g10.valid ||
                     (g10.result == BROTLI_DECODER_RESULT_SUCCESS &&
                      (before + g10.chunk_size != ms.metadata_size || pos + g10.used != s.section.projected_end || !ms.CanFinish())) ||
                     (g10.result == BROTLI_DECODER_RESULT_NEEDS_MORE_INPUT && pos + g10.used == s.section.projected_end);
    v_assert(bad, "good-section-is-accepted");
  }
  v_assert(r == BRUNSLI_NOT_ENOUGH_DATA || (g10.before == 1 && ms.brotli == NULL), "decoder-is-released");
  ms.brotli = NULL;
}
