// C01: adaptive binary arithmetic coder is lossless.
// Real code: DataStream::AddBit / FlushArithmeticCoder (c/enc/brunsli_encode.cc),
// BinaryArithmeticDecoder (c/dec/arith_decode.h), Prob (c/common/distributions.h),
// WordSource (c/dec/brunsli_input.h).
#include <vector>
#include "c/enc/brunsli_encode.cc"
#include "c/dec/arith_decode.h"
#include "c/dec/brunsli_input.h"
#include "v.h"
using namespace brunsli;
using namespace brunsli::internal::enc;

// Data structure invariant of an adaptive probability.
static bool ProbInv(const Prob& p) {
  return p.total >= 3 && p.total < 254 && (uint32_t)p.count < 256u * p.total;
}
static void AnyProb(Prob* p) {
  p->prob8 = (uint8_t)v_nondet("prob8", 0, 8);
  p->total = (uint8_t)v_range("total", 0, 8, 3, 253);
  p->count = (uint16_t)v_nondet("count", 0, 16);
  v_assume(ProbInv(*p));
}

HARNESS(c01_prob_init) {
  Prob p;
  v_assert(ProbInv(p), "prob-constructor-establishes-invariant");
  Prob q;
  uint8_t v = (uint8_t)v_nondet("init", 0, 8);
  q.Init(v);
  v_assert(ProbInv(q), "prob-init-establishes-invariant");
  v_assert(q.get_proba() == v, "prob-init-sets-estimate");
  v_cover("prob-init");
}

HARNESS(c01_prob_add) {
  Prob p;
  AnyProb(&p);
  Prob q = p;
  int bit = (int)v_range("bit", 0, 32, 0, 1);
  v_cover("prob-add");
  p.Add(bit);
  v_assert(ProbInv(p), "prob-add-preserves-invariant");
  q.Add(bit);
  v_assert(p.prob8 == q.prob8 && p.total == q.total && p.count == q.count, "prob-add-deterministic");
}

// One AddBit from an arbitrary encoder state, against one ReadBit from the
// coupled decoder state.
HARNESS(c01_step) {
  Prob p;
  AnyProb(&p);
  const Prob p0 = p;
  const int prob = p.get_proba();
  DataStream ds;
  ds.Resize(8);
  ds.low_ = (uint32_t)v_nondet("low", 0, 32);
  ds.high_ = (uint32_t)v_nondet("high", 0, 32);
  // interval invariant: non-empty
  v_assume(ds.low_ < ds.high_);
  const uint32_t low = ds.low_, high = ds.high_;
  const int bit = (int)v_range("bit", 0, 32, 0, 1);
  v_lemma((((uint64_t)(high - low) * (uint8_t)prob) >> 8) < (uint64_t)(high - low), "split-below-width");
  ds.AddBit(&p, bit);
  v_cover("step");
  v_lemma(ds.low_ < ds.high_, "interval-stays-nonempty");
  const bool shifted = ds.pos_ != 3;
  v_assert(shifted ? ds.pos_ == 4 && ds.ac_pos0_ == 2 && ds.ac_pos1_ == 3
                   : ds.pos_ == 3 && ds.ac_pos0_ == 1 && ds.ac_pos1_ == 2,
           "word-slots-advance-in-order");
  v_assert(ds.bw_pos_ == 0 && ds.bw_val_ == 0 && ds.bw_bitpos_ == 0, "bit-writer-untouched");
  // What the rest of the stream makes of the window: any value in the interval.
  const uint32_t after = (uint32_t)v_nondet("after", 0, 32);
  v_assume(ds.low_ <= after && after <= ds.high_);
  uint32_t window = after;
  if (shifted) {
    v_assert(ds.code_words_[1].nbits == 16, "emitted-word-is-marked");
    window = ((uint32_t)ds.code_words_[1].value << 16) | (after >> 16);
  }
  v_lemma(low <= window && window <= high, "window-stays-in-interval");
  uint8_t next[2] = {(uint8_t)after, (uint8_t)(after >> 8)};
  WordSource in(next, 2, false);
  BinaryArithmeticDecoder ac;
  ac.low_ = low;
  ac.high_ = high;
  ac.value_ = window;
  const int got = ac.ReadBit(prob, &in);
  v_assert(got == bit, "decoded-bit-equals-encoded-bit");
  v_assert(ac.low_ == ds.low_ && ac.high_ == ds.high_, "decoder-interval-tracks-encoder");
  v_assert(ac.value_ == after, "decoder-window-tracks-stream");
  v_assert(in.pos_ == (shifted ? 2u : 0u) && !in.error_, "decoder-reads-one-word-per-slot");
  Prob q = p0;
  q.Add(bit);
  v_assert(q.prob8 == p.prob8 && q.total == p.total && q.count == p.count, "probability-state-in-step");
}

// Start and end of the stream.
HARNESS(c01_begin_end) {
  DataStream ds;
  v_assert(ds.low_ == 0 && ds.high_ == 0xFFFFFFFFu, "initial-interval");
  v_assert(ds.ac_pos0_ == 1 && ds.ac_pos1_ == 2 && ds.pos_ == 3 && ds.bw_pos_ == 0, "initial-slots");
  ds.Resize(16);
  ds.low_ = (uint32_t)v_nondet("low", 0, 32);
  ds.high_ = (uint32_t)v_nondet("high", 0, 32);
  ds.ac_pos0_ = (int)v_range("slot0", 0, 32, 0, 15);
  ds.ac_pos1_ = (int)v_range("slot1", 0, 32, 0, 15);
  v_assume(ds.low_ < ds.high_);
  v_assume(ds.ac_pos0_ < ds.ac_pos1_);
  const uint32_t low = ds.low_, high = ds.high_;
  const int s0 = ds.ac_pos0_, s1 = ds.ac_pos1_;
  ds.FlushArithmeticCoder();
  v_cover("flush");
  const uint32_t w = ((uint32_t)ds.code_words_[s0].value << 16) | ds.code_words_[s1].value;
  v_assert(ds.code_words_[s0].nbits == 16 && ds.code_words_[s1].nbits == 16, "flush-marks-both-words");
  v_assert(low <= w && w <= high, "flush-leaves-window-in-interval");
  uint8_t b[4];
  for (int i = 0; i < 4; ++i) b[i] = (uint8_t)v_nondet("word", i, 8);
  WordSource in(b, 4, false);
  BinaryArithmeticDecoder ac;
  ac.Init(&in);
  v_assert(ac.low_ == 0 && ac.high_ == 0xFFFFFFFFu, "decoder-initial-interval");
  v_assert(ac.value_ == (((uint32_t)b[0] | (uint32_t)b[1] << 8) << 16 | b[2] | (uint32_t)b[3] << 8), "decoder-initial-window");
  v_assert(in.pos_ == 4 && !in.error_, "decoder-init-reads-two-words");
}
