// C02: ANS symbol coding is lossless and self-checking.
// Real code: ANSCoder (c/enc/ans_encode.h), ANSBuildInfoTable (c/enc/ans_encode.cc),
// ANSDecoder (c/dec/ans_decode.h), ANSDecodingData::Init (c/dec/ans_decode.cc).
#include <vector>
#include "c/enc/ans_encode.cc"
#include "c/dec/ans_decode.h"
#include "v.h"
using namespace brunsli;
extern "C" { uint64_t v_ghost[16]; }

// One symbol: any encoder state, any frequency / slot range of the table.
HARNESS(c02_step) {
  ANSCoder enc;
  const uint32_t state = (uint32_t)v_range("state", 0, 32, 0x10000, 0xFFFFFFFFu);
  enc.state_ = state;
  ANSEncSymbolInfo info;
  info.freq_ = (uint16_t)v_range("freq", 0, 16, 1, BRUNSLI_ANS_TAB_SIZE);
  info.start_ = (uint16_t)v_range("start", 0, 16, 0, BRUNSLI_ANS_TAB_SIZE - 1);
  v_assume(info.start_ + info.freq_ <= BRUNSLI_ANS_TAB_SIZE);
  const uint8_t symbol = (uint8_t)v_nondet("symbol", 0, 8);
  uint8_t nbits = 77;
  const uint32_t word = enc.PutSymbol(info, &nbits);
  v_cover("put");
  const uint32_t x = nbits ? state >> 16 : state;
  v_lemma((x / info.freq_) * info.freq_ + x % info.freq_ == x, "division");
  v_lemma((x / info.freq_) < (1u << 22), "quotient-fits");
  v_lemma((enc.state_ >> BRUNSLI_ANS_LOG_TAB_SIZE) == x / info.freq_, "state-holds-quotient");
  v_lemma((enc.state_ & (BRUNSLI_ANS_TAB_SIZE - 1)) == x % info.freq_ + info.start_, "state-holds-slot");
  v_lemma(enc.state_ >= 0x10000, "encoder-state-stays-in-range");
  v_assert(nbits == 0 || nbits == 16, "word-count-is-0-or-1");
  v_assert(word <= 0xFFFF, "word-fits");
  const uint32_t slot = enc.state_ & (BRUNSLI_ANS_TAB_SIZE - 1);
  v_lemma(slot >= info.start_ && slot < (uint32_t)info.start_ + info.freq_, "state-selects-slot-of-symbol");
  static ANSDecodingData data;
  // the slot table's contract (c02_table) at that slot
  data.map_[slot].symbol_ = symbol;
  data.map_[slot].freq_ = info.freq_;
  data.map_[slot].offset_ = (uint16_t)(slot - info.start_);
  uint8_t next[2] = {(uint8_t)word, (uint8_t)(word >> 8)};
  WordSource in(next, 2, false);
  ANSDecoder dec;
  dec.state_ = enc.state_;
  const int got = dec.ReadSymbol(data, &in);
  v_assert(got == symbol, "decoded-symbol-equals-encoded-symbol");
  v_assert(dec.state_ == state, "decoder-recovers-previous-state");
  v_assert(in.pos_ == (nbits == 16 ? 2u : 0u) && !in.error_, "decoder-reads-exactly-the-emitted-word");
}

// Slot table: contents of an arbitrary slot, for every frequency vector.
HARNESS(c02_table) {
  std::vector<uint32_t> counts(BRUNSLI_ANS_MAX_SYMBOLS);
  size_t total = 0;
  const size_t q = v_range("slot", 0, 64, 0, BRUNSLI_ANS_TAB_SIZE - 1);
  uint32_t owner = 99, freq = 0, offset = 0;
  const bool fill = v_native() && v_range("fill", 0, 1, 0, 1) != 0;
  for (size_t i = 0; i < BRUNSLI_ANS_MAX_SYMBOLS; ++i) {
    counts[i] = (uint32_t)v_range("count", i, 32, 0, v_native() ? BRUNSLI_ANS_TAB_SIZE - total : BRUNSLI_ANS_TAB_SIZE);
    if (fill && i + 1 == BRUNSLI_ANS_MAX_SYMBOLS) counts[i] = BRUNSLI_ANS_TAB_SIZE - total;
    if (q >= total && q - total < counts[i]) {
      owner = (uint32_t)i;
      freq = counts[i];
      offset = (uint32_t)(q - total);
    }
    total += counts[i];
    v_assume(total <= BRUNSLI_ANS_TAB_SIZE);
  }
  v_ghost[0] = q;
  v_ghost[1] = owner;
  v_ghost[2] = freq;
  v_ghost[3] = offset;
  static ANSDecodingData data;
  const bool ok = data.Init(counts);
  v_cover("table");
  v_assert(ok == (total == BRUNSLI_ANS_TAB_SIZE), "accepts-exactly-full-tables");
  if (q < total) {
    v_assert(data.map_[q].symbol_ == owner, "slot-symbol");
    v_assert(data.map_[q].freq_ == freq, "slot-frequency");
    v_assert(data.map_[q].offset_ == offset, "slot-offset");
  }
}

// Encoder table: prefix sums of the same frequencies.
HARNESS(c02_info) {
  int counts[BRUNSLI_ANS_MAX_SYMBOLS];
  uint32_t total = 0;
  uint32_t start[BRUNSLI_ANS_MAX_SYMBOLS];
  for (int i = 0; i < BRUNSLI_ANS_MAX_SYMBOLS; ++i) {
    counts[i] = (int)v_range("count", i, 32, 0, v_native() ? BRUNSLI_ANS_TAB_SIZE - total : BRUNSLI_ANS_TAB_SIZE);
    start[i] = total;
    total += counts[i];
  }
  v_assume(total <= BRUNSLI_ANS_TAB_SIZE);
  ANSTable t;
  ANSBuildInfoTable(counts, BRUNSLI_ANS_MAX_SYMBOLS, t.info_);
  v_cover("info");
  for (int i = 0; i < BRUNSLI_ANS_MAX_SYMBOLS; ++i) {
    v_assert(t.info_[i].freq_ == counts[i], "encoder-frequency");
    v_assert(t.info_[i].start_ == start[i], "encoder-start-is-prefix-sum");
  }
}

// Start state, final state and the integrity check.
HARNESS(c02_begin_end) {
  ANSCoder enc;
  v_assert(enc.GetState() == (BRUNSLI_ANS_SIGNATURE << 16) && enc.GetState() >= 0x10000, "encoder-start-state");
  enc.state_ = (uint32_t)v_nondet("state", 0, 32);
  const uint32_t s = enc.GetState();
  v_assert(s == enc.state_, "get-state");
  // "mixed-endian": high word first
  uint8_t b[4] = {(uint8_t)(s >> 16), (uint8_t)(s >> 24), (uint8_t)s, (uint8_t)(s >> 8)};
  WordSource in(b, 4, false);
  ANSDecoder dec;
  dec.Init(&in);
  v_cover("init");
  v_assert(dec.state_ == s && in.pos_ == 4 && !in.error_, "decoder-starts-in-encoder-end-state");
  v_assert(dec.CheckCRC() == (s == (BRUNSLI_ANS_SIGNATURE << 16)), "crc-accepts-exactly-the-start-state");
}

// Word source: words in order, error past the end, never out of bounds.
HARNESS(c02_words) {
  const size_t len = v_range("len", 0, 64, 0, v_native() ? 64 : (1ull << 40));
  const uint8_t* data = (const uint8_t*)v_array("data", 1, len);
  WordSource in(data, len, v_nondet("optimistic", 0, 1) != 0);
  in.pos_ = 2 * v_range("pos", 0, 64, 0, v_native() ? 40 : (1ull << 41));
  in.error_ = v_nondet("error", 0, 1) != 0;
  const bool err = in.error_;
  const size_t pos = in.pos_;
  const size_t n = v_range("n", 0, 64, 0, 1000);
  const bool can = in.CanRead(n);
  v_cover("words");
  v_assert(in.optimistic_ ? can : can == (pos + 2 * n <= (len & ~(size_t)1)), "can-read-is-exact");
  const uint16_t w = in.GetNextWord();
  v_assert(in.pos_ == pos + 2, "advances-one-word");
  if (pos + 2 <= len) {
    v_assert(w == (data[pos] | data[pos + 1] << 8) && in.error_ == err, "word-value");
  } else {
    v_assert(w == 0 && in.error_, "end-of-input-is-an-error");
  }
}
