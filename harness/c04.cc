// C04: bit-level and variable-length integer codes.
// Real code: WriteBits / Storage (c/enc/write_bits.*), BrunsliBitReader* (c/dec/bit_reader.*), EncodeVarint,
// EncodeLimitedVarint, EncodeBase128, EncodeBase128Fix, Base128Size, DataStream::AddBits (c/enc/brunsli_encode.cc),
// StoreVarLenUint8 (c/enc/context_map_encode.cc), DecodeVarint, DecodeLimitedVarint, DecodeVarLenUint8, DecodeBase128
// (c/dec/brunsli_decode.cc), BitSource (c/dec/brunsli_input.h).
#include "c/enc/brunsli_encode.cc"
#include "c/enc/context_map_encode.cc"
#include "c/dec/brunsli_input.h"
#include "c04.h"
using namespace brunsli;
using brunsli::internal::enc::DataStream;

static inline unsigned bit_at(const uint8_t* d, size_t i) { return (d[i >> 3] >> (i & 7)) & 1; }

// WriteBits: any buffer, any position, any width the callers may use.
HARNESS(c04_write) {
  const size_t len = v_range("len", 0, 64, 9, v_native() ? 64 : (1ull << 32));
  uint8_t* data = (uint8_t*)v_array("data", 1, len);
  const size_t pos = v_range("pos", 0, 64, 0, v_native() ? 8 * (len - 8) - 1 : (1ull << 35));
  const size_t n = v_range("n", 0, 64, 0, 56);
  const uint64_t bits = v_nondet("bits", 0, 64);
  v_assume((bits >> n) == 0 && ((pos + n) >> 3) + 7 < len);
  const size_t i = v_range("i", 0, 64, 0, v_native() ? 8 * len - 1 : (1ull << 36));
  v_assume(i < 8 * len);
  uint8_t save = data[0];
  {
    Storage s(data, len);
    data[0] = save;
    s.pos = pos;
    // bits behind the write position are clear within the current byte
    v_assume((data[pos >> 3] >> (pos & 7)) == 0);
    const unsigned before = bit_at(data, i);
    WriteBits(n, bits, &s);
    v_cover("write");
    v_assert(s.pos == pos + n && s.GetBytesUsed() == (pos + n + 7) >> 3, "position-advances");
    if (i < pos) v_assert(bit_at(data, i) == before, "written-bits-kept");
    if (i >= pos && i < pos + n) v_assert(bit_at(data, i) == ((bits >> (i - pos)) & 1), "value-written");
    if (i >= pos + n && (i >> 3) == ((pos + n) >> 3)) v_assert(bit_at(data, i) == 0, "rest-of-byte-clear");
    if ((i >> 3) >= (pos >> 3) + 8) v_assert(bit_at(data, i) == before, "later-bytes-kept");
  }
}

// BrunsliBitReader: any state holding less than a byte, any input, any width up to 24.
HARNESS(c04_read) {
  const size_t len = v_range("len", 0, 64, 0, v_native() ? 16 : (1ull << 32));
  const uint8_t* data = (const uint8_t*)v_array("data", 1, len);
  const size_t k = v_range("next", 0, 64, 0, v_native() ? len : (1ull << 32));
  v_assume(k <= len);
  BrunsliBitReader br;
  BrunsliBitReaderInit(&br);
  v_assert(BrunsliBitReaderIsHealthy(&br) && br.num_bits_ == 0, "starts-empty");
  BrunsliBitReaderResume(&br, data + k, len - k);
  const uint32_t m = (uint32_t)v_concrete(v_range("num_bits", 0, 32, 0, 7), 0, 7);
  br.num_bits_ = m;
  br.bits_ = (uint32_t)v_nondet("bits", 0, 32);
  v_assume((br.bits_ >> m) == 0);
  const uint32_t held = br.bits_;
  const uint32_t n = (uint32_t)v_concrete(v_range("n", 0, 32, 0, 24), 0, 24);
  const uint64_t have = m + 8 * (uint64_t)(len - k);
  const bool can = BrunsliBitReaderCanRead(&br, n);
  v_assert(can == (n <= have), "can-read-is-exact");
  uint64_t want = held;
  for (size_t i = 0; i < 4; ++i)
    if (k + i < len) want |= (uint64_t)data[k + i] << (m + 8 * i);
  const uint32_t got = BrunsliBitReaderRead(&br, n);
  v_cover("read");
  v_assert(got == (want & ((1ull << n) - 1)), "value-is-the-next-bits");
  const bool healthy = BrunsliBitReaderIsHealthy(&br);
  v_assert(healthy == can, "reading-past-the-end-is-detected");
  if (can) {
    const uint64_t consumed = n;
    v_assert(br.num_bits_ < 8 && (br.bits_ >> br.num_bits_) == 0, "holds-less-than-a-byte");
    v_assert(8 * (uint64_t)(br.next_ - data) - br.num_bits_ == 8 * (uint64_t)k - m + consumed, "position-advances");
    const uint32_t rest = br.num_bits_;
    const size_t unused = BrunsliBitReaderSuspend(&br);
    v_assert(8 * (uint64_t)unused + rest == have - n, "suspend-returns-the-unread-bytes");
    const uint32_t bits = br.bits_;
    BrunsliBitReaderFinish(&br);
    v_assert(BrunsliBitReaderIsHealthy(&br) == (bits == 0), "non-zero-padding-is-refused");
  }
}

// One written item followed by a read of it: any start position in the byte, any value, input cut anywhere.
#define ITEM(NAME, WIDTH, MAXBYTES, ENCODE, DECODE)                                         \
  HARNESS(NAME) {                                                                         \
    uint8_t buf[32];                                                                      \
    const size_t value = v_nondet("value", 0, WIDTH);                                      \
    const size_t start = v_concrete(v_range("start", 0, 64, 0, 7), 0, 7);                  \
    size_t end;                                                                           \
    {                                                                                     \
      Storage s(buf, 32);                                                                 \
      buf[0] = (uint8_t)(v_nondet("before", 0, 8) & ((1u << start) - 1));                  \
      s.pos = start;                                                                      \
      ENCODE;                                                                             \
      end = s.pos;                                                                        \
    }                                                                                     \
    v_cover("encoded");                                                                   \
    const size_t bytes = (end + 7) >> 3;                                                  \
    v_assert(bytes <= MAXBYTES, "length-limited");                                        \
    const size_t split = v_concrete(v_range("split", 0, 64, 1, MAXBYTES), 1, MAXBYTES);    \
    v_assume(split <= bytes);                                                             \
    VBits v;                                                                              \
    v.start(buf, bytes, split, start);                                                    \
    size_t got = 99;                                                                      \
    v_assert(DECODE, "decodes");                                                          \
    v_assert(got == value, "value-round-trips");                                          \
    v_assert(v.position() == end, "stops-where-the-writer-stopped");                      \
  }
ITEM(c04_varint16, 16, 5, EncodeVarint((int)value, 16, &s), v_dec_varint(&v, 16, &got))
ITEM(c04_varint28, 28, 8, EncodeVarint((int)value, 28, &s), v_dec_varint(&v, 28, &got))
ITEM(c04_limited8, 32, 6, EncodeLimitedVarint(value, 8, 4, &s), v_dec_limited8(&v, 4, &got))
ITEM(c04_limited2, 16, 4, EncodeLimitedVarint(value, 2, 8, &s), v_dec_limited2(&v, 8, &got))
// limited varint with the symbol count of any alphabet (permutation codes)
HARNESS(c04_limited2_short) {
  uint8_t buf[32];
  const size_t nbits = v_concrete(v_range("nbits", 0, 64, 0, 8), 0, 8);
  const size_t value = v_nondet("value", 0, 8);
  v_assume((value >> nbits) == 0);
  const size_t max_symbols = (nbits + 1) >> 1;
  size_t end;
  {
    Storage s(buf, 32);
    EncodeLimitedVarint(value, 2, (int)max_symbols, &s);
    end = s.pos;
  }
  v_cover("encoded");
  VBits v;
  v.start(buf, 32, 32, 0);
  size_t got = 99;
  v_assert(v_dec_limited2(&v, max_symbols, &got), "decodes");
  v_assert(got == value, "value-round-trips");
  v_assert(v.position() == end, "stops-where-the-writer-stopped");
}
HARNESS(c04_u8) {
  uint8_t buf[32];
  const size_t value = v_nondet("value", 0, 8);
  size_t end;
  {
    Storage s(buf, 32);
    StoreVarLenUint8(value, &s);
    end = s.pos;
  }
  v_cover("encoded");
  VBits v;
  v.start(buf, (end + 7) >> 3, (end + 7) >> 3, 0);
  v_assert(v_dec_u8(&v) == value, "value-round-trips");
  v_assert(v.position() == end, "stops-where-the-writer-stopped");
}
// A truncated code is reported, not made up.
HARNESS(c04_truncated) {
  uint8_t buf[8];
  for (int i = 0; i < 8; ++i) buf[i] = (uint8_t)v_nondet("b", i, 8);
  const size_t n = v_concrete(v_range("n", 0, 64, 0, 4), 0, 4);
  const size_t kind = v_concrete(v_range("kind", 0, 64, 0, 2), 0, 2);
  VBits v;
  v.start(buf, n, n, 0);
  size_t got = 0;
  const bool ok = kind == 0 ? v_dec_varint(&v, 16, &got) : kind == 1 ? v_dec_limited8(&v, 4, &got) : v_dec_limited2(&v, 8, &got);
  v_cover("read");
  const bool healthy = BrunsliBitReaderIsHealthy(&v.br);
  v_assert(healthy, "never-reads-past-the-end");
  if (!ok) {
    // the same bytes followed by more input decode differently from a full read only in that they wait
    v_assert(n < 4 || kind != 0, "waits-only-when-input-is-missing");
    v_assert(BrunsliBitReaderSuspend(&v.br) < 2, "waits-only-at-the-end");
  }
}

// Base-128 numbers, minimal and padded.
HARNESS(c04_base128) {
  const size_t value = v_nondet("value", 0, 63);  // 9 groups of 7 bits
  uint8_t buf[16];
  for (int i = 0; i < 16; ++i) buf[i] = (uint8_t)v_nondet("tail", i, 8);
  const size_t len = EncodeBase128(value, buf);
  v_cover("encoded");
  v_assert(len == Base128Size(value) && len >= 1 && len <= 9, "size-is-predicted");
  size_t got, pos;
  const size_t avail = v_concrete(v_range("avail", 0, 64, 0, 12), 0, 12);
  const int st = v_dec_base128(buf, avail, 0, &got, &pos);
  if (avail < len) {
    v_assert(st == 1 && pos == 0, "truncated-number-waits-without-consuming");
  } else {
    v_assert(st == 0 && got == value && pos == len, "value-round-trips");
  }
}
HARNESS(c04_base128_fix) {
  const size_t len = v_concrete(v_range("len", 0, 64, 1, 9), 1, 9);
  const size_t value = v_nondet("value", 0, 63);
  v_assume((value >> (7 * len)) == 0);
  uint8_t buf[16];
  for (int i = 0; i < 16; ++i) buf[i] = 0x55;
  EncodeBase128Fix(value, len, buf);
  v_cover("encoded");
  for (size_t i = len; i < 16; ++i) v_assert(buf[i] == 0x55, "writes-only-its-bytes");
  size_t got, pos;
  v_assert(v_dec_base128(buf, 16, 0, &got, &pos) == 0, "decodes");
  v_assert(got == value && pos == len, "value-round-trips");
}
// Overlong or over-large numbers are refused.
HARNESS(c04_base128_any) {
  uint8_t buf[10];
  for (int i = 0; i < 10; ++i) buf[i] = (uint8_t)v_nondet("b", i, 8);
  size_t got, pos;
  const int st = v_dec_base128(buf, 10, 0, &got, &pos);
  v_cover("read");
  size_t n = 0, want = 0;
  while (n < 9) {
    want |= (size_t)(buf[n] & 127) << (7 * n);
    if (!(buf[n++] & 128)) break;
  }
  v_assert(pos == n, "consumes-up-to-the-terminator");
  if (buf[n - 1] & 128) v_assert(st == 2, "unterminated-number-is-refused");
  else v_assert(st == 0 && got == want, "value");
}

// Raw side-channel bits in the data stream.  `future` is the 16-bit word that will finally be stored in the slot
// the encoder has reserved; the decoder has already loaded it.
HARNESS(c04_side) {
  DataStream ds;
  ds.code_words_.resize(4);
  BitSource src;
  ds.pos_ = 2;
  ds.bw_pos_ = 1;
  const int bp = (int)v_concrete(v_range("bitpos", 0, 32, 0, 16), 0, 16);
  const int n = (int)v_concrete(v_range("n", 0, 32, 0, 12), 0, 12);
  const uint32_t future = (uint32_t)v_nondet("future", 0, 16);
  ds.bw_bitpos_ = bp;
  ds.bw_val_ = future & ((1u << bp) - 1);
  const int value = (int)v_nondet("value", 0, 12);
  v_assume((value >> n) == 0);
  src.val_ = future;
  src.bit_pos_ = bp;
  ds.AddBits(n, value);
  v_cover("added");
  uint8_t next[4];
  uint32_t after = future;  // content of the slot that is open after the call
  if (bp + n > 16) {
    v_assert(ds.bw_pos_ == 2 && ds.pos_ == 3, "next-slot-is-reserved-when-the-decoder-loads-a-word");
    v_assert(ds.code_words_[1].nbits == 16, "slot-is-a-word");
    v_assume(ds.code_words_[1].value == future);
    after = (uint32_t)v_nondet("future2", 0, 16);
    v_assume((after & ((1u << ds.bw_bitpos_) - 1)) == (uint32_t)ds.bw_val_);
  } else {
    v_assert(ds.bw_pos_ == 1 && ds.pos_ == 2, "no-slot-reserved");
    v_assume((after & ((1u << ds.bw_bitpos_) - 1)) == (uint32_t)ds.bw_val_);
  }
  next[0] = (uint8_t)after;
  next[1] = (uint8_t)(after >> 8);
  WordSource in(next, 2, false);
  const uint32_t got = src.ReadBits(n, &in);
  v_assert(got == (uint32_t)value, "bits-round-trip");
  v_assert(in.pos_ == (bp + n > 16 ? 2u : 0u) && !in.error_, "word-loaded-when-reserved");
  v_assert((int)src.bit_pos_ == ds.bw_bitpos_ && src.val_ == after, "positions-agree");
  v_assert(ds.bw_bitpos_ >= 0 && ds.bw_bitpos_ <= 16 && ((uint32_t)ds.bw_val_ >> ds.bw_bitpos_) == 0, "invariant");
}
HARNESS(c04_side_begin_end) {
  DataStream ds;
  ds.code_words_.resize(4);
  v_assert(ds.bw_pos_ == 0 && ds.bw_bitpos_ == 0 && ds.bw_val_ == 0 && ds.pos_ == 3, "first-word-is-reserved-for-bits");
  const int bp = (int)v_concrete(v_range("bitpos", 0, 32, 0, 16), 0, 16);
  ds.bw_bitpos_ = bp;
  ds.bw_val_ = (uint32_t)v_nondet("val", 0, 16) & ((1u << bp) - 1);
  const uint32_t val = ds.bw_val_;
  ds.FlushBitWriter();
  v_cover("flushed");
  v_assert(ds.code_words_[0].nbits == 16 && ds.code_words_[0].value == val, "pending-bits-are-stored-zero-padded");
  uint8_t b[2] = {(uint8_t)val, (uint8_t)(val >> 8)};
  WordSource in(b, 2, false);
  BitSource src;
  src.Init(&in);
  v_assert(src.val_ == val && src.bit_pos_ == 0 && in.pos_ == 2, "decoder-loads-the-first-word");
  src.bit_pos_ = bp;
  v_assert(src.Finish(), "zero-padding-accepted");
  const uint32_t other = (uint32_t)v_nondet("other", 0, 16);
  src.val_ = other;
  v_assert(src.Finish() == (bp == 16 || (other >> bp) == 0), "non-zero-padding-refused");
}
