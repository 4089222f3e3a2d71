// C03: EncodeCounts and NormalizeCounts (c/enc/histogram_encode.cc) against ReadHistogram (c/dec/histogram_decode.cc).
#include "c/enc/histogram_encode.cc"
#include "c/dec/histogram_decode.cc"
#include "v.h"
using namespace brunsli;

// What is stored, by field: 0 small flag, 1 length, 2.. logarithms, 20.. mantissas.
static struct {
  size_t field, length, omit;
  bool present[38];
  uint32_t nbits[38], value[38];
  uint32_t log[18], mantissa[18];
} v_st;
static size_t v_mode;  // 0: writing, 1: reading
static const uint32_t* v_got;
static uint32_t v_total;
static uint32_t v_named(const char* name, size_t i, uint32_t x) {
  const uint32_t r = (uint32_t)v_nondet(name, i, 32);
  v_assume(r == x);
  return r;
}
static uint32_t v_item[18];
static void v_step(size_t i, uint32_t total) {
  v_item[i] = i == v_st.omit ? 0 : v_named("item", i, v_got[i]);
  v_lemma(v_item[i] <= 1024, "bounded");
  const uint32_t t = v_named("total", i, total);
  v_lemma(t == v_total + v_item[i], "running-total");
  v_total = t;
}
extern "C" void v_index(uint64_t i, uint64_t total) {
  if (v_native()) return;
  if (v_mode == 2) {
    // running total of the reader, by names for the intermediate values
    i = v_determined(i);
    if (i > 0) v_step(i - 1, total);
    if (i == 0) v_lemma(total == 0, "running-total");
    v_st.field = 20 + i;
    return;
  }
  v_assert(v_st.field < 20 + i || i == 0, "in-order");
  v_assert(i < v_st.length, "inside-the-list");
  v_st.field = 20 + v_determined(i);
}
extern "C" void c03_write(size_t nbits, uint64_t bits, void*) {
  const size_t f = v_determined(v_st.field);
  v_assert((bits >> nbits) == 0, "bits-fit");

  if (f == 1) {
    v_lemma(nbits == kHistogramLengthBitLengths[v_st.length - 3] && bits == kHistogramLengthSymbols[v_st.length - 3], "length-code");
  } else if (f >= 2 && f < 20) {
    v_lemma(v_st.log[f - 2] <= 10, "log-in-range");
    v_lemma(nbits == kLogCountBitLengths[v_st.log[f - 2]] && bits == kLogCountSymbols[v_st.log[f - 2]], "log-code");
  } else {
    if (f >= 20) {
      v_lemma(v_st.log[f - 20] > 1 && nbits == GetPopulationCountPrecision(v_st.log[f - 20] - 1), "mantissa-width");
      v_lemma(bits == v_st.mantissa[f - 20], "mantissa");
    }
    v_st.nbits[f] = (uint32_t)nbits;
    v_st.value[f] = f < 20 ? (uint32_t)bits : v_st.mantissa[f - 20];
  }
  v_assert(!v_st.present[f], "written-once");
  v_st.present[f] = true;
  v_st.field = f < 20 ? f + 1 : f;
}
extern "C" uint32_t c03_read(void*, uint32_t nbits) {
  const size_t f = v_determined(v_st.field);
  v_assert(f == 0 || f >= 20, "no-raw-bits-in-the-header");
  v_assert(v_st.present[f] && nbits == (f ? GetPopulationCountPrecision(v_st.log[f - 20] - 1) : 1), "reads-what-was-written");
  v_st.present[f] = false;
  v_st.field = f < 20 ? f + 1 : f;
  return f ? v_st.mantissa[f - 20] : v_st.value[f];
}
extern "C" size_t c03_read_code(void*, const int8_t* tree) {
  const size_t f = v_determined(v_st.field);
  v_assert(f >= 1 && f < 20 && v_st.present[f], "reads-what-was-written");
  v_assert(tree == (f == 1 ? kLengthTree : kLogCountTree), "tree");
  v_st.present[f] = false;
  v_st.field = f + 1;
  return f == 1 ? v_st.length : v_st.log[f - 2];
}
extern "C" bool c03_healthy(void*) { return true; }

// Three or more symbols: everything but the static codes (c03_static) and the bit input and output (C04).
HARNESS(c03_counts) {
  if (v_native()) return;
  const size_t omit = v_case("omit", 0, 17), length = v_case("length", 3, 18);
  if (omit >= length) return;
  int counts[BRUNSLI_ANS_MAX_SYMBOLS] = {0};
  uint32_t sum = 0, omit_log = 0;
  v_st.length = length;
  for (size_t i = 0; i < length; ++i) {
    if (i == omit) continue;
    // a frequency in normal form: the leading bit and as many bits after it as its precision
    const uint32_t l = (uint32_t)v_range("log", i, 4, i + 1 == length ? 1 : 0, i < omit ? 9 : 10);
    const uint32_t bits = GetPopulationCountPrecision(l > 1 ? l - 1 : 0), m = (uint32_t)v_range("mantissa", i, 5, 0, 31);
    v_assume(m < (1u << bits));
    v_st.log[i] = l;
    v_st.mantissa[i] = m;
    omit_log = i < omit ? (l + 1 > omit_log && l > 0 ? l + 1 : omit_log) : (l > omit_log ? l : omit_log);
  }
  for (size_t i = 0; i < length; ++i) {
    const uint32_t l = v_st.log[i];
    if (i == omit || l == 0) continue;
    uint32_t c = 1;
    if (l > 1) {
      const uint32_t bits = GetPopulationCountPrecision(l - 1);
      c = (1u << (l - 1)) + (v_st.mantissa[i] << (l - 1 - bits));
    }
    counts[i] = (int)c;
    sum += c;
  }
  for (size_t i = 0; i < length; ++i) {
    const uint32_t l = v_st.log[i], c = (uint32_t)counts[i];
    if (i == omit) continue;
    v_lemma((c > 0) == (l > 0) && c < 1024, "count");
    v_lemma(c == 0 || Log2FloorNonZero(c) + 1 == l, "log-of-count");
  }
  v_assume(omit_log > 0);  // implied by three symbols
  v_assume(sum < 1024);
  counts[omit] = (int)(1024 - sum);
  v_st.log[omit] = omit_log;
  const int num_symbols = (int)v_range("num_symbols", 0, 32, 3, 18);
  EncodeCounts(counts, (int)omit, num_symbols, NULL, (Storage*)v_alloc(64, 1));
  v_lemma(v_st.present[0] && v_st.present[1] && v_st.nbits[0] == 1 && v_st.value[0] == 0, "not-small");
  v_st.field = 0;
  std::vector<uint32_t> got(BRUNSLI_ANS_MAX_SYMBOLS, 7);
  ReadHistogram(BRUNSLI_ANS_LOG_TAB_SIZE, &got, (BrunsliBitReader*)v_alloc(64, 1));
  v_cover("read");
  for (size_t i = 0; i < 18; ++i) {
    if (i != omit) v_lemma(got[i] == (uint32_t)counts[i], "same-frequency");
  }
  // the remainder and the status are functions of these: c03_accept
  for (size_t f = 0; f < 38; ++f) v_assert(!v_st.present[f], "all-read");
}
// Zero, one or two symbols.
static uint32_t v_small[8], v_small_bits[8];
static size_t v_small_pos;
extern "C" void c03_write_small(size_t nbits, uint64_t bits, void*) {
  v_assert(v_small_pos < 8 && (bits >> nbits) == 0, "bits-fit");
  v_small_bits[v_small_pos] = (uint32_t)nbits;
  v_small[v_small_pos++] = (uint32_t)bits;
}
static uint64_t v_left;
static uint32_t v_left_bits;
extern "C" uint32_t c03_read_small(void*, uint32_t nbits) {
  // fields may be read in other portions than they were written
  while (v_left_bits < nbits) {
    v_assert(v_small_pos < 8 && v_small_bits[v_small_pos] != 0, "reads-what-was-written");
    v_left |= (uint64_t)v_small[v_small_pos] << v_left_bits;
    v_left_bits += v_small_bits[v_small_pos++];
  }
  const uint32_t r = (uint32_t)(v_left & ((1ull << nbits) - 1));
  v_left >>= nbits;
  v_left_bits -= nbits;
  return r;
}
HARNESS(c03_small) {
  if (v_native()) return;
  const size_t n = v_concrete(v_range("n", 0, 2, 0, 2), 0, 2);
  int symbols[4] = {0}, counts[18] = {0};
  for (size_t i = 0; i < n; ++i) symbols[i] = (int)v_range("symbol", i, 5, i ? 1 : 0, 17);
  if (n == 2) {
    v_assume(symbols[0] < symbols[1]);
    symbols[0] = (int)v_concrete(symbols[0], 0, 17);
    symbols[1] = (int)v_concrete(symbols[1], 0, 17);
  } else if (n == 1) {
    symbols[0] = (int)v_concrete(symbols[0], 0, 17);
  }
  const uint32_t first = (uint32_t)v_range("first", 0, 10, 1, 1023);
  if (n == 1) counts[symbols[0]] = 1024;
  if (n == 2) counts[symbols[0]] = (int)first, counts[symbols[1]] = (int)(1024 - first);
  EncodeCounts(counts, -1, (int)n, symbols, (Storage*)v_alloc(64, 1));
  const size_t written = v_small_pos;
  v_small_pos = 0;
  std::vector<uint32_t> got(BRUNSLI_ANS_MAX_SYMBOLS, 7);
  const bool ok = ReadHistogram(BRUNSLI_ANS_LOG_TAB_SIZE, &got, (BrunsliBitReader*)v_alloc(64, 1));
  v_cover("read");
  v_assert(ok && v_small_pos == written && v_left_bits == 0, "accepts-and-reads-all");
  // a histogram without symbols stands for any code: nothing is ever coded with it
  for (size_t i = 0; n > 0 && i < 18; ++i) v_assert(got[i] == (uint32_t)counts[i], "same-frequency");
}
// The static codes of the length and of the logarithms.
static uint32_t v_static_bits, v_static_pos;
extern "C" uint32_t c03_read_bit(void*, uint32_t n) {
  v_assert(n == 1, "bit-by-bit");
  return (v_static_bits >> v_static_pos++) & 1;
}
HARNESS(c03_static) {
  if (v_native()) return;
  const size_t v = v_concrete(v_range("value", 0, 5, 0, 26), 0, 26);
  const bool is_length = v < 16;
  const uint32_t nbits = is_length ? kHistogramLengthBitLengths[v] : kLogCountBitLengths[v - 16];
  v_static_bits = is_length ? kHistogramLengthSymbols[v] : kLogCountSymbols[v - 16];
  v_assert((v_static_bits >> nbits) == 0, "bits-fit");
  const size_t got = ReadShortHuffmanCode((BrunsliBitReader*)v_alloc(64, 1), is_length ? kLengthTree : kLogCountTree);
  v_cover("read");
  v_assert(got == (is_length ? v + 3 : v - 16) && v_static_pos == nbits, "same-value");
}
// Any bits: an accepted histogram adds up to the table size.
extern "C" uint32_t c03_any(void*, uint32_t nbits) {
  v_assert(nbits <= 24, "at-most-24-bits");
  if (v_st.field == 0) {
    v_st.field = 1;
    return v_mode == 1;
  }
  return (uint32_t)v_nondet("bits", v_determined(v_st.field), 32) & ((1u << nbits) - 1);
}
extern "C" size_t c03_any_code(void*, const int8_t*) {
  const size_t f = v_determined(v_st.field);
  v_st.field = f + 1;
  if (f == 1) return v_st.length;
  return v_st.log[f - 2];
}
HARNESS(c03_accept) {
  if (v_native()) return;
  const size_t omit = v_case("omit", 0, 17), length = v_case("length", 3, 18);
  if (omit >= length) return;
  v_st.length = length;
  v_st.omit = omit;
  for (size_t i = 0; i < length; ++i) v_st.log[i] = (uint32_t)v_range("log", i, 4, 0, 10);
  // omit is where the largest logarithm is for the first time
  for (size_t i = 0; i < length; ++i) v_assume(i < omit ? v_st.log[i] < v_st.log[omit] : v_st.log[i] <= v_st.log[omit]);
  std::vector<uint32_t> got(BRUNSLI_ANS_MAX_SYMBOLS, 7);
  v_mode = 2;
  v_got = got.data();
  const bool ok = ReadHistogram(BRUNSLI_ANS_LOG_TAB_SIZE, &got, (BrunsliBitReader*)v_alloc(64, 1));
  v_cover("read");
  const uint32_t before = v_total, last = length - 1 == omit ? 0 : v_named("item", length - 1, got[length - 1]);
  v_item[length - 1] = last;
  v_lemma(ok == (before + last < 1024), "accepted-if-there-is-a-remainder");
  const uint32_t rest = v_named("rest", 0, got[omit]), done = v_named("ok", 0, ok);
  v_lemma(done == 0 || rest == 1024 - (before + last), "remainder");
  uint32_t sum = rest;
  for (size_t i = 0; i < length; ++i) sum += v_item[i];
  v_assert(done == 0 || sum == 1024, "adds-up");
  for (size_t i = 0; i < 18; ++i) {
    if (i >= length) v_assert(got[i] == 0, "rest-is-empty");
  }
}
HARNESS(c03_accept_small) {
  if (v_native()) return;
  v_mode = 1;
  std::vector<uint32_t> got(BRUNSLI_ANS_MAX_SYMBOLS, 7);
  const bool ok = ReadHistogram(BRUNSLI_ANS_LOG_TAB_SIZE, &got, (BrunsliBitReader*)v_alloc(64, 1));
  uint32_t sum = 0;
  for (size_t i = 0; i < 18; ++i) sum += got[i];
  v_cover("read");
  v_assert(!ok || sum == 1024, "adds-up");
  for (size_t i = 0; i < 18; ++i) v_assert(!ok || got[i] <= 1024, "bounded");
}
// Bounded: NormalizeCounts works with floating point numbers, which the verifier does not interpret.
HARNESS(c03_normalize) {
  int counts[18] = {0}, orig[18];
  const size_t kind = v_range("kind", 0, 3, 0, 7);
  const int symbols_wanted = (int)v_range("n", 0, 5, 0, 18);
  for (int i = 0; i < 18; ++i) {
    const uint64_t r = v_nondet("c", i, 32);
    if ((int)(r % 18) >= symbols_wanted) continue;
    const uint64_t m = v_nondet("m", i, 32);
    // total below 2^31
    counts[i] = (int)(kind == 0 ? m % 3 : kind == 1 ? 1 : kind == 2 ? m % 100000000 : kind == 3 ? 1 << (m % 26) : kind == 4 ? (m % 7 ? 1 : m % 100000000)
                      : kind == 5 ? (i + m % 2) * (i % 3 == 0) * (m % 100000) : kind == 6 ? m % 1025 : (m % 3 ? 1 : 1 + m % 5000));
  }
  for (int i = 0; i < 18; ++i) orig[i] = counts[i];
  int omit = 0, num_symbols = 0, symbols[kMaxNumSymbolsForSmallCode] = {0};
  NormalizeCounts(counts, &omit, 18, BRUNSLI_ANS_LOG_TAB_SIZE, &num_symbols, symbols);
  int sum = 0, used = 0;
  for (int i = 0; i < 18; ++i) {
    v_assert((counts[i] > 0) == (orig[i] > 0) && counts[i] >= 0, "support-is-kept");
    sum += counts[i];
    used += orig[i] > 0;
  }
  v_cover("normalised");
  v_assert(used == num_symbols && sum == (used ? 1024 : 0), "adds-up");
  if (used >= 3) {
    // what c03_counts takes for granted
    for (int i = 0; i < 18; ++i) {
      if (i == omit || counts[i] == 0) continue;
      const int log = Log2FloorNonZero(counts[i]), drop = log - GetPopulationCountPrecision(log);
      v_assert((counts[i] & ((1 << drop) - 1)) == 0, "representable");
      v_assert(log <= (i < omit ? 8 : 9), "below-the-remainder");
    }
    v_assert(counts[omit] > 0, "remainder-is-positive");
  } else {
    int n = 0;
    for (int i = 0; i < 18; ++i) {
      if (orig[i] > 0) v_assert(symbols[n++] == i, "symbols-in-order");
    }
  }
  // and all of it
  std::vector<uint8_t> out(256);
  Storage storage(out.data(), out.size());
  EncodeCounts(counts, omit, num_symbols, symbols, &storage);
  BrunsliBitReader br;
  BrunsliBitReaderInit(&br);
  BrunsliBitReaderResume(&br, out.data(), storage.GetBytesUsed());
  std::vector<uint32_t> got(BRUNSLI_ANS_MAX_SYMBOLS, 7);
  v_assert(ReadHistogram(BRUNSLI_ANS_LOG_TAB_SIZE, &got, &br), "accepts");
  for (size_t i = 0; used > 0 && i < 18; ++i) v_assert(got[i] == (uint32_t)counts[i], "same-frequency");
  BrunsliBitReaderSuspend(&br);
  BrunsliBitReaderFinish(&br);
  v_assert(BrunsliBitReaderIsHealthy(&br), "healthy");
}
