// C05, coefficient orders: EncodeCoeffOrder (c/enc/brunsli_encode.cc) against DecodeCoeffOrder (c/dec/brunsli_decode.cc).
#include "c/enc/brunsli_encode.cc"
#include "v.h"
#include "c05_order.h"
using namespace brunsli;
Tape v_tape;
GhostLehmer v_lehmer;

// DataStream::AddBits and BitSource::ReadBits: what is added is read back (C04, c04_side)
extern "C" void c05_add_bits(void*, int nbits, int bits) {
  v_assert((nbits == 1 || nbits == 3) && ((uint32_t)bits >> nbits) == 0, "bits-fit");
  v_tape.item = v_determined(v_tape.item);
  v_tape.nbits[v_tape.item] = (uint8_t)nbits;
  if (nbits == 3 && bits == 7) {
    v_tape.partial += 7;
  } else {
    v_tape.sum[v_tape.item] = v_tape.partial + bits;
    v_tape.partial = 0;
    ++v_tape.item;
  }
}
extern "C" uint32_t c05_read_bits_split(void*, int nbits, void*) {
  v_tape.item = v_determined(v_tape.item);
  v_assert(v_tape.nbits[v_tape.item] == nbits, "reads-what-was-written");
  const uint32_t rest = v_tape.sum[v_tape.item] - v_tape.partial;
  if (nbits == 3 && rest >= 7) {
    v_tape.partial += 7;
    return 7;
  }
  v_tape.partial = 0;
  ++v_tape.item;
  return rest;
}
// ComputeLehmerCode / DecodeLehmerCode: mutually inverse on permutations (c05_lehmer)
extern "C" void c05_compute(const uint32_t* sigma, size_t len, uint32_t* code) {
  v_assert(len == 64, "length");
  for (size_t i = 0; i < 64; ++i) {
    v_assert(sigma[i] == v_lehmer.sigma[i], "zig-zag-order-is-passed-on");
    code[i] = v_lehmer.code[i];
  }
}
extern "C" bool c05_decode(const uint32_t* code, size_t len, uint32_t* sigma) {
  v_assert(len == 64, "length");
  for (size_t i = 0; i < 64; ++i) {
    v_assert(code[i] == v_lehmer.code[i], "code-comes-back");
    sigma[i] = v_lehmer.sigma[i];
  }
  return true;
}

// The position of the last non-zero entry of the Lehmer code is fixed per case; everything else is arbitrary.
HARNESS(c05_order) {
  const size_t tail = v_case("tail", 0, 62);
  uint32_t order[64], back[64];
  v_lehmer.sigma[0] = 0;
  v_lehmer.code[0] = 0;
  order[0] = 0;
  if (v_native()) {
    std::vector<uint32_t> items(64);
    for (size_t i = 0; i < 64; ++i) items[i] = (uint32_t)i;
    for (size_t i = 0; i < 64; ++i) {
      uint32_t c = i == 0 || i > tail ? 0 : (uint32_t)v_range("code", i, 32, i == tail, 63 - i);
      v_lehmer.code[i] = c;
      v_lehmer.sigma[i] = items[c];
      items.erase(items.begin() + c);
      order[i] = kJPEGNaturalOrder[v_lehmer.sigma[i]];
    }
  } else {
    for (size_t i = 1; i < 64; ++i) {
      v_lehmer.code[i] = i > tail ? 0 : (uint32_t)v_range("code", i, 32, i == tail, 63 - i);
      v_lehmer.sigma[i] = (uint32_t)v_range("sigma", i, 32, 1, 63);
      order[i] = kJPEGNaturalOrder[v_lehmer.sigma[i]];
    }
  }
  DataStream ds;
  if (v_native()) ds.Resize(4096);
  v_tape.item = v_tape.partial = 0;
  EncodeCoeffOrder(order, &ds);
  v_cover("encoded");
  if (v_native()) {
    ds.FlushBitWriter();
    std::vector<uint8_t> words;
    for (int i = 0; i < ds.pos_; ++i) {
      if (ds.code_words_[i].nbits != 16) continue;
      words.push_back((uint8_t)ds.code_words_[i].value);
      words.push_back((uint8_t)(ds.code_words_[i].value >> 8));
    }
    v_assert(v_dec_order_native(words.data(), words.size(), back), "decoder-accepts");
  } else {
    // the layout both sides agree on
    size_t item = 0;
    for (size_t i = 0; i < 64; i += 16) {
      const bool used = tail >= (i ? i : 1);
      v_lemma(v_tape.nbits[item] == 1 && v_tape.sum[item] == used, "span-flag");
      v_tape.nbits[item] = 1;
      v_tape.sum[item++] = used;
      for (size_t j = i ? i : 1; used && j < i + 16; ++j) {
        const uint32_t want = v_lehmer.code[j] + (j <= tail);
        v_lemma(v_tape.nbits[item] == 3 && v_tape.sum[item] == want, "stored-digits");
        v_tape.nbits[item] = 3;
        v_tape.sum[item++] = want;
      }
    }
    v_assert(v_determined(v_tape.item) == item && v_tape.partial == 0, "nothing-else-is-stored");
    v_tape.item = v_tape.partial = 0;
    v_assert(v_dec_order(back), "decoder-accepts");
    v_assert(v_determined(v_tape.item) == item && v_tape.partial == 0, "all-bits-are-read");
  }
  for (size_t i = 0; i < 64; ++i) v_assert(back[i] == order[i], "order-comes-back");
}

// (executed natively only) Arbitrary bits: the decoder either refuses or returns the permutation DecodeLehmerCode produced.
extern "C" uint32_t c05_any_bits_split(void*, int nbits, void*) {
  if (nbits == 1) return (v_tape.item >> v_tape.partial++) & 1;  // span flags: one case each
  const uint32_t v = (uint32_t)v_nondet("bits", 0, 3);
  if (v == 7) return 7;
  return v;
}
extern "C" bool c05_decode_any(const uint32_t* code, size_t len, uint32_t* sigma) {
  v_assert(len == 64, "length");
  uint32_t all = 0;
  for (size_t i = 0; i < 64; ++i) {
    all |= code[i];
    v_lehmer.sigma[i] = sigma[i] = (uint32_t)v_range("sigma", i, 32, 0, 63);
  }
  v_assert(code[0] == 0, "first-place-is-fixed");
  v_lehmer.valid = true;
  return v_nondet("valid", 0, 1);
}
HARNESS(c05_order_any) {
  uint32_t order[64];
  if (v_native()) {
    uint8_t words[256];
    for (size_t i = 0; i < 256; ++i) words[i] = (uint8_t)v_nondet("words", i, 8);
    if (!v_dec_order_native(words, 256, order)) return;
    uint64_t seen = 0;
    for (size_t i = 0; i < 64; ++i) {
      v_assert(order[i] < 64 && !(seen >> order[i] & 1), "a-permutation");
      seen |= 1ull << order[i];
    }
    v_assert(order[0] == 0, "first-place-is-fixed");
    return;
  }
  v_lehmer.valid = false;
  v_tape.item = v_case("spans", 0, 15);
  v_tape.partial = 0;
  if (!v_dec_order(order)) return;
  v_cover("accepted");
  v_assert(v_lehmer.valid, "only-what-the-lehmer-decoder-accepted");
  for (size_t i = 0; i < 64; ++i) v_assert(order[i] == kJPEGNaturalOrder[v_lehmer.sigma[i]], "permutation-of-the-lehmer-decoder");
}
