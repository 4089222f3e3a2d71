// Bounded system drivers for the decoder side: arbitrary bytes, chunking, container, bypass, sinks.
#include <cstdio>
#include <new>
#include "drv_common.h"
#include <brunsli/decode.h>
#include <brunsli/encode.h>
using namespace brunsli;
typedef jg::Rng Rng;

static Bytes encode(const JPEGData& jpg, bool* ok) {
  Bytes b(GetMaximumBrunsliEncodedSize(jpg));
  size_t n = b.size();
  *ok = BrunsliEncodeJpeg(jpg, b.data(), &n);
  b.resize(*ok ? n : 0);
  return b;
}
static Bytes bypass(const Bytes& in) {
  Bytes b(GetBrunsliBypassSize(in.size()));
  size_t n = b.size();
  v_assert(BrunsliEncodeJpegBypass(in.data(), in.size(), b.data(), &n), "bypass-encodes");
  b.resize(n);
  return b;
}
static Bytes random_bytes(Rng& r, size_t n) {
  Bytes b(n);
  for (auto& x : b) x = (uint8_t)r.next();
  return b;
}
// A valid stream (empty if the encoder refuses the image).
static Bytes valid_stream(Rng& r, Bytes* source) {
  if (r.chance(1, 12)) {
    *source = random_bytes(r, r.range(1, 3000));
    return bypass(*source);
  }
  jg::Gen g(r.next());
  g.build();
  *source = g.out;
  JPEGData jpg;
  if (!ReadJpeg(g.out.data(), g.out.size(), JPEG_READ_ALL, &jpg)) return Bytes();
  bool ok;
  return encode(jpg, &ok);
}

// ---------------------------------------------------------------- sections
struct Sec {
  int tag, wire;
  size_t start, body, end;  // marker byte, first payload byte, one past
};
static size_t put128(Bytes* b, uint64_t v) {
  size_t n = 0;
  do {
    b->push_back((uint8_t)((v & 127) | (v > 127 ? 128 : 0)));
    v >>= 7;
    ++n;
  } while (v);
  return n;
}
static bool get128(const Bytes& b, size_t* p, uint64_t* v) {
  *v = 0;
  for (int i = 0; i < 9; ++i) {
    if (*p >= b.size()) return false;
    uint8_t c = b[(*p)++];
    *v |= (uint64_t)(c & 127) << (7 * i);
    if (c < 128) return true;
  }
  return false;
}
static bool sections(const Bytes& b, std::vector<Sec>* out) {
  size_t p = 6;
  while (p < b.size()) {
    Sec s;
    s.start = p;
    s.tag = b[p] >> 3;
    s.wire = b[p] & 7;
    ++p;
    uint64_t v;
    if (!get128(b, &p, &v)) return false;
    s.body = p;
    if (s.wire == 2) {
      if (v > b.size() - p) return false;
      p += v;
    }
    s.end = p;
    out->push_back(s);
  }
  return true;
}
static Bytes sub(const Bytes& b, size_t i, size_t j) { return Bytes(b.begin() + i, b.begin() + j); }
static void append(Bytes* a, const Bytes& b) { a->insert(a->end(), b.begin(), b.end()); }
static Bytes make_sec(int tag, const Bytes& body) {
  Bytes o;
  o.push_back((uint8_t)(tag << 3 | 2));
  put128(&o, body.size());
  append(&o, body);
  return o;
}

static Bytes flip(Rng& r, Bytes b, size_t from, size_t to) {
  if (from >= to) return b;
  int n = r.chance(1, 2) ? 1 : r.range(1, 6);
  for (int i = 0; i < n; ++i) {
    size_t p = from + (size_t)(r.next() % (to - from));
    switch (r.range(0, 4)) {
      case 0: b[p] ^= (uint8_t)(1 << r.range(0, 7)); break;
      case 1: b[p] = (uint8_t)r.next(); break;
      case 2: b[p] = 0; break;
      case 3: b[p] = 255; break;
      default: {
        size_t k = 1 + (size_t)r.range(0, 15);
        for (size_t q = p; q < to && q < p + k; ++q) b[q] = (uint8_t)r.next();
      }
    }
  }
  return b;
}
// Corrupt a valid stream: raw bytes, one section's payload, the lengths, the order, truncation.
static Bytes corrupt(Rng& r, const Bytes& b) {
  std::vector<Sec> s;
  if (b.size() < 8 || !sections(b, &s) || s.empty() || r.chance(1, 6)) return flip(r, b, 0, b.size());
  const Sec& t = s[r.range(0, (int)s.size() - 1)];
  switch (r.range(0, 7)) {
    case 0: return cut(b, (size_t)(r.next() % (b.size() + 1)));
    case 1: {  // another payload length
      Bytes o = sub(b, 0, t.start), body = sub(b, t.body, t.end);
      size_t n = (size_t)r.range(0, (int)body.size() + 5);
      while (body.size() < n) body.push_back((uint8_t)r.next());
      body.resize(n);
      append(&o, make_sec(t.tag, flip(r, body, 0, body.size())));
      append(&o, sub(b, t.end, b.size()));
      return o;
    }
    case 2: {  // declared length off
      Bytes o = sub(b, 0, t.start + 1);
      put128(&o, r.chance(1, 4) ? r.next() >> r.range(1, 60) : (uint64_t)(t.end - t.body + r.range(-3, 3)));
      append(&o, sub(b, t.body, b.size()));
      return o;
    }
    case 3: {  // drop or duplicate
      Bytes o = sub(b, 0, t.start);
      if (r.chance(1, 2)) {
        append(&o, sub(b, t.start, t.end));
        append(&o, sub(b, t.start, t.end));
      }
      append(&o, sub(b, t.end, b.size()));
      return o;
    }
    default: return flip(r, b, t.body, t.end);
  }
}

struct Result {
  int status;  // 0 done, 1 needs more input, 2 error
  Bytes out;
};
static Result one_shot(const Bytes& b) {
  Result res;
  Exact e(b);
  JPEGData jpg;
  static const uint8_t none[1] = {0};
  BrunsliStatus st = BrunsliDecodeJpeg(b.empty() ? none : e.p, e.n, &jpg);
  res.status = st == BRUNSLI_OK ? 0 : st == BRUNSLI_NOT_ENOUGH_DATA ? 1 : 2;
  if (st == BRUNSLI_OK && !write_jpeg(jpg, &res.out)) res.status = 2;
  if (st == BRUNSLI_OK && jpg.version != 1) {
    // what an accepted image must satisfy
    v_assert(jpg.width > 0 && jpg.width <= 65535 && jpg.height > 0 && jpg.height <= 65535, "accepted-dimensions");
    v_assert(jpg.components.size() >= 1 && jpg.components.size() <= 4, "accepted-components");
    for (const JPEGComponent& c : jpg.components)
      v_assert(c.num_blocks <= (1u << 21) && c.coeffs.size() == 64u * c.num_blocks, "accepted-blocks");
  }
  return res;
}
// All input at once, ample output: the reference for any chunking.
static Result whole(const Bytes& b, size_t out_cap) {
  Result res;
  Exact e(b);
  BrunsliDecoder d;
  Bytes out(out_cap);
  size_t ain = e.n, aout = out.size();
  const uint8_t* in = e.p;
  uint8_t* o = out.data();
  BrunsliDecoder::Status st = d.Decode(&ain, &in, &aout, &o);
  v_assert(st == BrunsliDecoder::ERROR || ain == 0, "all-input-taken");
  v_assert(in == e.p + (e.n - ain) && o == out.data() + (out.size() - aout), "cursor-moves");
  out.resize(out.size() - aout);
  res.out = out;
  v_assert(st != BrunsliDecoder::NEEDS_MORE_OUTPUT, "output-space-suffices");
  res.status = st == BrunsliDecoder::DONE ? 0 : st == BrunsliDecoder::NEEDS_MORE_INPUT ? 1 : 2;
  return res;
}
static Result chunked(Rng& r, const Bytes& b) {
  Result res;
  BrunsliDecoder d;
  size_t pos = 0;
  const int in_style = r.range(0, 4), out_style = r.range(0, 3);
  int idle = 0;
  for (;;) {
    size_t n = in_style == 0 ? 1 : in_style == 1 ? (size_t)r.range(0, 7) : in_style == 2 ? (size_t)r.range(0, 900) :
               in_style == 3 ? (size_t)(r.chance(1, 3) ? r.range(0, 3) : r.range(0, 4000)) : b.size();
    n = std::min(n, b.size() - pos);
    uint8_t* chunk = new uint8_t[n];
    if (n) memcpy(chunk, b.data() + pos, n);
    pos += n;
    size_t ain = n;
    const uint8_t* in = chunk;
    for (;;) {
      size_t cap = out_style == 0 ? (size_t)r.range(0, 3) : out_style == 1 ? (size_t)r.range(1, 300) :
                   out_style == 2 ? (size_t)r.range(0, 5000) : (size_t)1 << 17;
      uint8_t* ob = new uint8_t[cap];
      uint8_t* o = ob;
      size_t aout = cap;
      BrunsliDecoder::Status st = d.Decode(&ain, &in, &aout, &o);
      v_assert(aout <= cap && o == ob + (cap - aout), "output-cursor");
      res.out.insert(res.out.end(), ob, o);
      delete[] ob;
      if (st == BrunsliDecoder::ERROR || st == BrunsliDecoder::DONE) {
        delete[] chunk;
        res.status = st == BrunsliDecoder::DONE ? 0 : 2;
        // bytes after the end of the stream are refused like the reference does
        if (st == BrunsliDecoder::DONE && pos < b.size()) res.status = 2;
        return res;
      }
      v_assert(ain == 0, "all-input-taken");
      if (st == BrunsliDecoder::NEEDS_MORE_INPUT) break;
      v_assert(aout == 0, "asks-for-output-only-when-full");
      if (r.chance(1, 2)) break;  // or go on with the next chunk
    }
    delete[] chunk;
    if (pos == b.size()) {
      // drain
      static const uint8_t none[1] = {0};
      for (;;) {
        size_t z = 0;
        const uint8_t* in2 = none;
        uint8_t ob[64];
        uint8_t* o = ob;
        size_t aout = sizeof ob;
        BrunsliDecoder::Status st = d.Decode(&z, &in2, &aout, &o);
        res.out.insert(res.out.end(), ob, o);
        if (st == BrunsliDecoder::NEEDS_MORE_OUTPUT) continue;
        if (st == BrunsliDecoder::NEEDS_MORE_INPUT && aout == 0) continue;  // more may be pending
        res.status = st == BrunsliDecoder::DONE ? 0 : st == BrunsliDecoder::NEEDS_MORE_INPUT ? 1 : 2;
        return res;
      }
    }
    v_assert(n != 0 || ++idle < 100000, "makes-progress");
  }
}

// C13
HARNESS(drv_stream) {
  Rng r(v_nondet("seed", 0, 64));
  Bytes src;
  Bytes b = valid_stream(r, &src);
  if (b.empty()) return;
  const int kind = r.range(0, 3);
  if (kind == 1) b = corrupt(r, b);
  if (kind == 2) b = cut(b, (size_t)(r.next() % b.size()));
  const Result os = one_shot(b);
  const Result w = whole(b, std::max(src.size(), os.out.size()) * 2 + (1u << 20));
  v_assert((w.status == 0) == (os.status == 0), "streaming-agrees-with-one-shot");
  if (os.status == 0) v_assert(w.out == os.out, "streaming-output-agrees-with-one-shot");
  if (kind == 0 || kind == 3) v_assert(w.status == 0 && w.out == src, "valid-stream-decodes");
  if (kind == 2) v_assert(w.status == 1, "prefix-asks-for-more-input");
  for (int i = 0; i < 3; ++i) {
    const Result c = chunked(r, b);
    v_assert(c.status == w.status, "chunked-status-agrees");
    if (w.status != 2) v_assert(c.out == w.out, "chunked-output-agrees");
  }
}

// Largest single allocation made while decoding.
static size_t max_alloc;
static void on_alloc(const volatile void*, size_t n) { if (n > max_alloc) max_alloc = n; }
static void on_free(const volatile void*) {}
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
static const int hooked = __sanitizer_install_malloc_and_free_hooks(on_alloc, on_free);

static void safe_decode(const Bytes& b, size_t declared_blocks) {
  max_alloc = 0;
  one_shot(b);
  // 64 coefficients of 2 bytes or 34 bytes of per block state, growth by doubling; tables; input and output copies
  const size_t justified = 128 * (declared_blocks + 64) * 2 + (1u << 22) + 64 * b.size() + (64u << 20);
  v_assert(max_alloc <= justified, "allocation-justified");
}
static size_t declared(const Bytes& b) {
  // width, height, sampling as declared by the header (own parser), bounded by the format's limits
  size_t p = 6;
  if (b.size() < 8 || b[p] != 0x12) return 0;
  ++p;
  uint64_t len, v, w = 0, h = 0;
  if (!get128(b, &p, &len)) return 0;
  const size_t end = len > b.size() - p ? b.size() : p + len;
  while (p < end) {
    uint8_t m = b[p++];
    if (!get128(b, &p, &v)) break;
    if ((m & 7) == 2) { if (v > end - p) break; p += v; continue; }
    if (m >> 3 == 1) w = v;
    if (m >> 3 == 2) h = v;
  }
  if (w > 65535 || h > 65535) return 0;
  // at most 16x16 sampling: one MCU is up to 128x128 pixels, at least 8 pixels per block
  uint64_t n = ((w + 127 + 7) / 8 + 16) * ((h + 127 + 7) / 8 + 16);
  return (size_t)std::min<uint64_t>(n, (1u << 21));
}

// C12
HARNESS(drv_malformed) {
  Rng r(v_nondet("seed", 0, 64));
  Bytes src;
  Bytes b;
  if (r.chance(1, 20)) {
    b = random_bytes(r, r.range(0, 200));
    static const uint8_t sig[6] = {0x0A, 0x04, 0x42, 0xD2, 0xD5, 0x4E};
    b.insert(b.begin(), sig, sig + 6);
    safe_decode(b, declared(b));
    return;
  }
  b = valid_stream(r, &src);
  if (b.empty()) return;
  for (int i = 0; i < 6; ++i) {
    Bytes c = corrupt(r, b);
    if (r.chance(1, 3)) c = corrupt(r, c);
    const size_t d = declared(c);
    if (d > 60000 && !r.chance(1, 20)) continue;
    safe_decode(c, d);
    if (i == 0) {
      Exact e(c);
      BrunsliEstimateDecoderPeakMemoryUsage(e.p, e.n);
      IsBrunsli(e.p, e.n);
    }
    if (i == 1) chunked(r, c);
  }
}

// C17
HARNESS(drv_container) {
  Rng r(v_nondet("seed", 0, 64));
  Bytes src;
  Bytes b = valid_stream(r, &src);
  if (b.empty()) return;
  std::vector<Sec> s;
  v_assert(sections(b, &s) && s.size() >= 2, "sections-well-formed");
  static const uint8_t sig[6] = {0x0A, 0x04, 0x42, 0xD2, 0xD5, 0x4E};
  v_assert(memcmp(b.data(), sig, 6) == 0, "signature");
  v_assert(s[0].tag == 2 && s[0].wire == 2, "header-first");
  const bool fb = s[1].tag == 9;
  {
    Result w = one_shot(b);
    v_assert(w.status == 0 && w.out == src, "valid-stream-decodes");
  }
  for (int it = 0; it < 4; ++it) {
    Bytes o;
    bool same = false;  // the edit must not change the result; otherwise it must be refused
    const size_t k = (size_t)r.range(1, (int)s.size() - 1);
    switch (r.range(0, fb ? 6 : 12)) {
      case 0:  // wrong signature
        o = b;
        o[r.range(0, 5)] ^= (uint8_t)(1 << r.range(0, 7));
        break;
      case 1:  // bytes after the end
        o = b;
        append(&o, random_bytes(r, r.range(1, 4)));
        break;
      case 2: {  // one byte more or less in the declared length
        const Sec& t = s[(size_t)r.range(0, (int)s.size() - 1)];
        if (t.wire != 2) return;
        Bytes body = sub(b, t.body, t.end);
        // zero bytes only: a longer meta-data tail would be legitimate content
        if (t.tag == 3 || (fb && t.tag == 9)) continue;
        const bool longer = body.empty() || r.chance(1, 2);
        if (t.tag == 2 && longer) body.push_back((uint8_t)(r.chance(1, 2) ? 0 : 0x0B));
        else if (longer) { body.push_back(0); if (t.tag >= 7 && r.chance(1, 2)) body.push_back(0); }
        else body.pop_back();
        o = sub(b, 0, t.start);
        append(&o, make_sec(t.tag, body));
        append(&o, sub(b, t.end, b.size()));
        break;
      }
      case 3: {  // header edits
        const Sec& t = s[0];
        Bytes body = sub(b, t.body, t.end);
        std::vector<Bytes> items;
        size_t p = 0;
        while (p < body.size()) {
          size_t q = p++;
          uint64_t v;
          v_assert(get128(body, &p, &v), "header-items");
          items.push_back(sub(body, q, p));
        }
        switch (r.range(0, 5)) {
          case 0: {  // repeat an item
            Bytes it2 = items[(size_t)r.range(0, (int)items.size() - 1)];
            items.insert(items.begin() + r.range(0, (int)items.size()), it2);
            break;
          }
          case 1: {  // drop one (the fallback header carries only the version)
            const int i = r.range(0, (int)items.size() - 1);
            if (fb && items[i][0] >> 3 != 3) same = true;  // a fallback header needs the version only
            items.erase(items.begin() + i);
            break;
          }
          case 2: {  // unknown varint
            Bytes u(1, (uint8_t)(r.range(5, 15) << 3));
            put128(&u, r.next() >> r.range(1, 63));
            items.insert(items.begin() + r.range(0, (int)items.size()), u);
            same = true;
            break;
          }
          case 3: {  // unknown length-delimited field
            items.insert(items.begin() + r.range(0, (int)items.size()),
                         make_sec(r.range(5, 15), random_bytes(r, r.range(0, 200))));
            same = true;
            break;
          }
          case 4: {  // a known field in the wrong wire type
            size_t i = (size_t)r.range(0, (int)items.size() - 1);
            Bytes rep = make_sec(items[i][0] >> 3, random_bytes(r, r.range(0, 4)));
            items[i] = rep;
            break;
          }
          default: {  // invalid value
            size_t i = (size_t)r.range(0, (int)items.size() - 1);
            int tag = items[i][0] >> 3;
            Bytes u(1, items[i][0]);
            if (tag == 1 || tag == 2) put128(&u, r.chance(1, 3) ? 0 : r.chance(1, 2) ? 65536 : r.next() >> 2);
            else if (tag == 3) put128(&u, (fb ? 12 : 4) | (uint64_t)r.range(0, 3) | ((uint64_t)r.range(1, 40) << 3));
            else put128(&u, 15u << (4 * 0) << 0 | 0xFull << 0 | 0xEEull << 8);
            if (tag == 4 || (fb && tag != 3)) continue;
            items[i] = u;
          }
        }
        Bytes nb;
        for (auto& x : items) append(&nb, x);
        o = sub(b, 0, t.start);
        append(&o, make_sec(2, nb));
        append(&o, sub(b, t.end, b.size()));
        break;
      }
      case 4:  // no header
        o = sub(b, 0, 6);
        append(&o, sub(b, s[0].end, b.size()));
        break;
      case 5: {  // wrong wire type or marker
        o = b;
        uint8_t& m = o[s[k].start];
        m = (uint8_t)((m & ~7) | (r.chance(1, 2) ? 0 : (r.range(0, 1) ? r.range(3, 7) : 1)));
        break;
      }
      case 6:  // truncated
        o = cut(b, (size_t)(r.next() % b.size()));
        break;
      case 7: {  // repeat a known section
        size_t j = (size_t)r.range((int)k, (int)s.size() - 1);
        o = sub(b, 0, s[j].start);
        append(&o, sub(b, s[k].start, s[k].end));
        append(&o, sub(b, s[j].start, b.size()));
        if (j == k) { /* the copy comes first, the second one is the repeat */ }
        break;
      }
      case 8: {  // a mandatory section missing (meta-data may be left out only when there is none)
        if (s[k].tag == 3) continue;
        o = sub(b, 0, s[k].start);
        append(&o, sub(b, s[k].end, b.size()));
        break;
      }
      case 9: {  // a needed section comes too late
        size_t j = (size_t)r.range((int)k, (int)s.size() - 1);
        int a = s[k].tag, c = s[j].tag;
        const bool dep = (a == 4 && (c == 5 || c == 6)) || ((a == 5 || a == 6) && c >= 7) || (a == 4 && c >= 7) ||
                         (a == 7 && c == 8);
        o = sub(b, 0, s[k].start);
        append(&o, sub(b, s[k].end, s[j].end));
        append(&o, sub(b, s[k].start, s[k].end));
        append(&o, sub(b, s[j].end, b.size()));
        if (!dep) {
          if (c == 8 || j == k) continue;  // nothing may follow the AC data
          same = true;
        }
        break;
      }
      case 10:    // unknown section
      case 11: {
        o = sub(b, 0, s[k].start);
        append(&o, make_sec(r.range(10, 15), random_bytes(r, r.range(0, 900))));
        append(&o, sub(b, s[k].start, b.size()));
        same = true;
        break;
      }
      default: {  // unknown top level varint
        o = sub(b, 0, s[k].start);
        o.push_back((uint8_t)(r.range(10, 15) << 3));
        put128(&o, r.next() >> r.range(1, 63));
        append(&o, sub(b, s[k].start, b.size()));
        same = true;
      }
    }
    const Result w = one_shot(o);
    if (same) v_assert(w.status == 0 && w.out == src, "harmless-edit-changes-nothing");
    else v_assert(w.status != 0, "bad-container-refused");
    const Result c = chunked(r, o);
    v_assert((c.status == 0) == (w.status == 0), "chunked-agrees");
  }
}

// C15
HARNESS(drv_bypass) {
  Rng r(v_nondet("seed", 0, 64));
  size_t n = r.chance(1, 3) ? (size_t)r.range(1, 20) : r.chance(1, 3) ? (size_t)(r.range(100, 140)) :
             r.chance(1, 2) ? (size_t)(16384 + r.range(-40, 40)) : (size_t)r.range(1, 70000);
  if (r.chance(1, 100)) n = (1u << 21) + r.range(-40, 40);
  Bytes in = random_bytes(r, n);
  const size_t cap = GetBrunsliBypassSize(n);
  uint8_t* buf = new uint8_t[cap];
  size_t len = cap;
  Exact e(in);
  v_assert(BrunsliEncodeJpegBypass(e.p, e.n, buf, &len), "bypass-encodes");
  v_assert(len <= cap, "bypass-size");
  Bytes b(buf, buf + len);
  delete[] buf;
  const Result w = one_shot(b);
  v_assert(w.status == 0 && w.out == in, "bypass-lossless");
  v_assert(IsBrunsli(b.data(), b.size()), "recognised");
  if (n < 5000) {
    const Result c = chunked(r, b);
    v_assert(c.status == 0 && c.out == in, "bypass-lossless-streaming");
  }
  // a buffer that is too small is refused and nothing is written past it
  size_t small = r.chance(1, 2) ? len - 1 : (size_t)(r.next() % len);
  uint8_t* sb = new uint8_t[small];
  size_t l2 = small;
  v_assert(!BrunsliEncodeJpegBypass(e.p, e.n, sb, &l2), "small-buffer-refused");
  delete[] sb;
}

// C18
struct Sink {
  Rng* r;
  Bytes got;
  int fail_at, calls, mode;
  bool failed;
  static size_t fn(void* v, const uint8_t* p, size_t n) {
    Sink* s = static_cast<Sink*>(v);
    if (s->calls++ == s->fail_at && n > 0) {
      s->failed = true;
      size_t k = s->mode == 0 ? 0 : s->mode == 1 ? n - 1 : s->mode == 2 ? n + 1 : s->mode == 3 ? (size_t)-1 : (size_t)(s->r->next() % n);
      s->got.insert(s->got.end(), p, p + std::min(k, n));
      return k;
    }
    s->got.insert(s->got.end(), p, p + n);
    return n;
  }
};
HARNESS(drv_sink) {
  Rng r(v_nondet("seed", 0, 64));
  jg::Gen g(r.next());
  g.build();
  Bytes src = g.out;
  const bool bad = r.chance(1, 4);
  if (bad) src = r.chance(1, 2) ? cut(src, (size_t)(r.next() % src.size())) : flip(r, src, 0, src.size());
  JPEGData jpg;
  Exact e(src);
  bool ok = ReadJpeg(e.p, e.n, JPEG_READ_ALL, &jpg);
  Bytes want;
  if (ok) want = encode(jpg, &ok);
  for (int i = 0; i < 2; ++i) {
    Sink s{&r, Bytes(), r.chance(1, 2) ? -1 : 0, 0, r.range(0, 4), false};
    int ret = EncodeBrunsli(e.n, e.p, &s, Sink::fn);
    v_assert(ret == (ok && !s.failed ? 1 : 0), "encode-status");
    if (ret) v_assert(s.got == want, "encode-delivers-everything");
  }
  if (!ok) return;
  Bytes b = want;
  Bytes expect = src;
  if (r.chance(1, 8)) { expect = random_bytes(r, r.range(1, 500)); b = bypass(expect); }
  const bool corrupted = r.chance(1, 3);
  if (corrupted) b = corrupt(r, b);
  const Result w = one_shot(b);
  if (!corrupted) v_assert(w.status == 0 && w.out == expect, "one-shot-decodes");
  Exact be(b);
  static const uint8_t none[1] = {0};
  int calls = 0;
  for (int i = 0; i < 4; ++i) {
    Sink s{&r, Bytes(), i == 0 ? -1 : (int)(r.next() % (uint64_t)(calls + 1)), 0, r.range(0, 4), false};
    int ret = DecodeBrunsli(be.n, b.empty() ? none : be.p, &s, Sink::fn);
    if (i == 0) calls = s.calls;
    v_assert(ret == (w.status == 0 && !s.failed ? 1 : 0), "decode-status");
    if (ret) v_assert(s.got == w.out, "decode-delivers-everything");
  }
}
// C20
HARNESS(drv_jpegfuzz) {
  Rng r(v_nondet("seed", 0, 64));
  jg::Gen g(r.next());
  g.build();
  for (int i = 0; i < 8; ++i) {
    Bytes c = g.out;
    switch (r.range(0, 3)) {
      case 0: c = cut(c, (size_t)(r.next() % (c.size() + 1))); break;
      case 1: {  // inside the marker segments
        size_t lim = std::min<size_t>(c.size(), 700);
        c = flip(r, c, 0, lim);
        break;
      }
      case 2: {  // structure of one marker segment
        std::vector<size_t> m;
        for (size_t k = 2; k + 4 < c.size(); ++k)
          if (c[k] == 0xFF && c[k + 1] >= 0xC0 && c[k + 1] != 0xFF && !(c[k + 1] >= 0xD0 && c[k + 1] <= 0xD8)) m.push_back(k);
        if (!m.empty()) {
          size_t k = m[(size_t)(r.next() % m.size())];
          c = flip(r, c, k + (r.chance(1, 3) ? 1 : 2), std::min(c.size(), k + (size_t)r.range(4, 24)));
        }
        break;
      }
      default: c = flip(r, c, 0, c.size());
    }
    if (r.chance(1, 4)) c = flip(r, c, 0, c.size());
    // keep the declared size small enough to run many cases
    bool huge = false;
    for (size_t k = 0; k + 8 < c.size(); ++k)
      if (c[k] == 0xFF && (c[k + 1] >= 0xC0 && c[k + 1] <= 0xC2) && (c[k + 5] > 2 || c[k + 7] > 2)) huge = true;
    if (huge && !r.chance(1, 30)) continue;
    Exact e(c);
    JPEGData jpg;
    const JpegReadMode mode = r.chance(1, 10) ? JPEG_READ_HEADER : r.chance(1, 10) ? JPEG_READ_TABLES : JPEG_READ_ALL;
    const bool ok = ReadJpeg(e.p, e.n, mode, &jpg);
    v_assert(ok == (jpg.error == JPEGReadError::OK), "status-and-error-code-agree");
    if (!ok || mode != JPEG_READ_ALL) continue;
    v_assert(jpg.width > 0 && jpg.width <= 65535 && jpg.height > 0 && jpg.height <= 65535, "accepted-dimensions");
    v_assert(jpg.components.size() >= 1 && jpg.components.size() <= 4, "accepted-components");
    v_assert(jpg.quant.size() >= 1 && jpg.quant.size() <= 4, "accepted-quant-tables");
    for (const JPEGComponent& k : jpg.components) {
      v_assert(k.h_samp_factor >= 1 && k.h_samp_factor <= 15 && k.v_samp_factor >= 1 &&
               k.v_samp_factor <= 15, "accepted-sampling");
      v_assert(k.quant_idx < jpg.quant.size(), "accepted-quant-index");
      v_assert(k.num_blocks <= (1u << 21) && k.coeffs.size() == 64u * k.num_blocks, "accepted-blocks");
      v_assert(k.num_blocks == k.width_in_blocks * k.height_in_blocks, "accepted-block-grid");
    }
    v_assert(jpg.huffman_code.size() <= kMaxDHTMarkers, "accepted-huffman-codes");
    for (const JPEGQuantTable& q : jpg.quant)
      for (int v : q.values) v_assert(v > 0 && v < 65536, "accepted-quant-values");
    // C11: whatever was accepted is written back byte for byte; C19: and survives compression, if that succeeds
    Bytes out;
    v_assert(write_jpeg(jpg, &out), "write-succeeds");
    v_assert(out == c, "written-bytes-equal-source");
    if (r.chance(1, 3)) {
      bool eok;
      Bytes b = encode(jpg, &eok);
      if (eok) {
        Exact be(b);
        JPEGData dec;
        v_assert(BrunsliDecodeJpeg(be.p, be.n, &dec) == BRUNSLI_OK, "decode-succeeds");
        Bytes out2;
        v_assert(write_jpeg(dec, &out2) && out2 == c, "end-to-end-lossless");
      }
    }
  }
}
