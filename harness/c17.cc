// C17: container format (c/dec/brunsli_decode.cc): signature, header, section headers, section dispatch.
#include "c/dec/brunsli_decode.cc"
#include "v.h"
using namespace brunsli;
using internal::dec::State;
using internal::dec::Stage;
using internal::dec::HeaderState;
using internal::dec::SectionHeaderState;
using internal::dec::InternalState;
namespace {
State* v_state;
JPEGData* v_jpg;
int v_seen;
// what one item of the stream says (protocol buffer wire format), parsed independently
struct Item {
  bool complete, bad;
  size_t tag, wiring, value, bytes;
};
uint8_t v_byte[16];
size_t v_len;
Item v_item;
// LEB128 of at most nine bytes
void Varint(size_t at, Item* r) {
  r->complete = r->bad = false;
  r->value = 0;
  for (size_t i = 0; i < 9; ++i) {
    if (at + i >= v_len) return;
    r->value |= (size_t)(v_byte[at + i] & 0x7F) << (7 * i);
    if (v_byte[at + i] < 0x80) {
      r->complete = true;
      r->bytes = at + i + 1;
      return;
    }
  }
  r->complete = r->bad = true;
}
void Open(size_t max) {
  v_state = new State;
  v_state->internal.reset(new InternalState);
  v_jpg = new JPEGData;
  v_len = v_concrete(v_range("len", 0, 4, 0, max), 0, max);
  uint8_t* data = new uint8_t[v_len];
  for (size_t i = 0; i < v_len; ++i) data[i] = v_byte[i] = (uint8_t)v_nondet("byte", i, 8);
  v_state->data = data;
  v_state->len = v_len;
  v_state->pos = 0;
  v_state->stage = Stage::SECTION;
}
InternalState& S() { return *v_state->internal; }
bool Waits(Stage r) { return r == Stage::ERROR && S().result == BRUNSLI_NOT_ENOUGH_DATA; }
bool Refuses(Stage r) { return r == Stage::ERROR && S().result == BRUNSLI_INVALID_BRN; }
const uint8_t kSig[6] = {0x0A, 0x04, 'B', 0xD2, 0xD5, 'N'};
}  // namespace

HARNESS(c17_signature) {
  Open(8);
  const Stage r = VerifySignature(v_state);
  if (v_len < 6) {
    v_assert(Waits(r) && v_state->pos == 0, "waits-for-the-signature");
    return;
  }
  v_cover("complete");
  bool same = true;
  for (size_t i = 0; i < 6; ++i) same = same & (v_byte[i] == kSig[i]);
  v_assert(same ? r == Stage::HEADER : Refuses(r), "signature-is-required");
  v_assert(!same || (v_state->pos == 6 && S().section.tags_met == 1u << 1), "signature-is-a-section");
}

// One header item from any state in which items can start.
static uint32_t v_met;
static size_t v_end, v_values[16];
static bool v_enter_ok;
extern "C" bool c17_boundary(State* state) {
  if (++v_seen == 2) {  // back at the start of an item: the loop invariant
    v_assert(v_state->pos == v_item.bytes && v_item.complete && !v_item.bad, "item-is-consumed");
    v_assert(v_item.tag >= 1 && v_item.tag <= 15 && !(v_met >> v_item.tag & 1), "valid-tag-seen-once");
    v_assert(S().header.section.tags_met == (v_met | 1u << v_item.tag), "tag-is-remembered");
    v_assert(v_item.wiring == 0 || (v_item.wiring == 2 && v_item.tag > 4), "known-fields-are-varints");
    for (size_t t = 0; t < 16; ++t) {
      v_assert(S().header.varint_values[t] == (v_item.wiring == 0 && t == v_item.tag ? v_item.value : v_values[t]), "value-is-stored");
    }
    v_cover("item");
    v_assume(false);
  }
  return state->pos == state->internal->section.projected_end;
}
HARNESS(c17_item) {
  if (v_native()) return;
  Open(12);
  v_seen = 0;
  v_end = (size_t)v_range("end", 0, 32, 0, 0xFFFFFFFFu);
  HeaderState& hs = S().header;
  hs.stage = HeaderState::ITEM_READ_TAG;
  hs.section.tags_met = v_met = (uint32_t)v_nondet("met", 0, 16);
  S().section.projected_end = v_end;
  S().section.is_active = true;
  for (size_t t = 0; t < 16; ++t) v_values[t] = hs.varint_values[t] = (size_t)v_nondet("old", t, 64);
  v_assume(v_end != 0);
  // what the bytes say
  Item& m = v_item;
  m.complete = m.bad = false;
  if (v_len > 0) {
    m.tag = v_byte[0] >> 3;
    m.wiring = v_byte[0] & 7;
    Varint(1, &m);
    if (m.complete && !m.bad && m.wiring == 2) {
      if (m.value > v_len - m.bytes) m.complete = false;
      else m.bytes += m.value;
    }
  }
  const Stage r = DecodeHeader(v_state, v_jpg);
  v_assert(r == Stage::ERROR, "ends-only-at-an-item");
  if (v_len == 0) {
    v_assert(Waits(r), "waits");
    return;
  }
  const bool bad = m.tag < 1 || m.tag > 15 || (m.wiring != 0 && m.wiring != 2) || (v_met >> (m.tag & 15) & 1) ||
                   (m.wiring == 2 && m.tag <= 4) || m.bad;
  if (bad) {
    v_cover("bad");
    v_assert(Refuses(r) || (!m.complete && Waits(r)), "bad-item-is-refused");
  } else {
    v_cover("incomplete");
    v_assert(!m.complete && Waits(r), "good-item-is-accepted");
  }
}
// End of the header, for every set of fields.
extern "C" bool c17_derive(JPEGData* jpg) {
  for (size_t i = 0; i < jpg->components.size(); ++i) {
    v_assert(jpg->components[i].h_samp_factor >= 1 && jpg->components[i].h_samp_factor <= 15, "valid-sampling");
    v_assert(jpg->components[i].v_samp_factor >= 1 && jpg->components[i].v_samp_factor <= 15, "valid-sampling");
  }
  ++v_seen;
  return v_enter_ok;
}
extern "C" void c17_prepare(const JPEGData*, State*) {}
HARNESS(c17_finale) {
  if (v_native()) return;
  Open(0);
  v_seen = 0;
  HeaderState& hs = S().header;
  hs.stage = HeaderState::FINALE;
  hs.section.tags_met = v_met = (uint32_t)v_nondet("met", 0, 16);
  const uint32_t before = S().section.tags_met = (uint32_t)v_nondet("sections", 0, 16);
  for (size_t t = 0; t < 16; ++t) v_values[t] = hs.varint_values[t] = (size_t)v_nondet("old", t, 64);
  v_enter_ok = v_nondet("few blocks", 0, 1);
  const size_t vc = v_values[3], version = vc >> 2, sub = v_values[4];
  const size_t comps = (vc & 3) + 1;
  const Stage r = DecodeHeader(v_state, v_jpg);
  bool ok = v_met >> 3 & 1;
  if (ok && version == 1) {
    v_cover("bypass");
    v_assert(r == Stage::FALLBACK && v_jpg->version == 1, "bypass");
    return;
  }
  ok = ok && (version == 0 || version == 2 || version == 4 || version == 6) && (v_met >> 1 & 1) && (v_met >> 2 & 1) && (v_met >> 4 & 1);
  ok = ok && v_values[1] >= 1 && v_values[1] <= 65535 && v_values[2] >= 1 && v_values[2] <= 65535;
  for (size_t i = 0; i < 2 * comps && ok; ++i) ok = ok & ((sub >> (4 * i) & 15) != 15);
  if (!ok) {
    v_cover("bad");
    v_assert(Refuses(r), "incomplete-or-invalid-header-is-refused");
    return;
  }
  v_assert(v_seen == 1, "sizes-are-checked");
  v_assert(v_enter_ok ? r == Stage::SECTION : Refuses(r), "header-is-accepted");
  if (!v_enter_ok) return;
  v_cover("regular");
  v_assert(v_jpg->width == (int)v_values[1] && v_jpg->height == (int)v_values[2] && v_jpg->version == (int)version, "fields-are-used");
  v_assert(v_jpg->components.size() == comps, "fields-are-used");
  for (size_t i = 0; i < comps; ++i) {
    v_assert(v_jpg->components[i].v_samp_factor == (int)(sub >> (8 * i) & 15) + 1, "fields-are-used");
    v_assert(v_jpg->components[i].h_samp_factor == (int)(sub >> (8 * i + 4) & 15) + 1, "fields-are-used");
  }
  v_assert(v_state->use_legacy_context_model == !(version & 2), "fields-are-used");
  v_assert(S().section.tags_met == (before | 1u << 9), "no-original-jpeg-in-a-regular-file");
}
// Start of the header section
HARNESS(c17_header) {
  if (v_native()) return;
  Open(12);
  v_seen = 1;  // the items are c17_item
  v_met = 0;
  for (size_t t = 0; t < 16; ++t) v_values[t] = S().header.varint_values[t];
  const uint32_t before = S().section.tags_met = (uint32_t)v_nondet("sections", 0, 16);
  Item& m = v_item;
  m.complete = m.bad = false;
  if (v_len > 0) Varint(1, &m);
  const Stage r = DecodeHeader(v_state, v_jpg);
  v_assert(r == Stage::ERROR, "header-is-read");
  if (v_len == 0) {
    v_assert(Waits(r), "waits");
    return;
  }
  const bool bad = v_byte[0] != (2 << 3 | 2) || (before >> 2 & 1) || m.bad;
  v_assert(bad ? Refuses(r) || (!m.complete && Waits(r)) : !m.complete && Waits(r), "header-section-comes-first");
}
extern "C" bool c17_boundary_first(State* state) {
  v_assert(v_byte[0] == (2 << 3 | 2) && v_item.complete && !v_item.bad, "header-section-comes-first");
  v_assert(state->pos == v_item.bytes && S().section.projected_end == v_item.bytes + v_item.value && S().section.is_active, "section-extent");
  v_assert(S().section.tags_met >> 2 & 1, "tag-is-remembered");
  v_cover("entered");
  v_assume(false);
  return false;
}

// Section header, from any set of sections already met.
HARNESS(c17_section_head) {
  Open(12);
  const uint32_t before = S().section.tags_met = (uint32_t)v_nondet("sections", 0, 16);
  Item& m = v_item;
  m.complete = m.bad = false;
  if (v_len > 0) {
    m.tag = v_byte[0] >> 3;
    m.wiring = v_byte[0] & 7;
    Varint(1, &m);
  }
  const Stage r = ParseSection(v_state);
  if (v_len == 0) {
    v_assert(before >> 8 & 1 ? r == Stage::DONE : Waits(r), "waits-for-the-ac-section");
    return;
  }
  const bool known = m.tag >= 1 && m.tag <= 9;
  const bool bad = m.tag < 1 || m.tag > 15 || (m.wiring != 0 && m.wiring != 2) || (before >> (m.tag & 15) & 1) || (m.wiring == 0 && known);
  if (bad) {
    v_cover("bad");
    v_assert(Refuses(r), "bad-section-is-refused");
    return;
  }
  v_assert(S().section.tags_met == (before | 1u << m.tag) && S().section.tag == m.tag, "tag-is-remembered");
  if (!m.complete) {
    v_assert(Waits(r), "waits");
  } else if (m.bad) {
    v_assert(Refuses(r), "bad-length-is-refused");
  } else if (m.wiring == 0) {
    v_cover("value");
    v_assert(r == Stage::SECTION && v_state->pos == m.bytes, "unknown-value-is-skipped");
  } else {
    v_cover("section");
    v_assert(r == Stage::SECTION_BODY && v_state->pos == m.bytes && S().section.projected_end == m.bytes + m.value, "section-extent");
  }
}

// Section bodies: the order of sections and their extent.  The section decoders are arbitrary here.
static int v_called, v_status;
static BrunsliStatus Body(int tag) {
  v_assert(v_called == 0, "one-decoder");
  v_called = tag;
  const size_t used = (size_t)v_nondet("used", 0, 32);
  v_state->pos += used;
  return (BrunsliStatus)v_status;
}
extern "C" BrunsliStatus c17_meta(State*, JPEGData*) { return Body(3); }
extern "C" BrunsliStatus c17_internals(State*, JPEGData*) { return Body(4); }
extern "C" BrunsliStatus c17_quant(State*, JPEGData*) { return Body(5); }
extern "C" BrunsliStatus c17_histogram(State*, JPEGData*) { return Body(6); }
extern "C" BrunsliStatus c17_dc(State*) { return Body(7); }
extern "C" BrunsliStatus c17_ac(State*) { return Body(8); }
static int v_warm;
extern "C" void c17_warm(JPEGData*, State*) { ++v_warm; }
HARNESS(c17_body) {
  if (v_native()) return;
  Open(0);
  v_called = v_warm = 0;
  const size_t tag = v_concrete(v_range("tag", 0, 4, 1, 15), 1, 15);
  v_status = (int)v_nondet("status", 0, 32);
  const size_t pos = v_state->pos = (size_t)v_nondet("pos", 0, 32), end = (size_t)v_nondet("end", 0, 33);
  v_state->len = pos + (size_t)v_nondet("more", 0, 32);
  v_assume(end >= pos);
  S().section.projected_end = end;
  S().section.tag = tag;
  const uint32_t met = S().section.tags_met = (uint32_t)v_nondet("met", 0, 16);
  v_state->skip_tags = 0;
  const Stage r = ProcessSection(v_state, v_jpg);
  if (tag > 9) {
    v_cover("unknown");
    v_assert(v_called == 0, "unknown-section-is-not-decoded");
    if (v_state->len >= end) v_assert(r == Stage::SECTION && v_state->pos == end, "unknown-section-is-skipped");
    else v_assert(Waits(r) && v_state->pos == v_state->len, "unknown-section-is-skipped");
    return;
  }
  bool ok = tag >= 3 && tag <= 8;
  if (tag == 5 || tag == 6) ok = met >> 4 & 1;
  if (tag == 7) ok = (met >> 6 & 1) && (met >> 5 & 1) && (end - pos) % 2 == 0;
  if (tag == 8) ok = (met >> 7 & 1) && (end - pos) % 2 == 0;
  if (!ok) {
    v_cover("out of order");
    v_assert(Refuses(r) && v_called == 0, "needed-sections-come-first");
    return;
  }
  v_assert(v_called == (int)tag, "decoder-of-the-section");
  v_assert(v_warm == (tag >= 7), "coefficients-are-prepared");
  if (v_status != BRUNSLI_OK) {
    v_assert(r == Stage::ERROR && S().result == (BrunsliStatus)v_status, "error-is-passed-on");
  } else if (v_state->pos != end) {
    v_assert(Refuses(r), "section-is-consumed-exactly");
  } else {
    v_cover("accepted");
    v_assert(r == (tag == 8 ? Stage::DONE : Stage::SECTION), "next");
  }
}
// The whole parser: one step from every stage
static int v_next, v_from;
static Stage Step(int stage) {
  if (v_seen++) v_assume(false);
  v_assert(v_from == stage, "stage");
  v_next = (int)v_range("next", 0, 3, 0, 6);
  return (Stage)v_next;
}
extern "C" Stage c17_do_signature(State*) { return Step((int)Stage::SIGNATURE); }
extern "C" Stage c17_do_header(State*, JPEGData*) { return Step((int)Stage::HEADER); }
extern "C" Stage c17_do_original(State*, JPEGData*) { return Step((int)Stage::FALLBACK); }
extern "C" Stage c17_do_section(State*) { return Step((int)Stage::SECTION); }
extern "C" Stage c17_do_body(State*, JPEGData*) { return Step((int)Stage::SECTION_BODY); }
HARNESS(c17_run) {
  if (v_native()) return;
  Open(0);
  v_seen = 0;
  v_from = (int)v_concrete(v_range("stage", 0, 3, 0, 6), 0, 6);
  v_state->stage = (Stage)v_from;
  v_state->pos = (size_t)v_nondet("pos", 0, 32);
  v_state->len = (size_t)v_nondet("len", 0, 32);
  v_status = (int)v_nondet("status", 0, 32);
  S().result = (BrunsliStatus)v_status;
  const BrunsliStatus r = internal::dec::DoProcessJpeg(v_state, v_jpg);
  const int last = v_seen ? v_next : v_from;
  v_assert(last == (int)Stage::DONE || last == (int)Stage::ERROR, "goes-on");
  if (last == (int)Stage::ERROR) {
    v_assert(r == (BrunsliStatus)v_status, "error-is-passed-on");
    return;
  }
  v_cover("done");
  v_assert(v_state->pos == v_state->len ? r == BRUNSLI_OK : r == BRUNSLI_INVALID_BRN, "nothing-follows-the-end");
  v_assert((v_state->stage == Stage::DONE) == (r == BRUNSLI_OK), "stays");
}
