// Independent generator of JPEG files (used by the bounded system drivers).
// Nothing in here uses the code under test.
#ifndef VERIF_JPEGGEN_H_
#define VERIF_JPEGGEN_H_
#include <stdint.h>
#include <string.h>
#include <algorithm>
#include <vector>

namespace jg {

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int range(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }
  bool chance(int num, int den) { return (int)(next() % (uint64_t)den) < num; }
};

static const int kZig[64] = {0,  1,  8,  16, 9,  2,  3,  10, 17, 24, 32, 25, 18, 11, 4,  5,
                             12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6,  7,  14, 21, 28,
                             35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51,
                             58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63};

struct Comp {
  int id, h, v, q, wb, hb, ub, uh;  // padded and unpadded dimensions in blocks
  std::vector<int16_t> coef;        // padded grid, natural order
};

struct Scan {
  std::vector<int> comps;
  int Ss, Se, Ah, Al;
  int dc[4], ac[4];
};

// A token of the entropy coded data: Huffman symbol of a table, then extra bits; or a restart.
struct Tok {
  int table;  // 0..3 DC, 16..19 AC, -1 raw bits, -2 restart marker, -3 end of scan
  int sym;
  uint32_t bits;
  int nbits;
};

struct Huff {
  int slot;
  std::vector<int> len;  // by symbol, 256
  std::vector<uint32_t> code;
};

class Gen {
 public:
  explicit Gen(uint64_t seed) : r(seed) {}
  Rng r;
  int width, height, ncomp, maxh, maxv, mcux, mcuy, restart;
  bool progressive, rich;
  std::vector<Comp> comps;
  std::vector<Scan> scans;
  std::vector<uint8_t> out;
  int maxdim = 72;
  int zero_runs = 0, resets = 0;

  static int ceildiv(int a, int b) { return (a + b - 1) / b; }

  void build() {
    header();
    coefficients();
    script();
    maskpadding();
    write();
  }

 private:
  std::vector<std::vector<int>> quant;
  std::vector<int> quantprec, quantidx;

  void header() {
    rich = r.chance(2, 3);
    int t = r.range(0, 9);
    ncomp = t < 3 ? 1 : t < 8 ? 3 : t == 8 ? 4 : 2;
    width = r.range(1, r.chance(1, 4) ? maxdim : 24);
    height = r.range(1, r.chance(1, 4) ? maxdim : 24);
    progressive = r.chance(1, 2);
    comps.resize(ncomp);
    int mode = r.range(0, 3);
    maxh = maxv = 1;
    for (int i = 0; i < ncomp; ++i) {
      Comp& c = comps[i];
      c.h = c.v = 1;
      if (mode == 1 && i == 0) c.h = c.v = 2;
      if (mode == 2 && i == 0) { c.h = r.range(1, 4); c.v = r.range(1, 4); }
      if (mode == 3) { c.h = 1 << r.range(0, 2); c.v = 1 << r.range(0, 2); }
      maxh = std::max(maxh, c.h);
      maxv = std::max(maxv, c.v);
    }
    // at most 10 blocks per MCU keeps the files small
    mcux = ceildiv(width, 8 * maxh);
    mcuy = ceildiv(height, 8 * maxv);
    int idmode = r.range(0, 3);
    for (int i = 0; i < ncomp; ++i) {
      Comp& c = comps[i];
      c.id = idmode == 0 ? i : idmode == 1 ? "RGBA"[i] : idmode == 2 && r.chance(1, 2) ? 250 - 7 * i : i + 1;
      c.wb = mcux * c.h;
      c.hb = mcuy * c.v;
      c.ub = ceildiv(width * c.h, 8 * maxh);
      c.uh = ceildiv(height * c.v, 8 * maxv);
    }
    for (int i = 0; i < ncomp; ++i)
      for (int j = 0; j < i; ++j)
        if (comps[j].id == comps[i].id)
          for (int k = 0; k < ncomp; ++k) comps[k].id = k + 1;
    restart = r.chance(1, 4) ? r.range(1, std::max(1, std::min(65535, mcux * mcuy))) : 0;
    if (r.chance(1, 40)) restart = 65535;
    // quantisation tables
    int nq = r.range(1, std::min(4, ncomp + 1));
    static const uint8_t std_l[64] = {16, 11, 10, 16, 24,  40,  51,  61,  12, 12, 14, 19, 26,  58,  60,  55,
                                      14, 13, 16, 24, 40,  57,  69,  56,  14, 17, 22, 29, 51,  87,  80,  62,
                                      18, 22, 37, 56, 68,  109, 103, 77,  24, 35, 55, 64, 81,  104, 113, 92,
                                      49, 64, 78, 87, 103, 121, 120, 101, 72, 92, 95, 98, 112, 100, 103, 99};
    for (int i = 0; i < nq; ++i) {
      std::vector<int> q(64);
      int qm = r.range(0, 4);
      int prec = r.chance(1, 6);
      int scale = r.range(1, 400);
      int base = r.range(1, prec ? 65535 : 255);
      for (int k = 0; k < 64; ++k) {
        int v;
        if (qm <= 1) v = (std_l[k] * scale + 50) / 100;
        else if (qm == 2) v = r.range(1, prec ? 65535 : 255);
        else if (qm == 3) v = base;
        else v = base + r.range(-3, 3);
        q[k] = std::max(1, std::min(prec ? 65535 : 255, v));
      }
      quant.push_back(q);
      quantprec.push_back(prec);
      int idx = r.range(0, 3);
      if (rich && r.chance(1, 5)) {
        // may repeat an index
      } else {
        while (std::find(quantidx.begin(), quantidx.end(), idx) != quantidx.end()) idx = (idx + 1) & 3;
      }
      quantidx.push_back(idx);
    }
    for (int i = 0; i < ncomp; ++i) comps[i].q = quantidx[r.range(0, nq - 1)];
  }

  void coefficients() {
    int density = r.range(0, 4);
    bool extreme = r.chance(1, 10);
    for (Comp& c : comps) {
      c.coef.assign((size_t)c.wb * c.hb * 64, 0);
      int dc = r.range(-200, 200);
      int dens = density == 4 ? r.range(0, 3) : density;
      for (int b = 0; b < c.wb * c.hb; ++b) {
        int16_t* p = &c.coef[(size_t)b * 64];
        dc += r.range(-30, 30);
        if (r.chance(1, 20)) dc = extreme ? r.range(-1023, 1023) : r.range(-500, 500);
        dc = std::max(-1023, std::min(1023, dc));
        p[0] = (int16_t)dc;
        int n = dens == 0 ? 0 : dens == 1 ? r.range(0, 3) : dens == 2 ? r.range(0, 16) : r.range(0, 64);
        if (r.chance(1, 6)) n = 0;
        for (int i = 0; i < n; ++i) {
          int k = r.chance(1, 2) ? r.range(1, 63) : 1 + r.range(0, 62) * r.range(0, 62) / 63;
          int mag = r.chance(1, 12) ? r.range(0, 1023) : r.range(0, 6);
          if (r.chance(1, 4)) mag = 1;
          p[kZig[k]] = (int16_t)(r.chance(1, 2) ? mag : -mag);
        }
        if (r.chance(1, 30)) p[kZig[63]] = 1;
      }
    }
  }

  void add(std::vector<int> cs, int Ss, int Se, int Ah, int Al) {
    Scan s;
    s.comps = cs;
    s.Ss = Ss;
    s.Se = Se;
    s.Ah = Ah;
    s.Al = Al;
    int nt = progressive ? 4 : r.chance(1, 2) ? 2 : 4;
    for (int i = 0; i < 4; ++i) {
      s.dc[i] = r.range(0, nt - 1);
      s.ac[i] = r.range(0, nt - 1);
    }
    scans.push_back(s);
  }

  bool mixed_dc[4];
  bool dc_inter[4], ac_inter;

  void script() {
    for (int i = 0; i < 4; ++i) { mixed_dc[i] = false; dc_inter[i] = false; }
    ac_inter = false;
    std::vector<int> all;
    for (int i = 0; i < ncomp; ++i) all.push_back(i);
    if (!progressive) {
      if (ncomp == 1 || r.chance(2, 3)) {
        add(all, 0, 63, 0, 0);
        if (ncomp > 1) {
          ac_inter = true;
          for (int i = 0; i < ncomp; ++i) dc_inter[i] = true;
        }
      } else {
        for (int i = 0; i < ncomp; ++i) add(std::vector<int>(1, i), 0, 63, 0, 0);
        if (ncomp == 3 && r.chance(1, 3)) {
          scans.pop_back();
          scans.pop_back();
          add({1, 2}, 0, 63, 0, 0);
          // components 1 and 2 interleaved, component 0 not
          inter12 = true;
        }
      }
      return;
    }
    int dal = r.chance(1, 2) ? r.range(1, 3) : 0;
    bool inter = ncomp > 1 && r.chance(3, 4);
    auto dcscan = [&](int Ah, int Al, bool in) {
      if (in || ncomp == 1) {
        add(all, 0, 0, Ah, Al);
      } else {
        for (int i = 0; i < ncomp; ++i) add(std::vector<int>(1, i), 0, 0, Ah, Al);
      }
    };
    dcscan(0, dal, inter);
    for (int i = 0; i < ncomp; ++i) dc_inter[i] = inter;
    std::vector<Scan> later;
    std::vector<std::vector<Scan>> chains;
    std::vector<Scan> keep;
    keep.swap(scans);
    for (int a = dal; a > 0; --a) {
      bool in = inter && !r.chance(1, 4);
      if (inter && !in) for (int i = 0; i < ncomp; ++i) mixed_dc[i] = true;
      std::vector<Scan> ch;
      dcscan(a, a - 1, in);
      ch.swap(scans);
      if (chains.empty()) chains.push_back(ch);
      else for (Scan& s : ch) chains[0].push_back(s);
    }
    for (int c = 0; c < ncomp; ++c) {
      if (r.chance(1, 12)) {
        // component without AC scans
        for (size_t b = 0; b < comps[c].coef.size(); ++b) if (b % 64) comps[c].coef[b] = 0;
        continue;
      }
      int lo = 1;
      while (lo <= 63) {
        int hi = r.chance(1, 2) ? 63 : r.range(lo, 63);
        int al = r.chance(1, 2) ? r.range(1, 3) : 0;
        add(std::vector<int>(1, c), lo, hi, 0, al);
        for (int a = al; a > 0; --a) add(std::vector<int>(1, c), lo, hi, a, a - 1);
        std::vector<Scan> ch;
        ch.swap(scans);
        chains.push_back(ch);
        lo = hi + 1;
      }
    }
    scans = keep;
    // interleave the chains at random
    std::vector<size_t> at(chains.size(), 0);
    for (;;) {
      std::vector<int> live;
      for (size_t i = 0; i < chains.size(); ++i) if (at[i] < chains[i].size()) live.push_back((int)i);
      if (live.empty()) break;
      int i = live[r.range(0, (int)live.size() - 1)];
      scans.push_back(chains[i][at[i]++]);
    }
  }
  bool inter12 = false;

  void maskpadding() {
    for (int ci = 0; ci < ncomp; ++ci) {
      Comp& c = comps[ci];
      bool dcok = dc_inter[ci] && !mixed_dc[ci];
      bool acok = ac_inter;
      if (inter12 && ci > 0) dcok = acok = true;
      for (int y = 0; y < c.hb; ++y)
        for (int x = 0; x < c.wb; ++x) {
          if (x < c.ub && y < c.uh) continue;
          int16_t* p = &c.coef[((size_t)y * c.wb + x) * 64];
          if (!dcok) p[0] = 0;
          if (!acok) for (int k = 1; k < 64; ++k) p[k] = 0;
        }
    }
  }

  // --- entropy coded tokens of a scan ---
  std::vector<std::vector<Tok>> toks;
  std::vector<Tok>* cur;
  int eobrun, eobtable;
  std::vector<uint8_t> corr;  // pending correction bits

  void put(int table, int sym, uint32_t bits = 0, int nbits = 0) {
    Tok t = {table, sym, bits, nbits};
    cur->push_back(t);
  }
  static int cat(int v) {
    int n = 0;
    for (v = v < 0 ? -v : v; v; v >>= 1) ++n;
    return n;
  }
  void flusheob() {
    if (eobrun > 0) {
      int n = 0;
      while ((2 << n) <= eobrun) ++n;
      put(16 + eobtable, n << 4, (uint32_t)(eobrun - (1 << n)), n);
      eobrun = 0;
    }
    for (uint8_t b : corr) put(-1, 0, b, 1);
    corr.clear();
  }

  void scantokens(Scan& s) {
    toks.push_back(std::vector<Tok>());
    cur = &toks.back();
    eobrun = 0;
    corr.clear();
    int pred[4] = {0, 0, 0, 0};
    bool inter = s.comps.size() > 1;
    Comp& c0 = comps[s.comps[0]];
    int mx = inter ? mcux : c0.ub, my = inter ? mcuy : c0.uh;
    int togo = restart;
    for (int y = 0; y < my; ++y)
      for (int x = 0; x < mx; ++x) {
        if (restart > 0) {
          if (togo == 0) {
            flusheob();
            put(-2, 0);
            memset(pred, 0, sizeof(pred));
            togo = restart;
          }
          --togo;
        }
        for (size_t i = 0; i < s.comps.size(); ++i) {
          Comp& c = comps[s.comps[i]];
          int ny = inter ? c.v : 1, nx = inter ? c.h : 1;
          for (int iy = 0; iy < ny; ++iy)
            for (int ix = 0; ix < nx; ++ix) {
              int by = y * ny + iy, bx = x * nx + ix;
              block(s, (int)i, &c.coef[((size_t)by * c.wb + bx) * 64], &pred[s.comps[i]]);
            }
        }
      }
    flusheob();
    put(-3, 0);
  }

  void block(Scan& s, int i, const int16_t* p, int* pred) {
    int ac = s.ac[i], dc = s.dc[i];
    int k0 = s.Ss;
    if (s.Ss == 0) {
      if (s.Ah == 0) {
        int v = p[0] >> s.Al;
        int d = v - *pred;
        *pred = v;
        int n = cat(d);
        put(dc, n, (uint32_t)(d < 0 ? d + (1 << n) - 1 : d), n);
      } else {
        put(-1, 0, (p[0] >> s.Al) & 1, 1);
      }
      k0 = 1;
    }
    if (k0 > s.Se) return;
    auto at = [&](int k) {
      int v = p[kZig[k]];
      return v < 0 ? -((-v) >> s.Al) : v >> s.Al;
    };
    bool prog = s.Ss > 0;
    if (s.Ah == 0) {
      int run = 0;
      for (int k = k0; k <= s.Se; ++k) {
        int v = at(k);
        if (v == 0) {
          ++run;
          continue;
        }
        flusheob();
        while (run > 15) {
          put(16 + ac, 0xf0);
          run -= 16;
        }
        int n = cat(v);
        put(16 + ac, run << 4 | n, (uint32_t)(v < 0 ? v + (1 << n) - 1 : v), n);
        run = 0;
      }
      if (run > 0) {
        bool zr = run > 16 && rich && r.chance(1, 25);
        if (zr) {
          flusheob();
          int n = r.range(1, (run - 1) / 16);
          for (int j = 0; j < n; ++j) put(16 + ac, 0xf0);
          ++zero_runs;
        }
        if (prog) {
          eobtable = ac;
          ++eobrun;
          if (eobrun == 0x7fff) {
            flusheob();
          } else if (rich && r.chance(1, 30)) {
            flusheob();
            ++resets;
          }
        } else {
          put(16 + ac, 0);
        }
      }
      return;
    }
    // refinement
    int last = 0;
    for (int k = k0; k <= s.Se; ++k) {
      int v = at(k);
      if (v == 1 || v == -1) last = k;
    }
    int run = 0;
    std::vector<uint8_t> bits;
    for (int k = k0; k <= s.Se; ++k) {
      int v = at(k);
      if (v == 0) {
        ++run;
        continue;
      }
      while (run > 15 && k <= last) {
        flusheob();
        put(16 + ac, 0xf0);
        run -= 16;
        for (uint8_t b : bits) put(-1, 0, b, 1);
        bits.clear();
      }
      if (v > 1 || v < -1) {
        bits.push_back((uint8_t)((v < 0 ? -v : v) & 1));
        continue;
      }
      flusheob();
      put(16 + ac, run << 4 | 1, v > 0 ? 1 : 0, 1);
      for (uint8_t b : bits) put(-1, 0, b, 1);
      bits.clear();
      run = 0;
    }
    if (run > 0 || !bits.empty()) {
      eobtable = ac;
      if (prog) {
        ++eobrun;
        corr.insert(corr.end(), bits.begin(), bits.end());
        if (eobrun == 0x7fff) flusheob();
        else if (rich && r.chance(1, 30)) {
          flusheob();
          ++resets;
        }
      } else {
        put(16 + ac, 0);
        for (uint8_t b : bits) put(-1, 0, b, 1);
      }
    }
  }

  // --- bytes ---
  void byte(int v) { out.push_back((uint8_t)v); }
  void word(int v) {
    byte(v >> 8);
    byte(v);
  }

  Huff table(int slot, const std::vector<bool>& used) {
    Huff h;
    h.slot = slot;
    h.len.assign(256, 0);
    h.code.assign(256, 0);
    std::vector<int> syms;
    int alpha = slot < 16 ? 12 : 256;
    int extra = r.chance(1, 2) ? 0 : r.chance(1, 6) ? alpha : r.range(0, 6);
    for (int s = 0; s < alpha; ++s) if (used[s] || (extra > 0 && r.range(0, alpha - 1) < extra)) syms.push_back(s);
    if (syms.empty()) syms.push_back(r.range(0, alpha - 1));
    int n = (int)syms.size();
    int l0 = 1;
    while ((1 << l0) < n + 1) ++l0;
    std::vector<int> len(n, l0);
    auto fits = [&]() {
      long k = 0;
      int mx = 1;
      for (int l : len) { k += 1L << (16 - l); mx = std::max(mx, l); }
      return k + (1L << (16 - mx)) <= 65536;
    };
    for (int it = 0; it < 3 * n + 8; ++it) {
      int i = r.range(0, n - 1);
      int old = len[i];
      len[i] = std::max(1, std::min(16, len[i] + (r.chance(1, 2) ? 1 : -1)));
      if (!fits()) len[i] = old;
    }
    // canonical code, symbols of equal length in random order
    std::vector<std::pair<int, uint64_t>> order(n);
    for (int i = 0; i < n; ++i) order[i] = std::make_pair(len[i], (r.chance(1, 2) ? r.next() << 12 : 0) | (uint64_t)i);
    std::sort(order.begin(), order.end());
    uint32_t code = 0;
    int pl = 0;
    byte(slot);
    int counts[17] = {0};
    for (auto& o : order) counts[o.first]++;
    for (int l = 1; l <= 16; ++l) byte(counts[l]);
    for (auto& o : order) {
      int i = (int)(o.second & 0xfff);
      if (pl) code = (code + 1) << (o.first - pl);
      pl = o.first;
      h.len[syms[i]] = o.first;
      h.code[syms[i]] = code;
      byte(syms[i]);
    }
    return h;
  }

  uint64_t acc = 0;
  int nacc = 0;
  int padmode = 0;
  void bits(uint32_t v, int n) {
    for (int i = n - 1; i >= 0; --i) {
      acc = acc << 1 | (v >> i & 1);
      if (++nacc == 8) {
        byte((int)(acc & 0xff));
        if ((acc & 0xff) == 0xff) byte(0);
        acc = 0;
        nacc = 0;
      }
    }
  }
  void pad() {
    while (nacc) bits(padmode == 0 ? 1 : padmode == 1 ? 0 : (uint32_t)r.range(0, 1), 1);
  }

  void marker_garbage() {
    if (!rich || !r.chance(1, 12)) return;
    int n = r.range(1, 9);
    for (int i = 0; i < n; ++i) {
      int b = r.range(0, 255);
      // no marker may appear
      if (b == 0xff || (b >= 0xc0 && !out.empty() && out.back() == 0xff)) b = 0x11;
      byte(b);
    }
  }

  void metadata() {
    if (!rich) return;
    int n = r.chance(1, 2) ? 0 : r.range(0, 3);
    for (int i = 0; i < n; ++i) {
      marker_garbage();
      int kind = r.range(0, 7);
      byte(0xff);
      if (kind == 0) {
        static const uint8_t jfif[] = {0xe0, 0, 16, 'J', 'F', 'I', 'F', 0, 1, 1, 0, 0, 1, 0, 1, 0, 0};
        size_t at = out.size();
        for (uint8_t b : jfif) byte(b);
        if (r.chance(1, 2)) out[at + 9] = (uint8_t)r.range(0, 2);
        if (r.chance(1, 3)) out[at + 11] = (uint8_t)r.range(0, 2);
      } else if (kind == 1) {
        static const uint8_t adobe[] = {0xee, 0, 14, 'A', 'd', 'o', 'b', 'e', 0, 100, 0, 0, 0, 0, 1};
        for (uint8_t b : adobe) byte(b);
      } else if (kind == 2) {
        static const uint8_t ducky[] = {0xec, 0, 17, 'D', 'u', 'c', 'k', 'y', 0, 1, 0, 4, 0, 0, 0, 60, 0, 0};
        size_t at = out.size();
        for (uint8_t b : ducky) byte(b);
        out[at + 15] = (uint8_t)r.range(0, 100);
      } else if (kind == 3) {
        // ICC
        byte(0xe2);
        int m = r.chance(1, 3) ? 3144 - 4 : r.range(0, 60);
        word(2 + 14 + m);
        const char* nm = "ICC_PROFILE";
        for (int j = 0; j < 12; ++j) byte(nm[j]);
        byte(1);
        byte(1);
        for (int j = 0; j < m; ++j) byte(r.range(0, 255));
      } else {
        byte(kind == 4 ? 0xfe : 0xe0 + r.range(0, 15));
        int m = r.chance(1, 10) ? 0 : r.chance(1, 12) ? r.range(0, 3000) : r.range(0, 40);
        bool text = r.chance(1, 2);
        word(2 + m);
        for (int j = 0; j < m; ++j) byte(text ? "abcdef "[r.range(0, 6)] : r.range(0, 255));
      }
    }
  }

  void segment(int marker, const std::vector<uint8_t>& body) {
    marker_garbage();
    byte(0xff);
    byte(marker);
    word((int)body.size() + 2);
    out.insert(out.end(), body.begin(), body.end());
  }

  void write() {
    padmode = r.range(0, 5);
    for (Scan& s : scans) scantokens(s);
    byte(0xff);
    byte(0xd8);
    metadata();
    // DQT
    bool one = r.chance(1, 2);
    std::vector<uint8_t> body;
    for (size_t i = 0; i < quant.size(); ++i) {
      body.push_back((uint8_t)(quantprec[i] << 4 | quantidx[i]));
      for (int k = 0; k < 64; ++k) {
        int v = quant[i][kZig[k]];
        if (quantprec[i]) body.push_back((uint8_t)(v >> 8));
        body.push_back((uint8_t)v);
      }
      if (!one || i + 1 == quant.size()) {
        segment(0xdb, body);
        body.clear();
      }
    }
    metadata();
    bool dri_late = r.chance(1, 2);
    bool dri = restart > 0 || (rich && r.chance(1, 10));
    auto putdri = [&]() {
      std::vector<uint8_t> b(2);
      b[0] = (uint8_t)(restart >> 8);
      b[1] = (uint8_t)restart;
      segment(0xdd, b);
    };
    if (dri && !dri_late) putdri();
    body.clear();
    body.push_back(8);
    body.push_back((uint8_t)(height >> 8));
    body.push_back((uint8_t)height);
    body.push_back((uint8_t)(width >> 8));
    body.push_back((uint8_t)width);
    body.push_back((uint8_t)ncomp);
    for (Comp& c : comps) {
      body.push_back((uint8_t)c.id);
      body.push_back((uint8_t)(c.h << 4 | c.v));
      body.push_back((uint8_t)c.q);
    }
    segment(progressive ? 0xc2 : r.chance(1, 4) ? 0xc1 : 0xc0, body);
    if (dri && dri_late) putdri();
    for (size_t i = 0; i < scans.size(); ++i) scan(scans[i], toks[i]);
    metadata();
    marker_garbage();
    byte(0xff);
    byte(0xd9);
    if (rich && r.chance(1, 5)) {
      int n = r.range(1, 30);
      for (int j = 0; j < n; ++j) byte(r.range(0, 255));
    }
  }

  std::vector<Huff> cache;

  void scan(Scan& s, std::vector<Tok>& ts) {
    // tables this scan needs
    std::vector<std::vector<bool>> used(32, std::vector<bool>(256, false));
    bool need[32] = {false};
    for (size_t i = 0; i < s.comps.size(); ++i) {
      if (s.Ss == 0) need[s.dc[i]] = true;
      if (s.Se > 0) need[16 + s.ac[i]] = true;
    }
    for (Tok& t : ts) if (t.table >= 0) { used[t.table][t.sym] = true; need[t.table] = true; }
    std::vector<Huff> fresh;
    size_t segstart = 0;
    bool open = false;
    for (int slot = 0; slot < 32; ++slot) {
      if (!need[slot]) continue;
      bool have = false;
      for (Huff& h : cache) {
        if (h.slot != slot) continue;
        have = true;
        for (int y = 0; y < 256; ++y) if (used[slot][y] && !h.len[y]) have = false;
      }
      if (have) continue;
      if (!open) {
        marker_garbage();
        byte(0xff);
        byte(0xc4);
        segstart = out.size();
        word(0);
        open = true;
      }
      Huff h = table(slot, used[slot]);
      bool done = false;
      for (Huff& o : cache) if (o.slot == slot) { o = h; done = true; }
      if (!done) cache.push_back(h);
      if (r.chance(1, 2)) {
        out[segstart] = (uint8_t)((out.size() - segstart) >> 8);
        out[segstart + 1] = (uint8_t)(out.size() - segstart);
        open = false;
      }
    }
    if (open) {
      out[segstart] = (uint8_t)((out.size() - segstart) >> 8);
      out[segstart + 1] = (uint8_t)(out.size() - segstart);
    }
    std::vector<uint8_t> body;
    body.push_back((uint8_t)s.comps.size());
    for (size_t i = 0; i < s.comps.size(); ++i) {
      body.push_back((uint8_t)comps[s.comps[i]].id);
      body.push_back((uint8_t)(s.dc[i] << 4 | s.ac[i]));
    }
    // tables that the scan does not use must exist all the same only when referenced with a band
    body.push_back((uint8_t)s.Ss);
    body.push_back((uint8_t)s.Se);
    body.push_back((uint8_t)(s.Ah << 4 | s.Al));
    segment(0xda, body);
    int rst = 0;
    for (Tok& t : ts) {
      if (t.table == -2) {
        pad();
        byte(0xff);
        byte(0xd0 + rst);
        rst = (rst + 1) & 7;
      } else if (t.table == -3) {
        pad();
      } else {
        if (t.table >= 0) {
          Huff* h = 0;
          for (Huff& o : cache) if (o.slot == t.table) h = &o;
          bits(h->code[t.sym], h->len[t.sym]);
        }
        bits(t.bits, t.nbits);
      }
    }
  }
};

}  // namespace jg
#endif
