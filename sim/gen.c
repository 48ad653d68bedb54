/* Workload blocks.  Structured around the things the codecs encode: runs, gaps between
 * runs, recurring symbols, field-width boundaries, symbol alignment, stream ends. */
#include "nodes.h"

static uint32_t pick_len(uint32_t cap, int sym)
{
  static const uint32_t w[] = { 10, 14, 14, 10, 6, 3 };
  uint32_t v;
  switch (ch_w(w, 6))
  {
    default:
    case 0: v = ch(9); break;                                   /* tiny                        */
    case 1: v = ch(40); break;
    case 2: { /* power-of-two boundaries that fit a small block  */
      uint32_t k = ch_range(3, 11); int32_t d = (int32_t)ch(49) - 24; int32_t x = (int32_t)(1u << k) + d; v = x < 0 ? 0 : (uint32_t)x; if (ch_p(1, 2)) v *= (uint32_t)sym; break; }
    case 3: v = ch(300) * (ch_p(1, 2) ? (uint32_t)sym : 1); break;
    case 4: { uint32_t k = ch_range(12, 16); int32_t d = (int32_t)ch(81) - 40; v = (uint32_t)((int32_t)(1u << k) + d); if (ch_p(1, 3)) v *= (uint32_t)sym; break; }
    case 5: { uint32_t k = ch_range(15, 20); int32_t d = (int32_t)ch(161) - 80; v = (uint32_t)((int32_t)(1u << k) + d); if (ch_p(1, 3)) v *= (uint32_t)sym; break; }
  }
  return v > cap ? cap : v;
}

static void fill_rand(uint8_t *p, uint32_t n, uint32_t seed, uint32_t alpha)
{
  prng_t g = { seed * 0x9E3779B97F4A7C15ULL + 77 };
  if (alpha >= 256) { while (n >= 8) { uint64_t v = prng_next(&g); memcpy(p, &v, 8); p += 8; n -= 8; } }
  for (uint32_t i = 0; i < n; i++) p[i] = (uint8_t)((prng_next(&g) >> 33) % alpha);
}

uint32_t gen_block(uint8_t *out, uint32_t cap, int symHint, char *desc, size_t descN)
{
  static const uint32_t kw[] = { 4, 30, 12, 4, 6, 6, 8, 6, 3, 14 };
  static const int syms[] = { 1, 2, 3, 4, 6, 8, 16, 5, 7, 12, 32 };
  uint32_t kind = ch_w(kw, 10), n = 0; int sym = symHint;
  if (ch_p(1, 4)) sym = syms[ch(11)];
  if (sym < 1) sym = 1;
  if (cap >= 3u << 20 && ch_p(2, 3)) kind = 10;
  switch (kind)
  {
    case 0: /* explicit tiny block */
      n = 1 + ch(24); if (n > cap) n = cap;
      for (uint32_t i = 0; i < n; i++) out[i] = (uint8_t)(ch_p(1, 8) ? ch(256) : ch(3));
      break;
    case 1: /* runs and gaps */
    {
      uint8_t pal[10][32]; uint32_t np = ch_range(1, 10), seed = ch(1u << 16), alpha = ch_p(1, 3) ? 2 : 256; fill_rand(&pal[0][0], sizeof pal, seed, alpha);
      uint32_t segs = 1 + ch(ch_p(1, 6) ? 120 : 14);
      uint32_t small = ch_p(1, 2);
      for (uint32_t s = 0; s < segs && n < cap; s++)
      {
        uint32_t t = ch(8), L = small ? ch(1 + 12 * (uint32_t)sym) : pick_len(cap - n, sym);
        if (L > cap - n) L = cap - n;
        if (t < 4) { const uint8_t *q = pal[ch(np)]; for (uint32_t i = 0; i < L; i++) out[n + i] = q[i % (uint32_t)sym]; n += L; }
        else if (t < 6) { fill_rand(out + n, L, ch(1u << 20), ch_p(1, 5) ? 4 : 256); n += L; }
        else if (t == 6 && n > 0) { /* repeat an earlier piece: recurring symbols, off by some bytes */ uint32_t back = 1 + ch(n < 64 ? n : 64); if (L > 200) L = 200; for (uint32_t i = 0; i < L && n < cap; i++, n++) out[n] = out[n - back]; }
        else { /* single odd bytes between runs */ uint32_t k = 1 + ch(3); for (uint32_t i = 0; i < k && n < cap; i++) out[n++] = (uint8_t)ch(256); }
      }
      break;
    }
    case 2: /* markov: low entropy with sticky symbols */
    {
      n = 1 + (ch_p(1, 4) ? ch(20000) : ch(1500)); if (n > cap) n = cap;
      uint32_t a = ch_range(1, ch_p(1, 3) ? 256 : 6), stick = ch_range(0, 255); prng_t g = { ch(1u << 24) + 5 }; uint8_t cur[32] = { 0 };
      for (uint32_t i = 0; i < n;) { if ((prng_next(&g) & 255) >= stick) for (int k = 0; k < sym; k++) cur[k % 32] = (uint8_t)((prng_next(&g) >> 20) % a * (a < 7 ? 37 : 1)); for (int k = 0; k < sym && i < n; k++) out[i++] = cur[k % 32]; }
      break;
    }
    case 3: n = 1 + ch(ch_p(1, 4) ? 9000 : 600); if (n > cap) n = cap; fill_rand(out, n, ch(1u << 20), 256); break;
    case 4: /* one long run with a ragged start and end */
    {
      uint32_t a = ch(20), L = pick_len(cap, sym), b = ch(40); uint8_t q[32]; fill_rand(q, 32, ch(1u << 16), 256);
      if (a > cap) a = cap;
      fill_rand(out, a, ch(1u << 16), 256); n = a; if (L > cap - n) L = cap - n;
      for (uint32_t i = 0; i < L; i++) out[n + i] = q[i % (uint32_t)sym];
      n += L; if (b > cap - n) b = cap - n; fill_rand(out + n, b, ch(1u << 16), 256); n += b;
      break;
    }
    case 5: /* every byte value in runs */
    {
      uint32_t per = 1 + ch(24), rep = 1 + ch(4); uint32_t mul = ch_p(1, 2) ? 1 : 2 * ch(128) + 1, cnt = ch_p(1, 2) ? 256 : ch_range(1, 256);
      for (uint32_t r = 0; r < rep; r++) for (uint32_t v = 0; v < cnt; v++) for (uint32_t i = 0; i < per && n < cap; i++) out[n++] = (uint8_t)(v * mul + r);
      break;
    }
    case 6: /* records: constant fields with a counter */
    {
      uint32_t rec = 1 + ch(40), cnt = 1 + ch(200); uint8_t q[64]; fill_rand(q, 64, ch(1u << 16), ch_p(1, 2) ? 3 : 256); uint32_t pos = ch(rec), step = ch(5);
      for (uint32_t r = 0; r < cnt; r++) for (uint32_t i = 0; i < rec && n < cap; i++) out[n++] = i == pos ? (uint8_t)(r * step) : q[i];
      break;
    }
    case 7: /* long gap, then a run, then a long gap: gap-length field boundaries */
    {
      uint8_t q[32]; fill_rand(q, 32, ch(1u << 16), 256); uint32_t rounds = 1 + ch(3);
      for (uint32_t r = 0; r < rounds; r++)
      {
        uint32_t g = pick_len(cap - n, sym); fill_rand(out + n, g, ch(1u << 16), 256); n += g;
        uint32_t L = ch(80); if (L > cap - n) L = cap - n; for (uint32_t i = 0; i < L; i++) out[n + i] = q[i % (uint32_t)sym];
        n += L;
      }
      break;
    }
    case 9: /* runs and gaps exactly at and around the limits of the stored fields */
    {
      uint8_t pal[8][32]; uint32_t np = ch_range(1, 8); fill_rand(&pal[0][0], sizeof pal, ch(1u << 16), 256); uint32_t pairs = 1 + ch(5), wide = cap > 1000000 && ch_p(2, 3);
      for (uint32_t r = 0; r < pairs * 2 && n < cap; r++)
      {
        uint32_t isRun = r & 1, L, big = ch_p(1, 2), unit = isRun && ch_p(2, 3) ? (uint32_t)sym : 1;
        if (!big) L = ch(isRun ? 6 * (uint32_t)sym + 24 : 40);
        else { uint32_t k = wide ? ch_range(14, 17) : ch_range(1, 16); int32_t x = (int32_t)(1u << k) + (int32_t)ch(22) - 4; L = (uint32_t)(x < 0 ? 0 : x) * unit; if (unit > 1 && ch_p(1, 4)) L += ch(unit); else if (unit == 1 && ch_p(1, 3)) L += ch(64); }
        if (L > cap - n) L = cap - n;
        if (isRun) { const uint8_t *q = pal[ch(np)]; for (uint32_t i = 0; i < L; i++) out[n + i] = q[i % (uint32_t)sym]; } else fill_rand(out + n, L, ch(1u << 20), 256);
        n += L;
      }
      if (ch_p(1, 2)) { uint32_t L = ch(40); if (L > cap - n) L = cap - n; fill_rand(out + n, L, ch(1u << 16), 256); n += L; }
      break;
    }
    case 10: /* huge blocks: runs and gaps of millions of bytes */
    {
      uint8_t q[4][32]; fill_rand(&q[0][0], sizeof q, ch(1u << 16), ch_p(1, 4) ? 2 : 256); uint32_t parts = 1 + ch(4);
      for (uint32_t r = 0; r < parts && n < cap; r++)
      {
        uint32_t L = (1u << ch_range(18, 24)) + ch(80); L = L > 40 ? L - 40 : 0; if (ch_p(1, 4)) L *= (uint32_t)sym; if (ch_p(1, 4)) L = ch(200); if (L > cap - n) L = cap - n;
        if (ch_p(2, 3)) { const uint8_t *p = q[ch(4)]; uint32_t first = L < 4096u * (uint32_t)sym ? L : 4096u * (uint32_t)sym; for (uint32_t i = 0; i < first; i++) out[n + i] = p[i % (uint32_t)sym]; for (uint32_t i = first; i < L;) { uint32_t k = L - i < first ? L - i : first; memcpy(out + n + i, out + n, k); i += k; } }
        else fill_rand(out + n, L, ch(1u << 20), 256);
        n += L;
      }
      if (ch_p(1, 2)) { uint32_t L = ch(100); if (L > cap - n) L = cap - n; fill_rand(out + n, L, ch(1u << 16), 256); n += L; }
      break;
    }
    default: /* all zero / all same */
      n = 1 + pick_len(cap - 1, sym); memset(out, ch_p(1, 2) ? 0 : (int)ch(256), n); break;
  }
  if (n == 0) { out[0] = (uint8_t)ch(256); n = 1; }
  if (n > 8 && ch_p(1, 6)) { uint32_t m = 1u << ch_range(3, 12); while (m > n) m >>= 1; n = n / m * m; if (n > 1 && ch_p(1, 4)) n--; } /* round sizes, as most buffers have */
  if (desc) snprintf(desc, descN, "kind%u sym%d len%u", kind, sym, n);
  return n;
}
