"use strict";
// Seeded PRNG (sfc32); every random choice of a check goes through one of these.
class Rng {
  constructor(...seeds) {
    let h = 0x9e3779b9;
    const mix = (s) => {
      for (let i = 0; i < s.length; ++i) {
        h = Math.imul(h ^ s.charCodeAt(i), 0x85ebca6b);
        h = (h << 13) | (h >>> 19);
      }
      h = Math.imul(h ^ (h >>> 16), 0xc2b2ae35);
      return (h ^= h >>> 16) >>> 0;
    };
    const s = seeds.join("/");
    this.a = mix(s); this.b = mix(s + "b"); this.c = mix(s + "c"); this.d = 1;
    for (let i = 0; i < 12; ++i) this.u32();
  }
  u32() {
    const t = (((this.a + this.b) | 0) + this.d) | 0;
    this.d = (this.d + 1) | 0;
    this.a = this.b ^ (this.b >>> 9);
    this.b = (this.c + (this.c << 3)) | 0;
    this.c = (this.c << 21) | (this.c >>> 11);
    this.c = (this.c + t) | 0;
    return t >>> 0;
  }
  float() { return this.u32() / 4294967296; }
  /** uniform in lo..=hi */
  int(lo, hi) { return lo + Math.floor(this.float() * (hi - lo + 1)); }
  bool(p = 0.5) { return this.float() < p; }
  pick(xs) { return xs[this.int(0, xs.length - 1)]; }
  /** pick from [weight, value] pairs */
  weighted(ws) {
    let t = 0;
    for (const [w] of ws) t += w;
    let r = this.float() * t;
    for (const [w, v] of ws) if ((r -= w) < 0) return v;
    return ws[ws.length - 1][1];
  }
  shuffle(xs) {
    xs = xs.slice();
    for (let i = xs.length - 1; i > 0; --i) {
      const j = this.int(0, i);
      [xs[i], xs[j]] = [xs[j], xs[i]];
    }
    return xs;
  }
}
module.exports = { Rng };
