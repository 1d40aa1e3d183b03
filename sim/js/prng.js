'use strict';
// Every random choice of a run comes from one of these, seeded by a string.
function hash32(str, h = 2166136261 >>> 0) {
  for (let i = 0; i < str.length; i++) { h ^= str.charCodeAt(i); h = Math.imul(h, 16777619) >>> 0; }
  h ^= h >>> 16; h = Math.imul(h, 0x85ebca6b) >>> 0; h ^= h >>> 13; h = Math.imul(h, 0xc2b2ae35) >>> 0; h ^= h >>> 16;
  return h >>> 0;
}
class Rng {
  constructor(seed) {
    const s = String(seed);
    this.a = hash32(s + '/a'); this.b = hash32(s + '/b'); this.c = hash32(s + '/c'); this.d = 1;
    for (let i = 0; i < 12; i++) this.u32();
  }
  u32() { // sfc32
    const t = (((this.a + this.b) | 0) + this.d) | 0;
    this.d = (this.d + 1) | 0;
    this.a = this.b ^ (this.b >>> 9);
    this.b = (this.c + (this.c << 3)) | 0;
    this.c = (this.c << 21) | (this.c >>> 11);
    this.c = (this.c + t) | 0;
    return t >>> 0;
  }
  f() { return this.u32() / 4294967296; }
  int(n) { return n <= 1 ? 0 : Math.floor(this.f() * n); }       // [0,n)
  range(a, b) { return a + this.int(b - a + 1); }                 // [a,b]
  p(x) { return this.f() < x; }
  pick(a) { return a[this.int(a.length)]; }
  weighted(pairs) { // [[weight, value], ...]
    let t = 0; for (const [w] of pairs) t += w;
    let x = this.f() * t;
    for (const [w, v] of pairs) { x -= w; if (x < 0) return v; }
    return pairs[pairs.length - 1][1];
  }
  shuffle(a) { for (let i = a.length - 1; i > 0; i--) { const j = this.int(i + 1); [a[i], a[j]] = [a[j], a[i]]; } return a; }
  sample(a, k) { return this.shuffle(a.slice()).slice(0, k); }
  // decimal string of a nonzero integer below 2^53, used for seeds handed to the simulator
  seed() { return String(1 + this.u32() * 2097152 + (this.u32() >>> 11)); }
}
module.exports = { Rng, hash32 };
