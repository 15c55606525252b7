// xoshiro128** seeded by splitmix
export class Rng {
  constructor(...seeds) {
    let h = 0x9e3779b9;
    const mix = x => {
      h = (h ^ x) >>> 0;
      h = Math.imul(h ^ (h >>> 16), 0x85ebca6b) >>> 0;
      h = Math.imul(h ^ (h >>> 13), 0xc2b2ae35) >>> 0;
      return (h = (h ^ (h >>> 16)) >>> 0);
    };
    for (const s of seeds) {
      if (typeof s === 'string') for (const c of s) mix(c.charCodeAt(0) + 1);
      else {
        mix(s >>> 0);
        mix(Math.floor(s / 4294967296) >>> 0);
      }
    }
    this.s = [mix(1), mix(2), mix(3), mix(4)];
  }
  u32() {
    const s = this.s;
    const rotl = (x, k) => ((x << k) | (x >>> (32 - k))) >>> 0;
    const r = Math.imul(rotl(Math.imul(s[1], 5) >>> 0, 7), 9) >>> 0;
    const t = (s[1] << 9) >>> 0;
    s[2] ^= s[0];
    s[3] ^= s[1];
    s[1] ^= s[2];
    s[0] ^= s[3];
    s[2] ^= t;
    s[3] = rotl(s[3] >>> 0, 11);
    return r;
  }
  f() { return this.u32() / 4294967296; }
  below(n) { return Math.floor(this.f() * n); }
  range(a, b) { return a + this.below(b - a + 1); }
  chance(p) { return this.f() < p; }
  pick(l) { return l[this.below(l.length)]; }
  log(a, b) { return Math.min(b, Math.floor(Math.exp(Math.log(a) + this.f() * (Math.log(b + 1) - Math.log(a))))); }
}
