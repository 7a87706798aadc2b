// Choice-sequence generation (in the manner of Hypothesis): every random
// decision of a generator is one bounded integer, drawn here and recorded, so
// a failing case is shrunk by editing the sequence and generating again.
// Convention: 0 is the simplest choice.

export function hash32(...parts) {
  let h = 0x811c9dc5;
  for (const p of parts) {
    const s = String(p) + '|';
    for (let i = 0; i < s.length; i++) { h ^= s.charCodeAt(i); h = Math.imul(h, 0x01000193) >>> 0; }
  }
  h ^= h >>> 16; h = Math.imul(h, 0x85ebca6b) >>> 0; h ^= h >>> 13; h = Math.imul(h, 0xc2b2ae35) >>> 0; h ^= h >>> 16;
  return h >>> 0;
}

export class Draw {
  // seed: number for a random run; or an array of choices to replay.
  constructor(src, max = 6000) {
    this.choices = [];
    this.max = max;
    this.notes = {};
    if (Array.isArray(src)) { this.replay = src; this.pos = 0; }
    else { this.a = src >>> 0; this.b = hash32(src, 'b'); this.c = hash32(src, 'c'); this.d = 1; for (let i = 0; i < 12; i++) this.raw(); }
  }
  raw() { // sfc32
    const t = (((this.a + this.b) | 0) + this.d) | 0;
    this.d = (this.d + 1) | 0;
    this.a = this.b ^ (this.b >>> 9);
    this.b = (this.c + (this.c << 3)) | 0;
    this.c = (this.c << 21) | (this.c >>> 11);
    this.c = (this.c + t) | 0;
    return t >>> 0;
  }
  // integer in [0, n)
  below(n) {
    if (n <= 1) return 0;
    let v;
    if (this.choices.length >= this.max) v = 0;
    else if (this.replay) { v = this.pos < this.replay.length ? this.replay[this.pos] : 0; this.pos++; if (v >= n) v = n - 1; }
    else v = n <= 0x100000000 ? Math.floor(this.raw() / 0x100000000 * n) : Math.floor((this.raw() * 0x200000 + (this.raw() >>> 11)) / 0x20000000000000 * n);
    this.choices.push(v);
    return v;
  }
  int(lo, hi) { return lo + this.below(hi - lo + 1); }
  // true with probability p; false is the simple choice
  bool(p = 0.5) { return this.below(1000) >= 1000 - Math.round(p * 1000); }
  pick(a) { return a[this.below(a.length)]; }
  // weighted: [[w, x], ...]
  freq(a) {
    let t = 0;
    for (const [w] of a) t += w;
    let r = this.below(t);
    for (const [w, x] of a) { if (r < w) return typeof x === 'function' ? x() : x; r -= w; }
  }
  list(lo, hi, f) { const n = this.int(lo, hi), r = []; for (let i = 0; i < n; i++) r.push(f(i)); return r; }
  // small numbers likelier
  small(hi) { return Math.min(this.below(hi + 1), this.below(hi + 1)); }
  shuffle(a) { a = a.slice(); for (let i = 0; i < a.length - 1; i++) { const j = i + this.below(a.length - i); [a[i], a[j]] = [a[j], a[i]]; } return a; }
  subset(a, p = 0.5) { return a.filter(() => this.bool(p)); }
  note(k) { this.notes[k] = (this.notes[k] || 0) + 1; }
}

// Shrink a choice sequence: `fails(choices)` resolves to the sequence actually
// consumed if the case generated from it still fails, else null.
export async function shrink(choices, fails, budget = 600, wallMs = 60000) {
  let best = choices, n = 0;
  const end = Date.now() + wallMs;
  const seen = new Set();
  const attempt = async (c) => {
    if (n >= budget || Date.now() > end) return false;
    const k = c.join(',');
    if (seen.has(k)) return false;
    seen.add(k);
    n++;
    const r = await fails(c);
    if (r && (r.length < best.length || (r.length === best.length && less(r, best)))) { best = r; return true; }
    return false;
  };
  const less = (a, b) => { for (let i = 0; i < a.length; i++) if (a[i] !== b[i]) return a[i] < b[i]; return false; };
  let progress = true;
  while (progress && n < budget && Date.now() < end) {
    progress = false;
    for (let size = Math.max(1, best.length >> 1); size >= 1; size = size >> 1) {
      for (let i = 0; i + size <= best.length;) {
        if (n >= budget || Date.now() > end) break;
        if (await attempt(best.slice(0, i).concat(best.slice(i + size)))) progress = true;
        else i += size;
      }
    }
    for (let size = Math.min(16, best.length); size >= 1; size = size >> 1) {
      for (let i = 0; i + size <= best.length; i += size) {
        if (best.slice(i, i + size).every(x => x === 0)) continue;
        const c = best.slice(); for (let j = i; j < i + size; j++) c[j] = 0;
        if (await attempt(c)) progress = true;
      }
    }
    for (let i = 0; i < best.length; i++) {
      if (best[i] === 0) continue;
      let lo = 0, hi = best[i];
      while (lo < hi && n < budget) {
        const mid = (lo + hi) >> 1, c = best.slice(); c[i] = mid;
        if (await attempt(c)) { progress = true; hi = Math.min(mid, best[i] ?? 0); } else lo = mid + 1;
        if (i >= best.length) break;
      }
    }
  }
  return { choices: best, tries: n };
}
