import * as G from '../lib/gen.mjs';
const h = (b) => '%' + (b < 16 ? '0' : '') + b.toString(16);
function enc(d) { // percent sequences: valid utf-8 of a code point, or damaged
  const cp = d.freq([[2, () => d.below(0x80)], [1, () => d.below(0x800)], [2, () => d.below(0x10000)], [2, () => d.below(0x110000)], [1, () => d.pick([0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff, 0xd800, 0xdfff, 0xd7ff, 0xe000, 0x23, 0x2f, 0x3f, 0x3a, 0x40, 0x26, 0x3d, 0x2b, 0x24, 0x2c, 0x3b])]]);
  let b = cp < 0x80 ? [cp] : cp < 0x800 ? [0xc0 | cp >> 6, 0x80 | cp & 63] : cp < 0x10000 ? [0xe0 | cp >> 12, 0x80 | cp >> 6 & 63, 0x80 | cp & 63] : [0xf0 | cp >> 18, 0x80 | cp >> 12 & 63, 0x80 | cp >> 6 & 63, 0x80 | cp & 63];
  d.freq([[10, () => {}], [1, () => b.pop()], [1, () => { b[d.below(b.length)] = d.below(256); }], [1, () => b.push(0x80 | d.below(64))], [1, () => { b = d.pick([[0xc0, 0x80], [0xe0, 0x80, 0x80], [0xf0, 0x80, 0x80, 0x80], [0xf8, 0x88, 0x80, 0x80, 0x80], [0xf4, 0x90, 0x80, 0x80], [0xc1, 0xbf], [0xfe], [0xff]]); }]]);
  let s = b.map(h).join('');
  if (d.bool(0.3)) s = s.toUpperCase();
  if (d.bool(0.06)) s = s.slice(0, d.int(0, s.length));
  if (d.bool(0.04)) s = s.replace(/[0-9a-f]/i, d.pick(['g', 'G', ' ', '%', '+', '\u0660']));
  return s;
}
export default {
  rule: 'encodeURI/Component of arbitrary code unit strings, decodeURI/Component of percent sequences (valid, overlong, truncated, surrogate), decode(encode(s)) = s; non-trivial: at least one escape or non-ASCII code unit',
  batch: 80,
  count: { quick: 50000, thorough: 1000000 },
  gen(d) {
    const e = d.pick(['encodeURI', 'encodeURIComponent']), f = d.pick(['decodeURI', 'decodeURIComponent']);
    const s = d.bool() ? G.str(d, 10) : d.list(0, 6, () => d.freq([[2, () => String.fromCodePoint(d.below(0x110000))], [1, () => G.str(d, 3)], [1, () => d.pick([...";/?:@&=+$,#-_.!~*'()%"])]])).join('');
    const t = d.list(0, 6, () => d.freq([[4, () => enc(d)], [1, () => G.str(d, 3)]])).join('');
    const src = d.freq([
      [4, () => `__t(()=>${e}(${G.q(s)}));`], [6, () => `__t(()=>${f}(${G.q(t)}));`],
      [2, () => `__t(()=>{let s=${G.q(s)}, e=encodeURIComponent(s); return [e, decodeURIComponent(e)===s, decodeURI(encodeURI(s))===s]});`],
      [1, () => `__t(()=>${d.pick([e, f])}(${G.val(d, 1)}));`],
    ]);
    return { src, nontrivial: /%|\\u/.test(src) };
  },
};
