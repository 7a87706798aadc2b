// encodeText / decodeText against reference codecs.
import vm from 'node:vm';
import { encode, decode, truncated } from './_codec.mjs';
const MODEL = `(function (g, enc, dec) { 'use strict';
const U8 = Uint8Array, blen = Object.getOwnPropertyDescriptor(ArrayBuffer.prototype, 'byteLength').get;
const isAB = (b) => { try { blen.call(b); return true; } catch (e) { return false; } };
const detached = (b) => { try { new U8(b); return false; } catch (e) { return true; } };
const str = (v) => { if (typeof v === 'symbol') throw new TypeError; return String(v); };
const toI = (v) => { v = +v; return v !== v ? 0 : Math.trunc(v); };
const rel = (v, n) => { let i = toI(v); return i < 0 ? Math.max(i + n, 0) : Math.min(i, n); };
const def = (n, f) => Object.defineProperty(g, n, { value: f, writable: true, configurable: true });
def('encodeText', function (s, e, b, start) {
  s = str(s); e = e === undefined || e === null ? 'utf-8' : str(e);
  let r = enc(s, e); if (r === null) throw new TypeError;
  if (arguments.length < 3) { let u = new U8(r.length); for (let i = 0; i < r.length; i++) u[i] = r.charCodeAt(i); return u.buffer; }
  if (!isAB(b)) throw new TypeError;
  let n = blen.call(b), from = start === undefined ? 0 : rel(start, n);
  if (detached(b)) throw new TypeError;
  let k = Math.min(n - from, r.length), u = new U8(b); for (let i = 0; i < k; i++) u[from + i] = r.charCodeAt(i);
  return k;
});
def('decodeText', function (e, b, start, end) {
  e = e === undefined || e === null ? 'utf-8' : str(e);
  if (!isAB(b)) throw new TypeError;
  let n = blen.call(b), from = start === undefined ? 0 : rel(start, n), to = end === undefined ? n : rel(end, n);
  if (detached(b)) throw new TypeError;
  let u = new U8(b), s = ''; for (let i = from; i < to; i++) s += String.fromCharCode(u[i]);
  let r = dec(s, e); if (r === null) throw new TypeError; return r;
}); })`;
let excluded = false;
// only ever used for round trips: the model codes them as UTF-8
const RT = (e) => ['GB18030', 'CESU-8', 'UTF-16', 'UTF-32'].includes(e) ? 'utf-8' : e;
const q = (s) => JSON.stringify(s).replace(/[\u007f-\uffff]/g, (x) => '\\u' + x.charCodeAt(0).toString(16).padStart(4, '0'));
const NAMES = ['UTF-8', 'UTF-16LE', 'UTF-16BE', 'UTF-32LE', 'UTF-32BE', 'ISO-8859-1', 'utf-8', 'utf8', 'utf-16le', 'US-ASCII'];
const CH = ['a', '\0', '\x7f', '\x80', '\xff', '\u0100', '\u07ff', '\u0800', '\u20ac', '\ud7ff', '\ue000', '\ufeff', '\ufffd', '\ufffe', '\uffff', '\u{10000}', '\u{1f600}', '\u{10ffff}', '\u{2f800}', '\n', '\u4e2d'];
function str(d, mal, lat) {
  const one = () => d.freq([[10, () => d.pick(lat === 2 ? ['a', '\0', '\x7f', 'Z'] : lat ? CH.slice(0, 5) : CH)], [4, () => lat ? String.fromCharCode(d.below(lat === 2 ? 128 : 256)) : String.fromCodePoint(d.freq([[1, () => d.below(0x800)], [1, () => d.below(0xd800)], [1, () => 0x10000 + d.below(0x100000)]]))],
    [mal && !lat ? 3 : 0, () => d.pick(['\ud800', '\udc00', '\udfff', '\udbff', '\ude00\ud83d', '\ud83d\ud83d\ude00', '\udc00\udc00'])]]);
  let s = d.list(0, 8, one).join('');
  if (d.bool(0.25)) s = d.list(0, 3, one).join('') + one().repeat(d.pick([30, 31, 32, 33, 64, 127, 128, 170, 255, 256, 341, 342, 500, 512, 1023, 1024, 1025, 2047, 2048, 4096])) + d.list(0, 3, one).join('');
  if (/[\ud800-\udbff]$/.test(s)) s += 'z'; // a lone lead surrogate at the end is dropped: a known finding
  return s;
}
const lit = (s) => { const m = s.length > 80 && /^([\s\S]{0,40}?)([\s\S]{1,4}?)\2{10,}/.exec(s); return m ? `${q(m[1])}+${q(m[2])}.repeat(${(m[0].length - m[1].length) / m[2].length})+${q(s.slice(m[0].length))}` : q(s); };
const hexl = (b) => b.length > 100 ? (() => { for (let p = 1; p <= 4; p++) { } return `__hx("${b.toString('hex')}")`; })() : `__hx("${b.toString('hex')}")`;
export default {
  rule: 'programs of up to 6 encodeText and decodeText calls over well-formed and malformed strings and byte sequences (UTF-8, UTF-16, UTF-32 in both byte orders, ISO-8859-1, US-ASCII, and round trips through GB18030 and CESU-8), with buffers, offsets and coercions that detach them, compared with reference codecs; non-trivial: a call converts at least one character outside ASCII or a malformed sequence',
  batch: 25, count: { quick: 12000, thorough: 600000 }, 
  hostOpts: {},
  refExtra(g, ctx) {
    vm.runInContext(MODEL, ctx)(g, (s, e) => { if (/[\ud800-\udbff]$/.test(s)) excluded = true; const r = encode(s, RT(e)); return r && r.toString('latin1'); },
      (s, e) => { const b = Buffer.from(s, 'latin1'); if (truncated(b, RT(e))) excluded = true; return decode(b, RT(e)); });
  },
  expected(c, j) { excluded = false; const src = c.src; const r = j.ref.run([c], {})[0]; return excluded ? { status: 'skip', out: r.out } : r; },
  gen(d) {
    const L = []; let hot = false;
    const wrapE = (e) => d.bool(0.05) ? `{toString(){__out("e");return ${q(e)}}}` : q(e);
    const off = (n) => d.freq([[6, () => String(d.int(-2, n + 2))], [2, () => String(d.int(0, n))], [1, () => d.pick(['undefined', 'null', 'NaN', 'Infinity', '-Infinity', '"1"', '1.9', '-0.5', '-1.5', '2**53', '-(2**53)', '1n', 'true', 'Symbol()', '{valueOf(){__out("v");return 1}}', '{valueOf(){__detach(B);return 0}}', '{valueOf(){throw 7}}'])]]);
    const n = d.int(1, 6);
    for (let i = 0; i < n; i++) {
      const e = d.freq([[6, () => d.pick(NAMES)], [4, 'UTF-8']]), lat = /8859/.test(e) ? 1 : /ASCII/.test(e) ? 2 : 0;
      L.push(d.freq([
        [5, () => { const s = str(d, true, lat); hot ||= /[^\0-\x7f]/.test(s); return `__t(()=>__bf(encodeText(${lit(s)}${d.bool(0.8) || e !== 'UTF-8' ? ',' + wrapE(e) : d.pick(['', ',undefined', ',null'])})));`; }],
        [4, () => { const s = str(d, true, lat), k = d.pick([0, 1, 2, 5, 10, 100]); hot ||= /[^\0-\x7f]/.test(s); return `__t(()=>{let B=new Uint8Array(${k}).fill(238).buffer;__t(()=>encodeText(${lit(s)},${wrapE(e)},B${d.bool(0.3) ? '' : ',' + off(k)}));return __bf(B)});`; }],
        [5, () => { // decode well-formed input
          const s = str(d, false, lat), b = encode(s, e); hot ||= /[^\0-\x7f]/.test(s);
          const u = /16/.test(e) ? 2 : /32/.test(e) ? 4 : 1;
          return `__t(()=>{let B=${hexl(b)};return decodeText(${wrapE(e)},B${d.bool(0.6) || b.length > 60 ? '' : u > 1 ? `,${u * d.int(0, b.length / u)}${d.bool(0.5) ? `,${u * d.int(0, b.length / u)}` : ''}` : ',' + off(b.length) + (d.bool(0.5) ? ',' + off(b.length) : '')})});`;
        }],
        [6, () => { // decode malformed input
          let b = [...encode(str(d, false, lat), e)].slice(0, 60); const m = d.int(1, 4);
          for (let k = 0; k < m; k++) {
            const at = d.int(0, b.length);
            d.freq([
              [3, () => b.splice(at, 0, d.pick([0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xf8, 0xfc, 0xfe, 0xff, 0x90, 0x9f, 0xa0, 0xd8, 0xdc, 0x11, 0]))],
              [2, () => { if (b.length) b.splice(Math.min(at, b.length - 1), 1); }],
              [1, () => { if (b.length) b[Math.min(at, b.length - 1)] ^= 1 << d.below(8); }],
              [2, () => b.splice(at, 0, ...d.pick([[0xed, 0xa0, 0x80], [0xf4, 0x90, 0x80, 0x80], [0xe0, 0x80, 0x80], [0xf0, 0x80, 0x80, 0x80], [0xc0, 0x80], [0xed, 0xbf, 0xbf], [0xe2, 0x82], [0xf0, 0x9f, 0x98], [0xf8, 0x88, 0x80, 0x80, 0x80]]))],
            ]);
          }
          if (/utf-?8/i.test(e)) b.push(0x7a); else { const u = /16/.test(e) ? 2 : /32/.test(e) ? 4 : 1; b = b.slice(0, b.length - b.length % u); if (u === 2) b.push(...(/LE/i.test(e) ? [0x7a, 0] : [0, 0x7a])); }
          if (lat !== 1) hot = true;
          return `__t(()=>decodeText(${wrapE(e)},${hexl(Buffer.from(b))}));`;
        }],
        [1, () => `__t(()=>${d.pick(['encodeText', 'decodeText'])}(${d.pick(['"abc"', 'undefined', 'Symbol()', '{toString(){throw 3}}', '12', 'null', '"no-such"'])},${d.pick(['"abc"', '"no-such-encoding"', 'Symbol()', '""', 'new ArrayBuffer(2)', 'undefined', '{}'])}${d.bool() ? d.pick([',new ArrayBuffer(3)', ',{}', ',undefined', ',new Uint8Array(3)', ',(()=>{let b=new ArrayBuffer(2);__detach(b);return b})()']) : ''}));`],
        [3, () => { const x = d.pick(['GB18030', 'CESU-8', 'UTF-16', 'UTF-32', ...NAMES.slice(0, 5)]), s = str(d, false, 0).replace(/^\ufeff+|[\ufffe\uffff]/g, 'x'); hot ||= /[^\0-\x7f]/.test(s); return `__t(()=>{let s=${lit(s)};return decodeText(${q(x)},encodeText(s,${q(x)}))===s});`; }],
      ]));
    }
    const head = `const __hx=(s)=>{let u=new Uint8Array(s.length/2);for(let i=0;i<u.length;i++)u[i]=parseInt(s.slice(2*i,2*i+2),16);return u.buffer},__bf=(b)=>{if(typeof b!=="object")return b;let u=new Uint8Array(b),h=7;for(let x of u)h=(h*33+x)%1000003;return [u.length,h,...u.subarray(0,24),"|",...u.subarray(-6)].join()};\n`;
    return { src: `{${head}let B=new ArrayBuffer(8);${L.join('\n')}}`, nontrivial: hot };
  },
};
