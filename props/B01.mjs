import * as G from '../lib/gen.mjs';
const WS = ['', '', '', '', ' ', '\n', '\t', '\u00a0', '\ufeff', '\u2028', '\u180e', '\u200b', '\u3000'];
function digits(d, hi, set = '0123456789') { return d.list(1, hi, () => d.freq([[6, () => set[d.below(set.length)]], [2, '0'], [1, '9'[0]]])).join(''); }
function exp(d) { return d.bool(0.4) ? d.pick(['e', 'E']) + d.pick(['', '+', '-']) + (d.bool(0.8) ? d.int(0, 25) : d.int(0, 340)) : ''; }
function decimal(d) {
  return d.freq([
    [4, () => digits(d, 22) + exp(d)], [4, () => digits(d, 18) + '.' + digits(d, 20) + exp(d)], [1, () => digits(d, 3) + '.' + exp(d)], [2, () => '.' + digits(d, 20) + exp(d)],
    [1, () => digits(d, 400) + exp(d)], [1, () => '0.' + '0'.repeat(d.int(0, 330)) + digits(d, 20)],
    [2, () => String(Math.abs(G.num(d)))],
    // near the midpoint of two doubles: the exact decimal expansion of one, perhaps nudged
    [2, () => { const x = Math.abs(G.bits(d)); const y = Number.isFinite(x) && x > 1e-15 && x < 1e15 ? x : 1 + d.int(0, 1 << 30) / (1 << 30); const m = (y + y * (1 + 2 ** -52)) / 2; let s = m.toPrecision(60); return (s.includes('e') ? s.replace('e', d.pick(['', '1', '0']) + 'e') : s + d.pick(['', '1', '000', '5'])); }],
    [2, () => { // exact halfway between two doubles, as digits
      let b = BigInt(d.int(2 ** 20, 2 ** 32)) * (1n << 21n) + BigInt(d.int(0, 2 ** 20)); b = b | (1n << 53n); b = b * 2n + 1n; const s = (b << BigInt(d.int(0, 60))); return String(s + BigInt(d.int(0, 2)) - 1n); }],
  ]);
}
const mutate = (d, s) => d.freq([[8, s], [1, () => { const i = d.int(0, s.length); return s.slice(0, i) + d.pick(['_', ' ', '.', 'e', '-', '+', 'x', 'n', '0', '\0', 'Infinity', '/']) + s.slice(i); }], [1, () => s.slice(0, d.int(0, s.length))]]);
function text(d) {
  const body = d.freq([
    [10, () => decimal(d)], [1, () => d.pick(['Infinity', 'infinity', 'NaN', 'Infinit', 'Infinityx', ''])],
    [2, () => d.pick(['0x', '0X']) + digits(d, 18, '0123456789abcdefABCDEFg')], [1, () => d.pick(['0b', '0B']) + digits(d, 70, '0101012')], [1, () => d.pick(['0o', '0O']) + digits(d, 25, '01234567778')], [1, () => '0' + digits(d, 10)],
  ]);
  return d.pick(WS) + d.pick(['', '', '', '-', '+', '--']) + mutate(d, body) + d.pick(WS);
}
function literal(d) {
  const sep = (s) => d.bool(0.2) ? s.replace(/(\d)(\d)/g, (m, a, b) => d.bool(0.3) ? a + '_' + b : m) : s;
  return d.freq([
    [8, () => mutate(d, sep(decimal(d)))], [2, () => sep('0x' + digits(d, 18, '0123456789abcdefABCDEF'))], [1, () => sep('0b' + digits(d, 70, '01'))], [1, () => sep('0o' + digits(d, 25, '01234567'))], [1, () => '0' + digits(d, 12)], [1, () => '0' + digits(d, 12, '01234567')],
    [1, () => sep(digits(d, 40)) + 'n'], [1, () => '0x' + digits(d, 40, '0123456789abcdef') + 'n'],
  ]);
}
const lim = (d) => d.freq([[8, () => String(d.int(0, 22))], [2, () => String(d.int(0, 105))], [1, () => d.pick(['undefined', '-1', '101', '100', 'NaN', '"5"', '1.9', 'null', '-0.5', 'Infinity', '0'])]]);
const inexactRadix = /parseInt\(.*,(?!(2|4|8|10|16|32)\))\d+\)/;
const close = (e, a) => { const x = Number(e.slice(2)), y = Number(a.slice(2)); return Math.abs(x - y) <= 1e-14 * Math.abs(x); };
export default {
  rule: 'number formatting (toString in every radix, toFixed, toPrecision, toExponential, concatenation, JSON), parsing (Number, parseFloat, parseInt, literals) over boundary, random-bit and halfway values and near-grammatical texts; non-trivial: result is neither NaN nor a one digit number',
  batch: 80,
  // parseInt may approximate long numerals in radices other than 2, 4, 8, 10, 16 and 32
  tolerate: (c, e, a) => inexactRadix.test(c.src) && close(e.out, a.out),
  count: { quick: 60000, thorough: 1500000 },
  gen(d) {
    const n = () => G.numE(d.freq([[3, () => G.num(d)], [2, () => G.bits(d)], [2, () => parseFloat(decimal(d))]]));
    const src = d.freq([
      [3, () => `__t(()=>String(${n()}));`],
      [1, () => { const x = n(); return `{let x=${x}; __p(x+"", \`\${x}\`, JSON.stringify(x), Object.is(Number(String(x)),x)||x!==x||x===0, String([x]), ({[x]:1}));}`; }],
      [3, () => { let x = d.bool(0.5) ? d.int(-1e6, 1e6) : d.int(0, 2 ** 53 - 1); return `__t(()=>(${G.numE(x / d.pick([1, 1, 1, 2, 4, 1024, 3, 10, 1e5]))}).toString(${d.freq([[8, () => d.int(2, 36)], [1, () => lim(d)]])}));`; }],
      [4, () => `__t(()=>(${n()}).${d.pick(['toFixed', 'toPrecision', 'toExponential'])}(${lim(d)}));`],
      [1, () => `__t(()=>Number.prototype.${d.pick(['toFixed', 'toPrecision', 'toExponential', 'valueOf'])}.call(${d.bool() ? G.val(d, 1) : 'new Number(' + n() + ')'}${d.bool() ? ',' + (d.bool() ? G.coercible(d) : lim(d)) : ''}));`],
      [4, () => `__t(()=>Number(${G.q(text(d))}));`],
      [3, () => `__t(()=>parseFloat(${G.q(text(d))}));`],
      [3, () => `__t(()=>parseInt(${d.bool(0.9) ? G.q(text(d)) : n()}${d.bool(0.5) ? ',' + d.freq([[6, () => d.int(0, 37)], [1, () => G.val(d, 1)]]) : ''}));`],
      [1, () => `__t(()=>parseInt(${G.q(digits(d, 60, '0123456789abcdefghijklmnopqrstuvwxyz'))},${d.pick([2, 4, 8, 10, 16, 32])}));`],
      [5, () => `__t(()=>${literal(d)});`],
      [1, () => `__t(()=>eval(${G.q(literal(d))}));`],
      [1, () => `__t(()=>Number.${d.pick(['isInteger', 'isSafeInteger', 'isFinite', 'isNaN', 'parseFloat', 'parseInt'])}(${d.bool(0.7) ? n() : G.val(d, 1)}));`],
      [1, () => `__t(()=>${d.pick(['isNaN', 'isFinite', '+', 'new Number', 'Number'])}(${G.val(d, 1)}));`],
      [1, () => `__p(${['MAX_SAFE_INTEGER', 'MIN_SAFE_INTEGER', 'MAX_VALUE', 'MIN_VALUE', 'EPSILON', 'POSITIVE_INFINITY', 'NEGATIVE_INFINITY', 'NaN'].map((x) => 'Number.' + x).join()});`],
    ]);
    return { src, nontrivial: (r) => !/^= (NaN|-?\d|undefined)\n$/.test(r.act.out) };
  },
};
