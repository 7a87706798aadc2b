import * as G from '../lib/gen.mjs';
const hexs = '0123456789abcdef';
export function big(d, max = 300) {
  return d.freq([
    [4, () => String(d.int(-20, 20))], [2, () => String(BigInt(d.int(-(2 ** 53), 2 ** 53)))],
    [4, () => (d.bool(0.4) ? '-' : '') + '0x' + (d.list(1, d.freq([[3, 16], [2, 40], [1, max]]), () => hexs[d.freq([[4, () => d.below(16)], [1, 0], [1, 15]])]).join(''))],
    [3, () => { const e = d.freq([[3, () => d.int(0, 8) * 32], [1, () => d.int(0, 300)]]); return String((d.bool() ? -1n : 1n) * ((1n << BigInt(e)) + BigInt(d.int(-2, 2)))); }],
    [1, () => (d.bool() ? '-' : '') + d.list(1, 80, () => d.below(10)).join('').replace(/^0+(?=\d)/, '')],
  ]);
}
export const bigE = (d, m) => { const s = big(d, m); return s[0] === '-' ? `(${s.replace('-0x', '-0x')}n)` : s + 'n'; };
const small = (d) => d.freq([[6, () => d.int(0, 70) + 'n'], [2, () => `(${-d.int(1, 70)}n)`], [1, () => d.int(0, 2000) + 'n']]);
export default {
  rule: 'BigInt operators, mixed comparisons, conversions, asIntN/asUintN over operands from one bit to over a thousand, with the identities a == (a/b)*b + a%b and parse(format(a)) == a; non-trivial: an operand exceeds 32 bits',
  batch: 80,
  count: { quick: 50000, thorough: 1200000 },
  gen(d) {
    const b = () => bigE(d), other = () => d.freq([[3, () => G.numE(G.num(d))], [2, () => G.q(d.pick(['', ' ', '-', '+']) + big(d, 30) + d.pick(['', '', '', 'n', ' ', '.5', 'e3']))], [1, () => G.val(d, 1)]]);
    const src = d.freq([
      [8, () => `__t(()=>${b()} ${d.pick(['+', '-', '*', '/', '%', '&', '|', '^'])} ${b()});`],
      [2, () => `__t(()=>${b()} ${d.pick(['<<', '>>', '>>>'])} ${small(d)});`],
      [2, () => `__t(()=>${bigE(d, 12)} ** ${d.int(-2, 24)}n);`],
      [2, () => `{let a=${b()},b=${b()}; __p(b ? (a/b)*b + a%b === a : 0, (a+b)-b===a, (a^b)^b===a, (a&b)+(a|b)===a+b, ~a===-a-1n, (a*b>0n)===((a>0n)===(b>0n)&&a!=0n&&b!=0n), BigInt(String(a))===a);}`],
      [2, () => `__t(()=>${d.pick(['-', '~', '!', 'typeof ', '+', '++', ''])}${d.bool(0.8) ? b() : other()});`],
      [1, () => `{let x=${b()}; __t(()=>x${d.pick(['++', '--'])}); __t(()=>${d.pick(['++', '--'])}x); __t(()=>x ${d.pick(['+=', '-=', '*=', '<<=', '>>=', '&=', '**=', '&&=', '??='])} ${d.int(0, 9)}n); __p(x);}`],
      [5, () => `__t(()=>{let a=${b()},b=${d.freq([[2, b], [3, () => { const s = other(); return /[[{]|new /.test(s) ? '0' : s; }]])}; return [a<b,a>b,a<=b,a>=b,a==b,a!=b,a===b,b<a,b>a,b==a];});`],
      [2, () => `__t(()=>(${b()}).toString(${d.freq([[6, () => d.int(2, 36)], [1, ''], [1, () => G.val(d, 1)]])}));`],
      [2, () => `__t(()=>BigInt(${d.freq([[2, () => G.q(d.pick(['', ' ', '-', '+', '\n']) + big(d, 60) + d.pick(['', '', '', 'n', ' ', '.', 'e3', 'g']))], [1, () => G.q(d.pick(['0b', '0o', '0X', '0B']) + d.list(0, 60, () => d.below(d.pick([2, 8]))).join(''))], [2, () => G.numE(G.num(d))], [1, () => G.val(d, 1)]])}));`],
      [1, () => `{let a=${b()}, r=${d.int(2, 36)}, s=a.toString(r), v=0n; for (let c of s.replace("-","")) v=v*BigInt(r)+BigInt(parseInt(c,r)); __p(s, (s[0]==="-"?-v:v)===a);}`],
      [3, () => `__t(()=>BigInt.${d.pick(['asIntN', 'asUintN'])}(${d.freq([[8, () => d.int(0, 130)], [1, () => G.val(d, 1)]])}, ${d.freq([[8, b], [1, other]])}));`],
      [2, () => `__t(()=>${d.pick(['Number', 'parseInt', 'parseFloat', 'String', 'Boolean', 'Object', 'isNaN', 'Math.max', 'JSON.stringify', 'new BigInt', 'BigInt.prototype.valueOf.call', 'BigInt.prototype.toString.call'])}(${d.freq([[6, b], [1, other]])}));`],
      [1, () => `__t(()=>${b()} ${d.pick(['+', '-', '*', '/', '%', '**', '&', '<<', '>>>'])} ${G.val(d, 1)});`],
      [1, () => `__t(()=>[${b()}, ${b()}, ${other()}].${d.pick(['join()', 'includes(1n)', 'indexOf(0n)', 'map(String)', 'map(Boolean)'])});`],
    ]);
    return { src, nontrivial: /\d{11,}n|0x[0-9a-f]{9,}/.test(src) };
  },
  tolerate: (c) => / (<|>)|\[a<b/.test(c.src) && /\(\{|\[\s*['\d]|new |\{/.test(c.src.replace('{let a', '').replace('=>{', '')) && /valueOf|toString|String/.test(c.src),
};
