import * as G from '../lib/gen.mjs';
const EXACT = ['abs', 'ceil', 'floor', 'round', 'trunc', 'sign', 'sqrt', 'fround', 'clz32'];
const APPROX1 = ['acos', 'acosh', 'asin', 'asinh', 'atan', 'atanh', 'cbrt', 'cos', 'cosh', 'exp', 'expm1', 'log', 'log1p', 'log10', 'log2', 'sin', 'sinh', 'tan', 'tanh'];
const arg = (d) => d.freq([[8, () => G.numE(G.num(d))], [2, () => G.numE(G.bits(d))], [2, () => G.numE((d.int(-2000, 2000) + d.pick([0, 0.5, 0.49999999999999994])) / d.pick([1, 1, 2, 1000]))], [1, () => d.pick(['0.49999999999999994', '-0.5', '4503599627370495.5', '2147483648.5', '-0.2', '9007199254740991', '-4503599627370496.5', '1.0000000596046448', '3.4028235677973366e+38', '1e-45', '7.006492321624085e-46', '7.006492321624086e-46'])], [1, () => G.val(d, 1)]]);
const close = (a, b) => Math.abs(a - b) <= Math.max(Math.abs(a), Math.abs(b)) * 4e-15 + 1e-322;
export default {
  rule: 'Math function calls with boundary, random-bit and arbitrary-typed arguments; exact functions compared exactly, transcendental ones within 4e-15 relative; non-trivial: the result is not NaN',
  batch: 80,
  count: { quick: 50000, thorough: 1200000 },
  gen(d) {
    const src = d.freq([
      [8, () => `__t(()=>Math.${d.pick(EXACT)}(${arg(d)}));`],
      [3, () => `__t(()=>Math.imul(${arg(d)},${arg(d)}));`],
      [4, () => `__t(()=>Math.${d.pick(['max', 'min'])}(${d.list(0, 4, () => arg(d)).join()}));`],
      [8, () => `/*~*/__t(()=>Math.${d.pick(APPROX1)}(${arg(d)}));`],
      [3, () => `/*~*/__t(()=>Math.${d.pick(['pow', 'atan2'])}(${arg(d)},${arg(d)}));`],
      [2, () => `/*~*/__t(()=>Math.hypot(${d.list(0, 4, () => arg(d)).join()}));`],
      [1, () => `/*~*/__t(()=>(${arg(d)})**(${arg(d)}));`],
      [1, () => `__t(()=>{let r=Math.random(${arg(d)}); return r>=0&&r<1});`],
      [1, () => `__p(${['E', 'LN10', 'LN2', 'LOG10E', 'LOG2E', 'PI', 'SQRT1_2', 'SQRT2'].map((x) => 'Math.' + x).join()});`],
      [1, () => `__t(()=>Math.${d.pick([...EXACT, 'max', 'min', 'hypot'])}());`],
    ]);
    return { src, nontrivial: (r) => !/NaN/.test(r.act.out) };
  },
  judge(c, e, a) {
    if (e.status !== a.status) return false;
    if (e.out === a.out) return true;
    if (!c.src.startsWith('/*~*/')) return false;
    const x = e.out.split('\n'), y = a.out.split('\n');
    if (x.length !== y.length) return false;
    return x.every((l, i) => {
      if (l === y[i]) return true;
      if (l.slice(0, 2) !== '= ' || y[i].slice(0, 2) !== '= ') return false;
      const p = Number(l.slice(2)), q = Number(y[i].slice(2));
      if (Object.is(p, -0) !== Object.is(q, -0) && (p === 0) && (q === 0)) return false;
      return close(p, q);
    });
  },
};
