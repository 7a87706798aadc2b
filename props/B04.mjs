import * as G from '../lib/gen.mjs';
const S = (d) => d.freq([[6, () => G.str(d, 8)], [1, () => G.str(d, 20)], [1, () => G.str(d, 4).repeat(d.int(0, 6))]]);
const SQ = (d) => G.q(S(d));
const pos = (d) => d.freq([[8, () => String(d.int(-3, 10))], [1, () => G.numE(G.num(d))], [1, () => 'undefined'], [1, () => G.val(d, 1)]]);
const any = (d) => d.freq([[4, () => SQ(d)], [1, () => G.val(d, 1)]]);
// a search string taken from s
const sub = (d, s) => { const i = d.int(0, s.length), j = d.int(i, Math.min(s.length, i + 3)); return d.freq([[4, () => G.q(s.slice(i, j))], [1, () => any(d)]]); };
const opt = (d, f) => d.bool(0.6) ? ',' + f() : '';
function call(d, s) {
  return d.freq([
    [3, () => d.pick(['charAt', 'charCodeAt', 'codePointAt', 'at']) + `(${pos(d)})`],
    [3, () => d.pick(['slice', 'substring']) + `(${pos(d)}${opt(d, () => pos(d))})`],
    [5, () => d.pick(['indexOf', 'lastIndexOf', 'includes', 'startsWith', 'endsWith']) + `(${sub(d, s)}${opt(d, () => pos(d))})`],
    [2, () => d.pick(['toUpperCase', 'toLowerCase', 'toLocaleUpperCase', 'toLocaleLowerCase']) + '()'],
    [2, () => d.pick(['trim', 'trimStart', 'trimEnd', 'toString', 'valueOf']) + '()'],
    [1, () => `localeCompare(${d.pick(["''", "'abc'"])})===0`],
    [2, () => `normalize(${d.pick(['', '"NFC"', '"NFD"', '"NFKC"', '"NFKD"', 'undefined', '"nfc"', 'null'])})`],
    [3, () => d.pick(['padStart', 'padEnd']) + `(${d.freq([[6, () => d.int(0, 30)], [1, () => d.pick(['NaN', '-1', '"5"', 'undefined', '2.9'])]])}${opt(d, () => any(d))})`],
    [2, () => `repeat(${d.freq([[6, () => d.int(0, 6)], [1, () => d.pick(['-1', 'Infinity', 'NaN', '"2"', '1.9', '-0.5', '2**28*8'])]])})`],
    [2, () => `concat(${d.list(0, 3, () => any(d)).join()})`],
    [2, () => `split(${d.freq([[6, () => sub(d, s)], [1, 'undefined']])}${opt(d, () => d.freq([[3, () => d.int(0, 4)], [1, () => pos(d)]]))})`],
    [3, () => d.pick(['replace', 'replaceAll']) + `(${sub(d, s)},${d.freq([[3, () => G.q(d.list(0, 5, () => d.pick(['$', '$$', '$&', '$`', "$'", '$1', '$0', '$<a>', '$12', 'x', '-'])).join(''))], [2, () => `(...a)=>(__p(a),${any(d)})`], [1, () => any(d)]])})`],
  ]);
}
export default {
  rule: 'String constructor functions and prototype methods on strings drawn from plain, special-casing, surrogate, combining and arbitrary code units, arguments derived from the receiver or of any type; non-trivial: receiver has at least two code units',
  batch: 80,
  count: { quick: 60000, thorough: 1200000 },
  gen(d) {
    const s = S(d);
    const src = d.freq([
      [20, () => `__t(()=>${G.q(s)}.${call(d, s)});`],
      [3, () => `__t(()=>String.prototype.${call(d, s).replace('(', d.bool(0.9) ? '.call(THIS,' : '.call(null,').replace(',)', ')').replace('THIS', () => d.bool() ? G.val(d, 1) : G.coercible(d))});`],
      [2, () => `__t(()=>String.fromCharCode(${d.list(0, 4, () => d.freq([[4, () => d.below(0x11000)], [1, () => G.val(d, 1)]])).join()}));`],
      [2, () => `__t(()=>String.fromCodePoint(${d.list(0, 4, () => d.freq([[6, () => d.below(0x110000)], [1, () => d.pick(['0x110000', '-1', '1.5', '"65"', 'NaN', '0x10ffff', '0xd800', '-0'])]])).join()}));`],
      [2, () => `__t(()=>String.raw(${d.bool(0.7) ? `{raw:${d.freq([[3, () => G.q(s)], [2, () => '[' + d.list(0, 3, () => any(d)) + ']'], [1, () => `{length:${d.pick(['-1', '0', '1', '2', '3', '"2"', 'NaN', '1.9', '{valueOf(){return 2}}'])},0:"a",1:"b"}`]])}}` : G.val(d, 1)}${d.list(0, 3, () => ',' + any(d)).join('')}));`],
      [2, () => `__t(()=>{let r=[]; for (let c of ${G.q(s)}) r.push(c); return [r, [...${G.q(s)}].length, Object.getOwnPropertyNames(new String(${G.q(s)})), Object.keys(${G.q(s)})]});`],
      [2, () => `__t(()=>{let a=${G.q(s)}, b=${d.bool() ? G.q(S(d)) : sub(d, s)}; return [a<b,a>b,a<=b,a==b,a===b,a+b,b+a,(a+b).length, \`\${a}-\${b}\`]});`],
      [1, () => `__t(()=>{let s=new String(${G.q(s)}); return [s[0], s.length, s[${pos(d)}], 1 in s, delete s[0], s]});`],
      [1, () => `{let a=${G.q(s)}, b=a.${d.pick(['toUpperCase', 'toLowerCase', 'trim', 'normalize', 'toString'])}(); __p(b, b.length, b===a, a.split("").reverse().join(""));}`],
      // ropes: long concatenations in both directions, then indexed
      [1, () => `{let s=${G.q(s)}; for (let i=0;i<${d.int(1, 300)};i++) s=${d.pick(['s+"x"+i', 'i+s', 's.slice(1)+s.slice(0,1)', 's+s.slice(-3)'])}; __p(s.length, s.slice(-20), s.charCodeAt(${d.int(0, 40)}), s.indexOf("5x"), s.lastIndexOf("1"));}`],
      [1, () => `__t(()=>new String(${any(d)}));`], [1, () => `__t(()=>String(${G.val(d, 2)}));`],
      [1, () => `__t(()=>${G.q(s)}.${d.pick(['anchor', 'big', 'blink', 'bold', 'fixed', 'fontcolor', 'fontsize', 'italics', 'link', 'small', 'strike', 'sub', 'sup', 'trimLeft', 'trimRight'])});`].slice(0, 0).length ? [0, ''] : [0, ''],
    ].filter((x) => x[0]));
    return { src, nontrivial: s.length >= 2 };
  },
};
