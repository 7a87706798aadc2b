// Shared generators of javascript source fragments.
export const q = (s) => { // a JS string literal
  let r = "'";
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    if (c === 39 || c === 92) r += '\\' + s[i];
    else if (c >= 32 && c < 127) r += s[i];
    else r += '\\u' + c.toString(16).padStart(4, '0');
  }
  return r + "'";
};
export const numLit = (n) => Object.is(n, -0) ? '-0' : n !== n ? 'NaN' : n === Infinity ? 'Infinity' : n === -Infinity ? '-Infinity' : String(n);
// a number expression that can be used as an operand anywhere
export const numE = (n) => { const s = numLit(n); return s[0] === '-' ? '(' + s + ')' : s; };

const f64 = new Float64Array(1), u32 = new Uint32Array(f64.buffer);
export function bits(d) { u32[0] = d.below(0x100000000); u32[1] = d.below(0x100000000); return f64[0]; }

const EDGE = [0, 1, -1, 2, 3, 10, -0, 0.5, -0.5, 1.5, -1.5, 2.5, NaN, Infinity, -Infinity, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 2147483647, 2147483648, -2147483648, -2147483649, 4294967295, 4294967296, 4294967294, 9007199254740991, 9007199254740992, -9007199254740991, -9007199254740992, 9007199254740993, 1e21, 1e20, 123456789012345680000, 1e-6, 1e-7, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 0.1, 0.2, 0.3, 4.35, 1.005, 1e300, 1e-300, 0.000001, 123.456, 18446744073709551616, 9223372036854775808, 4503599627370496.5, 2**31 + 0.5, 99999999999999990000, 0.1 + 0.2];
export function num(d) {
  return d.freq([
    [6, () => d.int(0, 20)], [3, () => d.int(-20, 20)], [6, () => d.pick(EDGE)],
    [2, () => d.int(-1000, 1000) / d.pick([2, 4, 10, 100, 8])], [2, () => d.int(0, 0x1fffffffffffff) * (d.bool() ? -1 : 1)],
    [2, () => bits(d)], [2, () => d.int(0, 0xffffffff) - 0x80000000],
    [1, () => Math.pow(2, d.int(-1074, 1023)) * (d.bool() ? -1 : 1)],
    [1, () => d.int(1, 9999999) * Math.pow(10, d.int(-30, 30))],
  ]);
}
export const int = (d) => d.freq([[6, () => d.int(0, 9)], [3, () => d.int(-9, 9)], [1, () => d.pick([0, -1, 1, 2147483647, -2147483648, 4294967295, 100])]]);

const CHARS = ['a', 'b', 'c', 'A', 'B', 'Z', 'x', '0', '1', '9', ' ', '-', '_', '.', ',', '\n', '\t', '$', '&', '\'', '"', '\\', '/', '\u00e9', '\u00df', '\u0130', '\u0131', '\u03a3', '\u03c3', '\u03c2', '\u1e9e', '\u00a0', '\ufeff', '\u2028', '\u3042', '\uac00', '\ud83d\ude00', '\ud800', '\udc00', '\u0301', '\u00c5', '\u0345', '\ufb01', '\u01c5', '\ud801\udc00', '\0'];
const PLAIN = ['a', 'b', 'c', 'd', 'A', 'B', '0', '1', ' '];
export function str(d, max = 8) {
  return d.freq([
    [6, () => d.list(0, max, () => d.pick(PLAIN)).join('')],
    [4, () => d.list(0, max, () => d.pick(CHARS)).join('')],
    [2, () => d.pick(['', 'abc', 'hello world', '0', '1', '-1', '1.5', 'length', 'NaN', 'undefined', 'null', 'true', '1e3', '0x10', ' 12 ', 'toString', '__proto__', 'constructor', 'valueOf', 'prototype', '4294967294', '4294967295', '-0', '01', 'aXbXc'])],
    [1, () => String.fromCharCode(...d.list(0, max, () => d.below(0x10000)))],
    [1, () => numLit(num(d))],
  ]);
}
// a property key's source (string or number)
export const KEYS = ['a', 'b', 'c', 'x', 'y', '0', '1', '2', 'length', 'name'];
export const key = (d) => d.freq([[5, () => d.pick(['a', 'b', 'c', 'x'])], [3, () => String(d.int(0, 4))], [1, () => d.pick(KEYS)], [1, () => d.pick(['01', '-1', '4294967294', '4294967295', '1.5', ' ', '\u00e9'])]]);

export const prim = (d) => d.freq([
  [5, () => numLit(num(d))], [4, () => q(str(d))], [1, () => 'undefined'], [1, () => 'null'], [1, () => 'true'], [1, () => 'false'],
  [1, () => d.int(-5, 300) + 'n'], [1, () => d.pick(['Symbol.iterator', 'Symbol("s")', 'Symbol.for("k")'])],
]);
export const primNoSym = (d) => d.freq([
  [5, () => numLit(num(d))], [4, () => q(str(d))], [1, () => 'undefined'], [1, () => 'null'], [1, () => 'true'], [1, () => 'false'],
]);
// expressions of any value; no identifiers besides builtins
export function val(d, depth = 2) {
  if (depth <= 0) return prim(d);
  return d.freq([
    [10, () => prim(d)],
    [3, () => '[' + d.list(0, 4, () => d.bool(0.1) ? '' : val(d, depth - 1)).join(',') + (d.bool(0.1) ? ',' : '') + ']'],
    [3, () => '({' + d.list(0, 3, () => q(key(d)) + ':' + val(d, depth - 1)).join(',') + '})'],
    [1, () => coercible(d)],
    [1, () => 'new ' + d.pick(['Number', 'String', 'Boolean']) + '(' + primNoSym(d) + ')'],
    [1, () => d.pick(['function(){}', '(function(a,b){return a})', 'class{constructor(){}}', '()=>1', '/x/g', 'new Date(NaN)', 'new Map([[1,2]])', 'new Set([1,"a"])', 'new Uint8Array([1,2,3])', 'new ArrayBuffer(4)', '(function(){return arguments})(1,2)', 'Object.create(null)', 'new Error("m")', 'Math', 'Symbol.prototype', 'Object(Symbol("o"))', 'Object(1n)'])],
  ]);
}
// an object that logs its conversion
export function coercible(d) {
  const r = () => d.freq([[5, () => primNoSym(d)], [1, () => '{}']]);
  const n = d.int(0, 9);
  return d.freq([
    [3, () => `({valueOf(){__out("vo${n}");return ${r()}},toString(){__out("ts${n}");return ${r()}}})`],
    [2, () => `({[Symbol.toPrimitive](h){__out("tp${n}"+h);return ${r()}}})`],
    [1, () => `({valueOf(){__out("vo${n}");throw new RangeError("c${n}")},toString(){__out("ts${n}");throw new EvalError("c${n}")}})`],
    [1, () => `({toString:null,valueOf(){__out("vo${n}");return ${r()}}})`],
  ]);
}

// output with its numbers rounded to 13 significant digits
export const rough = (o) => o.replace(/-?\d+\.?\d*(e[+-]?\d+)?/g, (m) => Number.isFinite(+m) ? (+m).toPrecision(13) : m);
