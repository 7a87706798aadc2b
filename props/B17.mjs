import * as G from '../lib/gen.mjs';
import { loose } from './_json5.mjs';
const ws = (d) => d.freq([[8, ''], [1, ' '], [1, '\n'], [1, '\t \r'], ]);
function jstr(d) {
  return '"' + d.list(0, 6, () => d.freq([[8, () => d.pick(['a', 'b', '0', '1', ' ', '__proto__', 'length', 'toJSON'])], [2, () => '\\' + d.pick(['"', '\\', '/', 'b', 'f', 'n', 'r', 't'])], [1, () => '\\u' + d.below(0x10000).toString(16).padStart(4, d.pick(['0', '0', '0', 'g']))], [1, () => String.fromCharCode(d.freq([[3, () => 0x20 + d.below(0x60)], [1, () => 0x80 + d.below(0xff80)]])).replace(/["\\]/g, 'x')], [1, () => d.pick(['\u2028', '\u2029', '\u00e9', '\ud800', '\udc00'])]])).join('') + '"';
}
function jnum(d) { return d.freq([[6, () => String(d.int(-20, 20))], [3, () => G.numLit(Math.abs(G.num(d)) || 0).replace('NaN', '0').replace('Infinity', '1e400')], [2, () => (d.bool() ? '-' : '') + d.int(0, 99) + d.pick(['', '.0', '.5', '.125', '.']) + d.pick(['', 'e1', 'E+2', 'e-3', 'e', 'e05'])], [1, () => d.pick(['-0', '00', '01', '-', '+1', '.5', '1.', '1e', '0x10', '1n', '-01', '1_0', '- 1', '1e400', '-1e400', '123456789012345678901234567890', '0.1e-400'])]]); }
export function json(d, depth) {
  const w = () => ws(d);
  return w() + d.freq([
    [3, () => jnum(d)], [3, () => jstr(d)], [2, () => d.pick(['true', 'false', 'null'])],
    [depth > 0 ? 5 : 0, () => '[' + d.list(0, 4, () => json(d, depth - 1)).join(',') + w() + ']'],
    [depth > 0 ? 5 : 0, () => '{' + d.list(0, 4, () => w() + d.freq([[4, () => `"${d.pick(['a', 'b', 'c', '0', '1', '2', '__proto__', 'toJSON', 'length'])}"`], [1, () => jstr(d)]]) + w() + ':' + json(d, depth - 1)).join(',') + w() + '}'],
  ]) + w();
}
function mutate(d, s) {
  const n = d.freq([[6, 0], [3, 1], [1, 2]]);
  for (let k = 0; k < n; k++) {
    const i = d.int(0, s.length), j = Math.min(s.length, i + d.int(0, 2));
    s = d.freq([[2, () => s.slice(0, i) + s.slice(j)], [2, () => s.slice(0, i) + d.pick(['"', '\\', ',', ':', '[', ']', '{', '}', '0', '-', '.', 'e', 'u', 'x', ' ', '\n', "'", '/', '\u00a0', '\ufeff', '\0', '\x1f', '\x7f', 'true', 'nul', 'undefined', 'NaN', '//', '/**/', '\u2028', '()']) + s.slice(i)], [1, () => s.slice(0, i)], [1, () => s.slice(0, j) + s.slice(i)]]);
  }
  return s;
}
const indent = (d) => d.freq([[4, () => ''], [3, () => ',' + d.int(0, 12)], [2, () => ',' + G.q(d.pick(['\t', '--', ' ', '0123456789ab', '', '\u00e9']))], [1, () => ',' + G.val(d, 1).replaceAll('\\u0000', 'z').replaceAll('\\0', 'z')]]);
let tag = 0;
const strict = (t) => { try { JSON.parse(t); return true; } catch { return false; } };
function sval(d, depth) { // values to stringify
  return d.freq([
    [6, () => G.val(d, 1)], [2, () => 'undefined'], [2, () => G.q(G.str(d, 6))],
    [depth > 0 ? 4 : 0, () => '[' + d.list(0, 4, () => d.bool(0.1) ? '' : sval(d, depth - 1)).join(',') + ']'],
    [depth > 0 ? 6 : 0, () => '({' + d.list(0, 4, () => d.freq([[6, () => G.q(d.freq([[4, () => G.key(d)], [1, () => G.str(d, 4)]])) + ':' + sval(d, depth - 1)], [1, () => `get ${d.pick(['a', 'b', 'g'])}(){__out("get${tag = d.int(0, 9)}");return ${sval(d, 0)}}`], [1, () => `toJSON(k){__p("toJSON",k);return ${d.freq([[1, () => sval(d, 0)], [1, () => 'undefined'], [1, () => 'this.a']])}}`], [1, () => `[Symbol("s")]:1`]])).join(',') + '})'],
    [1, () => 'Object(' + G.prim(d) + ')'.replace('null', '1')], [1, () => d.pick(['new Date(0)', 'new Date(NaN)', 'Object(Symbol())', 'new Proxy([1,2,[3]],{})', 'new Proxy({a:1,b:[2]},{})', 'new Proxy({x:1},{ownKeys(){return ["x","y"]},get(t,k){__p(k);return k==="toJSON"?undefined:7},getOwnPropertyDescriptor(){return {value:1,enumerable:true,configurable:true}}})', 'Object.create({inherited:1})', 'Object.assign([1,2],{x:3})', 'function(){}', 'new Map([[1,2]])', 'new Uint8Array([1,2])', 'new Boolean(false)', 'Object.assign(new Number(3),{valueOf(){__out("vo");return 9}})', 'Object.assign(new String("s"),{toString(){__out("ts");return "t"}})'])],
  ]);
}
const replacer = (d) => d.freq([
  [4, 'null'], [2, () => 'function(k,v){__p(k,typeof v,Array.isArray(this));return ' + d.freq([[4, 'v'], [1, () => `k===${G.q(G.key(d))}?undefined:v`], [1, () => `typeof v==="number"?v+1:v`], [1, () => `k===""?v:${G.prim(d)}`]]) + '}'],
  [3, () => '[' + d.list(0, 4, () => d.freq([[5, () => G.q(G.key(d))], [2, () => d.int(0, 3)], [1, () => 'new String("a")'], [1, () => G.val(d, 1)]])).join(',') + ']'], [1, () => 'new Proxy(["a","b"],{})'], [1, () => G.val(d, 1)],
]);
const reviver = (d) => d.pick(['function(k,v){__p(k,v,this);return v}', 'function(k,v){return typeof v==="number"?v+1:v}', 'function(k,v){__p(k);return k==="a"||k==="1"?undefined:v}', 'function(k,v){if(k==="b")throw new RangeError;return v}', 'function(k,v){if(k==="a"&&!Array.isArray(this)){this.b=[1];delete this.c}return v}', 'function(k,v){if(k==="0"){this.length=1}return v}', 'function(k,v){if(k==="a")Object.freeze(this);return k===""?v:0}', 'function(k,v){if(k==="a")this.b=new Proxy([1,{x:2}],{});return v}', '1', 'null', 'function(k,v){if(k==="0")this[1]=new Proxy({z:1,y:2},{});__p(k,typeof v);return v}', 'function(){return this}']);
export default {
  rule: 'JSON.parse of generated and mutated texts with and without revivers, JSON.stringify of values with accessors, toJSON, proxies, cycles, replacers and indents, round trips of generated JSON values; non-trivial: source longer than 40 characters',
  batch: 60,
  count: { quick: 50000, thorough: 1000000 },
  // V8 uses a gap of length 0 with line feeds for 0 < space < 1; texts from ToString of odd values may be in the superset
  tolerate: (c, e, a) => a.status === 'ok' && ((c.src.startsWith('/*v*/') && e.out.endsWith('throws E:SyntaxError\n')) || (/,[^,]*?\b(0?\.\d+|[\d.]+e-\d+)\)*;$/.test(c.src) && e.out.replace(/\\+x000a| /g, '') === a.out.replaceAll(' ', ''))),
  gen(d) {
    let text;
    const src = d.freq([
      [8, () => `__t(()=>JSON.parse(${G.q(text = mutate(d, json(d, d.int(0, 3))))}));`],
      [4, () => `__t(()=>JSON.parse(${G.q(text = json(d, d.int(1, 3)))},${reviver(d)}));`],
      [8, () => `__t(()=>JSON.stringify(${sval(d, d.int(1, 3))},${replacer(d)}${indent(d)}));`],
      [2, () => `__t(()=>{let t=${G.q(text = json(d, 3))}, v=JSON.parse(t), s=JSON.stringify(v); return [s, __str(JSON.parse(s))===__str(v), JSON.stringify(JSON.parse(s,(k,v)=>v))===s, JSON.stringify(v,null,2), JSON.stringify(JSON.parse(JSON.stringify(v,null,"\\t")))===s]});`],
      [1, () => `{let o={a:1,b:{c:[${sval(d, 1)}]}}; o.b.c.push(${d.pick(['o', 'o.b', 'o.b.c', '1', '{toJSON(){return o}}', '{toJSON(){return 5}}'])}); __t(()=>JSON.stringify(o${d.pick(['', ',null,1', ',["b","c"]', ',(k,v)=>k==="c"?1:v'])}));}`],
      [1, () => `/*v*/__t(()=>JSON.parse(${G.val(d, 1)}${d.bool() ? ',' + reviver(d) : ''}));`],
      [1, () => `__t(()=>[JSON.stringify(), JSON.stringify(${sval(d, 1)}), JSON[Symbol.toStringTag]]);`],
    ]);
    // texts outside JSON but inside the engine's superset of it are left undecided
    return { src, nontrivial: src.length > 40, skip: text !== undefined && !strict(text) && loose(text) };
  },
};
