// Builtins called with hostile receivers, arguments and callbacks, under collections at chosen allocations: the only
// oracle is that the process survives (AddressSanitizer, UBSan, assertions on).
import { borrow } from './_pool.mjs';

// paths of the builtin functions, taken from the reference engine
const FN = [];
{
  const SKIP = /^(Atomics\.(wait|waitAsync|pause)|FinalizationRegistry\.prototype\.cleanupSome|Iterator|Intl|WebAssembly|console)/;
  const seen = new Set();
  const NAMES = ['Object', 'Function', 'Array', 'Error', 'AggregateError', 'Map', 'Set', 'WeakMap', 'WeakSet', 'Promise', 'Date', 'RegExp', 'String', 'Number', 'Boolean', 'Symbol', 'BigInt', 'ArrayBuffer', 'SharedArrayBuffer', 'DataView', 'Uint8Array', 'Float64Array', 'BigInt64Array', 'Uint8ClampedArray', 'WeakRef', 'FinalizationRegistry', 'Proxy', 'Reflect', 'Math', 'JSON', 'Atomics'];
  const walk = (o, p, depth) => {
    for (const k of Reflect.ownKeys(o)) {
      const ks = typeof k === 'symbol' ? `[Symbol.${k.description.replace('Symbol.', '')}]` : `.${k}`;
      if (typeof k === 'symbol' && !/^Symbol\.\w+$/.test(k.description)) continue;
      const dsc = Object.getOwnPropertyDescriptor(o, k), q = p + ks;
      if (SKIP.test(q) || q.includes('constructor')) continue;
      for (const [f, t] of [[dsc.value, q], [dsc.get, `G(${p},${typeof k === 'symbol' ? 'Symbol.' + k.description.replace('Symbol.', '') : JSON.stringify(k)},"get")`], [dsc.set, `G(${p},${typeof k === 'symbol' ? 'Symbol.' + k.description.replace('Symbol.', '') : JSON.stringify(k)},"set")`]]) {
        if (typeof f === 'function' && !seen.has(f)) { seen.add(f); FN.push(t); }
      }
      if (depth < 2 && dsc.value && (typeof dsc.value === 'object' || typeof dsc.value === 'function') && k === 'prototype') walk(dsc.value, q, depth + 1);
    }
  };
  for (const n of NAMES) if (globalThis[n]) { FN.push(n); walk(globalThis[n], n, 0); }
  for (const [e, n] of [['Object.getPrototypeOf(Int8Array)', Object.getPrototypeOf(Int8Array)], ['Object.getPrototypeOf(Int8Array).prototype', Object.getPrototypeOf(Int8Array.prototype)], ['Object.getPrototypeOf(function*(){}).prototype', Object.getPrototypeOf(function* () {}).prototype], ['Object.getPrototypeOf([].values())', Object.getPrototypeOf([].values())], ['Object.getPrototypeOf(new Map().values())', Object.getPrototypeOf(new Map().values())], ['Object.getPrototypeOf("".matchAll(/./g))', Object.getPrototypeOf(''.matchAll(/./g))], ['Object.getPrototypeOf(async function*(){}).prototype', Object.getPrototypeOf(async function* () {}).prototype]]) walk(n, `(${e})`, 2);
  for (const g of ['parseInt', 'parseFloat', 'isNaN', 'decodeURIComponent', 'encodeURIComponent', 'eval', 'Function', 'Object.getPrototypeOf(async function(){}).constructor', 'Object.getPrototypeOf(function*(){}).constructor']) FN.push(g);
}
const METHODS = FN.map((f) => /\.prototype\.(\w+)$/.exec(f)).filter(Boolean).map((m) => m[1]);
const NPOOL = 10;
const POOL = ['[1,2,3,{},"a"]', '[,1,,2]', 'new Array(30).fill(7)', '[1.5,-0,NaN]', 'new Map([[1,{}],["k",2],[NaN,3]])', 'new Set([1,{},"x"])', 'new Uint8Array(B)', 'new Float64Array(B,8,2)', 'new DataView(B)', 'B', 'new BigInt64Array(4)', 'new Uint16Array([5,4,3,2,1])', '/a(b)?|c/gi', '/(?<n>x)|y/dy', '"abcabc"', '"\\ud83d\\ude00z"', '"x".repeat(300)', '{a:1,b:2,get c(){hook(0);return 3}}', 'Object.create({inh:1},{q:{value:1}})', 'function f(a,b){hook(1);return arguments}', '(x)=>{hook(2);return x}', 'class A{#p=1;get p(){return this.#p}static s=1}', '(function*(){try{yield 1;hook(3);yield* [2,3]}finally{hook(1)}})()', '(async function*(){yield 1;await 2;yield 3})()', 'new Proxy([1,2,3],H)', 'new Proxy({a:1},H)', 'new Proxy(function(){},H)', 'Promise.resolve(1)', 'new Promise(()=>{})', 'new Date(0)', 'Symbol.iterator', '10n', '-1', '{length:3,0:1,2:3}', '{get length(){hook(2);return 4},0:"x"}', '(function(){return arguments})(1,2,3)', 'new WeakMap', 'new WeakSet', '[3,1,2].values()', 'new Map([[1,2]]).entries()', '"abc".matchAll(/./g)', 'new Error("e",{cause:1})', 'Object(Symbol())', 'new String("wrapped")', 'Object.freeze([1,2])', 'class B2 extends Array{static get[Symbol.species](){hook(4);return P[__i]}}', 'new (class extends Array{})(1,2,3)', '{[Symbol.iterator]:()=>({next(){hook(5);return {done:(n++%5)==4,value:n}},return(){hook(6);return {}}})}', '{then(r){hook(3);r(1)}}', '{constructor:{[Symbol.species]:function(n2){hook(1);return P[0]}}}', '(function(){}).bind({},1)', 'new SharedArrayBuffer(16)', 'new Int32Array(new SharedArrayBuffer(16))', 'null', 'undefined', 'new WeakRef({})', 'Object.assign(()=>{},{prototype:1})', 'globalThis'];
const NUM = ['0', '1', '-1', '2', '3', '0.5', '-0', 'NaN', '10', '255', '1n', '"2"', '7'], BIG = ['Infinity', '-Infinity', '2**31', '2**32', '-(2**31)', '2**53-1', '2**32-1', '1e21'];
const ACTS = [
  (a, b) => `P[${a}].length=${b % 4}`, (a) => `P[${a}].length=0`, () => `__detach(B)`, (a, b) => `P[${a}].push(1,P[${b}],3,4,5,6,7,8,9)`, (a) => `delete P[${a}][0]`, (a) => `Object.freeze(P[${a}])`, (a) => `P[${a}].clear()`, (a, b) => `P[${a}].delete(${b % 3})`, (a, b) => `P[${a}].set(P[${b}],P[${b}])`, (a, b) => `Object.setPrototypeOf(P[${a}],P[${b}])`, () => `__gc()`, (a) => `P[${a}]=null`, (a, b) => `P[${a}].lastIndex=${b}`,
  (a, b) => `Object.defineProperty(P[${a}],"length",{writable:false})`, (a) => `P[${a}].next()`, (a) => `P[${a}].return(1)`, (a) => `P[${a}].throw(1)`, (a, b) => `P[${a}][${b}]=P[${b}]`, (a, b) => `Object.defineProperty(P[${a}],${b},{get(){hook(2);return P[${b}]},configurable:true})`, (a) => `P[${a}].constructor=C0`, (a, b) => `P[${a}]=P[${b}]`, (a, b) => `P[${a}]=[P[${b}]]`, (a) => `P[${a}].splice(0,1)`, (a) => `P[${a}].sort(()=>{hook(3);return -1})`, (a) => `P[${a}].reverse()`, (a) => `rv.revoke()`, (a, b) => `for(let k in P[${a}])delete P[${a}][k]`, (a) => `throw P[${a}]`, (a, b) => `P[${a}].copyWithin(0,1)`, (a, b) => `P[${a}][Symbol.iterator]=()=>P[${b}]`, (a, b) => `P[${a}].exec=()=>{hook(1);return P[${b}]}`, (a, b) => `P[${a}].then=P[${b}]`, (a, b) => `P[${a}].call(P[${b}],P[${b}])`, (a, b) => `new P[${a}](P[${b}])`, (a, b) => `P[${a}].prototype=P[${b}]`, (a) => `P[${a}].add(P)`, (a) => `P[${a}].forEach(()=>hook(4))`, (a, b) => `Array.prototype[${b}]=P[${a}]`, (a, b) => `Object.prototype[Symbol.toPrimitive]=P[${a}]`, (a) => `P[${a}].resize(1)`, (a) => `Object.preventExtensions(P[${a}])`, (a) => `delete P[${a}].length`, (a) => `P[${a}]=P[${a}]+P[${a}]`, (a, b) => `P[${a}].__proto__=null`,
];

export default {
  rule: 'programs calling up to 40 randomly chosen builtins with receivers and arguments from a pool of objects whose getters, traps, callbacks, iterators and conversions mutate that pool, or mutated programs of other generators, half of them with collections in a window of allocations; oracle: no AddressSanitizer, UBSan, assertion or signal; non-trivial: ran to its end',
  batch: 10, count: { quick: 9000, thorough: 300000 }, hostOpts: { cpu: 4 }, level: 'exploration',
  async custom(c, j) {
    const st = +(/^\/\/GC (\d+)/.exec(c.src) || [0, 0])[1];
    const [a] = await j.host.run([c], { realm: true, stress: st, canBlock: false });
    const e = { status: a.status === 'crash' ? 'ok' : a.status, out: a.out };
    if (a.status === 'crash' && /stack-overflow/.test(a.err)) return { ok: null, exp: e, act: a }; // unbounded recursion is a listed finding
    if (a.status === 'crash' && /alloc_assert|failed to allocate|requested allocation size|out-of-memory/.test(a.log)) return { ok: null, exp: e, act: a }; // out of memory
    if (a.status === 'hang' || a.status === 'memlimit') return { ok: null, exp: e, act: a };
    return { ok: a.status !== 'crash', exp: e, act: a };
  },
  gen(d) {
    const st = d.freq([[4, () => 0], [3, () => ((1 + d.below(1 << d.int(4, 13))) << 12 | d.int(20, 300)) >>> 0], [1, () => d.pick([17, 43, 101])]]);
    if (d.bool(0.25)) {
      const c = borrow(d);
      if (c.skip || c.src.length > 20000) return { src: '', skip: true };
      let t = Buffer.isBuffer(c.src) ? c.src.toString('utf8') : c.src;
      for (let k = d.int(0, 6); k > 0; k--) t = mutate(d, t);
      return { src: `//GC ${st}\n` + t, mode: c.mode, nontrivial: (r) => r.act.out.length > 4 };
    }
    const L = [];
    const v = (n = 0) => d.freq([[10, () => `P[${d.below(NPOOL)}]`], [5, () => d.pick(NUM)], [d.bool(0.05) ? 2 : 0, () => d.pick(BIG)], [2, () => `(...a)=>{hook(${d.below(8)});return ${d.pick(['a[0]', 'P[1]', '1', 'true', 'a', 'undefined', '{}', '-1', 'a[1]', '[]'])}}`], [1, () => `{valueOf(){hook(${d.below(8)});return ${d.pick(NUM)}},toString(){hook(${d.below(8)});return ${d.pick(['"a"', '"length"', '"0"', '""', '{}'])}}}`], [1, () => d.pick(['"a"', '"length"', '"0"', '"b"', '""', '"g"', 'Symbol.iterator', '"constructor"', '"x"', '"$<n>$1$&"', '"(a)(?<b>.)"', '"[1,{\\"a\\":[]}]"'])], [n < 2 ? 1 : 0, () => `[${d.list(0, 4, () => v(n + 1)).join(',')}]`], [n < 2 ? 1 : 0, () => `{a:${v(n + 1)},length:${d.pick(NUM)},value:${v(n + 1)},done:false}`]]);
    const pool = d.list(NPOOL, NPOOL, () => d.pick(POOL));
    const act = d.list(3, 8, () => d.pick(ACTS)(d.below(NPOOL), d.below(NPOOL)));
    L.push(`(function(){'use strict'.length;let fuel=${d.pick([60, 25, 120])},depth=0,n=0,__i=${d.below(NPOOL)},B=new ArrayBuffer(24),P=[],rv=Proxy.revocable([1,2],{});`);
    L.push(`const G=(o,k,w)=>Object.getOwnPropertyDescriptor(o,k)[w];`);
    L.push(`const acts=[${act.map((a) => `()=>{${a}}`).join(',')}];`);
    L.push(`function hook(k){if(fuel--<=0||depth>2)return;depth++;try{acts[k%acts.length]()}${d.bool(0.8) ? 'catch(e){}' : ''}finally{depth--}}`);
    L.push(`const H={};for(let t of ['get','set','has','deleteProperty','ownKeys','getOwnPropertyDescriptor','defineProperty','getPrototypeOf','setPrototypeOf','isExtensible','preventExtensions','apply','construct'])H[t]=function(...a){hook(t.length);return Reflect[t](...a)};`);
    L.push(`function C0(...a){hook(${d.below(8)});return P[${d.below(NPOOL)}]}C0[Symbol.species]=C0;`);
    for (const p of pool) L.push(`try{P.push(${p})}catch(e){P.push({})}`);
    L.push(`let r;const I=(f)=>{if(fuel<-300)return;try{r=f();if(typeof r==="object"&&r&&n++%3==0)P[n%${NPOOL}]=r}catch(e){}};`);
    for (let k = d.int(6, 40); k > 0; k--) {
      const c = d.below(10), args = d.list(0, 4, () => v());
      if (c < 4) L.push(`I(()=>${d.pick(FN)}.call(${[v(), ...args].join(',')}));`);
      else if (c < 7) L.push(`I(()=>P[${d.below(NPOOL)}].${d.pick(METHODS)}(${args.join(',')}));`);
      else if (c === 7) L.push(`I(()=>Reflect.construct(${d.pick(['Array', 'Map', 'Set', 'Promise', 'Proxy', 'RegExp', 'Date', 'Uint8Array', 'Float32Array', 'DataView', 'ArrayBuffer', 'WeakMap', 'Object', 'Function', 'Error', 'AggregateError', 'String', 'BigUint64Array', 'P[0]', 'P[3]', 'WeakRef'])},[${args.join(',')}]${d.bool(0.3) ? `,P[${d.below(NPOOL)}]` : ''}));`);
      else L.push(`I(()=>{${d.pick([() => `let [a,...b]=${v()};return b`, () => `let {a,...b}=${v()};return b`, () => `return [...${v()}]`, () => `return {...${v()}}`, () => `for(let q of ${v()}){hook(${d.below(8)});if(n++%7==0)break}`, () => `for(let q in ${v()})hook(${d.below(8)})`, () => `return ${v()}${d.pick(['+', '-', '*', '<', '==', ' instanceof ', ' in ', '**', '>>>', '%', '&&', '??', '==='])}${v()}`, () => `return \`\${${v()}}\``, () => `${v()}[${v()}]=${v()}`, () => `delete ${v()}[${v()}]`, () => `class Z extends P[${d.below(NPOOL)}]{#q=hook(1);constructor(...a){super(...a);hook(2)}};return new Z(${args.join(',')})`, () => `return new P[${d.below(NPOOL)}](${args.join(',')})`, () => `return P[${d.below(NPOOL)}](...${v()})`, () => `P[${d.below(NPOOL)}][${v()}]??=${v()}`, () => `P[${d.below(NPOOL)}][${d.pick(NUM)}]++`, () => `return tag\`a\${${v()}}b\`;function tag(s,...r){hook(1);return s}`, () => `with(P[${d.below(NPOOL)}]){length=1;a;x=hook(2)}`, () => `return eval(${d.pick(['"P[0]=hook"', '"var z=1;P"', '"(()=>{hook(1);return P})()"', '"`${P[1]}`"', '"class K{static{hook(2)}};K"'])})`, () => `(async()=>{for await(let q of ${v()}){hook(1);if(n++%5==0)return}})()`, () => `(async()=>{try{await ${v()}}finally{hook(2)}})()`, () => `function* g(){try{yield ${v()};yield* ${v()}}finally{hook(3)}}for(let q of g()){hook(${d.below(8)});if(n++%3==0)break}`])()}});`);
    }
    L.push('__out("end")})();');
    return { src: `//GC ${st}\n` + L.join('\n'), nontrivial: (r) => r.act.out.includes('end') };
  },
};

function mutate(d, t) {
  const ls = t.split('\n');
  const k = d.below(8), i = d.below(ls.length), jx = d.below(ls.length);
  if (k === 0) ls.splice(i, 1);
  else if (k === 1) ls.splice(i, 0, ls[jx]);
  else if (k === 2) { const x = ls[i]; ls[i] = ls[jx]; ls[jx] = x; }
  else if (k === 3) ls[i] = ls[i].replace(/\b\d+\b/g, (x) => d.bool(0.5) ? x : d.pick(['0', '-1', '1', '3', '1e9', 'NaN', '"q"', 'null', '2**31', '[]']));
  else if (k === 4) ls[i] = ls[i].replace(/\b(let|const|var)\b/g, (x) => d.pick(['let', 'var', 'const']));
  else if (k === 5) ls[i] = ls[i].replace(/\b[a-z]\b/g, (x) => d.bool(0.7) ? x : d.pick(['a', 'b', 'x', 'this', 'arguments', 'null', 'eval', 'undefined']));
  else if (k === 6) { const a = d.below(ls[i].length + 1); ls[i] = ls[i].slice(0, a) + d.pick([';', '(', ')', '{', '}', ',', '__gc();', '=>', '...', 'await ', 'yield ', '.', '?.', '`', '#x', 'new ', 'super.', 'async ', '*', '=']) + ls[i].slice(a); }
  else { const a = d.below(ls[i].length + 1), b = Math.min(ls[i].length, a + d.int(1, 4)); ls[i] = ls[i].slice(0, a) + ls[i].slice(b); }
  return ls.join('\n');
}
