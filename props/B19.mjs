import vm from 'node:vm';
import * as G from '../lib/gen.mjs';
// builtins of V8 that are not in the 2023 edition without Annex B
const LATER = new Set(['Iterator', 'escape', 'unescape', 'WebAssembly', 'console', 'Intl', 'Float16Array', 'DisposableStack', 'AsyncDisposableStack', 'SuppressedError', '__out', '__gc', '__tz', '__detach', '__newrealm', '__evalscript']);
const SKIP = new Set([
  ...['groupBy', 'isWellFormed', 'toWellFormed', 'substr', 'anchor', 'big', 'blink', 'bold', 'fixed', 'fontcolor', 'fontsize', 'italics', 'link', 'small', 'strike', 'sub', 'sup', 'trimLeft', 'trimRight', 'getYear', 'setYear', 'toGMTString', 'compile', 'stackTraceLimit', 'captureStackTrace', 'fromAsync', 'withResolvers', 'try', 'waitAsync', 'rawJSON', 'isRawJSON', 'union', 'intersection', 'difference', 'symmetricDifference', 'isSubsetOf', 'isSupersetOf', 'isDisjointFrom', 'transfer', 'transferToFixedLength', 'detached', 'resizable', 'maxByteLength', 'resize', 'growable', 'grow', 'unicodeSets', 'f16round', 'getFloat16', 'setFloat16', 'dispose', 'asyncDispose', 'input', '$_', 'lastMatch', '$&', 'lastParen', '$+', 'leftContext', '$`', 'rightContext', "$'", '$1', '$2', '$3', '$4', '$5', '$6', '$7', '$8', '$9', 'map', 'filter', 'take', 'drop', 'flatMap', 'reduce', 'toArray', 'forEach', 'some', 'every', 'find', 'from'].map((x) => x)]);
const INNER = [
  ['%Generator%', '(function*(){}).prototype.__proto__'], ['%GeneratorFunction%', '(function*(){}).__proto__'], ['%AsyncGenerator%', '(async function*(){}).prototype.__proto__'], ['%AsyncGeneratorFunction%', '(async function*(){}).__proto__'], ['%AsyncFunction%', '(async()=>{}).__proto__'],
  ['%ArrayIterator%', '[].keys().__proto__'], ['%MapIterator%', '(new Map).keys().__proto__'], ['%SetIterator%', '(new Set).keys().__proto__'], ['%StringIterator%', '""[Symbol.iterator]().__proto__'], ['%RegExpStringIterator%', '"".matchAll(/x/g).__proto__'], ['%TypedArray%', 'Int8Array.__proto__'], ['%AsyncIterator%', '(async function*(){}).prototype.__proto__.__proto__'],
];
const paths = []; // [expression of the holder, key expression, key]
{
  const ctx = vm.createContext(vm.constants.DONT_CONTEXTIFY);
  const g = vm.runInContext('globalThis', ctx);
  const seen = new Set([g]);
  const ke = (k) => typeof k === 'symbol' ? k.description : JSON.stringify(k);
  const walk = (o, ex, depth) => {
    for (const k of Reflect.ownKeys(o)) {
      const n = typeof k === 'symbol' ? k.description.replace('Symbol.', '') : k;
      if (o === g && LATER.has(k)) continue;
      const iterHelpers = o === g.Iterator?.prototype;
      if (iterHelpers && typeof k === 'string') continue;
      if (SKIP.has(n) && !(['map', 'filter', 'forEach', 'some', 'every', 'find', 'reduce', 'flatMap'].includes(n) && !iterHelpers) && !(n === 'from') && !(n === 'sub' && ex === 'Atomics') && !(n === 'link' && false)) { if (!(n === 'reduce')) continue; }
      paths.push([ex, ke(k), k]);
      const d = Reflect.getOwnPropertyDescriptor(o, k);
      for (const [v, acc] of [[d.value, ''], [d.get, '.get'], [d.set, '.set']]) {
        if (v === null || (typeof v !== 'object' && typeof v !== 'function') || seen.has(v) || depth > 4) continue;
        seen.add(v);
        walk(v, acc ? `Object.getOwnPropertyDescriptor(${ex},${ke(k)})${acc}` : typeof k === 'symbol' ? `${ex}[${ke(k)}]` : o === g ? k : `${ex}.${k}`, depth + 1);
      }
    }
  };
  walk(g, 'globalThis', 0);
  for (const [, ex] of INNER) { const v = vm.runInContext(ex, ctx); if (!seen.has(v)) { seen.add(v); walk(v, ex, 1); } }
}
// implementation-defined or time-dependent properties, and iterator prototypes that inherit Iterator.prototype[Symbol.toStringTag] in V8 only
const bad = ([ex, k]) => /^"(caller|arguments)"$/.test(k) || (ex === 'Date' && k === '"now"') || (ex === 'Date' && k === '"parse"') || k === `"globalThis"` || /[lL]ocale/.test(k);
for (let i = paths.length - 1; i >= 0; i--) if (bad(paths[i])) paths.splice(i, 1);
const tagOnly = ([ex, k]) => k === 'Symbol.toStringTag' && /__proto__/.test(ex);
export const PATHS = paths;
const recv = (d) => d.freq([
  [6, () => d.pick(['undefined', 'null', '5', '"abc"', 'true', '{}', '[]', '[1,2,3]', 'Symbol("q")', '7n', '()=>1', 'function(){}', '/a/g', 'new Date(NaN)', 'new Map([[1,2]])', 'new Set([1])', 'new Uint8Array([1,2,3])', 'new ArrayBuffer(4)', 'new DataView(new ArrayBuffer(8))', 'new WeakMap', 'new WeakSet', 'Promise.resolve(1)', '(function*(){yield 1})()', '(async function*(){})()', 'new Error("m")', 'new Proxy({},{})', 'new Proxy(()=>{},{})', 'Object.create(null)', 'new Number(5)', 'new String("xy")', 'new Boolean(false)', 'Object(1n)', 'Object(Symbol("w"))', '(function(){return arguments})(1)', '[1].keys()', '(new Map).keys()', '""[Symbol.iterator]()', 'new SharedArrayBuffer(4)', 'new WeakRef({})', 'new FinalizationRegistry(()=>{})', 'class{constructor(){}}', '(()=>{}).bind()', 'new BigInt64Array(2)', '{length:2,0:"a",1:"b"}', '{valueOf(){return 3}}', '""', 'NaN', '-1', 'Object', 'Array'])],
  [1, () => G.primNoSym(d)],
]);
const CLEAN = 'let H=(f)=>{try{return f()}catch(e){return ["throws",e]}};';
const isDate = (p) => p[1] === '"Date"' || (p[0] === 'Math' && p[1] === '"random"') || (p[0] === 'Date.prototype' && p[1] === '"constructor"');
const nat = (o) => o.replace(/ \([A-Za-z ]+\)"/g, '"').replace(/stack:accessor!e\(fn ""\/0,fn ""\/1\),?/g, '').replace(/function [^("]*\([^)"]*\) ?\{ ?\[native code\] ?\}/g, 'NATIVE').replace(/(get|set) [^("]*\(\) ?\{ ?\[native code\] ?\}/g, 'NATIVE');
export default {
  rule: 'every property reachable from the global object and from the hidden intrinsics: its attributes, and for functions name, length, own keys, prototype, extensibility and constructor-ness; calls and constructions of each with wrong receivers, missing and odd arguments, and with new.target of other kinds; deletion, redefinition and restoration; non-trivial: output longer than 25 characters',
  batch: 50,
  realm: true,
  count: { quick: 12000, thorough: 600000 },
  judge: (c, e, a) => e.status === a.status && nat(e.out) === nat(a.out),
  gen(d) {
    const p = d.pick(paths), [ex, k] = p;
    const kind = tagOnly(p) ? 0 : d.int(0, 9);
    const wrap = p[1] === '"localeCompare"' ? '(typeof r==="number"?Math.sign(r):r)' : ex === 'Math' ? '(typeof r==="number"?r.toPrecision(13):r)' : 'r', dt = isDate(p);
    let body;
    const v = `(${ex})[${k}]`;
    const shape = `let D=Object.getOwnPropertyDescriptor(${ex},${k});__p(!!D);if(D){__p("value" in D,D.writable,D.enumerable,D.configurable,typeof D.get,typeof D.set,typeof D.value);for(let f of [D.get,D.set,D.value])if(typeof f==="function"){let q=(k)=>{let e=Object.getOwnPropertyDescriptor(f,k);return e&&[e.value,e.writable,e.enumerable,e.configurable]};__p(q("name"),q("length"),typeof q("prototype"),Object.getPrototypeOf(f),Object.isExtensible(f),H(()=>(Reflect.construct(Object,[],f),1)));}else if(f!==null&&typeof f==="object"){__p(Object.getPrototypeOf(f),Object.isExtensible(f),Object.prototype.toString.call(f))}else if(typeof f!=="undefined")__p(f)}`;
    const F = d.pick(['D.value', 'D.value', 'D.get', 'D.set']);
    const call = (c) => `let D=Object.getOwnPropertyDescriptor(${ex},${k});let f=D.value;if(typeof f!=="function")f=${d.pick(['D.get', 'D.set', 'D.get'])};if(typeof f==="function"){${c}}`;
    const rx = ex.startsWith('String') || /^"(en|de)code/.test(k) || /^("(match|matchAll|search|RegExp)"|Symbol\.(match|matchAll|search))$/.test(k) || ex.startsWith('RegExp');
    const one = () => { const a = recv(d); return rx && /^(Object|Array|class|function|new Proxy|\(\)|\(\(\)=>\{\}\)\.bind\(\))/.test(a) ? '"b"' : a; };
    const args = () => d.list(0, 3, one);
    args.one = one;
    if (kind < 3) body = shape;
    else if (kind < 7) body = call(`let r=H(()=>Reflect.apply(f,${args.one()},[${args().join()}]));__p(${dt?'typeof ':''}${wrap})`);
    else if (kind < 8) body = call(`let r=H(()=>Reflect.construct(f,[${dt ? '86400000.5,' : ''}${args().join()}]${d.bool() ? ',' + d.pick(['Object', 'class X{}', 'Array', 'function(){}', 'f', /Array/.test(k) ? 'f' : 'new Proxy(f,{get(t,k){__p(k);return t[k]}})']) : ''}));__p(r)`);
    else body = `let D=Object.getOwnPropertyDescriptor(${ex},${k});let T=${ex};__p(H(()=>Reflect.${d.pick([`deleteProperty(T,${k})`, `set(T,${k},5)`, `defineProperty(T,${k},{value:7})`, `defineProperty(T,${k},{get(){return 8}})`, `defineProperty(T,${k},{enumerable:true})`, `defineProperty(T,${k},{writable:false})`, `defineProperty(T,${k},{configurable:false})`])}));let E=Object.getOwnPropertyDescriptor(T,${k});__p(E?[E.value===D.value,E.writable,E.enumerable,E.configurable,E.value===5,E.get===D.get]:0);__p(H(()=>{let r=delete T[${k}];return r}));if(D.configurable){__p(${k} in T);__p(H(()=>Reflect.defineProperty(T,${k},D)));__p(T[${k}]===D.value||!!D.get)}`;
    return { src: `__t(()=>{${CLEAN}${body}});`, nontrivial: (r) => r.act.out.length > 25 };
  },
};
