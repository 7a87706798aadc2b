// The collector against itself: the same program with collections at chosen allocations and with none, repeated
// programs must not accumulate memory, and a freed runtime has returned everything.
import { Host } from '../lib/engine.mjs';
import { borrow } from './_pool.mjs';

let plain = null, fast = null;
const MEM = { src: '__out(String(__mem()))', mode: 0 };
const REPS = 7;
export default {
  rule: 'programs of the other properties and programs building garbage; each runs with a collection at every n-th allocation, or at every allocation of a window, and without any: outputs must be equal, and the freed runtime must have returned all memory; every fifth program runs seven times in new realms of one runtime and memory in use after a full collection must not keep growing; non-trivial: a collection schedule was applied to a program that printed something',
  batch: 8, count: { quick: 3200, thorough: 60000 }, flavor: 'asan', needs: ['fast'],
  close() { for (const h of [plain, fast]) if (h) h.kill(); plain = fast = null; },
  async custom(c, j) {
    const st = +/^\/\/GC (\d+)/.exec(c.src)[1];
    if (st === 0) {
      fast ||= new Host('fast');
      const cs = [];
      for (let k = 0; k < REPS; k++) cs.push(c, MEM);
      const r = await fast.run(cs, { realm: true });
      const last = r[r.length - 1];
      if (r.length < cs.length || last.status !== 'ok') return last.status === 'crash' ? { ok: false, exp: { status: 'ok', out: '' }, act: last } : { ok: null, exp: last, act: last };
      const m = r.filter((_, k) => k % 2).map((x) => parseInt(x.out)), df = m.slice(1).map((x, k) => x - m[k]);
      const bad = df.slice(2).every((x) => x > 0);
      return { ok: !bad, exp: { status: 'ok', out: 'memory in use stays' }, act: { status: 'ok', out: bad ? 'memory in use after each repetition: ' + m.join(' ') : 'memory in use stays' } };
    }
    plain ||= new Host('asan', j.prop.hostOpts);
    const o = { leak: true };
    const [e] = await plain.run([c], o);
    const [a] = await j.host.run([c], { ...o, stress: st });
    if (e.status === 'crash') return { ok: null, exp: e, act: e }; // (another property's business)
    if (e.out.includes('!memory not returned') && a.status !== 'crash') return { ok: false, exp: { status: e.status, out: e.out.replace('!memory not returned\n', '') }, act: e };
    if (a.status === 'hang') return { ok: null, exp: e, act: a };
    return { ...j.judge(c, e, a), exp: e, act: a };
  },
  gen(d) {
    let c;
    if (d.bool(0.15)) c = { src: garbage(d), mode: 0, from: 'garbage' }; else c = borrow(d);
    if (c.skip || c.src.length > 30000) return { src: '', skip: true };
    const st = d.freq([[1, () => 0], [2, () => d.pick([13, 29, 61, 97, 211])], [3, () => ((1 + d.below(1 << d.int(4, 13))) << 12 | d.int(20, 250)) >>> 0]]);
    if (st && /FinalizationRegistry|WeakRef/.test(c.src)) return { src: '', skip: true }; // collection is observable
    const src = Buffer.isBuffer(c.src) ? c.src.toString('utf8') : c.src;
    return { src: `//GC ${st}\n` + src, mode: c.mode, nontrivial: (r) => r.exp && r.exp.out.length > 10 };
  },
};

// Structures of every kind of heap object that refer to each other in cycles.
function garbage(d) {
  const n = d.int(2, 7), L = [];
  const V = () => 'v' + d.below(n);
  for (let i = 0; i < n; i++) L.push(`let v${i}=${d.pick(['{}', '[]', 'new Map', 'new Set', 'function(){}', 'Object.create(null)', 'new Error("e")', 'new WeakMap', 'new WeakSet', 'new Date(0)', '/x/g', 'new Proxy({},{})', 'class{#p=1;static s={}}', 'function*(){yield 1}', 'async()=>{}', 'Symbol("q")', 'new Uint8Array(9)', '(function(){return arguments})(1,2)', 'Promise.resolve({})', '(function*(){let z={};z.z=z;yield z;yield z})()', '(async function*(){yield {}})()', 'new ArrayBuffer(33)', '{__proto__:{}}', '(()=>{}).bind({})', '[1,2,3].values()', 'new Map([[1,{}]]).entries()', '"abc".matchAll(/./g)', 'Object(1n)', 'new WeakRef({})', 'new DataView(new ArrayBuffer(4))', 'eval("(function(){return v0})")', 'new Function("return {}")', '(x=>()=>x)({})', 'Reflect.construct(Array,[],class extends Object{})'])};`);
  const m = d.int(2, 14);
  for (let i = 0; i < m; i++) {
    const a = V(), b = V(), e = V();
    L.push('try{' + d.pick([
      `${a}.p${d.below(4)}=${b}`, `${a}[Symbol.for("k")]=${b}`, `${a}.set(${b},${e})`, `${a}.add(${b})`, `Object.setPrototypeOf(${a},${b})`, `Object.defineProperty(${a},"g",{get(){return ${b}},configurable:true})`, `${a}=new Proxy(${b},${e})`, `${a}.push(${b},${e})`, `Promise.resolve(${a}).then(()=>${b})`, `new Promise((r,j)=>{${a}.r=r})`, `${a}=[...${b}]`, `${a}=${b}.bind(${e})`, `${a}=(function*(){yield ${b};yield* [${e}]})();${a}.next()`, `(async()=>{await ${a};${b}.z=${e}})()`, `${a}=Object.assign({},${b})`, `${a}=structured`, `${a}.p0=${a}`, `delete ${a}.p0`, `${a}=Array.from({length:40},()=>${b})`, `${a}=new (class extends Map{#x=${b};y=()=>this.#x})`, `for(let q of [${b},${e}])(${a}.fs??=[]).push(()=>q)`, `eval("var t"+"=${b}")`, `${a}=\`\${${b}}\``, `throw ${b}`, `${a}=JSON.parse('{"a":[1,{"b":2}]}')`, `${a}=(t=>t)\`x\${1}\``, `${a}=Object.groupBy`, `${a}=new AggregateError([${b}],"m",{cause:${e}})`, `with({q:${b}}){${a}=()=>q}`, `${a}=import.meta`.slice(0, 0) + `${a}=new Set([${b},${e}]).values()`,
    ]) + '}catch(x){}');
  }
  return `(function(){${L.join('\n')}\n__out(typeof v0)})();`;
}
