// Promises, jobs and async functions.
import { HEAD } from '../lib/prog.mjs';
import { Co, COHEAD } from '../lib/co.mjs';
export class P extends Co {
  // promise graph statements: promises are in ps[], handlers log
  pr() { const d = this.d; return d.freq([[6, () => `ps[${d.int(0, 5)}]`], [4, () => this.aw()], [2, () => this.afs.length ? `${d.pick(this.afs)}(${this.lit()})` : this.aw()]]); }
  h() { const d = this.d, i = this.id(); return d.freq([[6, () => `(x) => __l('h${i}', x)`], [2, () => `(x) => { __l('h${i}', x); throw ${this.lit()} }`], [3, () => `(x) => (__l('h${i}', x), ${this.pr()})`], [1, () => d.pick(['undefined', 'null', '5', '{}'])], [1, () => `async (x) => { __l('a${i}', x); await ${this.aw()}; __l('b${i}', x); return ${this.pr()} }`], [1, () => `function () { __l('n${i}', arguments.length); return ${this.pr()} }`]]); }
  ctor() { const d = this.d; return d.pick(['Promise', 'Promise', 'Promise', 'Promise', 'MP', 'MP', 'NP', 'BP', 'class extends Promise {}', 'class extends Promise { static resolve(x) { __l("cr", 0); return super.resolve(x) } }', 'class extends Promise { constructor(e) { super((f, r) => { __l("ex", 0); e((v) => { __l("ful", v); f(v) }, (v) => { __l("rej", v); r(v) }) }) } }', 'Object', '5', 'function (e) { e((x) => __l("f", x), (x) => __l("r", x)); return {then: 1} }', 'function (e) { e(1, () => {}) }', 'function (e) { e(undefined, () => {}); e(() => {}, () => {}) }', 'function (e) { e(() => {}, () => {}); e(() => {}, () => {}) }', 'function (e) { throw "CE" }']); }
  list() { const d = this.d; return d.freq([[6, () => `[${d.list(0, 4, () => this.pr()).join(', ')}]`], [2, () => this.it()], [1, () => `new Set([${this.pr()}, ${this.lit()}])`], [1, () => d.pick(['5', 'undefined', "'ab'", '{}'])]]); }
  pstmt() {
    const d = this.d, i = this.id();
    return d.freq([
      [6, () => `push(() => ${this.pr()}.then(${d.list(0, 2, () => this.h()).join(', ')}));`], [2, () => `push(() => ${this.pr()}.catch(${this.h()}));`], [3, () => `push(() => ${this.pr()}.finally(${this.h()}));`],
      [3, () => `push(() => new Promise((f, r) => { ${d.list(1, 3, () => d.pick([`f(${this.pr()});`, `r(${this.lit()});`, `fns.push(f);`, `fns.push(r);`, `throw ${this.lit()};`, `P(1).then(() => f(${this.lit()}));`])).join(' ')} }));`],
      [2, () => `__t(() => fns.shift()?.(${this.pr()}));`], [2, () => `P(${d.int(0, 4)}).then(() => __t(() => fns.shift()?.(${this.pr()})));`],
      [4, () => `push(() => ${d.pick(['Promise', 'Promise', 'Promise', 'MP', 'NP', 'BP'])}.${d.pick(['all', 'all', 'race', 'any', 'allSettled'])}(${this.list()}));`], [2, () => `push(() => Promise.${d.pick(['all', 'race', 'any', 'allSettled', 'resolve', 'reject'])}.call(${this.ctor()}, ${d.bool(0.7) ? this.list() : this.pr()}));`],
      [2, () => `push(() => ${d.pick(['Promise', 'MP', 'NP'])}.${d.pick(['resolve', 'reject'])}(${this.pr()}));`], [1, () => `push(() => { const p = ${this.pr()}; p.constructor = ${d.pick(['undefined', 'MP', 'NP', '{[Symbol.species]: NP}', '{[Symbol.species]: null}', '{[Symbol.species]: 5}', '5', 'null', '{}'])}; return p.then(${this.h()}) });`],
      [4, () => `push(() => (async () => { ${this.body('async', d.int(1, 3)).replace(/\barguments\b/g, 'fs')} })());`], [4, () => this.afs.length ? `push(() => ${d.pick(this.afs)}(${d.list(0, 2, () => this.lit()).join(', ')}));` : ';'],
      [2, () => `(async () => { for (let i = 0; i < ${d.int(1, 5)}; i++) { __l('tick${i}', i); await ${d.bool(0.6) ? 'i' : this.aw()}; } })().catch((e) => __l('tr${i}', e));`], [1, () => `push(() => { const s = Promise.prototype.then; Promise.prototype.then = function (f, r) { __l('pthen', this === ps[0]); return s.call(this, f, r) }; try { return ${d.pick(['Promise.all', 'Promise.race', 'Promise.resolve', 'Promise.any', 'Promise.allSettled', '(async (x) => { await x[0] })'])}(${this.list()}) } finally { Promise.prototype.then = s } });`],
      [1, () => `push(() => { const s = Promise.resolve; Promise.resolve = ${d.pick(['5', '(x) => { __l("pres", 0); return s.call(Promise, x) }', 'function () { throw "PR" }', '(x) => ({then(f, r) { __l("pr.then", [typeof f, typeof r]); f(1); f(2); r(3) }})'])}; try { return Promise.${d.pick(['all', 'race', 'any', 'allSettled'])}(${this.list()}) } finally { Promise.resolve = s } });`],
      [1, () => `__t(() => { const p = Promise.resolve(1), f = Promise.prototype.${d.pick(['then', 'catch', 'finally'])}; return f.call(${d.pick(['5', 'undefined', '{}', '{then(...a) { __l("ot", a.length); return 9 }}', '{then: 5}', 'p', 'Object.create(p)', 'new Proxy(p, {})', '{then(...a) { return a.map((x) => typeof x) }, constructor: NP}'])}, ${d.pick(['(x) => x', 'undefined', '5'])}, 3) });`],
      [1, () => `push(() => { const e = Promise.all.call(function (ex) { ex((v) => { __l('res', v) }, (v) => { __l('rejd', v) }) ; this.k = 1 }, ${this.list()}); return e });`],
      [1, () => `push(() => { let again; const t = {then(f, r) { again = f; f(${this.lit()}); f(2); __l('n', 0) }}; return Promise.${d.pick(['all', 'allSettled', 'any', 'race'])}.call(function (ex) { ex((v) => __l('R', v), (v) => __l('J', v?.errors ?? v)) }.prototype.constructor, [${this.pr()}]) });`],
      [1, () => `__t(() => new Promise(${d.pick(['', '5', 'undefined', '() => { throw 1 }', 'function (f, r) { __l("ar", [f.length, r.length, f.name, typeof f.prototype, arguments.length, this === undefined || this === globalThis]); f(f) }'])}));`], [1, () => `__t(() => Promise(() => {}));`],
      [1, () => `push(() => { const q = new Promise((f) => P(1).then(() => f(q))); return q });`], [1, () => `push(() => { const p = P(1, 2).then(() => p); return p });`],
      [1, () => this.s()],
    ]);
  }
}
export const PHEAD = `class NP { constructor(e) { __l('NP', typeof e); this.p = new Promise(e) } then(f, r) { __l('NP.then', [typeof f, typeof r]); return this.p.then(f, r) } static resolve(x) { __l('NP.res', 0); return new NP((f) => f(x)) } }
class BP { constructor(e) { let done = 0; e((x) => { __l('BP.f', done++); return x }, (x) => { __l('BP.r', done++); return x }) } then(f, r) { __l('BP.then', [typeof f, typeof r]); f('bp1'); if (f) f('bp2'); return 'bpt' } static resolve(x) { return new BP(() => {}) } }
const ps = [P(0), P(1), rej(2), late(2, 3), P(2, 4), rej(5)], fns = [];
const see = (x, i) => { if (x === null || typeof x !== 'object') return x; if (x instanceof AggregateError) return ['AE', x.errors]; if (x instanceof Error) return x.name; return x };
const push = (f) => { const i = ps.length; let p; try { p = f() } catch (e) { __l('sync' + i, see(e)); ps.push(P(0)); return } ps.push(p instanceof Promise ? p : P(0)); if (p instanceof Promise) Promise.prototype.then.call(p, (v) => __l('ok' + i, see(v)), (e) => __l('no' + i, see(e))); else __l('np' + i, typeof p) };
`;
export default {
  rule: 'programs of random promise graphs (then/catch/finally, executors, combinators, thenables, subclasses, species, patched methods) and async functions with await in every statement and expression context, whose reactions log; all jobs are run and the interleaved logs compared with V8; non-trivial: at least 3 reactions of different promises are logged',
  batch: 20, realm: true, count: { quick: 8000, thorough: 600000 },
  gen(d) {
    const p = new P(d, { size: d.int(8, 40) }), L = [];
    for (let i = d.int(0, 2); i > 0; i--) { L.push(p.decl('async')); p.left = Math.max(p.left, 12); }
    for (let i = d.int(2, 8); i > 0; i--) L.push(p.pstmt());
    return { src: HEAD + COHEAD + PHEAD + '/*==*/\n' + L.join('\n') + '\n__l("sync", 0); P(12).then(() => { __p(a, b, c, o); for (const f of fs.slice(0, 20)) __t(f); });', nontrivial: (r) => new Set(r.act.out.match(/^(ok|no)\d+/gm) || []).size >= 3 };
  },
};
