// Random generators, async functions and async generators.
import { Prog } from './prog.mjs';
export class Co extends Prog {
  constructor(d, o = {}) { super(d, o); this.gens = []; this.afs = []; this.ags = []; }
  // an instrumented iterator (sync)
  iopt(fl) { const d = this.d; return d.bool(0.5) ? '' : `, {${d.pick(fl)}: ${d.int(1, 3)}${d.bool(0.3) ? `, ${d.pick(fl)}: ${d.int(1, 2)}` : ''}}`; }
  it() { return `si('i${this.id()}', ${this.d.int(0, 4)}${this.iopt(['throwAt', 'nonObj', 'doneThrows', 'valueThrows', 'noReturn', 'returnThrows', 'returnNonObj', 'returnDone', 'noThrow', 'throwThrows', 'throwNonObj', 'throwDone', 'throwDone', 'prom', 'noIter'])})`; }
  ai() { return `ai('j${this.id()}', ${this.d.int(0, 4)}${this.iopt(['throwAt', 'nonObj', 'rejAt', 'doneThrows', 'valueThrows', 'noReturn', 'returnThrows', 'returnNonObj', 'returnDone', 'noThrow', 'throwThrows', 'throwNonObj', 'throwDone', 'thenable', 'plain', 'prom', 'noIter'])})`; }
  src() { const d = this.d; return d.freq([[5, () => this.it()], [3, () => `[${d.list(0, 3, () => this.lit()).join(', ')}]`], [2, () => this.gens.length ? `${d.pick(this.gens)}(${this.lit()})` : 'it(2)'], [2, () => 'it(3)'], [1, () => d.pick(["'ab'", 'new Set([1, 2])', '5', 'null', '{}', 'sh.next()', 'sh', 'sh'])]]); }
  asrc() {
    const d = this.d;
    return d.freq([[5, () => this.ai()], [3, () => this.it()], [2, () => `[${d.list(0, 3, () => this.aw()).join(', ')}]`], [2, () => this.ags.length ? `${d.pick(this.ags)}(${this.lit()})` : this.ai()], [1, () => this.gens.length ? `${d.pick(this.gens)}(${this.lit()})` : 'it(2)'], [1, () => d.pick(["'ab'", '5', 'null', 'new Set([P(1), 2])'])]]);
  }
  // an awaited value
  aw() {
    const d = this.d, i = this.id();
    return d.freq([
      [5, () => this.lit()], [5, () => `P(${d.int(0, 3)}, ${this.lit()})`], [3, () => `rej(${this.lit()})`], [2, () => `Promise.resolve(${d.bool() ? this.lit() : `P(1, ${this.lit()})`})`], [2, () => `th('t${i}', ${this.lit()})`], [1, () => `th('t${i}', P(1, ${this.lit()}))`],
      [2, () => this.afs.length ? `${d.pick(this.afs)}(${this.lit()})` : 'P(0)'], [1, () => `late(${d.int(0, 2)}, ${this.lit()})`], [1, () => `MP.resolve(${this.lit()})`], [1, () => d.pick([`thbad('t${i}', 0)`, `thbad('t${i}', 1)`, `thbad('t${i}', 2)`, `thbad('t${i}', 3)`, `thbad('t${i}', 4)`, `Promise.all([P(1), 2])`, `Promise.race([P(2, 'r2'), P(1, 'r1')])`, `Promise.allSettled([rej(1), 2])`, `Promise.any([rej(1), P(1, 3)])`, `new Promise(() => {})`, `P(1).then(() => { throw 'tt' })`, `P(1, 3).finally(() => __l('pf', 0))`, `rej(2).catch((x) => [x])`, `patched(${i})`])],
    ]);
  }
  aret() { return this.d.bool(0.4) ? this.aw() : this.e(1); }
  susp(dep, x) {
    const d = this.d;
    const y = () => d.freq([[2, () => '(yield)'], [6, () => `(yield ${this.co === 'agen' && d.bool(0.4) ? this.aw() : x()})`], [3, () => `(yield* ${this.co === 'agen' ? this.asrc() : this.src()})`], [1, () => `(${this.v()} = yield ${x()})`], [1, () => `__l('y${this.id()}', yield ${x()})`]]);
    const a = () => d.freq([[5, () => `(await ${this.aw()})`], [2, () => `(await ${x()})`], [1, () => `(await ${this.v()})`]]);
    return this.co === 'gen' ? y() : this.co === 'async' ? a() : d.bool(0.55) ? y() : a();
  }
  costmt(x) {
    const d = this.d, o = [[4, () => `__l('s${this.id()}', ${this.susp(1, () => this.e(1))});`], [2, () => `${this.v()} = ${this.susp(1, () => this.e(1))};`],
      [2, () => `try { ${this.susp(1, () => this.e(1))}; ${this.stmts(1)} } finally { __l('fin${this.id()}', ${d.bool(0.4) ? this.susp(1, () => this.e(1)) : 0}); ${d.bool(0.2) ? this.abrupt() : ''} }`],
      [1, () => { const n = this.name(), m = this.name(); const r = d.pick([`let [${n}, ${m} = ${this.susp(1, () => this.e(1))}] = ${this.susp(1, () => this.it())};`, `let {[${this.susp(1, () => "'p'")}]: ${n} = ${this.susp(1, () => this.e(1))}, ...${m}} = o;`]); this.vars = this.vars.concat([n, m]); return r; }],
      [1, () => `[o[${this.susp(1, () => "'p'")}], ${this.v()} = ${this.susp(1, () => this.e(1))}] = ${this.it()};`],
      [1, () => `switch (${x(1)}) { case ${this.susp(1, () => this.e(1))}: __l('c${this.id()}', 0); default: ${this.stmts(1)} }`],
      [1, () => `{ class X extends (${this.susp(1, () => 'K')}, K) { [${this.susp(1, () => "'p2'")}]() { return 1 } static [${this.susp(1, () => "'st'")}] = ${d.int(0, 9)} } __l('cls', X.st); }`],
      [1, () => `for (let w = ${this.susp(1, () => '0')}, n = 0; n++ < 3 && S() && (${this.susp(1, () => '1')}, true); ) ${this.lp(() => this.block(1))}`],
      [1, () => `id(...${this.src()}, ${this.susp(1, () => this.e(1))});`],
      [1, () => `fs.push(() => ${d.pick(['this', 'arguments.length', 'arguments[0]', this.v()])});`],
      [1, () => `__l('th', [typeof this, arguments.length, typeof arguments[0]]);`],
    ];
    if (this.co === 'gen' || this.co === 'agen') { o.push([2, () => `for (const e of ${this.src()}) { yield e; ${this.lp(() => this.stmts(1))} }`]); }
    if (this.co === 'gen') o.push([1, () => `${d.pick(['sh', 'cur'])}.${d.pick(['next(1)', 'return(2)', 'throw(3)', 'next()'])};`], [1, () => `__t(() => ${d.pick(['sh', 'cur'])}.${d.pick(['next(1)', 'return(2)', 'throw(3)', 'next()'])});`]);
    if (this.co !== 'gen') o.push([4, () => { const n = this.name('x'); return `for await (${d.pick(['const ', 'let ', 'var '])}${n} of ${this.asrc()}) ${this.lp(() => `{ if (!S()) break; __l('fa', ${n}); ${this.stmts(d.int(0, 2))} }`)}`; }], [1, () => `for await (${d.pick(['o.p', 'a', 'const [z9]', 'o.s', 'const {length}'])} of ${this.asrc()}) ${this.lp(() => this.block(1))}`]);
    return d.freq(o);
  }
  body(kind, n) {
    const s = [this.loop, this.sw, this.labels, this.fn, this.vars, this.consts, this.co];
    this.loop = 0; this.sw = 0; this.labels = []; this.fn = 1; this.co = kind;
    const r = this.stmts(n) + (this.d.bool(0.4) ? `return ${kind[0] === 'a' ? this.aret() : this.e(2)};` : '');
    [this.loop, this.sw, this.labels, this.fn, this.vars, this.consts, this.co] = s;
    return r;
  }
  // a declaration of a function of the kind; its name is added to the kind's list
  decl(kind, n = this.d.int(2, 5)) {
    const d = this.d, name = { gen: 'G', async: 'A', agen: 'H' }[kind] + this.id(), pre = { gen: '', async: 'async ', agen: 'async ' }[kind], st = kind === 'async' ? '' : '*';
    const par = d.pick(['x', 'x', 'x', 'x, y = __l("dp", 1)', '...r', '{length: x} = "abc"', '[x] = [1]', 'x = (() => { throw "PX" })()']);
    const uses = /\bx\b/.test(par) ? ['x'] : [];
    const b = this.withv(uses, () => `if (!S()) return 0; ${this.body(kind, n)}`);
    const f = `(${par}) { ${b} }`;
    const r = d.freq([
      [5, () => `${pre}function${st} ${name}${f}`], [1, () => `const ${name} = ${pre}function${st} ${f};`], [1, () => `const ${name} = ({ ${pre}${st}m${f} }).m;`], [1, () => `const ${name} = (class { static ${pre}${st}m${f} }).m;`], [1, () => `const ${name} = (y) => new (class { ${pre}${st}#m${f} t(x) { return this.#m(x) } })().t(y);`],
      [1, () => `const ${name} = (y) => ({ __proto__: { sm(x) { return [x, 'super'] } }, ${pre}${st}m(${par === '...r' ? '...r' : par}) { __l('sup', super.sm(1)); ${b} } }).m(y);`],
      [kind === 'async' ? 3 : 0, () => `const ${name} = async (${par}) => { ${b.replace(/\barguments\b/g, 'fs')} };`],
    ]);
    ({ gen: this.gens, async: this.afs, agen: this.ags })[kind].push(name);
    return r;
  }
}
export const COHEAD = `
const ipr = (tag, n, o, w) => { let i = 0; const L = (k, x) => __l(tag + '.' + k, x);
  const step = (k) => o.plain ? {done: k >= n, value: k} : { get done() { L('done', k >= n); if (o.doneThrows === k) throw 'DT'; return k >= n }, get value() { L('value', k); if (o.valueThrows === k) throw 'VT'; return o.prom ? (k === 1 ? rej(k) : P(1, k)) : k } };
  return { next(...a) { L('next', a); if (o.throwAt === i) throw 'N' + i; if (o.nonObj === i) return w(5); if (o.rejAt === i) return rej('R' + i++); return w(step(i++)) },
    get return() { L('get-return', 0); if (o.noReturn) return o.noReturn === 1 ? undefined : null; return (...a) => { L('return', a); if (o.returnThrows === 1) throw 'RT'; if (o.returnThrows) return w(rej('RR')); if (o.returnNonObj) return w(3); return w({ done: !o.returnDone, value: 'ret' + a[0] }) } },
    get throw() { L('get-throw', 0); if (o.noThrow) return undefined; return (...a) => { L('throw', a); if (o.throwThrows) throw 'TT'; if (o.throwNonObj) return w(undefined); return w({ done: !!o.throwDone, value: 'thr' }) } } } };
const si = (tag, n, o = {}) => { const i = ipr(tag, n, o, (x) => x); return o.noIter ? { [Symbol.iterator]() { return o.noIter } } : { [Symbol.iterator]() { __l(tag + '.iter', 0); return i } } };
const ai = (tag, n, o = {}) => { const i = ipr(tag, n, o, (x) => o.thenable ? th(tag, x) : o.plain === 2 ? x : Promise.resolve(x)); return { get [Symbol.asyncIterator]() { if (o.noIter === 2) return null; return () => { __l(tag + '.aiter', 0); return o.noIter === 1 ? 1 : i } }, [Symbol.iterator]() { return i } } };
const P = (n, v = n) => { let p = Promise.resolve(v); while (n-- > 0) p = p.then((x) => x); return p };
const rej = (x) => { const p = Promise.reject(x); p.catch(() => {}); return p };
const th = (t, v) => ({ get then() { __l(t + '.get-then', 0); return function (f, r) { __l(t + '.then', [typeof f, typeof r, this !== undefined]); f(v); f('again'); r('late') } } });
const thbad = (t, k) => ({ get then() { __l(t + '.bt', k); if (k === 0) throw 'GT'; if (k === 1) return 5; return (f, r) => { if (k === 2) throw 'CT'; if (k === 3) r('RJ'); if (k === 4) { f(1); throw 'ign' } } } });
const late = (n, v) => new Promise((f) => { P(n).then(() => f(v)) });
class MP extends Promise { static get [Symbol.species]() { __l('species', 0); return Promise } then(f, r) { __l('MP.then', [typeof f, typeof r]); return super.then(f, r) } }
const patched = (i) => { const p = P(1, 'pa' + i); Object.defineProperty(p, 'constructor', { get() { __l('ctor' + i, 0); return Promise } }); p.then = function (f, r) { __l('own then', 0); return Promise.prototype.then.call(this, f, r) }; return p };
`;
