// Generators.
import { HEAD } from '../lib/prog.mjs';
import { Co, COHEAD } from '../lib/co.mjs';
const SH = `let sh = (function* (n) { try { while (n-- > 0) __l('shv', yield n) } catch (e) { __l('shc', e); yield 'C' } finally { __l('shf', 0) } return 'SH' })(4), cur = sh;\n`;
class P extends Co {
  op(g) {
    const d = this.d, v = this.lit();
    return d.freq([
      [12, () => `__t(() => ${g}.next(${v}));`], [4, () => `__t(() => ${g}.return(${v}));`], [4, () => `__t(() => ${g}.throw(${v}));`], [1, () => `__t(() => ${g}.next());`],
      [1, () => `__t(() => [...${g}]);`], [1, () => `__t(() => { for (const e of ${g}) { __l('fo', e); ${d.pick(['', 'break;', "throw 'FO';", 'if (e) break;'])} } });`], [1, () => `__t(() => { const [p, q] = ${g}; return [p, q] });`],
      [1, () => `__t(() => { const [p, ...q] = ${g}; return [p, q] });`], [1, () => `__t(() => Object.prototype.toString.call(${g}) + (${g}[Symbol.iterator]() === ${g}));`],
      [1, () => `__t(() => Object.getPrototypeOf(${g}).next.call(${d.pick(['sh', '{}', '5', g, 'undefined', '[][Symbol.iterator]()', 'g0'])}, 1));`], [1, () => `cur = ${g};`], [1, () => `__t(() => sh.next(1));`], [1, () => `__t(() => Array.from(${g}, (x) => x));`],
      [1, () => `__t(() => { const h = (function* () { const r = yield* ${g}; __l('rr', r); return r })(); return [h.next(1), h.${d.pick(['next(2)', 'return(2)', 'throw(2)'])}, h.next(3)] });`], [1, () => `__t(() => (${g}.next = () => { __l('own', 0); return {done: true} }, 1));`],
      [1, () => `__t(() => new Map(${g}).size);`], [1, () => `__t(() => Math.max(...${g}));`],
    ]);
  }
  misc() {
    const d = this.d, G = d.pick(this.gens);
    return d.freq([
      [2, () => `__t(() => new ${G}());`], [2, () => `__t(() => { ${G}.prototype = ${d.pick(['null', '5', '{z: 1}', 'undefined'])}; const g = ${G}(1); return [g.z, Object.getPrototypeOf(g) === ${G}.prototype, typeof g.next] });`], [2, () => `__t(() => Object.getPrototypeOf(${G}(1)) === ${G}.prototype);`],
      [1, () => `__t(() => [${G}.hasOwnProperty('caller'), ${G}.prototype?.hasOwnProperty('constructor'), Object.getOwnPropertyDescriptor(${G}, 'prototype')]);`], [1, () => `__t(() => { function* g(a, b) { a = 5; yield arguments[0]; arguments[1] = 7; yield b } return [...g(1, 2)] });`], [1, () => `__t(() => { function* g(a) { 'use strict'; a = 5; yield arguments[0]; yield this } return [...g.call(3, 1)] });`],
      [1, () => `__t(() => { const g = function* self() { yield typeof self; try { self = 1 } catch { yield 'c' } } ; return [...g()] });`], [1, () => `__t(() => { function* g() { const f = () => this.q; yield f() } return [...g.call({q: 3})] });`], [1, () => `__t(() => { function* g() { yield eval("1 + 1"); eval("var ev = 3"); yield ev; yield new.target } return [...g()] });`],
      [1, () => `__t(() => { let r = []; function* g() { for (let i = 0; i < 3; i++) { r.push(() => i); yield i; i += 0 } } for (const x of g()) r.push(() => x); return r.map((f) => f()) });`],
      [1, () => `__t(() => { function* f() { yield* f2() } function* f2() { const x = yield 1; yield [x]; return 9 } const h = f(); return [h.next(), h.next(5), h.next(), h.next()] });`], [1, () => `__t(() => { var yield_ = 1; function* g() { yield\n${this.lit()}; yield /re/g.source; yield [yield, yield]; yield {a: yield}; return \`\${yield}\${yield 1}\` } return [...g()] });`],
      [1, () => `__t(() => { with ({w: 1}) { var g = (function* () { yield w; w = 2; yield w })(); } return [...g] });`], [1, () => `__t(() => { var r = []; var g; g = (function* () { try { g.next() } catch (e) { yield e instanceof TypeError } try { g.return() } catch (e) { yield e instanceof TypeError } yield* g })(); for (let i = 0; i < 4; i++) __t(() => g.next()); });`],
      [1, () => `__t(() => { const GF = Object.getPrototypeOf(function* () {}).constructor; const g = GF('a', 'b = 2', ${d.pick(["'yield a; yield b; return a + b'", "'for (;;) if ((yield a++) === b) break'", "'yield* [a, b]'"])})(1); return [g.next(), g.next(2), g.next(2), g.next()] });`],
      [1, () => `__t(() => { let n = 0; for (const x of (function* () { try { while (true) yield n++ } finally { __l('cl', n); ${d.pick(['', 'return 5', "throw 'cl'", 'yield 1', 'yield* [1, 2]'])} } })()) { if (x > ${d.int(0, 3)}) ${d.pick(['break', "throw 'lp'", 'return n'])} } });`],
    ]);
  }
}
export default {
  rule: 'programs of random generator functions (yield and yield* in every expression and statement context, over logged iterators with missing, failing or misbehaving next/return/throw methods) driven by random sequences of next/return/throw/spread/loops, reentrantly and by delegation; compared with V8; non-trivial: a generator was resumed after a suspension',
  batch: 20, realm: true, count: { quick: 8000, thorough: 600000 },
  gen(d) {
    const p = new P(d, { size: d.int(8, 40) }), L = [], ng = d.int(1, 3);
    for (let i = 0; i < ng; i++) { L.push(p.decl('gen')); p.left = Math.max(p.left, 12); }
    const gs = [];
    for (let i = d.int(1, 3); i > 0; i--) { const g = 'g' + gs.length; gs.push(g); L.push(`let ${g}; __t(() => { ${g} = ${d.pick(p.gens)}${d.bool(0.2) ? `.call(${d.pick(['5', 'null', 'o'])}, ${p.lit()})` : `(${d.list(0, 3, () => p.lit()).join(', ')})`}; cur = ${g}; });`); }
    for (let i = d.int(3, 12); i > 0; i--) L.push(d.bool(0.08) ? p.misc() : p.op(d.pick(gs)));
    if (d.bool(0.3)) L.push(p.misc());
    return { src: HEAD + COHEAD + SH + '/*==*/\n' + L.join('\n') + '\n__p(a, b, c, o); for (const f of fs.slice(0, 20)) __t(f);', nontrivial: (r) => (r.act.out.match(/value:/g) || []).length >= 2 };
  },
};
