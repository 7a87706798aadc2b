// Async generators and for-await.
import { HEAD } from '../lib/prog.mjs';
import { COHEAD } from '../lib/co.mjs';
import { P as Base, PHEAD } from './L07.mjs';
class P extends Base {
  op(h) {
    const d = this.d, v = () => d.bool(0.7) ? this.lit() : this.aw(), w = (s) => d.bool(0.3) ? `P(${d.int(0, 4)}).then(() => push(() => ${s}));` : `push(() => ${s});`;
    return d.freq([
      [10, () => w(`${h}.next(${v()})`)], [4, () => w(`${h}.return(SV(${v()}))`)], [4, () => w(`${h}.throw(${v()})`)],
      [2, () => `push(() => (async () => { for await (const e of ${h}) { __l('fe', e); ${d.pick(['', 'break;', "throw 'FE';", 'if (e) return e;'])} } })());`], [2, () => `push(() => { const r = []; return (async () => { try { while (true) { const {value, done} = await ${h}.${d.pick(['next(1)', 'next()', 'next(2)'])}; r.push(value); if (done || r.length > 6) break; } } catch (e) { r.push(['c', see(e)]) } return r })() });`],
      [1, () => `push(() => Promise.all([${h}.next(1), ${h}.next(2), ${h}.${d.pick(['return(3)', 'throw(3)', 'next(3)'])}]));`], [1, () => `push(() => (async function* () { const r = yield* ${h}; __l('rr', r); return r })().${d.pick(['next(1)', 'next()'])});`],
      [1, () => `push(() => Object.getPrototypeOf(${h}).${d.pick(['next', 'return', 'throw'])}.call(${d.pick(['5', '{}', 'undefined', h, '(function* () {})()', 'Object.create(' + h + ')'])}, 1));`], [1, () => `__t(() => Object.prototype.toString.call(${h}) + (${h}[Symbol.asyncIterator]() === ${h}) + typeof ${h}[Symbol.iterator]);`],
    ]);
  }
  misc() {
    const d = this.d, H = d.pick(this.ags);
    return d.freq([
      [1, () => `__t(() => new ${H}());`], [1, () => `__t(() => { ${H}.prototype = ${d.pick(['null', '5', '{z: 1}'])}; const g = ${H}(1); return [g.z, Object.getPrototypeOf(g) === ${H}.prototype, typeof g.next] });`],
      [1, () => `push(() => (async () => { const r = []; try { for await (const [x, y = 'd'] of ${this.asrc()}) { r.push(x, y); if (r.length > 5) break } } catch (e) { r.push(see(e)) } return r })());`],
      [1, () => `push(() => (async () => { let n = 0; outer: for (const q of [1, 2]) for await (const e of ${this.asrc()}) { __l('oe', e); if (n++ > 4) break; ${d.pick(['continue outer;', 'break outer;', 'if (n > 1) return n;', "try { break } finally { await P(1); __l('bf', 0) }", "await null;", "if (n === 2) throw 'X';"])} } return n })());`],
      [1, () => `push(() => { const AGF = Object.getPrototypeOf(async function* () {}).constructor; const g = AGF('a', ${d.pick(["'yield a; return await 3'", "'yield* [a, Promise.resolve(2)]'", "'for await (const x of [a, 2]) yield x'"])})(1); return Promise.all([g.next(), g.next(), g.next(), g.next()]) });`],
      [2, () => `push(() => { const g = (async function* () { ${d.pick(['try { yield 1; yield 2 } finally { __l("f", 0); await P(2); __l("f2", 0) }', 'yield rej(1); yield 2', 'return rej(3)', 'try { yield rej(1) } catch (e) { yield ["c", e] } finally { yield "fy" }', 'yield th("tt", P(2, 9))', 'const x = yield; const y = yield x; return [x, y]', 'await P(3); yield 1', 'yield* (async function* () { try { yield 1; yield 2 } finally { __l("inf", 0); yield "inner" } })()', 'try { yield* [rej(1), 2] } catch (e) { yield ["c", e] }'])} })(); return Promise.allSettled([g.next('n0'), ${d.list(1, 4, () => d.pick([`g.next('n')`, `g.return('r')`, `g.return(P(1, 'rp'))`, `g.return(SV(rej('rr')))`, `g.throw('t')`, `g.throw(P(1))`, `g.return(th('rt', 1))`])).join(', ')}]) });`],
      [1, () => this.pstmt()],
    ]);
  }
}
export default {
  rule: 'programs of random async generators (yield, yield*, await, for await in every context, over logged sync and async iterators that fail or misbehave) driven by overlapping queued next/return/throw requests and for-await loops; all jobs are run and the logs compared with V8; non-trivial: at least 3 requests settle',
  batch: 20, realm: true, count: { quick: 8000, thorough: 600000 },
  gen(d) {
    const p = new P(d, { size: d.int(8, 40) }), L = [], hs = [];
    for (let i = d.int(0, 1); i > 0; i--) { L.push(p.decl(d.pick(['async', 'gen']), 2)); p.left = Math.max(p.left, 12); }
    for (let i = d.int(1, 2); i > 0; i--) { L.push(p.decl('agen')); p.left = Math.max(p.left, 12); }
    for (let i = d.int(1, 2); i > 0; i--) { const h = 'h' + hs.length; hs.push(h); L.push(`let ${h}; __t(() => { ${h} = ${d.pick(p.ags)}(${d.list(0, 3, () => p.lit()).join(', ')}); });`); }
    for (let i = d.int(2, 9); i > 0; i--) L.push(d.bool(0.15) ? p.misc() : p.op(d.pick(hs)));
    // V8 does not unwrap return requests that arrive during yield* (AsyncGeneratorUnwrapYieldResumption).
    let body = L.join('\n'), sv = '';
    if (body.includes('yield*')) sv = "const SV = (x) => Object(x) === x && 'then' in x ? 'sv' : x;\n"; else body = body.replaceAll('SV(', '(');
    return { src: HEAD + COHEAD + PHEAD + sv + '/*==*/\n' + body + '\n__l("sync", 0); P(12).then(() => { __p(a, b, c, o); for (const f of fs.slice(0, 20)) __t(f); });', nontrivial: (r) => new Set(r.act.out.match(/^(ok|no)\d+/gm) || []).size >= 3 };
  },
};
