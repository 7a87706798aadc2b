// Destructuring, spread, iteration protocols and closing.
import * as G from '../lib/gen.mjs';
const q = G.q;
// An instrumented iterable: every protocol step is logged.
const HEAD = `const it = (tag, n, o = {}) => {
  let i = 0; const L = (w, x) => __l(tag + '.' + w, x);
  const iter = {
    get next() { L('get-next', 0); if (o.noNext) return undefined; if (o.nextGet) throw 'NG'; return function (...a) { L('next', this === iter ? a : 'bad this'); if (o.throwAt === i) throw 'N' + i; if (o.nonObj === i) return 5; const k = i++;
      const r = { }; const done = k >= n;
      if (o.plain) { r.done = done; if (!done) r.value = k * 10; return r; }
      return { get done() { L('done', done); if (o.doneThrows === k) throw 'D' + k; return o.truthy ? (done ? 'yes' : '') : done }, get value() { L('value', k); if (o.valueThrows === k) throw 'V' + k; return o.nest ? it(tag + k, o.nest) : o.pair ? [k, k * 2] : o.undef ? undefined : k * 10 } }; } },
    get return() { L('get-return', 0); if (o.noReturn) return o.noReturn === 2 ? null : undefined; if (o.returnGet) throw 'RG'; if (o.badReturn) return 5; return function (...a) { L('return', this === iter ? a : 'bad this'); if (o.returnThrows) throw 'RT'; if (o.returnNonObj) return 7; return {} } },
    get throw() { L('get-throw', 0); return undefined },
  };
  return { get [Symbol.iterator]() { L('get-iter', 0); if (o.iterGet) throw 'IG'; if (o.iterNull) return null; return function () { L('iter', 0); if (o.iterThrows) throw 'IT'; if (o.iterNonObj) return 3; return iter } } };
};
let a, b, c, o = {get p() { return __l('o.p', 1) }, set p(v) { __l('o.p=', v) }, set bad(v) { __l('o.bad=', v); throw 'BAD' }, get dict() { return __l('o.dict', {}) }}, arr = [];
const thr = (x) => { __l('thr', x); throw 'T' + x }, k = (x) => ({ toString() { return __l('key', x) } });
`;
class P {
  constructor(d) { this.d = d; this.n = 0; }
  id() { return this.n++; }
  opts() {
    const d = this.d, o = {};
    if (d.bool(0.5)) return '';
    const f = d.pick(['noNext', 'nextGet', 'throwAt', 'nonObj', 'plain', 'doneThrows', 'truthy', 'valueThrows', 'nest', 'pair', 'undef', 'noReturn', 'returnGet', 'badReturn', 'returnThrows', 'returnNonObj', 'iterGet', 'iterNull', 'iterThrows', 'iterNonObj', 'plain', 'returnThrows', 'valueThrows', 'throwAt', 'undef', 'nest']);
    o[f] = ['throwAt', 'nonObj', 'doneThrows', 'valueThrows'].includes(f) ? d.int(0, 3) : f === 'nest' ? d.int(0, 3) : f === 'noReturn' ? d.int(1, 2) : 1;
    if (d.bool(0.3)) { const g = d.pick(['returnThrows', 'returnNonObj', 'noReturn', 'nest', 'undef', 'returnGet', 'badReturn']); o[g] = 1; }
    return ', ' + JSON.stringify(o).replace(/"/g, '');
  }
  iter() { const d = this.d, t = 'i' + this.id(); return `it('${t}', ${d.int(0, 4)}${this.opts()})`; }
  src() { const d = this.d; return d.freq([[8, () => this.iter()], [2, () => `[${d.list(0, 4, () => d.freq([[4, () => String(d.int(0, 9))], [1, () => ''], [1, () => 'undefined'], [1, () => this.iter()], [1, () => '[1, [2]]']])).join(', ')}]`], [1, () => `'${d.pick(['', 'ab', '\\u{1F600}x'])}'`], [1, () => d.pick(['5', 'null', 'undefined', '{}', 'new Map([[1, 2], [3, 4]])', 'new Set([1, 2])', '(function* () { try { yield 1; yield 2; yield 3 } finally { __l("gf", 0) } })()', '(function* () { try { yield 1 } finally { __l("gf", 0); throw "GF" } })()', '(function* () { __l("gs", 0); throw "GS" })()', 'new Uint8Array([5, 6])', 'arguments', '[1, 2, 3].entries()', '[].values()', '{length: 2, 0: 1, 1: 2}', 'Object.assign([1, 2], {[Symbol.iterator]: function* () { yield 8 }})'])]]).replace(/arguments/, '(function () { return arguments })(1, 2)'); }
  // V8 runs a getter twice for a rest target over a literal with a computed key: they are kept apart
  osrc() { const d = this.d; return d.freq([[5, () => `{${d.list(0, 4, () => d.pick(['x: 1', 'y: undefined', 'z: null', `get x() { return __l('gx${this.id()}', 2) }`, `get y() { ${d.pick(["throw 'GY'", "return __l('gy', undefined)"])} }`, `w: ${this.src()}`, `'a-b': 3`, '1: 7', `[Symbol.iterator]: 3`, 'x: {y: {z: 5}}', '__proto__: {pp: 1}'])).filter((x, i, a) => !x.startsWith('__proto__') || a.findIndex((y) => y.startsWith('__proto__')) === i).filter((x, i, a) => x[0] !== '[' || !a.some((y) => y.startsWith('get '))).join(', ')}}`], [1, () => `__px('px${this.id()}', {x: 1, y: undefined, w: [1, 2]})`], [1, () => d.pick(['null', 'undefined', '5', "'str'", '[1, 2, 3]', 'true', '() => 1', 'Symbol.iterator', 'new Proxy({x: 1}, {get() { throw "PX" }})'])]]); }
  dflt() { const d = this.d; return d.freq([[6, () => ''], [3, () => ` = __l('d${this.id()}', ${d.int(0, 9)})`], [1, () => ` = thr(${this.id()})`], [1, () => d.pick([' = () => 1', ' = function () {}', ' = class {}', ' = (0, () => 1)'])]]); }
  pkey() { const d = this.d; return d.freq([[5, () => d.pick(['x', 'y', 'z', 'w', "'a-b'", '1', 'pp', 'length'])], [2, () => `[k('${d.pick(['x', 'y', 'w'])}')]`], [1, () => `[thr(${this.id()})]`], [1, () => '[Symbol.iterator]']]); }
  // binding pattern; names are fresh
  bind(dep, names) { const d = this.d; return dep <= 0 || d.bool(0.45) ? this.bname(names) : d.bool(0.65) ? this.barr(dep - 1, names) : this.bobj(dep - 1, names); }
  bname(names) { const n = 'v' + this.id(); names.push(n); return n; }
  barr(dep, names) { const d = this.d, L = d.list(0, 4, () => d.freq([[6, () => this.bind(dep, names) + this.dflt()], [1, () => '']])); if (d.bool(0.25)) L.push('...' + this.bind(dep, names)); return `[${L.join(', ')}${L.length && L.at(-1) === '' ? ',' : ''}]`; }
  bobj(dep, names) { const d = this.d, L = d.list(0, 4, () => d.freq([[2, () => this.bname(names) + this.dflt()], [5, () => `${this.pkey()}: ${this.bind(dep, names)}${this.dflt()}`]])); if (d.bool(0.25)) L.push('...' + this.bname(names)); return `{${L.join(', ')}}`; }
  // assignment pattern
  tgt(dep) {
    const d = this.d;
    return d.freq([[5, () => d.pick(['a', 'b', 'c'])], [3, () => d.pick(['o.p', 'o.q', 'arr[0]', 'o.bad'])], [2, () => `o[__l('t${this.id()}', '${d.pick(['p', 'q'])}')]`], [1, () => `__l('to${this.id()}', o)[__l('tk${this.id()}', '${d.pick(['p', 'q'])}')]`], [1, () => `thr(${this.id()}).x`], [1, () => `o[thr(${this.id()})]`], [1, () => d.pick(['nope', 'konst', 'tdz', '(a)', '((o.q))', 'Math.PI'])], [dep > 0 ? 3 : 0, () => this.aarr(dep - 1)], [dep > 0 ? 2 : 0, () => this.aobj(dep - 1)]]);
  }
  aarr(dep) { const d = this.d, L = d.list(0, 4, () => d.freq([[7, () => this.tgt(dep) + this.dflt()], [1, () => '']])); if (d.bool(0.25)) L.push('...' + this.tgt(dep)); return `[${L.join(', ')}${L.length && L.at(-1) === '' ? ',' : ''}]`; }
  // V8 evaluates the first target before it checks the value for null: the first target is a plain name
  aobj(dep) { const d = this.d, L = d.list(0, 4, () => d.freq([[2, () => d.pick(['a', 'b', 'c']) + this.dflt()], [5, () => `${this.pkey()}: ${this.tgt(dep)}${this.dflt()}`]])); if (L.length && !/^[abc]\b/.test(L[0])) L.unshift('c'); if (d.bool(0.25)) L.push('...' + d.pick(!L.length ? ['a', 'b'] : ['a', 'b', 'o.p', 'o.q', 'arr[0]', `o[__l('rk${this.id()}', 'q')]`])); return `{${L.join(', ')}}`; }
  loopBody() { const d = this.d, t = this.id(); return d.freq([[5, () => `__l('b${t}', typeof e);`], [2, () => `if (n++ >= ${d.int(0, 2)}) break;`], [1, () => `if (n++ >= ${d.int(0, 2)}) continue;`], [1, () => `if (n++ >= ${d.int(0, 2)}) throw 'B${t}';`], [1, () => `if (n++ >= ${d.int(0, 2)}) return 'R${t}';`], [1, () => `try { if (n++ >= 1) break; } finally { __l('fin${t}', 0); ${d.pick(['', 'continue;', "throw 'F'", "return 'fr';", 'break;'])} }`], [1, () => `if (n++ >= 1) ${d.pick(['break', 'continue'])} outer;`], [1, () => `for (const e of ${this.iter()}) { if (n++ >= 2) ${d.pick(['break', 'continue outer', 'break outer', "throw 'IN'", "return 'ir'"])}; }`], [1, () => `yield_;`].slice(0, 0)].filter((x) => x.length)); }
  prog() {
    const d = this.d;
    return d.freq([
      [8, () => { const names = [], p = d.bool(0.6) ? this.barr(2, names) : this.bobj(2, names); const s = p[0] === '[' ? this.src() : this.osrc(); const w = `__p(${names.join(', ')});`; return d.freq([[4, () => `__t(() => { ${d.pick(['let', 'const', 'var'])} ${p} = ${s}; ${w} });`], [2, () => `__t(() => ((${p}) => { ${w} })(${s}));`], [1, () => `__t(() => ((${p} = ${s}) => { ${w} })());`], [1, () => `__t(() => { try { throw ${s[0] === '{' ? '(' + s + ')' : s} } catch (${p}) { ${w} } });`], [2, () => `__t(() => { for (${d.pick(['let', 'const', 'var'])} ${p} of [${s}, ${d.bool() ? '[]' : '{}'}]) { ${w} } });`], [1, () => `__t(() => { for (let ${p} = ${s}; ; ) { ${w} break; } });`], [1, () => `__t(() => { class C { m(${p}) { ${w} } } new C().m(${s}); });`], [1, () => `__t(() => (function (${p}, x${this.id()} = 1) { ${w} return arguments.length })(${s}));`], [1, () => `__t(() => { for (const ${p} in {ab: 1, c: 2}) { ${w} } });`]]); }],
      [8, () => { const ar = d.bool(0.65), p = ar ? this.aarr(2) : this.aobj(2), s = ar ? this.src() : this.osrc(); return d.freq([[6, () => `__t(() => (${p} = ${s}, 1)); __p(a, b, c, o.q, arr);`], [2, () => `__t(() => { for (${p} of [${s}]) __p(a, b, c); });`], [1, () => `__t(() => { for (${ar ? p : `[${this.tgt(0)}]`} in {ab: 1, cd: 2}) __p(a, b, c); });`], [1, () => `__t(() => { ${ar ? '' : '('}${p} = ${s}${ar ? '' : ')'}; return [a, b] });`], [1, () => `__t(() => [...function* () { yield ${p === '{}' ? '({})' : '1'}; (${p} = ${s}); yield 2 }()].length);`]]); }],
      [7, () => { const decl = d.freq([[4, () => `${d.pick(['let', 'const', 'var'])} e`], [1, () => 'a'], [1, () => 'o.p'], [1, () => 'o.bad'], [1, () => `thr(${this.id()}).x`], [1, () => `o[__l('ft', 'q')]`], [1, () => `const [e, f]`], [1, () => `let {e = 1}`]]); return `__t(() => { let n = 0; ${decl.includes('e') && /let|const|var/.test(decl) ? '' : 'let e;'} outer: for (let z = 0; z < 2; z++) { for (${decl} of ${this.src()}) { ${this.loopBody()} } __l('after', z); } return n });`; }],
      [4, () => `__t(() => [${d.list(1, 3, () => d.bool(0.7) ? '...' + this.src() : this.dflt().slice(3) || '1').join(', ')}].length);`],
      [3, () => `__t(() => ((...r) => r.length)(${d.list(1, 3, () => d.bool(0.7) ? '...' + this.src() : '1').join(', ')}));`],
      [2, () => `__t(() => ({${d.list(1, 3, () => '...' + (d.bool() ? `__px('sp${this.id()}', {x: 1, get y() { return __l('spy', 2) }})` : this.osrc())).join(', ')}}));`],
      [6, () => `__t(() => { const r = ${d.pick(['new Map(%)', 'new Set(%)', 'new WeakSet(%)', 'new WeakMap(%)', 'Array.from(%)', `Array.from(%, (x, i) => { __l('mf', i); if (i === 1) throw 'MF'; return x })`, 'Object.fromEntries(%)', 'new Uint8Array(%)', 'Promise.all(%)', 'Promise.race(%)', 'Uint8Array.from(%)', 'Array.from.call(function () { this.k = 1; Object.freeze(this) }, %)', 'Array.from.call(class { constructor() { throw "CTOR" } }, %)', 'new (class extends Set { add(v) { __l("add", v); if (this.size === 1) throw "ADD"; return super.add(v) } })(%)', 'new (class extends Map { get set() { __l("getset", 0); throw "GS" } })(%)', 'new (class extends Map { set(k, v) { __l("set", k); throw "S" } })(%)', 'new AggregateError(%)', 'Array.from.call(class { set length(v) { __l("len", v); throw "LEN" } }, %)', 'Math.max(...%)', 'String.raw({raw: "abc"}, ...%)', '[...(function* () { yield* % })()]', 'Promise.allSettled(%)', 'Promise.any(%)', 'Promise.all.call(class { constructor(f) { f(() => {}, () => {}) } static get resolve() { __l("gres", 0); throw "GR" } }, %)', 'Promise.all.call(class { constructor(f) { f((v) => __l("RES", 0), (e) => __l("REJ", e)) } static resolve(x) { __l("resolve", 0); throw "PR" } }, %)', 'Promise.race.call(class { constructor(f) { f((v) => __l("RES", 0), (e) => __l("REJ", e)) } static resolve(x) { return { then() { __l("then", 0); throw "TH" } } } }, %)']).replace('%', () => this.src())}; return typeof r === 'object' ? (r instanceof Promise ? (r.then(() => __l('ful', 0), (e) => __l('rej', typeof e)), 'P') : r.size ?? r.length ?? r.errors ?? Object.keys(r)) : r });`],
      [5, () => this.forin()],
      [4, () => this.gen()],
    ]);
  }
  forin() {
    const d = this.d, t = this.id();
    const obj = (keys = ['x', 'y', 'z', '2', '1', 'pp', '[Symbol("s")]', 'a0']) => `{${d.list(0, 4, () => `${d.pick(keys)}: ${d.int(0, 9)}`).join(', ')}}`;
    return d.freq([
      [4, () => `__t(() => { const p = ${obj()}, q = Object.setPrototypeOf(${obj()}, p); ${d.bool(0.4) ? `Object.defineProperty(q, '${d.pick(['x', 'y', 'n'])}', {value: 1, enumerable: ${d.bool(0.3)}, configurable: true});` : ''} for (${d.pick(['const', 'let', 'var'])} k in q) { __l('k', k); ${d.pick(['', 'if (k === "x") break;', 'if (k === "y") continue; __l("c", 0);'])} } });`],
      [3, () => `__t(() => { const p = ${obj(['p1', 'p2', '7', '8'])}, q = Object.setPrototypeOf(${obj()}, p); ${d.bool(0.4) ? `Object.defineProperty(q, '${d.pick(['x', 'y', 'n'])}', {value: 1, enumerable: ${d.bool(0.3)}, configurable: true});` : ''} for (${d.pick(['const', 'let', 'var'])} k in q) { __l('k', k); ${d.pick(['', `delete q.${d.pick(['x', 'y', 'z'])};`, `delete q[2]; delete p.${d.pick(['p1', 'p2'])};`, `Object.defineProperty(p, 'p3', {value: 1, enumerable: false, configurable: true});`, 'if (k === "x") break;', 'if (k === "y") continue; __l("c", 0);'])} } });`],
      [2, () => `__t(() => { for (const k in ${d.pick(['null', 'undefined', '5', "'ab'", 'true', '[7, , 8]', 'new Uint8Array(3)', 'Object.assign([1], {x: 2})', 'Symbol()', 'Object.create({u: 1}, {v: {value: 1}})', 'function f() {}', 'new String("xy")', 'class { static s = 1; static m() {} }', '(function (u, v) { return arguments })(1, 2, 3)', '/x/', 'new Error("m")', 'Object.create(null, {a: {value: 1, enumerable: true}})'])}) __l('k', k); });`],
      [1, () => `__t(() => { let r = []; for (var k${t} in {a: 1, b: 2}) { r.push(() => k${t}); } for (let k in {c: 1, d: 2}) { r.push(() => k); } return r.map((f) => f()) });`],
      [1, () => `__t(() => { for (${this.d.pick(['o.p', 'a', 'o[__l("fk", "q")]', 'arr[0]', '[a, b]', '{length: a}', 'o.bad', `thr(${t}).x`])} in {ab: 1, cde: 2}) __p(a, b, o.q); });`],
      [1, () => `__t(() => { for (const k in __l('e', 0), ${obj()}) { for (const j in ${obj()}) { if (j === 'y') break; __l(k, j); } } });`],
      [1, () => `__t(() => { let n = 0; outer: for (const e of ${this.iter()}) for (const k in {a: 1, b: 2}) { if (n++ > 1) ${d.pick(['break outer', 'continue outer', 'return n', "throw 'X'", 'break'])}; } return n });`],
    ]);
  }
  gen() {
    const d = this.d, ops = d.list(1, 5, () => d.freq([[6, () => `g.next(${d.int(0, 9)})`], [2, () => `g.return('r')`], [2, () => `g.throw('t')`]]));
    const names = [];
    const body = d.freq([
      [3, () => `for (const e of ${this.iter()}) { ${d.pick(['', 'try {'])} yield e; }`.replace(/try \{ yield e; \}$/, `try { yield e; } finally { __l('gfin', 0); } }`)],
      [3, () => { const p = this.barr(1, names).replace(/ = __l\('d\d+', (\d)\)/, (m, x) => ` = yield ${x}`); return `let ${p} = ${this.iter()}; yield [${names.join(', ')}];`; }],
      [2, () => `[a, ${d.pick(['b', 'o.p', 'o[yield 5]', '(yield 6).x', '...o[yield 7]'])}] = ${this.iter()}; yield 9;`],
      [2, () => `const r = [...${this.iter()}, yield 1, ...${this.iter()}]; yield r.length;`],
      [2, () => `f(${d.pick(['...', ''])}[yield 1], ...${this.iter()});`],
      [2, () => `for (const e of ${this.iter()}) { for (const f of ${this.iter()}) yield f; }`],
      [1, () => `const {[yield 'k']: z = yield 'd', ...rest} = {x: 1, y: 2}; yield [z, rest];`],
      [1, () => `for (const k in {a: 1, b: 2}) yield k;`],
      [1, () => `try { for (const e of ${this.iter()}) yield e; } catch (e) { yield 'C' + typeof e; } finally { yield 'F'; }`],
    ]);
    return `__t(() => { const f = (...x) => __l('f', x.length); const g = (function* () { ${body} return 'end' })(); ${ops.map((o) => `__t(() => ${o});`).join(' ')} });`;
  }
}
export default {
  rule: 'programs of destructuring bindings and assignments, for-of/for-in loops, spreads and iterable-consuming builtins over instrumented iterables whose protocol steps are logged and fail at random places, with random abrupt exits; compared with V8 (jobs included); non-trivial: at least 4 protocol steps are logged',
  batch: 20, realm: true, count: { quick: 10000, thorough: 700000 },
  gen(d) {
    const p = new P(d), L = d.list(1, 4, () => p.prog());
    return { src: `${HEAD}const konst = 1;\n${L.join('\n')}\nlet tdz = 0;`, nontrivial: (r) => (r.act.out.match(/\.(next|return|get-|done|value)|get|key/g) || []).length >= 4 };
  },
};
