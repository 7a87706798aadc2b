// Random synchronous programs: statements, control flow, closures, exceptions.
import * as G from './gen.mjs';
export class Prog {
  constructor(d, o = {}) {
    this.d = d; this.k = 0; this.vars = ['a', 'b', 'c']; this.consts = []; this.fns = []; this.labels = []; this.loop = 0; this.sw = 0; this.fn = 0; this.arrow = 0; this.left = o.size || 30; this.feat = 0; this.gen = o.gen || 0; this.co = '';
  }
  id() { return this.k++; }
  nest(f) { const s = this.co; this.co = ''; const r = f(); this.co = s; return r; } // a function that cannot suspend its caller
  name(p = 'v') { return p + this.k++; }
  v() { return this.d.pick(this.vars); }
  lit() { const d = this.d; return d.freq([[5, () => G.numLit(G.int(d))], [2, () => G.q(d.pick(['', 'x', 'ab', '5', 'z']))], [1, () => d.pick(['true', 'false', 'null', 'undefined', 'NaN', '1.5'])]]); }
  e(dep = 3) {
    const d = this.d;
    if (dep <= 0) return d.freq([[3, () => this.v()], [3, () => this.lit()], [1, () => this.consts.length ? d.pick(this.consts) : this.v()]]);
    const x = () => this.e(dep - 1);
    if (this.co && d.bool(0.14)) return this.susp(dep, x);
    return d.freq([
      [6, () => this.v()], [4, () => this.lit()],
      [5, () => `(${x()} ${d.pick(['+', '-', '*', '%', '&', '|', '<', '>', '<=', '===', '!==', '==', '/'])} ${x()})`],
      [3, () => `(${x()} ${d.pick(['&&', '||', '??'])} ${x()})`],
      [2, () => `(${x()} ? ${x()} : ${x()})`],
      [2, () => `__l('e${this.id()}', ${x()})`],
      [2, () => `(${this.v()} ${d.pick(['=', '+=', '-=', '*=', '||=', '&&=', '??=', '|='])} ${x()})`],
      [1, () => d.pick([`${this.v()}++`, `++${this.v()}`, `${this.v()}--`, `--${this.v()}`]).replace(/^/, '(') + ')'],
      [1, () => `(${x()}, ${x()})`],
      [1, () => `[${d.list(0, 3, x).join(', ')}]`],
      [1, () => `[...[${d.list(0, 3, x).join(', ')}], ${x()}]`],
      [1, () => this.objlit(dep)],
      [1, () => `${this.objlit(dep)}${d.pick(['.p', '.q', '["p"]', '?.p', '?.q?.r', '?.["p"]', '.p?.q'])}`],
      [1, () => '`' + d.list(1, 3, () => d.pick(['x', '-', '']) + '${' + x() + '}').join('') + '`'],
      [1, () => 'tag`' + d.list(1, 3, () => d.pick(['x', '-\\n', '']) + '${' + x() + '}').join('') + '`'],
      [1, () => `${d.pick(['typeof', '!', '-', '+', 'void', '~'])} ${x()}`],
      [2, () => this.fns.length ? `${d.pick(this.fns)}(${d.list(0, 3, x).join(', ')})` : this.v()],
      [1, () => `(${this.closure(dep, x)})(${d.list(0, 2, x).join(', ')})`],
      [1, () => `id(${x()})${d.pick(['?.x', '?.[0]', '?.x.y', '?.()'])}`],
      [1, () => `[${d.list(1, 3, x).join(', ')}].${d.pick(['map', 'filter', 'forEach'])}((y, i) => ${this.nest(() => this.withv(['y', 'i'], () => this.e(dep - 1)))})`],
      [1, () => `new K(${d.list(0, 2, x).join(', ')}).${d.pick(['p', 'g', 'm()', 'm', 's = ' + x()])}`],
      [1, () => d.pick(['null.x', 'undefined()', 'nope', '(void 0).y', 'null[0]', '(() => { throw 7 })()', 'id(null).z', 'o.nope()', 'new (id(3))'])],
      [1, () => `o.${d.pick(['p', 'q', 'g'])}`],
      [1, () => `(o.${d.pick(['p', 'q', 's'])} ${d.pick(['=', '+=', '??=', '||=', '&&='])} ${x()})`],
      [1, () => `(o[__l('k${this.id()}', ${d.pick(["'p'", "'q'", "'g'", "'s'", '0'])})] ${d.pick(['=', '+=', '*='])} __l('r${this.id()}', ${x()}))`],
      [1, () => `o[__l('k${this.id()}', 'p')]${d.pick(['++', '--'])}`],
      [1, () => `delete o.${d.pick(['p', 'q', 'z'])}`],
      [1, () => `(${d.pick(["'p'", "'zz'", '0'])} in o)`],
      [1, () => `id(${d.list(1, 2, x).map((y) => d.bool() ? y : '...[' + y + ']').join(', ')})`],
    ]);
  }
  withv(vs, f) { const s = this.vars; this.vars = s.concat(vs); const r = f(); this.vars = s; return r; }
  objlit(dep) {
    const d = this.d, x = () => this.e(dep - 1);
    // V8 misplaces accessors, duplicates and computed keys that follow a spread: with a spread only distinct plain keys
    if (d.bool(0.2)) { const used = {}; return `({${d.list(1, 4, () => d.bool(0.4) ? `...${d.pick(['{p: 1}', 'null', '[1, 2]', '"xy"', 'o'])}` : (() => { const k = d.pick(['p', 'q', 'r', 's', 'p2']); if (used[k]) return '...null'; used[k] = 1; return `${k}: ${x()}`; })()).join(', ')}})`; }
    return `({${d.list(0, 4, () => d.freq([[4, () => `${d.pick(['p', 'q', 'r', '0', '"s"', '[`p`]', '["q" + 1]'])}: ${x()}`], [1, () => this.v()], [1, () => `get ${d.pick(['p', 'q'])}() { return __l('g${this.id()}', ${this.nest(x)}) }`], [1, () => `set ${d.pick(['p', 'q'])}(z) { __l('s${this.id()}', z) }`], [1, () => `p(z) { return ${this.nest(x)} }`], [1, () => `[__l('ck${this.id()}', 'p')]: ${x()}`]])).join(', ')}})`;
  }
  closure(dep, x0) {
    const d = this.d, x = () => this.nest(x0);
    return d.freq([
      [3, () => `(${d.pick(['', 'y', 'y = ' + x(), '...y'])}) => ${x()}`],
      [1, () => `function (y) { return ${x()} }`],
      [1, () => this.inFn(() => `(y) => { ${this.stmts(d.int(1, 2))} }`, true)],
    ]);
  }
  inFn(f) {
    const s = [this.loop, this.sw, this.labels, this.fn, this.vars, this.consts, this.co];
    this.co = ''; this.loop = 0; this.sw = 0; this.labels = []; this.fn = 1;
    const r = f();
    [this.loop, this.sw, this.labels, this.fn, this.vars, this.consts, this.co] = s;
    return r;
  }
  stmts(n) { let r = ''; const s = [this.vars, this.consts, this.fns]; for (let i = 0; i < n && this.left > 0; i++) r += this.s() + '\n'; [this.vars, this.consts, this.fns] = s; return r; }
  block(n) { return `{ ${this.stmts(n ?? this.d.int(1, 3))} }`; }
  lp(f) { this.loop++; const r = f(); this.loop--; return r; }
  abrupt() {
    const d = this.d, o = [[2, () => `throw ${this.e(1)};`]];
    if (this.loop) o.push([3, () => 'break;'], [3, () => 'continue;']);
    else if (this.sw) o.push([3, () => 'break;']);
    if (this.fn) o.push([3, () => `return ${this.co === 'async' || this.co === 'agen' ? this.aret() : this.e(1)};`]);
    for (const [l, isLoop] of this.labels) { o.push([2, () => `break ${l};`]); if (isLoop) o.push([2, () => `continue ${l};`]); }
    return d.freq(o);
  }
  s() {
    const d = this.d;
    this.left--;
    if (this.left <= 0) return `__l('z${this.id()}', ${this.v()});`;
    const x = (n = 2) => this.e(n);
    if (this.co && d.bool(0.2)) return this.costmt(x);
    return d.freq([
      [6, () => `__l('s${this.id()}', ${x(3)});`],
      [4, () => `${this.v()} = ${x(3)};`],
      [3, () => `if (${x()}) ${this.block()}${d.bool() ? ` else ${this.block()}` : ''}`],
      [3, () => { const i = this.name('i'); return `for (let ${i} = 0; ${i} < ${d.int(1, 4)} && S() ; ${i}++) ${this.withv([i], () => this.lp(() => `{ ${d.bool(0.4) ? `fs.push(() => ${d.pick([i, i + '++', `(${i} += 2)`])});` : ''} ${this.stmts(d.int(1, 3))} }`))}`; }],
      [2, () => { const i = this.name('x'); return `for (${d.pick(['const', 'let', 'var'])} ${i} of ${d.pick(['[1, 2, 3]', '"ab"', `[${x()}, ${x()}]`, 'new Set([1, 2])', 'it(3)', '[5, , 6]'])}) ${this.lp(() => `{ if (!S()) break; ${d.bool(0.3) ? `fs.push(() => ${i});` : ''} __l('f', ${i}); ${this.stmts(d.int(1, 3))} }`)}`; }],
      [1, () => { const i = this.name('x'); return `for (const ${i} in ${d.pick(['{p: 1, q: 2}', '[7, 8]', '"ab"', 'o', 'null', '5'])}) ${this.lp(() => `{ if (!S()) break; __l('f', ${i}); ${this.stmts(d.int(1, 2))} }`)}`; }],
      [1, () => `while (${x()} && S()) ${this.lp(() => this.block())}`],
      [1, () => `do ${this.lp(() => this.block())} while (S() && ${x()});`],
      [2, () => { const l = this.name('L'); const lp = d.bool(0.6); const sv = this.labels; this.labels = sv.concat([[l, lp]]); let r; if (lp) { const i = this.name('i'); r = `${l}: for (let ${i} = 0; ${i} < 3 && S(); ${i}++) ${this.withv([i], () => this.lp(() => this.block(d.int(1, 4))))}`; } else r = `${l}: ${this.block(d.int(1, 4))}`; this.labels = sv; return r; }],
      [3, () => `switch (${x()}) { ${this.cases(d, x)} }`],
      [5, () => this.tr()],
      [2, () => d.bool(0.5) ? `if (${x()}) ${this.abrupt()}` : this.abrupt()],
      [2, () => { const n = this.name(); const r = `${d.pick(['let', 'var', 'let'])} ${n} = ${x()};`; this.vars = this.vars.concat([n]); return r; }],
      [1, () => { const n = this.name('c'); const r = `const ${n} = ${x()};`; this.consts = this.consts.concat([n]); return r; }],
      [1, () => `{ let ${this.d.pick(['a', 'b'])} = ${this.lit()}; ${this.stmts(d.int(1, 3))} }`],
      [3, () => { const n = this.name('f'); const saveF = this.fns; const r = `function ${n}(y, z = ${this.nest(() => x(1))}) { if (!S()) return 0; ${this.inFn(() => this.withv(['y', 'z'], () => this.stmts(d.int(1, 4))))} return ${this.nest(() => this.withv(['y', 'z'], () => x(1)))} }`; this.fns = saveF.concat([n]); return r + ` __l('${n}', ${n}(${x(1)}));`; }],
      [1, () => `fs.push(${this.closure(2, () => x(1))});`],
      [1, () => { const n1 = this.name(), n2 = this.name(); const r = d.pick([`let [${n1}, ${n2} = ${x(1)}] = [${x(1)}];`, `let {p: ${n1}, q: ${n2} = ${x(1)}} = ${this.objlit(2)};`, `let [${n1}, ...${n2}] = [${x(1)}, ${x(1)}];`]); this.vars = this.vars.concat([n1, n2]); return r; }],
      [1, () => d.pick([`[a, b] = [b, a];`, `({p: a, q: o.q} = ${this.objlit(2)});`, `[o.p, ...b] = [1, ${x(1)}, 3];`, ';', '{}', 'if (0) ; else ;'])],
    ]);
  }
  cases(d, x) {
    this.sw++;
    const n = d.int(1, 4), def = d.bool(0.7) ? d.below(n + 1) : -1;
    let r = '';
    for (let i = 0; i <= n; i++) {
      if (i === def) r += `default: ${this.stmts(d.int(0, 2))} ${d.bool(0.5) ? 'break;' : ''} `;
      if (i < n) r += `case ${d.bool(0.7) ? this.lit() : x()}: ${this.stmts(d.int(0, 2))} ${d.bool(0.4) ? 'break;' : ''} `;
    }
    this.sw--;
    return r;
  }
  tr() {
    const d = this.d, k = d.int(0, 2);
    const body = `{ ${this.stmts(d.int(1, 3))} ${d.bool(0.6) ? this.abrupt() : ''} }`;
    const c = () => { const n = this.name('e'); const p = d.pick([n, n, '', `{name: ${n}}`, `[${n}]`]); return ` catch ${p ? `(${p})` : ''} { ${p === n ? `__l('catch', ${n}); if (${n} instanceof Error) ${n} = ${n}.name;` : `__l('catch', 0);`} ${p ? this.withv([n], () => this.stmts(d.int(0, 2))) : this.stmts(d.int(0, 2))} ${d.bool(0.3) ? this.abrupt() : ''} }`; };
    const f = () => ` finally { __l('fin${this.id()}', ${this.v()}); ${this.stmts(d.int(0, 2))} ${d.bool(0.25) ? this.abrupt() : ''} }`;
    return `try ${body}${k !== 1 ? c() : ''}${k >= 1 ? f() : ''}`;
  }
}
export const HEAD = `let a = 1, b = 'q', c = null, o = { p: 1, q: 'Q', get g() { return __l('getg', 5) }, set s(v) { __l('sets', v) } }; const fs = []; let steps = 0; function S() { return steps++ < 250 } function id(x) { return x } function tag(s, ...v) { return s.raw.join('|') + s.length + v.length + v.map(String) } class K { constructor(x) { this.p = x } get g() { return 'G' } set s(v) { __l('Ks', v) } m() { return this.p } } function* it(n) { try { for (let i = 0; i < n; i++) yield i } finally { __l('itclose', 0) } }\n`;
export const TAIL = `\n__p(a, b, c, o); for (const f of fs.slice(0, 20)) __t(f); __p(a, b, c);`;
