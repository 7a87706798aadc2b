import * as G from '../lib/gen.mjs';
const N = ['a', 'b', 'c'];
class P {
  constructor(d) { this.d = d; this.k = 0; this.left = d.int(6, 34); this.sc = [{ fn: true, lex: new Set(), vars: new Set(), fns: new Set() }]; this.strict = false; this.inEval = 0; this.q = "'"; this.global = false; }
  id() { return this.k++; }
  n() { const r = this.d.pick(N); return this.map ? this.map(r) : r; }
  top() { return this.sc[this.sc.length - 1]; }
  canLex(x) { const t = this.top(); return (!this.glob && this.d.bool(0.02)) || !(t.lex.has(x) || t.vars.has(x) || t.fns.has(x) || (t.params && t.params.has(x)) || (t.catchp && t.catchp.has(x))); }
  canVar(x) {
    const force = !this.glob && this.d.bool(0.02);
    for (let i = this.sc.length - 1; i >= 0; i--) { const s = this.sc[i]; if (s.catchp && s.catchp.has(x)) return false; if (!force && (s.lex.has(x) || (!s.fn && s.fns.has(x)))) return false; if (s.fn) break; }
    return true;
  }
  addVar(x) { for (let i = this.sc.length - 1; i >= 0; i--) { const s = this.sc[i]; s.vars.add(x); if (s.fn) break; } }
  val() { return this.d.freq([[3, () => String(this.d.int(0, 9))], [1, () => `'s${this.id()}'`.replace(/'/g, this.q)], [1, () => this.n()], [1, () => `typeof ${this.n()}`], [1, () => `(${this.n()}, ${this.n()})`]]); }
  acc() {
    const d = this.d, x = this.n(), t = `${this.id()}`;
    return d.freq([
      [6, () => `try { __l(${t}, ${x}) } catch (e) { __l(${t}, e) }`],
      [3, () => `try { __l(${t}, ${x} = ${this.val()}) } catch (e) { __l(${t}, e) }`],
      [2, () => `__l(${t}, typeof ${x});`],
      [2, () => `try { __l(${t}, ${x}${d.pick(['++', '--', ' += 1', ' ??= 5', ' ||= 6', ' &&= 7'])}) } catch (e) { __l(${t}, e) }`],
      [2, () => `fs.push(() => ${d.pick([x, `${x} = ${this.val()}`, `typeof ${x}`, `${x}++`])});`],
      [2, () => `__t(() => ${d.pick([x, `${x} = ${this.val()}`, `typeof ${x}`])});`],
      [1, () => this.strict ? ';' : `__l(${t}, delete ${x});`],
      [1, () => `try { __l(${t}, ${x}()) } catch (e) { __l(${t}, e) }`],
      [1, () => this.inEval ? ';' : `try { [${x}, ${this.n()}] = [${this.val()}, ${this.val()}] } catch (e) { __l(${t}, e) }`],
    ]);
  }
  block(o = {}) { this.sc.push({ fn: false, lex: new Set(), vars: new Set(), fns: new Set(), ...o }); const r = this.stmts(this.d.int(1, 4)); this.sc.pop(); return `{ ${r} }`; }
  func(params) {
    const st = this.strict, ie = this.inEval, q = this.q, g = this.global, m = this.map;
    this.global = false;
    let dir = '';
    if (!st && !this.inEval && this.d.bool(0.1) && !params.complex) { dir = '"use strict"; '; this.strict = true; }
    this.sc.push({ fn: true, lex: new Set(), vars: new Set(), fns: new Set(), params: new Set(params) });
    const r = `{ ${dir}if (cnt++ > 60) return 0; ${this.stmts(this.d.int(1, 4))} ${this.d.bool(0.5) ? `return ${this.val()};` : ''} }`;
    this.sc.pop();
    this.strict = st; this.global = g;
    return r;
  }
  params() {
    const d = this.d, used = [], out = [];
    let complex = false;
    for (let i = d.int(0, 2); i > 0; i--) {
      const x = this.n();
      if (used.includes(x)) continue;
      used.push(x);
      const k = d.int(0, 5);
      if (k < 3) out.push(x);
      else if (k === 3) { complex = true; out.push(`${x} = ${d.pick([this.val(), `__l(${this.id()}, typeof ${this.n()})`, `(() => ${this.n()})`])}`); }
      else if (k === 4) { complex = true; out.push(`{ ${x} } = { ${x}: ${this.val()} }`); }
      else { complex = true; out.push(`[${x}] = [${this.val()}]`); }
    }
    used.complex = complex;
    return [used, out.join(', ')];
  }
  call() { const d = this.d; return `(${d.list(0, 2, () => this.val()).join(', ')})`; }
  tcall(f) { const t = this.id(); return `try { __l(${t}, ${f}) } catch (e) { __l(${t}, e) }`; }
  s() {
    const d = this.d, x = this.n();
    this.left--;
    if (this.left < 0) return this.acc();
    return d.freq([
      [10, () => this.acc()],
      [3, () => { if (!this.canVar(x)) return this.acc(); this.addVar(x); return d.bool(0.7) ? `var ${x} = ${this.val()};` : `var ${x};`; }],
      [4, () => { if (!this.canLex(x)) return this.acc(); this.top().lex.add(x); return d.pick([() => `let ${x} = ${this.val()};`, () => `let ${x};`, () => `${this.glob && this.sc.length === 1 ? 'let' : 'const'} ${x} = ${this.val()};`, () => `class ${x} { static toString() { return ${this.q}K${this.q} } static m() { return ${d.pick([x, this.n()])} } }`, () => `let [${x}] = [${this.val()}];`])(); }],
      [3, () => {
        // a function declaration (in a block only in strict code: Annex B.3.3 is outside of the property)
        const t = this.top();
        if (!t.fn && !this.strict) return this.acc();
        if (t.fn && !this.global) { if (t.lex.has(x)) return this.acc(); } else if (t.lex.has(x) || t.vars.has(x) || t.fns.has(x) || (t.catchp && t.catchp.has(x))) return this.acc();
        if (t.fn && (t.lex.has(x))) return this.acc();
        t.fns.add(x);
        const [u, ps] = this.params();
        return `function ${x}(${ps}) ${this.func(u)}`;
      }],
      [3, () => this.block()],
      [1, () => `if (${d.pick(['1', '0', this.val()])}) ${this.block()} else ${this.block()}`],
      [2, () => { const [u, ps] = this.params(); return this.tcall(`(function ${d.bool(0.4) ? this.n() : ''}(${ps}) ${this.func(u)})${this.call()}`); }],
      [1, () => { const [u, ps] = this.params(); return this.tcall(`((${ps}) => ${this.func(u)})${this.call()}`); }],
      [2, () => { // loop with closures
        if (d.bool(0.5)) { this.sc.push({ fn: false, lex: new Set([x]), vars: new Set(), fns: new Set() }); const r = `for (${d.pick(['let', 'let', 'const'])} ${x} of [1, 2]) ${this.block()}`; this.sc.pop(); return r; }
        this.sc.push({ fn: false, lex: new Set([x]), vars: new Set(), fns: new Set() }); const r = `for (let ${x} = 0, g = 0; g < 2; g++${d.bool() ? `, ${x}++` : ''}) ${this.block()}`; this.sc.pop(); return r; }],
      [1, () => { if (!this.canVar(x)) return this.acc(); this.addVar(x); return `for (var ${x} of [1, 2]) ${this.block()}`; }],
      [2, () => { const p = d.int(0, 2), b = this.block(); const cb = this.block(p === 0 ? { catchp: new Set([x]) } : p === 1 ? { catchp: new Set([x]), cpat: new Set([x]) } : {}); return `try ${b.slice(0, -1)} throw ${d.pick(['5', `[6]`, this.val()])} } catch ${p === 0 ? `(${x})` : p === 1 ? `([${x}])` : ''} ${p === 0 ? `{ if (${x} instanceof Error) ${x} = ${x}.name; ${cb.slice(1)}` : cb}${d.bool(0.2) ? ' finally ' + this.block() : ''}`; }],
      [2, () => { if (this.strict) return this.acc(); return `with (${d.pick([`{ ${x}: ${this.val()} }`, `o`, `new Proxy({ ${x}: 1 }, {})`, `{ get ${x}() { return __l(${this.id()}, 3) }, set ${x}(v) { __l(${this.id()}, v) } }`, `{ ${x}: 4, [Symbol.unscopables]: { ${x}: ${d.pick(['true', 'false'])} } }`])}) ${this.block()}`; }],
      [3, () => { // direct or indirect eval
        if (this.inEval >= 1) return this.acc();
        const dir = d.bool(0.75), st = this.strict, q = this.q, sc = this.sc, g = this.global;
        const es = !st && d.bool(0.2);
        this.inEval++;
        this.q = '"';
        if (!dir || es || st) this.sc = [{ fn: true, lex: new Set(), vars: new Set(), fns: new Set() }];
        else this.sc = this.sc.concat([{ fn: false, lex: new Set(), vars: new Set(), fns: new Set(), evl: 1 }]);
        this.strict = dir ? st || es : es;
        this.global = false;
        const body = this.stmts(d.int(1, 3));
        this.inEval--; this.q = q; this.sc = sc; this.strict = st; this.global = g;
        return this.tcall(`${dir ? 'eval' : '(0, eval)'}(${G.q((es ? '"use strict"; ' : '') + body + ' ' + this.n())})`);
      }],
      [1, () => d.pick([`o.${x} = ${this.val()};`, `delete o.${x};`, `__l(${this.id()}, o);`])],
      [1, () => `switch (${d.int(0, 2)}) { case 0: ${this.acc()} ${(() => { const t = { fn: false, lex: new Set(), vars: new Set(), fns: new Set() }; this.sc.push(t); const r = this.stmts(2) + ' case 1: ' + this.stmts(1) + ' default: ' + this.stmts(1); this.sc.pop(); return r; })()} }`],
      [1, () => this.tcall(`(new Function(${G.q(x)}, ${G.q('return typeof ' + this.n() + ' + typeof ' + x)}))${this.call()}`)],
      [1, () => this.tcall(`new (class { ${d.pick(['', 'static '])}[${this.n()}] = ${this.n()}; static s = (() => ${this.n()})(); })`)],
    ]);
  }
  stmts(n) { let r = ''; for (let i = 0; i < n; i++) { r += this.s() + ' '; } return r; }
}
const HEAD = `let cnt = 0; const fs = []; const o = { a: 'oa' }; const hp = { get(t, k, r) { __out('get ' + String(k)); return Reflect.get(t, k, r) }, set(t, k, v, r) { __out('set ' + k); return Reflect.set(t, k, v, r) } };`;
export default {
  rule: 'programs declaring, reading, assigning, deleting and capturing three names over nested scopes of every kind, direct and indirect eval, with, and several global scripts; non-trivial: at least 5 trace lines and at least one scope nested in another',
  batch: 25,
  count: { quick: 14000, thorough: 200000 },
  strip: (s) => s.replace(HEAD, 'HEAD '),
  gen(d) {
    const p = new P(d);
    const kind = d.freq([[6, () => 'fn'], [3, () => 'global'], [1, () => 'block']]);
    let src;
    const nt = (r) => r.act.out.split('\n').length > 5;
    if (kind === 'global') {
      const u = d.below(1 << 28).toString(36);
      p.map = (x) => x + '_' + u;
      let parts = [];
      for (let i = d.int(1, 4); i > 0; i--) {
        p.global = true; p.inEval = 1; p.q = '"';
        p.left = d.int(3, 12);
        // names of earlier scripts are only redeclared compatibly, or by a script that is one declaration: an
        // instantiation that fails declares nothing, which V8 does not follow
        p.glob = true;
        const g = (p.gsc ??= { fn: true, lex: new Set(), vars: new Set(), fns: new Set() });
        if (i < 3 && d.bool(0.15)) { const x = p.n(); let k = d.int(0, 3); if (k < 2 && g.vars.has(x)) k = 2; /* V8 forgets the var names of configurable properties */ (k < 2 ? g.lex : k === 2 ? g.vars : g.fns).add(x); parts.push([`let ${x} = 5`, `class ${x} { static toString() { return 3 } }`, `var ${x}`, `function ${x}() {}`][k]); continue; }
        p.sc = [p.gsc ??= { fn: true, lex: new Set(), vars: new Set(), fns: new Set() }];
        p.strict = d.bool(0.15);
        parts.push((p.strict ? '"use strict"; ' : '') + p.stmts(d.int(1, 5)));
      }
      const probe = N.map((x) => `__t(() => Object.getOwnPropertyDescriptor(globalThis, '${x}_${u}'));`).join(' ');
      src = `globalThis.cnt = 0; globalThis.fs = []; globalThis.o = {}; ${HEAD.replace(/let cnt.*?const hp/, 'globalThis.hp')} ${parts.map((x) => `__t(() => __evalscript(${G.q(x)})); ${probe}`).join('\n')} for (const f of fs.slice(0, 12)) __t(f);`;
    } else {
      p.strict = d.bool(0.25);
      if (kind === 'block' && !p.strict) p.sc[0].fn = false;
      const body = p.stmts(d.int(3, 9));
      src = kind === 'fn' ? `(function () { ${p.strict ? '"use strict"; ' : ''}${HEAD} (function () { ${body} })(); for (const f of fs.slice(0, 20)) __t(f); })()` : `{ ${HEAD} ${p.strict ? `(() => { "use strict"; ${body} })();` : `{ ${body} }`} for (const f of fs.slice(0, 20)) __t(f); }`;
    }
    return { src, nontrivial: nt };
  },
};
