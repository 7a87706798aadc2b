// Classes: elements, private names, inheritance, super.
import * as G from '../lib/gen.mjs';
const q = G.q;
const BASES = ['Array', 'Map', 'Object', 'Error', 'Promise', 'Uint8Array', 'Function', 'Boolean', 'String', 'Number', 'RegExp', 'Set', 'WeakMap', 'ArrayBuffer', 'DataView', 'TypeError', 'AggregateError', 'Symbol', 'BigInt'];
class P {
  constructor(d) { this.d = d; this.k = 0; this.left = 26; this.classes = []; this.priv = []; this.go = new Set; this.depth = 0; this.feat = 0; }
  id() { return this.k++; }
  lit() { const d = this.d; return d.freq([[5, () => String(d.int(0, 9))], [2, () => `'s${this.id()}'`], [1, () => d.pick(['undefined', 'null', 'true', '{z: 1}', '[1, 2]'])]]).replace(/^\{(.*)\}$/, '({$1})'); }
  key() { return this.d.pick(['p', 'q', 'm', 'n', 'v', 'w']); }
  pn() { return this.priv.length ? this.d.pick(this.priv) : null; }
  obj(c) { const d = this.d; return d.freq([[6, () => c.this ? 'this' : 'os[0]'], [2, () => `os[${d.int(0, 3)}]`], [1, () => this.classes.length ? d.pick(this.classes) : 'os[1]'], [1, () => d.pick(['o', '5', 'px(this)', 'px(os[0])', 'null', 'Object.create(this ?? null)'])]]); }
  // an expression; c: {this, sup, args, vars}
  x(c, n = 2) {
    const d = this.d;
    if (n <= 0 || this.left-- <= 0) return d.freq([[4, () => this.lit()], [2, () => `this.${this.key()}`], [2, () => { const p = this.pn(); return p ? `this.#${p}` : this.lit(); }]]);
    const x = () => this.x(c, n - 1), p = this.pn(), k = this.key(), cp = p && !this.go.has(p); // V8 does not call the getter of a setterless private accessor in a compound assignment
    const list = [
      [4, () => this.lit()], [4, () => `__l('x${this.id()}', ${x()})`], [3, () => `this.${k}`], [1, () => `(this.${k} ${d.pick(['=', '+=', '??=', '||=', '&&='])} ${x()})`],
      [1, () => `(() => ${x()})()`], [1, () => `[${x()}, ${x()}]`], [1, () => `this.${k}?.(${d.bool() ? x() : ''})`], [1, () => `(fs.push(() => ${x()}), 0)`],
      [1, () => `typeof ${x()}`], [1, () => `function () {}`].slice(0, 2), [1, () => `() => {}`], [1, () => d.pick(['new.target === void 0', 'new.target?.name'])].slice(0, 2), [1, () => c.noeval ? x() : `eval(${q(this.x({ ...c, noeval: 1 }, 1))})`],
      [1, () => `id(${x()})`], [1, () => `({${k}: ${x()}, f() { return ${this.x({ ...c, sup: true, call: false, obj: true }, n - 1)} }}).f()`],
      [1, () => `Object.getOwnPropertyNames(${this.obj(c)} ?? 0).filter((x) => !/^(stack|arguments|caller)$/.test(x)).sort()`],
    ];
    if (p) list.push(
      [6, () => `${this.obj(c)}.#${p}`], [3, () => `(${this.obj(c)}.#${p} ${cp ? d.pick(['=', '=', '+=', '??=', '||=', '&&=', '**=']) : '='} ${x()})`], [2, () => `(#${p} in ${this.obj(c)})`],
      [1, () => `(#${p} in ${x().replace(/^(\(?)\(\) => .*/, '0')})`], [cp ? 1 : 0, () => `${this.obj(c)}.#${p}++`], [cp ? 1 : 0, () => `--${this.obj(c)}.#${p}`], [1, () => `${this.obj(c)}?.#${p}`], [1, () => `${this.obj(c)}?.#${p}.${k}`],
      [2, () => `${this.obj(c)}.#${p}(${d.list(0, 2, x).join(', ')})`], [1, () => `${this.obj(c)}?.${k}?.#${p}`], [1, () => `${this.obj(c)}.#${p}?.(${d.bool() ? x() : ''})`], [1, () => `([${this.obj(c)}.#${p}] = [${x()}])`],
      [1, () => `({a: ${this.obj(c)}.#${p} = ${x()}} = {${d.pick(['a: 1', 'b: 2'])}})`], [1, () => `({...${this.obj(c)}.#${p}} = {a: 1, b: 2})`], [1, () => `${this.obj(c)}.#${p}\`t\``], [1, () => `new (${this.obj(c)}.#${p})(${x()})`],
      [1, () => `[${this.obj(c)}.#${p}?.name, ${this.obj(c)}.#${p}?.length]`], [1, () => `delete ${this.obj(c)}.#${p}.${k}`], [1, () => `${this.obj(c)}[__l('key', ${q('#' + p)})]`], [1, () => `(async () => { await 0; __t(() => ${this.obj(c)}.#${p}); }, 0)`],
      [1, () => `[...(function* () { yield ${this.obj(c)}.#${p}; }).call(${this.obj(c)})]`], [1, () => `${this.obj(c)}.#${p}.#${p}`],
    );
    if (c.sup) list.push(
      [3, () => `super.${k}`], [2, () => `super.${k}(${d.list(0, 2, x).join(', ')})`], [2, () => `(super.${k} ${d.pick(['=', '=', '+=', '??=', '||='])} ${x()})`], [1, () => `super[__l('sk${this.id()}', ${q(k)})]`],
      [1, () => `(super[__l('sk${this.id()}', ${q(k)})] ${d.pick(['=', '+=', '??='])} ${x()})`], [1, () => `super.${k}++`], [1, () => `super.${k}?.(${x()})`], [1, () => `super.${k}\`t\``], [1, () => `(() => super.${k})()`], [1, () => `([super.${k}] = [${x()}])`],
      [1, () => `({a: super.${k} = ${x()}} = {})`], [1, () => `delete super.${k}`], [1, () => `new super.${k}(${x()})`], [1, () => `super[${d.pick(['ok()', '(() => { throw 8 })()', 'Symbol.iterator', 'null'])}]`], [1, () => c.noeval ? `super.${k}` : `eval("super.${k}")`], [1, () => `super.toString === Object.prototype.toString`], [1, () => `super.constructor?.name`],
    );
    return d.freq(list);
  }
  stmt(c) {
    const d = this.d, x = () => this.x(c);
    const p = this.pn();
    return d.freq([
      [6, () => `__t(() => ${x()});`], [4, () => `__p(${x()});`], [1, () => `this.${this.key()} = ${x()};`], [1, () => `${x().replace(/^(\{|function|class|let|\[)/, '0, $1')};`],
      [1, () => p ? `for (this.#${p} of [${this.lit()}, 2]) __t(() => this.#${p});` : `for (this.${this.key()} of [1]);`],
      [1, () => p ? `for (this.#${p} in {a: 1, b: 2}) ;` : ';'], [1, () => `try { __p(${x()}); } catch (e) { __p(e?.name ?? e); } finally { __l('f${this.id()}') }`],
      [1, () => this.depth < 2 ? `{ ${this.cls()} }` : ';'],
      [1, () => `if (${x()}) __p(${x()});`],
    ]);
  }
  body(c, n = 3) { return 'tick(); ' + this.d.list(1, n, () => this.stmt(c)).join(' ') + (this.d.bool(0.5) ? ` return ${this.x(c)};` : ''); }
  ctor(derived, c) {
    const d = this.d, cc = { ...c, sup: true };
    const sup = () => d.freq([[5, () => `super(${d.bool(0.4) ? this.lit() : ''});`], [1, () => `super(...[${this.lit()}, ${this.lit()}]);`], [1, () => `(() => super())();`], [1, () => `eval("super()");`], [1, () => `try { super(); } finally { __l('sf') }`], [1, () => `const t = super(); __p(t === this);`], [1, () => `if (__l('cond', ${d.pick(['true', 'false'])})) super();`], [1, () => `for (const i of [1, 2]) __t(() => { super(i); return 1 });`], [1, () => `super(__t(() => this));`], [1, () => `super(() => this);`], [1, () => `__t(() => (super(), 1)); __t(() => (super(), 2));`], [1, () => `fs.push(() => super());`], [1, () => `super(super());`], [1, () => '']]);
    let s = `constructor(${d.pick(['', 'a', '...r', 'a = __l("da", 1)', 'a, b'])}) { `;
    if (derived && d.bool(0.3)) s += d.pick([`__t(() => this);`, `__t(() => this.p);`, `__t(() => super.p);`, `__l('c0');`, `__t(() => (super.p = 1));`, `__p(new.target?.name);`]) + ' ';
    if (derived) s += sup() + ' ';
    else if (d.bool(0.5)) s += `__p(new.target?.name); `;
    s += d.list(0, 2, () => this.stmt(cc)).join(' ');
    if (d.bool(0.2)) s += ` return ${d.pick(['{r: 1}', 'undefined', '5', 'null', 'os[0]', 'this', "'str'", 'Object.create(null)', 'o', 'function () {}', 'Symbol()'])};`;
    return s + ' }';
  }
  heritage() {
    const d = this.d;
    return d.freq([
      [6, () => ''], [8, () => this.classes.length ? d.pick(this.classes) : 'Base'], [4, () => 'Base'], [1, () => `__l('h${this.id()}', Base)`], [2, () => d.pick(BASES)], [1, () => 'null'], [2, () => d.pick(['Ret', 'Fn', 'px(Base)', 'Base.bind(null)', '(class { constructor() { return os[0] } })', '(class extends Base {})', '(0, Fn)', '(class { static p = 1; static m() { return [this.name, super.toString === Function.prototype.toString] } })'])],
      [1, () => d.pick(['5', 'undefined', '(() => {})', '(function* () {})', '(async () => {})', 'NoProto', 'BadProto', 'Self', '({})', '(void 0)', 'Math.max', 'Symbol', '(() => { throw 3 })()'])],
    ]);
  }
  cls(opt = {}) {
    const d = this.d, saved = this.priv, sgo = this.go, name = opt.name ?? (d.bool(0.15) ? '' : 'C' + this.id()), i = this.id();
    this.depth++;
    const own = {}, h = this.heritage(), badh = /bind|Proto|^5|undefined|=>|function|^\(\{|void|Math|Symbol|BigInt/.test(h) && !/class/.test(h); // V8 evaluates the keys before it checks the heritage
    const np = d.freq([[2, () => 0], [3, () => 1], [4, () => 2], [3, () => 3]]);
    for (let j = 0; j < np; j++) own['abcd'[j]] = { kind: d.pick(['field', 'field', 'method', 'acc', 'get', 'set', 'gen']), st: d.bool(0.3) };
    this.priv = [...saved.filter((x) => !own[x]), ...Object.keys(own), ...Object.keys(own)];
    this.go = new Set([...sgo].filter((x) => !own[x]).concat(Object.keys(own).filter((x) => own[x].kind === 'get')));
    const E = [], st = () => d.bool(0.3) ? 'static ' : '';
    const mc = { this: true, sup: true }, ck = (k) => d.bool(badh ? 0 : 0.2) ? `[__l('ck${this.id()}', ${q(k)})]` : d.bool(0.05) ? q(k) : k;
    const par = () => d.pick(['', 'a', 'a, b', 'a = 1', '...r', '{z}']);
    const init = () => d.bool(0.85) ? ' = ' + d.freq([[6, () => `__l('i${this.id()}', ${this.x({ this: true, sup: true, init: true })})`], [2, () => this.lit()], [1, () => d.pick(['function () {}', '() => {}', 'class { static toString() { return "KT" } }', '() => this', 'this', 'async () => {}', '(function () {})'])], [2, () => this.x({ this: true, sup: true, init: true })]]) : '';
    for (const [p, o] of Object.entries(own)) {
      const s = o.st ? 'static ' : '';
      if (o.kind === 'field') E.push(`${s}#${p}${init()};`);
      else if (o.kind === 'method') E.push(`${s}#${p}(${par().replace('{z}', '')}) { ${this.body(mc, 1)} }`);
      else if (o.kind === 'gen') E.push(`${s}*#${p}() { yield ${this.x(mc, 1)}; yield 2; }`);
      if (o.kind === 'get' || o.kind === 'acc') E.push(`${s}get #${p}() { ${this.body(mc, 1)} }`);
      if (o.kind === 'set' || o.kind === 'acc') E.push(`${s}set #${p}(v) { __l('set${p}', v); ${this.body(mc, 1)} }`);
    }
    const ne = d.int(1, 6);
    for (let j = 0; j < ne; j++) {
      E.push(d.freq([
        [6, () => `${st()}${ck(this.key())}(${par().replace('{z}', '')}) { ${this.body(mc)} }`],
        [6, () => `${st()}${ck(this.key())}${init()};`],
        [2, () => `${st()}get ${ck(this.key())}() { ${this.body(mc, 2)} }`],
        [2, () => `${st()}set ${ck(this.key())}(v) { __p(v); ${this.body(mc, 2)} }`],
        [3, () => `static { ${this.stmt(mc)} ${d.bool(0.3) ? this.stmt(mc) : ''} }`],
        [badh ? 0 : 1, () => `${st()}[__l('ck${this.id()}', ${d.pick(['1', 'Symbol.iterator', '({toString() { return __l("ts", "q") }})', '"prototype"', '"constructor"', '"name"', '1n', 'null', '(() => { throw 4 })()'])})]() { return 1 }`],
        [1, () => `${d.pick(['static name', 'static length', "'constructor2'", 'get', 'set', 'static', 'async', 'static static', 'static async', 'static get', 'accessor', 'of', 'await'])}${d.bool() ? init() + ';' : '() { return 2 }'}`],
        [1, () => ';'],
      ]));
    }
    // V8 misorders computed accessors redefined under the same name
    const parse = E.map((e) => /^(static )?((?:get|set) )?(?:\[__l\('ck\d+', '(\w)'\)\]|'(\w)'|(\w)\b)(?! *\w)/.exec(e)), grp = {};
    parse.forEach((m) => { if (m) { const g = grp[(m[1] ?? '') + (m[3] ?? m[4] ?? m[5])] ??= { n: 0, acc: 0 }; g.n++; if (m[2]) g.acc++; } });
    parse.forEach((m, j) => { if (m && m[3]) { const g = grp[(m[1] ?? '') + m[3]]; if (g.n > 1 && g.acc) E[j] = E[j].replace(/\[__l\('ck\d+', '(\w)'\)\]/, '$1'); } });
    // shuffle
    for (let j = E.length - 1; j > 0; j--) { const t = d.below(j + 1); [E[j], E[t]] = [E[t], E[j]]; }
    if (d.bool(0.55)) E.splice(d.below(E.length + 1), 0, this.ctor(!!h, mc));
    this.priv = saved; this.go = sgo; this.depth--;
    const kw = `class${name ? ' ' + name : ''}${h ? ' extends ' + h.replace('Self', name || '(class {})') : ''} {\n${E.join('\n')} }`;
    if (opt.raw) return kw;
    if (opt.top) return d.bool(0.2) || !name ? `const ${opt.top} = ${name || d.bool() ? kw : kw};` : kw.replace(/^class \w+/, 'class ' + opt.top);
    return name && d.bool(0.5) ? `__t(() => { ${kw} return new ${name}; });` : `__t(() => (new ${kw}, 1));`;
  }
}
const PRE = `let fuel = 150; const tick = () => { if (fuel-- < 0) throw 'fuel' }; let os = [], fs = [], ok = () => ({toString() { return __l('tk', 'p') }}), o = {p: 'op', q: 'oq'}, id = (x) => x, n = 0;
const px = (x) => { try { return new Proxy(x, {}) } catch { return x } };
class Base { constructor(...a) { __l('Base', a); if (a[0] === 's1') return o; } p = __l('bf', 'bp'); get v() { return __l('bgv', typeof this) } set v(x) { __l('bsv', x) } m(...a) { return ['bm', a.length, this === os[0]] } static m() { return ['sbm', this?.name] } static get w() { return __l('sgw', 1) } n() { return this.q } }
function Fn() { __l('Fn', new.target === undefined); if (this) this.p = 'fp' } Fn.prototype.m = function () { return 'fm' }; Fn.prototype.w = 5; Fn.m = () => 'sfm';
class Ret { constructor(x) { return x ?? os[0] ?? {ret: 1} } }
const NoProto = (() => {}).bind(), BadProto = function () {}.bind(); BadProto.prototype = 3;
`;
function program(d) {
  const p = new P(d), L = [];
  const nc = d.freq([[5, () => 1], [4, () => 2], [1, () => 3]]);
  for (let i = 0; i < nc; i++) {
    const n = 'K' + i;
    L.push(p.cls({ top: n }));
    p.classes.push(n);
    p.left = 20;
  }
  const T = (s) => `__t(() => ${s});`, K = () => d.pick(p.classes);
  for (const c of p.classes) L.push(`__t(() => { os.push(new ${c}(${d.list(0, 2, () => p.lit()).join(', ')})); return os.at(-1) });`);
  for (let i = d.int(3, 10); i > 0; i--) {
    const k = p.key(), O = `os[${d.int(0, nc)}]`, c = K();
    L.push(d.freq([
      [6, () => T(`${O}.${k}(${d.list(0, 2, () => p.lit()).join(', ')})`)], [3, () => T(`${O}.${k}`)], [2, () => T(`${O}.${k} = ${p.lit()}`)], [4, () => T(`${c}.${k}${d.pick(['', '()', ' = 1', '.name', '?.(1)'])}`)],
      [2, () => T(`os.push(new ${c}(${d.list(0, 2, () => p.lit()).join(', ')}))`)], [1, () => T(`${c}.prototype.${k}.call(${d.pick(['os[0] ?? o', 'os[1] ?? o', 'o', '5', c])})`)],
      [/Error/.test(L.join()) ? 0 : 1, () => T(`Reflect.construct(${c}, [], ${d.pick(['Fn', 'Base', K(), 'Array', 'px(Base)'])})`)], [1, () => T(`${c}()`)], [1, () => T(`Object.setPrototypeOf(${c}, ${d.pick(['Base', 'Fn', 'null', 'Ret', 'o'])}) && 1`)],
      [/Error/.test(L.join()) ? 0 : 1, () => T(`Object.setPrototypeOf(${c}.prototype, ${d.pick(['Base.prototype', 'Fn.prototype', 'null', 'o'])}) && 1`)], [1, () => `__p(${/\[__l/.test(L.join()) ? '' : '...'}[Reflect.ownKeys(${c}).filter((k) => k !== 'arguments' && k !== 'caller'), Reflect.ownKeys(${c}.prototype ?? 0 ?? [])]${/\[__l/.test(L.join()) ? '.map((a) => a.map(String).sort())' : ''});`.replace('?? 0 ?? []', '?? {}')],
      [1, () => `__p(Object.getOwnPropertyDescriptor(${c}.prototype ?? {}, ${q(k)}), Object.getOwnPropertyDescriptor(${c}, ${q(k)}));`], [1, () => T(`[${O} instanceof ${c}, ${O}.constructor === ${c}, ${O}.constructor.name]`)], [1, () => `__p(${c}.name, ${c}.length, typeof ${c}, Object.getOwnPropertyDescriptor(${c}, 'prototype').writable);`],
      [1, () => T(`Object.freeze(${O}) && 1`)], [1, () => T(`new (class extends ${c} { constructor() { super(); __p(this === os[0]); } })`)], [1, () => T(`new (class extends ${c} { p = 1; #z = 2; z() { return this.#z } }).z()`)], [2, () => T(`fs.${d.pick(['pop', 'shift'])}()?.()`)],
      [1, () => T(`(0, ${O}.${k}).call(o)`)], [1, () => T(`Object.assign({}, ${O})`)], [1, () => T(`({__proto__: ${O}}).${k}${d.pick(['', '()'])}`)], [1, () => T(`px(${O}).${k}${d.pick(['', '()'])}`)],
    ]));
  }
  L.push(`for (const f of fs.splice(0, 8)) __t(f);`, `__p(os.length); for (const x of os.slice(0, 4)) __t(() => typeof x === 'function' ? x.name : [x?.p, x?.q, x?.m?.name, Object.keys(Object(x))]);`);
  return `${d.bool(0.15) ? '"use strict"; ' : ''}${PRE}${L.join('\n')}`;
}
export default {
  rule: 'programs of 1–3 classes (nested classes inside) with fields, methods, accessors, generators, static blocks, computed keys, private members of every kind, heritage of every kind, super property and super() forms, followed by histories of up to 10 construct/call/get/set/reprototype operations; compared with V8; non-trivial: more than 150 characters are printed',
  batch: 20, realm: true, safeRef: true,
  // V8 hits its own stack limit
  tolerate: (c, e) => /E:RangeError/.test(e.out), count: { quick: 7000, thorough: 600000 },
  gen(d) { return { src: program(d), nontrivial: (r) => r.act.out.length > 150 }; },
};
