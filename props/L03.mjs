// Function calls, parameters, arguments objects.
import * as G from '../lib/gen.mjs';
import TAIL from './_tailcall.mjs';
const q = G.q;
const T = (x) => `__t(() => ${x});`;
class P {
  constructor(d) { this.d = d; this.k = 0; }
  id() { return this.k++; }
  val() { const d = this.d; return d.freq([[5, () => String(d.int(0, 9))], [2, () => `'s${this.id()}'`], [1, () => d.pick(['undefined', 'null', 'true', '{z: 1}', '[1]', 'NaN'])]]); }
  args(n) { return this.d.list(0, n ?? 4, () => this.d.freq([[8, () => this.val()], [1, () => `...[${this.d.list(0, 3, () => this.val()).join(', ')}]`]])).join(', '); }
}
// --- histories of an arguments object
function argHistory(d) {
  const p = new P(d), strict = d.bool(0.25), kind = d.freq([[5, 'simple'], [1, 'dup'], [1, 'default'], [1, 'rest'], [1, 'pattern']]);
  const np = d.int(0, 3), names = ['a', 'b', 'c'].slice(0, np);
  let params = names.join(', ');
  if (kind === 'dup' && np > 1 && !strict) params = names.map((_, i) => i === np - 1 ? 'a' : names[i]).join(', ');
  else if (kind === 'default' && np) params = names.map((x, i) => i === np - 1 ? `${x} = ${p.val()}` : x).join(', ');
  else if (kind === 'rest') params = [...names, '...r'].join(', ');
  else if (kind === 'pattern' && np) params = names.map((x, i) => i === 0 ? `[${x}] = [1]` : x).join(', ');
  const nonsimple = params !== names.join(', ') && !(kind === 'dup');
  const dup = kind === 'dup' && params !== names.join(', ');
  const vs = dup ? names.slice(0, -1) : names;
  const nargs = d.int(0, 5), dir = strict && !nonsimple ? '"use strict"; ' : '';
  const mapped = !strict && !nonsimple;
  // indices of the actual arguments only: V8 mishandles extra defined indices on mapped objects
  // (and mapped indices both deleted and defined)
  const deld = new Set(), defd = new Set();
  const ix = () => String(d.below(Math.max(1, mapped ? nargs : nargs + 2)));
  const pv = () => vs.length ? d.pick(vs) : '0';
  const show = () => `__p(${[...vs, 'arguments.length', '...[...arguments]'].join(', ')});`;
  const one = () => {
    const i = ix(), t = p.id();
    return d.freq([
      [5, () => `__t(() => arguments[${i}]);`],
      [5, () => `__t(() => arguments[${i}] = ${p.val()});`],
      [5, () => vs.length ? `${d.pick(vs)} ${d.pick(['=', '=', '+=', '??=', '||='])} ${p.val()};` : ';'],
      [1, () => vs.length ? `${d.pick(vs)}++;` : ';'],
      [3, () => mapped && defd.has(i) ? ';' : (deld.add(i), `__t(() => ${strict ? `Reflect.deleteProperty(arguments, ${i})` : `delete arguments[${i}]`});`)],
      [3, () => mapped && (deld.has(i) || defd.has(i) || +i >= Math.min(np, nargs)) ? ';' : (defd.add(i), 0) || `__t(() => Reflect.defineProperty(arguments, ${i}, ${d.pick([`{value: ${p.val()}}`, `{writable: false}`, `{value: ${p.val()}, writable: false}`, ...(mapped ? [] : ['{enumerable: false}']), '{configurable: false}', `{get() { return __l('g${t}', 4) }, set(v) { __l('s${t}', v) }}`, `{get: undefined}`, '{}', `{value: ${p.val()}, writable: true, enumerable: true, configurable: true}`, '{writable: false, configurable: false}', '{writable: true}'])}));`],
      [2, () => `__t(() => Object.getOwnPropertyDescriptor(arguments, ${i}));`],
      [1, () => mapped && defd.size ? ';' : ([0, 1, 2, 3, 4, 5, 6].forEach((k) => { defd.add(String(k)); deld.add(String(k)); }), `Object.${d.pick(['freeze', 'seal', 'preventExtensions'])}(arguments);`)],
      [1, () => `__t(() => Object.${d.pick(['isFrozen', 'isSealed', 'isExtensible'])}(arguments));`],
      [1, () => `__t(() => arguments.length = ${d.pick(['0', '1', '2', '"2"', '10'])});`],
      [1, () => `__p(Object.keys(arguments), Reflect.ownKeys(arguments));`],
      [1, () => vs.length && !strict && !nonsimple ? `eval("${d.pick([`${pv()} = 'ev${t}'`, `arguments[0] = 'ea${t}'`, `__p(arguments.length)`, `var ${pv()}`, `var ${pv()} = 'w${t}'`])}");` : ';'],
      [1, () => vs.length ? `fs.push(() => ${d.pick([pv(), `${pv()} = ${p.val()}`])});` : ';'],
      [1, () => `fs.push(() => ${d.pick([`arguments[${i}]`, `arguments[${i}] = ${p.val()}`, 'arguments.length'])});`],
      [1, () => `__p(Array.prototype.${d.pick(['slice.call(arguments, 1)', 'map.call(arguments, (x) => typeof x)', 'concat.call([], ...arguments)', 'reverse.call([...arguments])', 'join.call(arguments)'])});`],
      [1, () => nargs ? `__t(() => Array.prototype.${d.pick(['reverse', 'pop', 'shift'])}.call(arguments));` : ';'],
      [1, () => vs.length && !strict ? `for (${pv()} of [7, 8]) ;` : ';'],
      [1, () => vs.length ? `[${pv()}] = [${p.val()}];` : ';'],
      [1, () => `for (const k in arguments) __out(k);`],
      [1, () => `__p(Object.prototype.toString.call(arguments), arguments instanceof Object, Symbol.iterator in arguments);`],
      [1, () => strict ? `__t(() => arguments.callee);` : `__p(arguments.callee === f, Object.getOwnPropertyDescriptor(arguments, 'callee').enumerable);`],
      [1, () => `keep = arguments;`],
      [1, () => `__t(() => Reflect.${d.pick([`get(arguments, ${i}, {})`, `set(arguments, ${i}, ${p.val()})`, `has(arguments, ${i})`, `set({__proto__: arguments}, ${i}, 9)`])});`],
      [1, () => vs.length ? `((x) => { ${pv()} = x; })(${p.val()});` : ';'],
    ]) + ' ' + (d.bool(0.7) ? show() : '');
  };
  const body = d.list(2, 10, one).join('\n');
  const local = d.bool(0.15) ? (strict ? `var ${pv() === '0' ? 'zz' : pv()};` : d.pick([`var arguments;`, `var ${pv() === '0' ? 'zz' : pv()} = 'vv';`, nonsimple || !vs.length ? '' : `function ${pv()}() { return 'fn' }`, 'var zz = arguments;'])) : '';
  const call = d.pick([`f(${d.list(nargs, nargs, () => p.val()).join(', ')})`, `f.apply(null, [${d.list(nargs, nargs, () => p.val()).join(', ')}])`, `f.call(1${nargs ? ', ' : ''}${d.list(nargs, nargs, () => p.val()).join(', ')})`, `new f(${d.list(nargs, nargs, () => p.val()).join(', ')})`, `f.bind(null${nargs ? ', ' + p.val() : ''})(${d.list(Math.max(0, nargs - 1), Math.max(0, nargs - 1), () => p.val()).join(', ')})`]);
  const decl = d.pick(['function f(P) { B }', 'var f = function (P) { B };', 'var o = { f(P) { B } }, f = (...x) => o.f(...x);', 'var f = function f(P) { B };']).replace('P', () => params).replace('B', () => `${dir}${local}\n${show()}\n${body}\n`);
  return `let keep; const fs = [];\n${/=> o\.f/.test(decl) ? decl.replace(/arguments\.callee === f/g, 'arguments.callee === o.f') : decl}\n__t(() => { ${/=> o\.f/.test(decl) ? call.replace(/^new f/, 'f') : call} });\nfor (const g of fs) __t(g); if (keep) __p(...keep); for (const g of fs) __t(g);`;
}
// --- parameter lists
function params(d) {
  const p = new P(d), used = [];
  const name = () => { const n = d.pick(['a', 'b', 'c', 'e', 'x', 'y']) + (used.length > 3 ? used.length : ''); if (used.includes(n)) return name2(); used.push(n); return n; };
  const name2 = () => { const n = 'n' + p.id(); used.push(n); return n; };
  const ref = () => used.length ? d.pick(used) : 'G';
  const dv = () => d.freq([[3, () => p.val()], [3, () => `__l('d${p.id()}', ${d.pick([ref(), p.val(), 'arguments.length', 'this === undefined', 'new.target === undefined', 'typeof x'])})`], [2, () => `() => ${d.pick([ref(), 'arguments', 'x', `(${ref()} = 'set')`])}`], [1, () => ref()], [1, () => d.pick(['x', 'y', 'z'])], [1, () => `eval("${d.pick(['var ev = 5; ev', 'typeof x', 'x', 'arguments.length', 'var x = 9'])}")`], [1, () => `(() => { throw 'dt' })()`], [1, () => d.pick(['function () { return 1 }', 'class {}', '(() => 1)', 'class { static name = 3 }'])]]);
  const target = (dep) => d.freq([
    [6, () => name()],
    [dep ? 2 : 0, () => `[${d.list(0, 3, () => d.bool(0.1) ? '' : el(dep - 1)).join(', ')}${d.bool(0.2) ? (() => `, ...${target(dep - 1)}`)() : ''}]`.replace(/\[, \.\.\./, '[...')],
    [dep ? 2 : 0, () => `{${d.list(0, 3, () => d.freq([[3, () => { const n = name(); return n + (d.bool(0.4) ? ` = ${dv()}` : ''); }], [2, () => `${d.pick(['p', 'q', '"r"', '0', '[__l("k' + p.id() + '", "p")]'])}: ${el(dep - 1)}`]])).join(', ')}${d.bool(0.15) ? `, ...${name()}` : ''}}`.replace('{, ', '{')],
  ]);
  const el = (dep) => target(dep) + (d.bool(0.35) ? ` = ${dv()}` : '');
  const ps = d.list(0, 4, () => el(2));
  if (d.bool(0.25)) ps.push(`...${d.bool(0.8) ? name() : target(1)}`);
  const list = ps.join(', ');
  const arg = () => d.freq([[4, () => p.val()], [2, () => 'undefined'], [2, () => `[${d.list(0, 3, () => p.val()).join(', ')}]`], [2, () => `{p: ${p.val()}, q: [${p.val()}], a: ${p.val()}, b: undefined}`], [1, () => 'null'], [1, () => '"st"'], [1, () => 'it(3)']]);
  const body = d.list(0, 4, () => d.freq([
    [4, () => `__t(() => [${d.subset(used).join(', ')}]);`],
    [2, () => used.length ? `var ${ref()}${d.bool(0.5) ? ` = ${p.val()}` : ''};` : ';'],
    [1, () => used.length ? `function ${ref()}() { return 'inner' }` : ';'],
    [1, () => used.length ? `${ref()} = ${p.val()};` : ';'],
    [1, () => `__p(typeof ev, typeof x);`],
    [1, () => `var arguments; __p(typeof arguments);`],
    [1, () => used.length ? `__t(() => typeof ${ref()} === 'function' ? ${ref()}.name : ${ref()});` : ';'],
    [1, () => used.length ? `__t(() => ${ref()}());` : ';'],
  ])).join(' ');
  const form = d.freq([[4, 'function f(P) { B }'], [2, 'const f = (P) => { B };'], [1, 'const f = { m(P) { B } }.m;'], [1, 'const f = (class { static m(P) { B } }).m;'], [1, 'function* g(P) { B } const f = (...r) => g(...r).next();'], [1, 'const f = function fx(P) { B };'], [1, 'class C { constructor(P) { B } } const f = (...r) => { new C(...r) };'], [1, 'async function g(P) { B } const f = (...r) => { g(...r).catch(e => __p("rej", e)) };']]);
  const arrow = /=> \{ B \}/.test(form) && !/\.\.\.r/.test(form);
  let src = form.replace('P', () => list).replace('B', () => `__p(${used.map((u) => `typeof ${u} === 'function' ? 'F' : ${u}`).join(', ')}); ${body}`);
  if (arrow || /class/.test(form)) src = src.replace(/arguments\.length/g, '0').replace(/var arguments; __p\(typeof arguments\);/g, '').replace(/=> arguments/g, '=> 1').replace(/function (\w+)\(\) \{ return 'inner' \}/g, ';');
  if (arrow) src = src.replace(/new\.target === undefined/g, '1').replace(/this === undefined/g, '2');
  return `var G = 'glob', x = 'gx', y = 'gy'; function* it(n) { try { for (let i = 0; i < n; i++) yield __l('y', i) } finally { __l('close', 0) } }\n${src}\n__t(() => f.length);\n${d.list(1, 3, () => T(`{ f(${d.list(0, 4, arg).join(', ')}) }`)).join('\n')}`;
}
// --- call forms
const FN = ['function (...a) { return [typeof this, this, new.target === undefined, a] }', 'function (a, b) { "use strict"; return [typeof this, this, new.target === undefined, a, b] }', '(a, b = 1, c) => [a, b, c]', 'class { constructor(...a) { this.a = a; this.nt = new.target === undefined } }', 'class extends Array { constructor(...a) { super(); this.k = a.length } }', '({ m(x) { return [this, x] } }).m', 'function () { return arguments.length }', 'function (a) { return { own: a } }', 'function (a) { this.z = a; return 5 }', 'function* (a) { yield [this, a] }', 'async (a) => a', 'Math.max', 'Array', 'Object', 'String', 'Function.prototype', 'Date.UTC', 'class extends null { constructor() { return {n: 1} } }', 'Proxy', 'Symbol', 'Map', 'new Proxy(function (x) { return [this, x, new.target === undefined] }, {})', 'Function.prototype.call', 'Reflect.construct', 'Boolean', 'Number', 'function f(x) { return x ? f : this }'];
function calls(d) {
  const p = new P(d), L = [];
  const fn = () => d.freq([[5, () => d.pick(['f', 'g', 'h'])], [2, () => `(${d.pick(FN)})`], [0.3 * 10 | 0, () => d.pick(['undefined', 'null', '{}', '1', '"s"', '/x/', 'Symbol.iterator'])]]);
  const th = () => d.freq([[4, () => d.pick(['undefined', 'null', '1', '"s"', 'true', 'o', '1n', 'Symbol.iterator', '[]', 'f', '{}'])], [1, () => p.val()]]);
  const alike = () => d.freq([[4, () => `[${p.args(4)}]`], [1, () => '{length: 2, 0: "x"}'], [1, () => `{get length() { __out('len'); return ${d.pick(['0', '2', '"1"', '-1', '2.5', 'NaN', '{valueOf() { __out("v"); return 1 }}'])} }, get 0() { __out('g0'); return 'A' }, get 1() { __out('g1'); return 'B' }}`], [1, () => d.pick(['undefined', 'null', '"ab"', '1', '{}', 'new Set([1])', '[,,]', 'new Uint8Array([4, 5])', '(function () { return arguments })(1, 2)', '{length: {valueOf() { throw 1 }}}', 'Symbol()', 'true', '__px([1, 2], "L.")'])]]);
  const nt = () => d.freq([[3, () => fn()], [1, () => d.pick(['class { static get prototype() { __out("never") } }', 'Object.defineProperty(function () {}.bind(), "prototype", {get() { __out("pr"); return P }})', 'Object.assign(function () {}, {prototype: 3})', '__px(function () {}, "N.")', '() => 1', 'Array'])]]);
  L.push(`let o = {o: 1}, P = {P: 1}; let f = ${d.pick(FN)}, g = ${d.pick(FN)}, h = ${d.pick(FN)};`);
  if (d.bool(0.3)) L.push(`Object.defineProperty(${d.pick(['f', 'g'])}, 'name', {${d.pick(['value: "nm"', 'value: Symbol("sy")', 'value: 5', 'value: undefined', 'get() { __out("getname"); return "gn" }', 'get() { throw 1 }', 'value: ""'])}});`);
  if (d.bool(0.3)) L.push(`Object.defineProperty(${d.pick(['f', 'g'])}, 'length', {${d.pick(['value: 5', 'value: -2', 'value: 2.7', 'value: Infinity', 'value: -Infinity', 'value: NaN', 'value: "3"', 'value: undefined', 'get() { __out("getlen"); return 4 }', 'value: 2**31', 'value: -0', 'value: 2**53'])}});`);
  if (d.bool(0.1)) L.push(`__t(() => delete f.${d.pick(['name', 'length', 'prototype'])});`);
  const n = d.int(2, 7);
  for (let i = 0; i < n; i++) {
    L.push(d.freq([
      [3, () => T(`${fn()}(${p.args()})`)],
      [3, () => T(`new (${fn()})(${p.args()})`)],
      [3, () => T(`${fn()}.call(${[th(), p.args()].filter(Boolean).join(', ')})`)],
      [3, () => T(`${fn()}.apply(${th()}, ${alike()})`)],
      [2, () => T(`Reflect.apply(${fn()}, ${th()}, ${alike()})`)],
      [3, () => T(`Reflect.construct(${fn()}, ${alike()}${d.bool(0.6) ? ', ' + nt() : ''})`)],
      [4, () => { const b = 'b' + p.id(); return `let ${b}; __t(() => { ${b} = ${fn()}.bind(${[th(), p.args(3)].filter(Boolean).join(', ')}); return ${b} }); __t(() => Reflect.ownKeys(${b})); __t(() => ${b}(${p.args(2)})); __t(() => new ${b}(${p.args(2)})); ${d.bool(0.5) ? `__t(() => ${b}.bind(${th()}, ${p.val()})(${p.val()}));` : ''} ${d.bool(0.4) ? `__t(() => Reflect.construct(${b}, [${p.args(2)}], ${nt()}));` : ''} ${d.bool(0.4) ? `__t(() => o instanceof ${b}); __t(() => new ${b} instanceof ${b});` : ''} ${d.bool(0.3) ? `__t(() => { class S extends ${b} { constructor(...a) { super(...a); this.s = 1 } } return new S(${p.args(2)}) });` : ''}`; }],
      [1, () => T(`${fn()} instanceof ${fn()}`)],
      [1, () => T(`Function.prototype[Symbol.hasInstance].call(${fn()}, ${d.pick(['o', '[]', '1', 'f', 'Object.create(f.prototype)'])})`)],
      [1, () => `f.prototype = ${d.pick(['P', '3', 'null', 'Object.create(P)', 'function () {}'])};`],
      [1, () => T(`Object.getPrototypeOf(Reflect.construct(${fn()}, [], ${nt()})) === ${d.pick(['P', 'f.prototype', 'Object.prototype', 'Array.prototype'])}`)],
      [1, () => T(`(0, o.m)`)], [1, () => T(`o.m = f, o.m(${p.args(2)})`)], [1, () => T(`o?.m?.(${p.args(2)})`)], [1, () => T(`(o.m)(1), (0, o.m)(2), o["m"](3)`)],
      [1, () => `with (o) { __t(() => m(1)); }`],
      [1, () => T(`${fn()}\`a\${${p.val()}}b\``)],
      [1, () => T(`((...a) => a.length)(...${alike()})`)],
      [1, () => T(`${d.pick(['f', '((...a) => a.length)', 'Math.max', '(function () { return arguments.length })'])}.apply(null, {length: ${d.pick([100, 255, 256, 1000, 5000, 20000])}})${d.bool(0.5) ? '' : ';'}`.replace(/;$/, '')).replace('f.apply', '((...a) => a.length).apply')],
      [1, () => T(`((...a) => a.length)(...Array(${d.pick([100, 255, 256, 257, 1000, 30000])}), ...[1, 2])`)],
    ]));
  }
  return L.join('\n');
}
// --- names, lengths, own properties, source text
function names(d) {
  const p = new P(d), L = [];
  const anon = () => d.pick(['function () {}', '() => 1', 'class {}', 'class { static name() {} }', 'function* () {}', 'async () => 1', 'async function () {}', 'class { static #x = 1 }', '(function () {})', '(class {})', '(() => 1)', 'class { static x = 1; constructor(a, b) {} }', 'class extends Object {}', 'class { static { this.n = this.name } }', '(0, function () {})', 'async function* () {}', 'class { static "name" = 7 }', 'class { static ["na" + "me"]() {} }', 'class { static get name() { return 9 } }']);
  const key = () => d.pick(['k', '"s t"', '5', '1.5', '[`c`]', '[SY]', '[NS]', '["a" + 1]', '1n', '[5]', '""', 'get', 'set', 'async', 'static', '0x10', '[-0]', '[{toString() { return "obj" }}]']);
  const sh = (x) => `__t(() => { const F = ${x}; return [F.name, F.length, F] });`;
  const n = d.int(2, 8);
  L.push('var SY = Symbol("sym"), NS = Symbol(), v1, v2, ob = {};');
  for (let i = 0; i < n; i++) {
    const a = anon();
    L.push(d.freq([
      [2, () => { const x = 'l' + p.id(); return `${d.pick(['let', 'const', 'var'])} ${x} = ${a}; ${sh(x)}`; }],
      [2, () => `v1 ${d.pick(['=', '=', '??=', '||='])} ${a}; ${sh('v1')}`],
      [1, () => `v1 = 1; v1 &&= ${a}; ${sh('v1')}`],
      [1, () => `(v2) = ${a}; ${sh('v2')}`],
      [1, () => `ob.p = ${a}; ${sh('ob.p')}`],
      [3, () => { const k = key(); return `{ let t = {${/^\[/.test(k) && /class \{ static .*(name|"na)/.test(a) ? 'kq' : k}: ${a}}; ${sh('t[Reflect.ownKeys(t)[0]]')} }`; }],
      [3, () => { const k = key(); return `{ let t = {${d.pick(['', '*', 'async ', 'async *', 'get ', 'set '])}${k}(${'V'}) {}}; let D = Object.getOwnPropertyDescriptor(t, Reflect.ownKeys(t)[0]); ${sh('D.value || D.get || D.set')} __p(Reflect.ownKeys(D.value || D.get || D.set).filter(k => k !== "prototype")); __t(() => (D.value || D.get || D.set).toString()); __t(() => new (D.value || D.get || D.set)); }`; }],
      [2, () => { const k = key(); return `{ class t { ${d.pick(['static ', ''])}${d.pick(['', '*', 'async ', 'get ', 'set '])}${/^"?(prototype|constructor)/.test(k) ? 'kk' : k}(${'V'}) {} } let H = [t, t.prototype]; for (let o of H) for (let k of Reflect.ownKeys(o)) { let D = Object.getOwnPropertyDescriptor(o, k); __p(k, D); __t(() => (D.value || D.get || D.set).name); } }`; }],
      [1, () => `{ let [z = ${a}] = []; ${sh('z')} }`],
      [1, () => `{ let {z = ${a}} = {}; ${sh('z')} }`],
      [1, () => `{ let {y: z = ${a}} = {}; ${sh('z')} }`],
      [1, () => `(function (z = ${a}) { ${sh('z')} })();`],
      [1, () => `[v1 = ${a}] = []; ${sh('v1')}`],
      [1, () => `({v1 = ${a}} = {}); ${sh('v1')}`],
      [1, () => `({y: ob.q = ${a}} = {}); ${sh('ob.q')}`],
      [1, () => `{ class t { f = ${a}; ${d.pick(['#g', 'g', '"h i"', ...(/class \{ static .*(name|"na)/.test(a) ? ['gg'] : ['[SY]', '[`q`]']), '7', 'static s'])} = ${a}; all() { return this } } let x = new t; ${sh('x.f')} for (let k of Reflect.ownKeys(x)) ${sh('x[k]')} }`],
      [1, () => sh(`new Function(${d.pick(['', '"a", "return a"', '"a,b", "c", ""', '"a = 1", "return a"', '"...r", "return r"', '"/* x */ a", "// end"', '"a //", ""', '"{p}", "[q]", "return p + q"'])})`)],
      [1, () => `__t(() => new Function(${d.pick(['"a", "return a + 1"', '"a", "b", "return a * b"', '"...r", "return r"', '"return this === globalThis"', '"a = 5", "return a"', '"}, function () {"', '"a", "}); (function () {"', '"/*", "*/) {"', '"a", "\\"use strict\\"; return this"', '"eval", "\\"use strict\\";"', '"yield", "return yield"', '"a, a", "\\"use strict\\""', '"return typeof arguments"', '"super()"', '"new.target", ""', '"return new.target"'])})(3, 4));`],
      [1, () => `{ const F = ${d.pick(['function /*c*/ nm ( a , b ) { /* d */ return 1 }', 'function*   g (){}', 'async  ( x )=>  x', 'x => { return x }', 'class  A { /* k */ m () {} constructor(q) {} }', 'async function  * ag () {}', '{ get  x ( ) { return 1 } }', '{ [ "a" + 1 ] ( ) { } }', '{ * g ( ) { } }', '{ async  m ( ) {} }', '(a, b) => ({})'])}; __t(() => String(typeof F === 'object' ? (D => D.value || D.get)(Object.getOwnPropertyDescriptor(F, Reflect.ownKeys(F)[0])) : F)); }`],
      [1, () => `{ const F = ${d.pick(['function nm(a) { try { nm = 1 } catch (e) { __p(e) } return typeof nm }', 'function nm(a) { "use strict"; try { nm = 1 } catch (e) { __p(e) } return typeof nm }', 'function nm(nm) { return typeof nm }', 'function nm() { var nm; return typeof nm }', 'function nm() { let nm = 5; return nm }', 'function nm() { function nm() {} return nm.name }', 'function nm() { return eval("nm = 3; typeof nm") }', 'function nm() { return delete nm }', 'class C { static m() { try { C = 1 } catch (e) { __p(e) } return typeof C } }.m'])}; __t(() => F(1)); }`],
      [1, () => `{ const F = ${a}; __p(Reflect.ownKeys(F).filter(k => k !== "prototype" && k !== "arguments" && k !== "caller").sort(), Object.getOwnPropertyDescriptor(F, "prototype") ? typeof F.prototype : "none"); __t(() => Object.getOwnPropertyDescriptor(F, "prototype")); }`],
      [1, () => `__t(() => { "use strict"; const F = ${d.pick(['function (a, b) {}', '() => 1', 'class { }'])}; F.${d.pick(['name', 'length'])} = 5; });`],
      [1, () => `__t(() => Function.prototype.toString.call(${d.pick(['{}', 'null', '1', 'new Proxy({}, {})', '"f"'])}));`],
    ]));
  }
  return L.join('\n').replace(/V\)/g, (m, at, s) => /set \S*\($/.test(s.slice(Math.max(0, at - 30), at)) || /set [^{]*\($/.test(s.slice(Math.max(0, at - 60), at)) ? 'v)' : ')');
}
// --- construction
function construct(d) {
  const p = new P(d);
  const ret = () => d.pick(['', '', 'return 1;', 'return {r: 1};', 'return null;', 'return undefined;', 'return this;', 'return [];', 'return function () {};', 'return Symbol();', 'throw "ct";', 'try { return 3 } finally { __l("fin", 0) }', 'return Object(2);', 'return new.target;']);
  const base = d.pick([`function B(...a) { __l('B', a); __p(new.target === B, this instanceof B); this.b = a.length; ${ret()} }`, `class B { f = __l('field', 1); constructor(...a) { __l('B', a); __p(new.target === B); this.b = a; ${ret()} } }`, 'const B = Array;', 'const B = function () {}.bind();', 'const B = __px(class { constructor(a) { this.a = a } }, "B.");', 'const B = Map;', 'class B { }']);
  const sup = () => d.pick(['super(...a);', 'super(1, 2);', '', 'super(); super();', 'const s = () => super(...a); s();', 'try { this.x } catch (e) { __p(e) } super();', 'eval("super()");', 'super(__l("arg", 1));', 'if (a.length) super(a[0]); ', '(() => { (() => super())() })();', 'try { super(); } catch (e) { __p(e) }', 'super(...a); __p(this === super.self);', 'super(this);']);
  const D = d.pick([`class D extends B { ${d.pick(['', 'g = __l("Dfield", 2);', 'self = this; h = 3;'])} constructor(...a) { ${sup()} ${d.pick(['__t(() => this);', 'this.d = 1;', ''])} ${ret()} } }`, `class D extends B { ${d.pick(['', 'g = 1;', 'constructor() { return {q: 1} }', 'constructor() { return 5 }', 'constructor() { }'])} }`, `function D(...a) { ${d.pick(['B.call(this, ...a);', 'return Reflect.construct(B, a, new.target || D);', 'return new B(...a);'])} ${ret()} } D.prototype = ${d.pick(['Object.create(B.prototype || null)', '{d: 1}', '3'])};`]);
  const calls = d.list(1, 4, () => d.pick([`__t(() => new D(${p.args(3)}));`, `__t(() => D(${p.args(2)}));`, `__t(() => new B(${p.args(2)}));`, '__t(() => new D);', '__t(() => new D() instanceof B);', `__t(() => Reflect.construct(D, [${p.args(2)}], ${d.pick(['Array', 'D', 'B', 'Object', 'function () {}', 'class extends D {}', 'Object.assign(function () {}, {prototype: null})'])}));`, `__t(() => new (class extends D { constructor(...a) { super(...a); this.e = 1 } })(${p.args(2)}));`, '__t(() => new new D().constructor(1));', '__t(() => B.call({}, 1));', `__t(() => new (D.bind(null, ${p.val()}))(${p.args(1)}));`, '__t(() => Object.setPrototypeOf(D, function (...x) { this.swapped = x }) && new D(7));']));
  return `${base}\n${D}\n${calls.join('\n')}`;
}
// --- this
function thisForms(d) {
  const p = new P(d);
  const body = () => d.pick(['return [typeof this, this === globalThis, this === o]', 'return (() => typeof this)()', 'return eval("typeof this")', 'return (0, eval)("this === globalThis")', 'this.x = 1; return o.x', 'return typeof this.valueOf()', 'return [1].map(function () { return typeof this }, 5)[0]', 'return (() => eval("() => typeof this")())()', 'return typeof arguments[0]']);
  const f = (n) => `${d.bool(0.3) ? `function ${n}() { "use strict"; ${body()} }` : `function ${n}() { ${body()} }`}`;
  const get = d.bool(0.4) ? 'get g() { return [typeof this, this === o] }, set s(v) { __p(typeof this, this === o) },' : '';
  const calls = d.list(2, 6, () => d.pick(['f()', 'o.f()', 'o["f"]()', '(o.f)()', '(0, o.f)()', '(o.f = f)()', '(o.f || f)()', 'o?.f()', '(o?.f)()', 'f.call(1)', 'f.call(o)', 'f.call(null)', 'f.call("s")', '[f][0]()', 'o.a()', 'o.h.f()', 'Reflect.get(o, "g", 5)', 'Reflect.set(o, "s", 1, o)', 'new f() === undefined', '"x".f()', '(5).f()', 'true.f()', 'o.f`t`', 'f`t`', '[1, 2].map(f)[0]', '[1].map(f, "t")[0]', 'Array.from([1], f, 3)[0]', 'o.m()', 'delete o.zz, o.f()', 'eval("o.f()")', 'Function("return typeof this")()', '"abc".replace("b", f)', '(5n).f()', 'Symbol().f()', 'o.f.apply(undefined)', 'f.call.call(f, 3)', 'Reflect.apply(f, 7, [])']));
  return `${f('f')} ${d.bool() ? 'Object.prototype.f = f;' : 'String.prototype.f = Number.prototype.f = Boolean.prototype.f = f;'}\nvar o = { ${get} f, a: () => typeof this, h: { f }, m() { return f() } };\n${calls.map(T).join('\n')}\n${d.bool(0.3) ? 'with (o) { __t(() => f()); }' : ''}`;
}
// --- builtins called through bound functions: arguments must not be changed by the callee
function boundBuiltins(d) {
  const p = new P(d), L = [];
  const v = () => d.freq([[3, () => p.val()], [3, () => d.pick(['"2"', '" 7 "', 'null', 'true', '-1', '2.9', '-0', '[3]', '{valueOf() { return 1 }}', '{length: 1, 0: "q"}', '[[1, 2], [3, 4]]', '(x) => x', '"b"', '/b/g', '5n', '"2020-01-02"', 'Symbol.iterator', 'undefined', '{get() {}, configurable: true}', 'new Map', '""'])]]);
  const th = (proto) => d.pick(['"abcabc"', '[3, 1, 2]', '12.5', 'new Map([[1, 2]])', 'new Set([1])', ...(proto ? [] : ['new Date(0)']), '/b/', 'new Uint8Array([1, 2, 3])', 'new DataView(new ArrayBuffer(16))', '{a: 1}', 'function f() {}', 'Symbol("s")', '7n', 'new ArrayBuffer(8)', 'new WeakMap', 'true', 'undefined', ...(proto ? [] : ['Array', 'Uint8Array', 'Promise'])]);
  const obj = () => d.pick(['Object', 'Array', 'String', 'Number', 'Math', 'Reflect', 'JSON', 'Date', 'RegExp', 'Symbol', 'BigInt', 'ArrayBuffer', 'Atomics', 'Map', 'Set', 'Boolean', 'Function', 'Promise', 'Uint8Array', 'Float64Array', 'DataView', 'WeakMap', 'WeakSet', 'Error', 'Object.getPrototypeOf(Uint8Array)', '({parseInt, parseFloat, isNaN, isFinite, encodeURIComponent, decodeURI})']);
  L.push(`const skip = /^(constructor|toLocale.*|localeCompare|normalize|parse|UTC|now|random|getTimezoneOffset|toString|toJSON|to(Date|Time)String|set[A-Z].*|wait|notify|waitAsync|then|catch|finally|all|allSettled|any|race|resolve|reject|withResolvers|groupBy|try|seal|freeze|isSealed|isFrozen|isLockFree|anchor|big|blink|bold|fixed|font.*|italics|link|small|strike|sub|sup|substr|trimLeft|trimRight|compile|caller|arguments|captureStackTrace|isWellFormed|toWellFormed|escape|pow|exp.*|log.*|sinh?|cosh?|tanh?|a(sin|cos|tan).*|cbrt|hypot|fround|sqrt|f16round|transfer.*|resizable|resize|grow|at|call|apply|bind|fromAsync|with|fill|sort|toSorted|set|rawJSON|isRawJSON|union|intersection|difference|symmetricDifference|is(Subset|Superset|DisjointFrom).*|isSubsetOf|isSupersetOf|isDisjointFrom|getOrInsert.*)$/;`);
  L.push(`function run(O, i, th, a) { const ks = Reflect.ownKeys(O).filter(k => typeof k === 'string' && !skip.test(k)).sort(); const st = ks.filter(k => { const D = Object.getOwnPropertyDescriptor(O, k); return typeof D.value === 'function' }); if (!st.length) return; const f = O[st[i % st.length]]; let b; __t(() => { b = f.bind(th, ...a); return 0 }); const r = []; for (let j = 0; j < 3; j++) { let x; try { x = b(); x = typeof x === 'object' && x ? Object.prototype.toString.call(x) : typeof x === 'function' ? 'F' : x } catch (e) { x = typeof e === 'object' && e ? 'E:' + e.name : e } r.push(x); } __p(r); }`);
  for (let i = d.int(3, 8); i > 0; i--) {
    const proto = d.bool(0.6), O = obj();
    const a = d.list(0, 3, v).join(', ');
    L.push(`{ const O = ${proto ? `(${O}).prototype || ${O}` : O}; run(O, ${d.int(0, 60)}, ${th(proto)}, [${a}]); }`);
    L.push(`{ const b = ${d.pick(['Array', 'Object', 'String', 'Number', 'Boolean', 'RegExp', 'Map', 'Set', 'Uint8Array', 'Float32Array', 'ArrayBuffer', 'BigInt', 'Symbol', 'parseInt', 'parseFloat', 'isNaN'])}.bind(null${a ? ', ' + a : ''}); for (let j = 0; j < 3; j++) __t(() => String(${d.pick(['b()', 'new b()', 'b()'])}).replace(/:.*|\\(.*/s, '')); }`);
  }
  return `{${L.join('\n')}}`;
}
function tail(d) {
  const kind = d.int(0, 6), params = kind === 6 ? 'n, fs' : d.pick(['n, fs', 'n, fs, x = n * 2', 'n, fs, g = () => n', '{n}, fs', 'n, fs, ...r', 'n, [fs], y = [n]', 'n, fs, z = fs.push(() => n)', 'n, fs, eval_ = 1']);
  const call1 = (n) => /^\{/.test(params) ? `{n: ${n}}, fs` : /\[fs\]/.test(params) ? `${n}, [fs]` : `${n}, fs${d.pick(['', '', ', n', ', 1, 2', ', undefined, n'])}`;
  const self = kind === 3 ? 'O.f' : 'f';
  const call = (n) => d.freq([[6, () => `${self}(${call1(n)})`], [1, () => `${self}.call(${d.pick(['null', '5', 'O'])}, ${call1(n)})`], [1, () => `(0, ${self})(${call1(n)})`], [1, () => `${self}(...[${call1(n)}])`], [1, () => `(n ? ${self}(${call1(n)}) : 1)`], [1, () => `1, ${self}(${call1(n)})`]]);
  const cap = () => d.pick(['fs.push(() => n);', 'fs.push(() => [n++, n]);', 'let k = n * 10; fs.push(() => k++);', 'var v; fs.push(v); v = n;', 'function h() { return n } fs.push(h);', kind === 1 ? '' : 'fs.push(arguments);', kind === 1 ? '' : 'fs.push(() => arguments[0]); arguments[0] = typeof n;', 'fs.push(typeof this, new.target === undefined);'.replace(kind === 1 ? /, new.target === undefined/ : /^$/, ''), 'fs.push(typeof x === "undefined" ? "nox" : x);', 'const A = class { static s = n; m() { return n } }; fs.push(() => A.s);', 'eval("var ev" + fs.length + " = n"); fs.push(typeof ev0);', 'fs.push(eval("() => n"));', "fs.push(typeof r === 'undefined' ? 'nor' : r);", "fs.push(typeof g === 'undefined' ? 'nog' : g);", '{ let q = n; fs.push(() => q--); }']);
  const inner = (n, dep) => d.freq([
    [5, () => `if (n > 0) return ${call(n)};`], [1, () => `{ let q = n; fs.push(() => q); if (n > 0) return ${call(n)}; }`], [1, () => `for (let i = 0; i < 2; i++) { fs.push(() => i); if (n > 0 && i) return ${call(n)}; }`],
    [1, () => `for (const i of [1, 2]) { fs.push(() => i); if (n > 0 && i > 1) return ${call(n)}; }`], [1, () => `switch (n) { case 0: case -1: case -2: break; default: let q = n; fs.push(() => q); return ${call(n)}; }`],
    [1, () => `try { if (n > 0) return ${call(n)}; } finally { fs.push('fin' + n); }`], [1, () => `try { if (n > 1) throw n; if (n > 0) return ${call(n)}; } catch (e) { fs.push(() => e); return ${call(n)}; }`], [kind === 6 ? 0 : 1, () => `with ({w: n}) { fs.push(() => w); if (n > 0) return ${call(n)}; }`],
    [1, () => `lab: { if (n <= 0) break lab; return ${call(n)}; }`], [1, () => `return n > 0 ? ${call(n)} : show(fs);`], [1, () => `if (n > 0) return f\`a${'${n}'}b\`;`.replace('f`', `((s, m) => ${self}(${call1('n - 1')}))\``)],
  ]);
  const body = `if (lim-- < 0) return 'lim'; ${cap()} ${d.bool() ? cap().replace(/let k/, 'let k2').replace(/k\+\+/, 'k2++').replace('const A', 'const A2').replace('A.s', 'A2.s') : ''} ${inner(d.pick(['n - 1', 'n - 1', 'n - 2', '--n']))} return show(fs);`;
  const def = [() => `function f(${params}) { ${body} }`, () => `var f = (${params}) => { ${body} };`, () => `var f = function f(${params}) { ${body} };`, () => `var O = { f(${params}) { ${body} } };`, () => `var f = class { static m(${params}) { ${body} } }.m;`, () => `function f(${params}) { this.n = typeof n; ${body} }`, () => `function f(${/[={\[.]/.test(params) ? 'n, fs' : params}) { 'use strict'; ${body} }`][kind]();
  let top = kind === 6 && /[={\[.]/.test(params) ? 'N, []' : /^\{/.test(params) ? '{n: N}, []' : /\[fs\]/.test(params) ? 'N, [[]]' : 'N, []';
  top = top.replace('N', d.int(1, 4));
  return `{ let fuel = 40, lim = 12; const show = (fs) => fs.slice(0, 30).map((x) => { try { return typeof x === 'function' && fuel-- > 0 ? x() : x } catch (e) { return e.name } }); ${def} __t(() => ${d.bool(0.2) && kind !== 1 && kind !== 3 && kind !== 4 ? 'new ' : ''}${self}(${top})); }`;
}
export default {
  regress: TAIL,
  rule: 'programs of function calls: histories of up to 10 operations on mapped and unmapped arguments objects and their parameters, parameter lists with defaults, patterns and rests, call/apply/bind/construct forms with array-likes and new targets, names/lengths/source text of functions, constructors and this values, compared with V8; non-trivial: more than 60 characters are printed',
  batch: 25, realm: true, count: { quick: 12000, thorough: 600000 },
  gen(d) {
    const src = d.freq([[8, () => argHistory(d)], [5, () => params(d)], [7, () => calls(d)], [5, () => names(d)], [4, () => construct(d)], [2, () => thisForms(d)], [2, () => boundBuiltins(d)], [4, () => tail(d)]]);
    return { src, nontrivial: (r) => r.act.out.length > 60 };
  },
};
