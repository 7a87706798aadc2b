import * as G from '../lib/gen.mjs';
const BIN = ['+', '-', '*', '/', '%', '**', '&', '|', '^', '<<', '>>', '>>>', '==', '!=', '===', '!==', '<', '>', '<=', '>=', '&&', '||', '??', 'instanceof', 'in'];
const UN = ['-', '+', '~', '!', 'typeof ', 'void '];
function operand(d, depth) {
  if (depth <= 0 || d.bool(0.5)) return '(' + G.val(d, 1) + ')';
  return d.freq([
    [8, () => `(${operand(d, depth - 1)} ${d.pick(BIN)} ${operand(d, depth - 1)})`],
    [3, () => `(${d.pick(UN)}${operand(d, depth - 1)})`],
    [1, () => `(${operand(d, depth - 1)} ? ${operand(d, depth - 1)} : ${operand(d, depth - 1)})`],
    [1, () => `(${operand(d, depth - 1)}, ${operand(d, depth - 1)})`],
    [1, () => '`a${' + operand(d, depth - 1) + '}b`'],
    [1, () => { const o = d.pick(['+=', '-=', '*=', '/=', '%=', '**=', '<<=', '>>=', '>>>=', '&=', '|=', '^=', '&&=', '||=', '??=', '=']); return `(x ${o} ${operand(d, depth - 1)})`; }],
    [1, () => d.pick(['(x++)', '(++x)', '(x--)', '(--x)', 'x'])],
    [1, () => `${d.pick(['Number', 'String', 'Boolean', 'BigInt', 'Object', 'parseInt', 'parseFloat', 'isNaN', 'Math.floor', 'Number.isInteger', 'BigInt.asIntN.bind(null,8)', 'Symbol'])}(${operand(d, depth - 1)})`],
  ]);
}
// operators that yield one of their operands: the result is a value (no reference, no name inference, no direct eval), also if an operand is a constant
function select(d) {
  const C = () => d.pick(['1', '0', 'true', 'false', 'null', '""', '"s"', '0n', '1n', 'NaN', 'undefined', '-0', '/x/', '``', '!0', 'void 0', 'k', 'z', '(1)', '(null)', '({})', '[]']);
  const one = (t) => d.pick([(t) => `${C()} ? ${t} : ${d.pick([C(), t])}`, (t) => `${C()} ? ${d.pick([C(), t])} : ${t}`, (t) => `${C()} && ${t}`, (t) => `${C()} || ${t}`, (t) => `${C()} ?? ${t}`, (t) => `${C()}, ${t}`, (t) => t, (t) => `${t} || ${C()}`, (t) => `${t} && ${C()}`, (t) => `${t} ?? ${C()}`])(t);
  const sel = (t) => { let s = one(t); if (d.bool(0.2)) s = one(`(${s})`); return s; };
  return d.pick([
    () => `(${sel(d.pick(['o.m', 'o["m"]', 'o?.m', '(o.m)', 'this.m', 'super.m']))})(1)`, () => `(${sel('o.m')})\`t\``, () => `(${sel('o.m')})?.(2)`, () => `new (${sel('o.c')})`,
    () => `typeof (${sel(d.pick(['undecl', 'o.q', 'k']))})`, () => `delete (${sel(d.pick(['o.m', 'o.q', 'o[k]']))})`, () => `(${sel('eval')})("typeof loc")`,
    () => { const f = d.pick(['function(){}', '() => 1', 'class {}', '(function(){})', 'async () => {}', 'class { static name = "nm" }']); return d.pick([() => `{ let fn = ${sel(f)}; return fn?.name; }`, () => `({ fn: ${sel(f)} }).fn?.name`, () => `{ let fn; fn = ${sel(f)}; return fn?.name; }`, () => `{ let [fn = ${sel(f)}] = []; return fn?.name; }`, () => `{ let fn; fn ??= ${sel(f)}; return fn?.name; }`])(); },
    () => `Function('${d.pick([`[${sel('a')}] = b`, `(${sel('a')}) = 1`, `(${sel('a')})++`, `[${sel('{ a }')}] = b`, `({ q: ${sel('a')} } = b)`, `for ((${sel('a')}) of b) ;`, sel('{ a = 1 }'), `[${sel('a = 1')}] = b`, `(${sel('a')}) => 1`, `x = ${sel('y => 1')}`]).replaceAll("'", '')}')`,
    () => `(undefined => ${sel('undefined')})(3)`, () => sel('undecl'), () => sel('f(1)'), () => sel('(z = 5)') + ' + z', () => `[${sel('(yy = 1)')}, yy]`, () => `{ for (const q of [1, 2]) { if (${sel('q > 1')}) return q; } }`, () => `{ while (${sel('k')}) return 1; return 2; }`,
  ])();
}
function selects(d) {
  const L = ['{ let k = "m", z = 0, yy = 0; const f = (x) => { __l("f", x); return x; }, o = { m(x) { return [this === o, x?.length ?? x]; }, c: function () { this.a = new.target === undefined; }, q: 1, __proto__: { m() { return "pm"; } } };', 'const b = { m() { return [this === b, "b"]; } };'];
  for (let i = d.int(1, 6); i > 0; i--) { let e = select(d); L.push(/super/.test(e) || /this\./.test(e) ? `__t(() => ({ m() { return 'own'; }, z() { return ${e}; }, __proto__: { m() { return ['sup', this === globalThis]; } } }).z());` : /^\{/.test(e) ? `__t(() => ${e});` : `__t(() => { let loc = 1; return ${e}; });`); }
  return L.join('\n') + ' }';
}
export default {
  regress: [{ src: `var o={m(){return this===o}}; __l((true?o.m:0)(), (1?o.m:0)(), (0||o.m)(), (null??o.m)(), (true&&o.m)()); __t(()=>typeof (true?undecl:0)); __t(()=>typeof (0||undecl)); var g=true?()=>1:0, h=0||function(){}, l=null??class{}; __l(g.name,h.name,l.name); function F(){var v=1; return [(true?eval:0)("typeof v"),(0||eval)("typeof v")]} __l(F()); __t(()=>Function("[true?a:0]=[1]")); __t(()=>Function("true?{a=1}:1")); __t(()=>Function("/a/?1:{a=1}")); __l((undefined=>undefined??5)(3))`, mode: 0 }],
  rule: 'expressions over operators and conversions with operands of every type; non-trivial: contains a binary operator',
  batch: 60,
  // V8 compares a BigInt with an object whose primitive is a string numerically (its defect), and its pow may be an ulp off
  tolerate(c, e, a) {
    const s = c.src;
    if (/\*\*/.test(s) && e.status === a.status && G.rough(e.out) === G.rough(a.out)) return true;
    return /\dn|BigInt|1n/.test(s) && /[<>]/.test(s) && /\[|\{|new |String/.test(s);
  },
  count: { quick: 40000, thorough: 400000 },
  gen(d) {
    if (d.bool(0.15)) return { src: selects(d), nontrivial: (r) => r.act.status === 'ok' };
    const e = operand(d, d.int(1, 3));
    const src = `{let x = ${G.val(d, 1)}; __t(()=>${e}); __p(x);}`;
    return { src, nontrivial: / [-+*\/%&|^<>=!?i]/.test(e) };
  },
};
