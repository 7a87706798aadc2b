import * as G from '../lib/gen.mjs';
const KEYS = ['"a"', '"b"', '"c"', '"0"', '"1"', '"2"', '"3"', '"10"', '"length"', '"name"', 'S', 'Symbol.iterator', '"prototype"', '"__proto__"', '"-0"', '"01"', '"4294967294"', '"4294967295"', '"x"', '"y"', '1.5', '-1', 'Symbol.toStringTag'];
const key = (d) => d.freq([[6, () => d.pick(['"a"', '"b"', '"c"'])], [5, () => `"${d.int(0, 4)}"`], [3, () => d.pick(KEYS)], [1, () => String(d.int(0, 12))]]);
const v = (d) => d.freq([[6, () => String(d.int(0, 9))], [1, () => d.pick(['undefined', 'NaN', '-0', '"s"', 'null', 'O', 'f', '{}', '0'])]]);
const small = (d) => d.pick(['0', '1', '2', '3', '5', '"2"', '-1', '4294967295', '1.5']);
const desc = (d) => d.freq([
  [6, () => `{${d.subset([`value:${v(d)}`, `writable:${d.bool()}`, `enumerable:${d.bool()}`, `configurable:${d.bool(0.7)}`], 0.55).join()}}`],
  [3, () => `{${d.subset([`get:${d.pick(['g1', 'g2', 'undefined', 'g1', '5'])}`, `set:${d.pick(['s1', 's2', 'undefined', 's1'])}`, `enumerable:${d.bool()}`, `configurable:${d.bool(0.7)}`], 0.6).join()}}`],
  [1, () => d.pick(['{}', '{value:1,get(){}}', '5', 'undefined', '{get:1}', '{set:null}', 'Object.create({value:7,enumerable:true})', '{writable:1,configurable:"",enumerable:"x"}', '{get value(){__out("v");return 1},get writable(){__out("w");return true},get get(){__out("g")},get enumerable(){__out("e")},get configurable(){__out("c")},get set(){__out("s")}}', '{get value(){throw new EvalError("v")}}', '{value:1,set:undefined}'])],
]);
const OBJ = [
  () => '{}', () => '{a:1,b:2,c:3}', () => '{get a(){__out("ga");return 1},set a(v){__p("sa",v)},0:1,b:2}', () => '[]', () => '[1,2,3]', () => '[1,,3]', () => 'Object.create(null)', () => 'Object.create({a:1,get b(){return 5}})',
  () => '(function(){return arguments})(1,2,3)', () => '(function(){"use strict";return arguments})(1,2)', () => 'function(a,b){"use strict"}', () => '()=>{}', () => 'class{static a=1}', () => 'new String("abc")', () => 'new Uint8Array([1,2,3])', () => 'new Number(5)', () => 'Object.freeze([1,2])', () => 'Object.seal({a:1,b:2})', () => 'Object.preventExtensions({a:1})', () => 'new (class extends Array{})(1,2)', () => '(()=>{}).bind(null)', () => '/x/g', () => '(class{m(){}}).prototype.m', () => 'Object.freeze({a:1,get b(){return 2}})', () => 'new Date(5)', () => 'async()=>{}', () => '{__proto__:[1,2],a:1}', () => 'new Map', () => '{__proto__:new Proxy({a:1},{})}', () => '{__proto__:{__proto__:{set a(v){__p("psa",v)},get 0(){return "p0"}},b:1}}',
];
// V8 gets the integrity level of typed arrays and of functions wrong
function op(d, n, ta, fn) {
  const o = d.pick(n), k = key(d), o2 = d.pick(n);
  return d.freq([
    [6, () => `Object.defineProperty(${o},${k},${desc(d)})===${o}`], [4, () => `Reflect.defineProperty(${o},${k},${desc(d)})`],
    [6, () => `${o}[${k}]=${v(d)}`], [3, () => `delete ${o}[${k}]`], [2, () => `${o}[${k}]`], [1, () => `${o}[${k}]${d.pick(['++', '+=1', '??=3', '||=4', '&&=5'])}`],
    [2, () => `Reflect.set(${o},${k},${v(d)}${d.bool() ? ',' + d.pick([...n, '{}', '5', 'Object.freeze([1])']) : ''})`], [1, () => `Reflect.get(${o},${k}${d.bool() ? ',' + o2 : ''})`], [1, () => `Reflect.deleteProperty(${o},${k})`],
    [1, () => `${k} in ${o}`], [1, () => `Reflect.has(${o},${k})`], [1, () => `Object.hasOwn(${o},${k})`], [1, () => `Object.prototype.${d.pick(['hasOwnProperty', 'propertyIsEnumerable'])}.call(${o},${k})`],
    [2, () => `Object.getOwnPropertyDescriptor(${o},${k})`], [2, () => `Reflect.ownKeys(${o})`], [1, () => `Object.getOwnPropertyDescriptors(${o})`],
    [2, () => `Object.${d.pick(['keys', 'values', 'entries', 'getOwnPropertyNames', 'getOwnPropertySymbols'])}(${o})`],
    [1, () => `Object.${d.pick(ta ? ['preventExtensions'] : ['freeze', 'seal', 'preventExtensions'])}(${o})===${o}`], [2, () => `Object.${d.pick([fn ? 'isExtensible' : 'isFrozen', ta ? 'isFrozen' : 'isSealed', 'isExtensible'])}(${o})`],
    [1, () => `Reflect.preventExtensions(${o})`], [1, () => `Reflect.isExtensible(${o})`],
    [2, () => `Object.setPrototypeOf(${o},${d.pick([...n, 'null', 'Object.prototype', 'undefined', '{a:"pa",set b(v){__p("sb",v)}}', 'Array.prototype', '5'])})===${o}`], [1, () => `Reflect.setPrototypeOf(${o},${d.pick([...n, 'null', 'Object.prototype'])})`],
    [1, () => `Object.getPrototypeOf(${o})`], [1, () => `${o}.__proto__=${d.pick([...n, 'null', '5'])}`], [1, () => `Object.prototype.isPrototypeOf.call(${o},${o2})`],
    [1, () => `Object.assign(${o},${d.pick([...n, 'null', '"ab"', '{a:9,[S]:8}', '5', '[7]', '{get a(){__out("as");return 1},b:2}'])})===${o}`], [1, () => `Object.defineProperties(${o},{${d.list(0, 3, () => `[${key(d)}]:${desc(d)}`).join()}})===${o}`],
    [2, () => `((r=[])=>{for(let k in ${o})r.push(k);return r})()`], [1, () => `Object.fromEntries(Object.entries(${o}))`],
    [1, () => `({...${o}})`], [1, () => `Object.prototype.${d.pick(['__defineGetter__', '__defineSetter__', '__lookupGetter__', '__lookupSetter__'])}.call(${o},${k},${d.pick(['g1', 's1', 'f'])})`],
    [1, () => `Object.prototype.${d.pick(['toString', 'toString', 'valueOf'])}.call(${d.pick([...n, 'undefined', 'null', '5', '"s"', 'S'])})`.replace('toLocaleString.call(5)', 'toString.call(5)')],
    [1, () => `${o}.length=${small(d)}`], [1, () => `${o}.name=${v(d)}`],
    [1, () => `Object.groupBy`], [1, () => `Object.is(${d.pick(['0', '-0', 'NaN', ...n])},${d.pick(['0', '-0', 'NaN', ...n])})`],
    [1, () => `Object.create(${d.pick([...n, 'null'])},{${d.list(0, 2, () => `[${key(d)}]:${desc(d)}`).join()}})`],
  ]);
}
const nat = (o) => o.replace(/function [^("]*\([^)"]*\) ?\{ ?\[native code\] ?\}/g, 'NATIVE');
const attrs = (o) => o.replace(/!c |,length!w/g, '').replace(/configurable:\w+/g, '');
export default {
  rule: 'histories of 2 to 16 property operations (definitions, assignments, deletions, prototype changes, integrity levels, enumerations, Object and Reflect functions) in strict or sloppy code over two objects out of 34 kinds, whose full state is printed; non-trivial: output longer than 40 characters',
  batch: 60,
  count: { quick: 50000, thorough: 1500000 },
  // the text of native functions is implementation-defined
  judge: (c, e, a) => e.status === a.status && nat(e.out) === nat(a.out),
  // V8 takes an empty array that is not extensible for a frozen one, and loses attributes of sealed elements when one of them is redefined
  tolerate: (c, e, a) => /isFrozen|freeze|seal/.test(c.src) && (/#0\]/.test(e.out + a.out) || (/defineProp|__define/.test(c.src) && attrs(e.out) === attrs(a.out) && e.out.includes('!x'))),
  gen(d) {
    const two = d.bool(0.6), n = two ? ['O', 'P'] : ['O'];
    const o1 = d.pick(OBJ)(), o2 = two ? d.freq([[2, () => d.pick(OBJ)()], [1, 'Object.create(O)']]) : '', ta = /Uint8/.test(o1 + o2), fn = /function\(a|=>|class/.test(o1 + o2);
    const src = `__t(()=>{${d.bool() ? '"use strict";' : ''}let S=Symbol("s"),f=function(){},g1=()=>"g1",g2=()=>"g2",s1=function(v){__p("s1",this===O,v)},s2=(v)=>{throw new EvalError("s2")};let O=${o1};${two ? `let P=${o2};` : ''}${d.list(2, 16, () => `try{__p(${op(d, n, ta, fn)})}catch(e){__p("t",e)};`).join('')}return [${n}]});`.replace(/__p\(Object\.groupBy\)/g, '__p(0)');
    return { src, nontrivial: (r) => r.act.out.length > 40 };
  },
};
