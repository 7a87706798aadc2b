import * as G from '../lib/gen.mjs';
// handlers: every trap logs, then answers truthfully, or lies
const TARGETS = ['{a:1,b:2}', '{}', '[1,2,3]', 'Object.freeze({a:1})', 'Object.preventExtensions({a:1,b:2})', 'Object.defineProperty({b:1},"a",{value:1})', 'Object.defineProperty({},"a",{get:undefined,set(){}})', 'Object.defineProperty({},"a",{get(){return 7}})', 'Object.defineProperty({c:1},"a",{value:1,writable:true})', 'function(x,y){"use strict";__p("T",this===undefined,x,y);return x}', 'class{constructor(x){this.x=x}}', '()=>1', 'new Proxy({a:1},{})', 'Object.create(null)', 'Object.create({a:1,set b(v){__p("sb",v)}})', 'new Map([[1,2]])', 'Object.freeze([])', 'new Date(0)', 'Object.defineProperty([1,2],"length",{writable:false})'];
const keys = (d) => d.freq([[8, () => d.pick(['"a"', '"b"', '"c"'])], [2, () => d.pick(['"0"', '"1"', '"length"', 'S', 'Symbol.toPrimitive', '"prototype"', '"name"', '0', '1', 'Symbol.iterator', '"__proto__"', '"constructor"'])]]);
const v = (d) => d.freq([[6, () => String(d.int(0, 9))], [1, () => d.pick(['undefined', 'NaN', '-0', 'null', '"s"', 'T'])]]);
const desc = (d) => d.freq([
  [6, () => `{${d.subset([`value:${v(d)}`, `writable:${d.bool()}`, `enumerable:${d.bool()}`, `configurable:${d.bool()}`], 0.6).join()}}`],
  [2, () => `{${d.subset(['get:g1', `set:${d.pick(['s1', 'undefined'])}`, `enumerable:${d.bool()}`, `configurable:${d.bool()}`], 0.6).join()}}`],
  [1, () => d.pick(['{}', '5', 'undefined', '{get:5}', '{value:1,get:g1}'])],
]);
const bool = (d) => d.pick(['true', 'false', '1', '0', '""', 'undefined', '"x"', '{}', 'null']);
function answer(d, t) {
  const truth = () => `Reflect.${t}(...a)`;
  return d.freq([
    [6, () => `return ${truth()}`], [1, 'throw new EvalError("trap")'],
    [5, () => {
      switch (t) {
      case 'get': return `return ${v(d)}`;
      case 'getOwnPropertyDescriptor': return `return ${d.bool(0.3) ? 'undefined' : d.bool(0.3) ? `{...${truth()},${d.pick(['configurable:true', 'configurable:false', 'writable:false', 'writable:true', 'enumerable:false', 'value:3', 'get:g1'])}}` : desc(d)}`;
      case 'ownKeys': return `return ${d.pick(['["a"]', '["a","b"]', '[]', '["a","a"]', '["a","b","c",S]', '["a",1]', '{length:2,0:"a",1:"b"}', '5', 'undefined', '["a","length"]', '["0","1","length"]', `[...${truth()},"z"]`, `${truth()}.slice(1)`, `${truth()}.reverse()`, '{get length(){__out("len");return 1},get 0(){__out("g0");return "a"}}', 'new Proxy(["a"],{})', '[null]', '{length:"1",0:"b"}'])}`;
      case 'getPrototypeOf': return `return ${d.pick(['null', 'Array.prototype', '5', 'undefined', 'Object.prototype', 'T', '{}'])}`;
      case 'apply': case 'construct': return `return ${d.pick(['5', '{z:1}', 'T', 'a[1]', 'a.length', 'a[2]', 'undefined', '[]'])}`;
      default: return `return ${bool(d)}`;
      }
    }],
    [1, () => `Object.${d.pick(['freeze', 'preventExtensions'])}(T0);return ${truth()}`], [1, () => `delete T0.a;return ${truth()}`], [1, () => `T0.n=1;return ${truth()}`], [t === 'getOwnPropertyDescriptor' ? 0 : 1, () => `rv.revoke();return ${truth()}`],
  ]);
}
const ALL = ['get', 'set', 'has', 'deleteProperty', 'defineProperty', 'getOwnPropertyDescriptor', 'ownKeys', 'getPrototypeOf', 'setPrototypeOf', 'isExtensible', 'preventExtensions', 'apply', 'construct'];
const log = (t) => t === 'get' || t === 'set' ? `__p("${t}",a[1],a[a.length-1]===Pr,this===H);` : t === 'defineProperty' ? `__p("${t}",a[1],a[2]);` : t === 'apply' ? '__p("apply",a[1]===Pr,a[2]);' : t === 'construct' ? '__p("construct",a[1],a[2]===Pr);' : t === 'setPrototypeOf' ? '__p("spo",a[1]===null);' : `__p("${t}",...a.slice(1));`;
const handler = (d) => `{${ALL.filter(() => d.bool(0.55)).map((t) => d.bool(0.06) ? `${t}:${d.pick(['undefined', 'null', '5', '"x"', '{}'])}` : `${t}(...a){${log(t)}${answer(d, t)}}`).join()}}`;
function op(d) {
  const P = d.pick(['Pr', 'Pr', 'Pr', 'Pr', 'C']), k = keys(d);
  return d.freq([
    [4, () => `${P}[${k}]`], [4, () => `${P}[${k}]=${v(d)}`], [3, () => `delete ${P}[${k}]`], [3, () => `${k} in ${P}`], [2, () => `${P}[${k}]+=1`],
    [3, () => `Reflect.set(${P},${k},${v(d)}${d.bool() ? ',' + d.pick(['Pr', 'C', '{}', 'T0', '5']) : ''})`], [2, () => `Reflect.get(${P},${k}${d.bool() ? ',' + d.pick(['Pr', 'C', '5']) : ''})`],
    [3, () => `Object.defineProperty(${P},${k},${desc(d)})===${P}`], [3, () => `Reflect.defineProperty(${P},${k},${desc(d)})`], [3, () => `Object.getOwnPropertyDescriptor(${P},${k})`],
    [3, () => `Reflect.ownKeys(${P})`], [2, () => `Object.${d.pick(['keys', 'entries', 'values', 'getOwnPropertyNames', 'getOwnPropertySymbols', 'getOwnPropertyDescriptors'])}(${P})`],
    [3, () => `Object.getPrototypeOf(${P})===T`], [2, () => `Object.setPrototypeOf(${P},${d.pick(['null', 'T', 'Array.prototype', 'Object.prototype', '5'])})===${P}`], [2, () => `Reflect.setPrototypeOf(${P},${d.pick(['null', 'T', 'Object.prototype'])})`],
    [2, () => `Object.isExtensible(${P})`], [2, () => `Reflect.${d.pick(['isExtensible', 'preventExtensions'])}(${P})`], [2, () => `Object.${d.pick(['preventExtensions', 'freeze', 'seal', 'isFrozen', 'isSealed'])}(${P})`.replace(/^Object\.(p|f|s).*/, '$&===' + P)],
    [3, () => `${P === 'C' ? 'Pr' : P}(${d.pick(['', '1', '1,2', '...[3,4]'])})`], [2, () => `new Pr(${d.pick(['', '1', '1,2'])})`], [1, () => `Reflect.construct(Pr,[1],${d.pick(['Pr', 'Object', 'T', 'Array'])})&&1`], [1, () => `Pr.call(5,6)`], [1, () => `Reflect.apply(Pr,1,[2])`], [1, () => `Pr\`a\${1}\``],
    [1, () => `({...${P}})`], [1, () => `((({a,...r})=>[a,r])(${P}))`], [1, () => `Object.assign({},${P})`], [1, () => `Object.assign(${P},{a:1,b:2})===${P}`],
    [1, () => `Array.isArray(${P})`], [1, () => `typeof ${P}`], [1, () => `Object.prototype.toString.call(${P})`], [1, () => `${P} instanceof ${d.pick(['Pr', 'Object', 'Array'])}`], [1, () => `({}) instanceof Pr`], [1, () => `\`\${${P}}\``], [1, () => `${P}==1`], [1, () => `Object.hasOwn(${P},${k})`], [1, () => `Object.prototype.propertyIsEnumerable.call(${P},${k})`],
    [1, () => `JSON.stringify(${P})`], [1, () => `[].concat(${P})`], [1, () => `Array.prototype.${d.pick(['slice', 'map', 'push', 'reverse', 'includes', 'pop', 'join', 'fill'])}.call(Pr,x=>x)`], [1, () => `(function(){with(${P}){return a}})()`], [1, () => `(function(){with(${P}){a=5;return typeof b}})()`], [1, () => `[...Pr]`],
    [1, 'rv.revoke()'], [1, () => `new Proxy(${P},{}).a`], [1, () => `class extends Pr{}&&1`.replace('class', '(class').replace('{}&&', '{})&&')], [1, () => `Object.defineProperty(T0,${k},${desc(d)})===T0`], [1, () => `Object.preventExtensions(T0)===T0`],
    [1, () => `Object.prototype.${d.pick(['hasOwnProperty', '__lookupGetter__'])}.call(${P},${k})`], [1, () => `${P}.__proto__===T`], [1, () => `Object.fromEntries(Object.entries(${P}))`], [1, () => `structuredClone`.replace('structuredClone', 'Pr===T0')], [1, () => `Pr.name`],
  ]);
}
const nat = (o) => o.replace(/function [^("]*\([^)"]*\) ?\{ ?\[native code\] ?\}/g, 'NATIVE');
export default {
  rule: 'a proxy over one of 20 kinds of target with a random subset of the 13 traps, each logging its arguments and then answering truthfully, lying, throwing, freezing or changing the target, or revoking the proxy; 1 to 6 operations through it or through an object that inherits from it; non-trivial: output longer than 30 characters',
  batch: 60,
  count: { quick: 50000, thorough: 1500000 },
  judge: (c, e, a) => e.status === a.status && nat(e.out) === nat(a.out),
  gen(d) {
    const strict = d.bool();
    let o = d.list(1, 6, () => op(d));
    const T0 = d.pick(TARGETS), H = handler(d), H2 = d.bool(0.15) ? handler(d) : '';
    // V8 does not repeat [[HasProperty]] when it reads or writes through `with`, which shows when a trap logs or deletes
    if (strict || /\b(has|get)\(/.test(H + H2)) o = o.map((x) => /with\(/.test(x) ? 'Pr.a' : x);
    const src = d.bool(0.96) ? `__t(()=>{${strict ? '"use strict";' : ''}let S=Symbol("s"),T={t:1},g1=()=>"g1",s1=function(v){__p("s1",v)};let T0=${T0};let H=${H};let rv=Proxy.revocable(T0,H),Pr=rv.proxy;${H2 ? `Pr=new Proxy(Pr,${H2.replace(/this===H/g, 'this!==H')});` : ''}let C=Object.create(${d.bool(0.9) ? 'Pr' : 'Object.create(Pr)'});${o.map((x) => `try{__p(${x})}catch(e){__p("t",e)};`).join('')}return T0});`
      : `__t(()=>{let r=${d.pick(['new Proxy({},{})', 'Proxy({},{})', 'new Proxy(5,{})', 'new Proxy({},5)', 'new Proxy()', 'Proxy.revocable(1,{})', 'Proxy.revocable({},null)', 'new Proxy(function(){},{})', 'Proxy.revocable({},{})', 'new Proxy(Proxy.revocable({},{}).proxy,{})', 'new Proxy({}, new Proxy({},{get(t,k){__p(k);return undefined}}))'])};return [typeof r, r.x, r.revoke&&[r.revoke.length,r.revoke.name,r.revoke(),r.revoke()]]});`;
    return { src, nontrivial: (r) => r.act.out.length > 30 };
  },
};
