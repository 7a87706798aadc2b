import * as G from '../lib/gen.mjs';
// keys: a pool of few values that are equal, nearly equal or different under SameValueZero
const KEYS = ['0', '-0', 'NaN', '0/0', '1', '"1"', '1n', '2n-1n', 'true', '"a"', '"a"+""', '"ab".slice(0,1)', 'undefined', 'null', 'S', 'Symbol.for("k")', 'o1', 'o2', '""', '1.5', '3/2', '2**31', '-1', '"NaN"', 'Infinity', '2**53', '123456789012345678901234567890n', '10n**20n', '"\\u{1F600}"', '"\\ud83d"+"\\ude00"', 'f1', 'o1', '4294967296', '"undefined"', '[]', '2', '3', '4', '5', '6', '7'];
const key = (d) => d.freq([[6, () => d.pick(KEYS)], [3, () => String(d.int(0, 12))], [1, () => `"k${d.int(0, 9)}"`]]);
const v = (d) => d.freq([[6, () => String(d.int(0, 99))], [1, () => key(d)], [1, () => d.pick(['M', 'undefined', '"v"'])]]);
const body = (d, mapish, depth) => d.bool(0.5) ? `if(n++==${d.int(0, 5)}){${d.list(1, 3, () => stmt(d, mapish, depth - 1)).join('')}}` : d.bool(0.3) ? `if(n++>${d.int(0, 4)})throw new RangeError("q");` : d.list(0, 2, () => `if(n++<${d.int(3, 9)})` + mut(d, mapish)).join('');
const mut = (d, mp) => d.freq([[4, () => mp ? `M.set(${key(d)},${v(d)});` : `M.add(${key(d)});`], [4, () => `M.delete(${key(d)});`], [1, 'M.clear();'], [1, () => `M.delete(k);`], [1, () => mp ? 'M.set(k,n);' : 'M.delete(k);M.add(k);']]);
function stmt(d, mp, depth) {
  return d.freq([
    [8, () => mp ? `__p(M.set(${key(d)},${v(d)})===M);` : `__p(M.add(${key(d)})===M);`],
    [5, () => `__p(M.delete(${key(d)}));`], [3, () => `__p(M.has(${key(d)}));`], [mp ? 3 : 0, () => `__p(M.get(${key(d)}));`],
    [1, '__p(M.size);'], [1, () => d.bool(0.4) ? 'M.clear();' : '__p([...M]);'], 
    [4, () => `try{I[${d.int(0, 2)}]=M.${d.pick(['keys', 'values', 'entries', '[Symbol.iterator]'])}()}catch(e){__p(e)}`.replace('M.[', 'M[')],
    [6, () => `__p(I[${d.int(0, 2)}].next());`],
    [depth > 0 ? 3 : 0, () => `{let n=0;try{M.forEach(function(x,k,m){__p(x,k,m===M,this===T);${body(d, mp, depth)}}${d.bool(0.5) ? ',T' : ''})}catch(e){__p("t",e)}}`],
    [depth > 0 ? 3 : 0, () => `{let n=0;try{for(let k of M${d.pick(['', '', '.keys()', '.values()', '.entries()'])}){${mp ? 'if(Array.isArray(k)&&k.length==2)k=k[0];' : ''}__p(k);if(n>40)break;${body(d, mp, depth)}}}catch(e){__p("t",e)}}`],
    [1, () => `M2=new ${mp ? 'Map' : 'Set'}(M);__p(M2.size);`],
    // many entries, so that the table grows and shrinks
    [1, () => { const n = d.freq([[3, () => d.int(10, 60)], [1, () => d.int(10, 300)]]), s = d.int(1, 9); return `for(let i=0;i<${n};i++){${mp ? `M.set(${d.pick(['i', '"s"+i', 'i*1.5', '-i', 'BigInt(i)'])},i)` : `M.add(${d.pick(['i', '"s"+i', 'i*1.5', '-i'])})`}}${d.bool() ? `for(let i=0;i<${n};i+=${s}){M.delete(${d.pick(['i', '"s"+i'])})}` : ''}__p(M.size);`; }],
  ]);
}
const iterable = (d, mp) => d.freq([
  [5, () => mp ? `[${d.list(0, 5, () => `[${key(d)},${v(d)}]`).join()}]` : `[${d.list(0, 7, () => key(d)).join()}]`],
  [1, () => d.pick(['undefined', 'null', '', '"abc"', '5', '{}', '[1]', '[[1]]', '[undefined]', '[{0:1,1:2}]', 'new Map([[1,2],[3,4]])', 'new Set([1,2,1])', '["ab","cd"]', '[,]', '[Object("xy")]'])],
  [2, () => `{[Symbol.iterator](){__out("it");let i=0;return {next(){__out("n");${d.bool(0.15) ? `if(i==${d.int(0, 2)})throw new EvalError("n");` : ''}return ${d.freq([[5, `{get done(){__out("d");${d.bool(0.1) ? 'throw new EvalError("d");' : ''}return i>=${d.int(0, 3)}},get value(){__out("v");${d.bool(0.1) ? 'throw new EvalError("vv");' : ''}return ${mp ? d.pick(['[i++,"x"]', '[i++,"x"]', '{get 0(){__out("0");return i++},get 1(){__out("1");' + (d.bool(0.3) ? 'throw new EvalError("1");' : '') + 'return 7}}', 'i++']) : 'i++'}}}`], [1, '5']])}},return(){__out("ret");${d.pick(['return {}', 'return 5', 'throw new URIError("r")', 'return {}'])}}}}}`],
]);
export default {
  rule: 'histories of 3 to 25 operations on a Map or Set over a pool of keys equal or nearly equal under SameValueZero, with up to three live iterators, forEach and for-of loops whose bodies add, delete and clear, and construction from iterables that fail at every step; non-trivial: output longer than 30 characters',
  batch: 40,
  count: { quick: 16000, thorough: 600000 },
  gen(d) {
    const mp = d.bool(), C = mp ? 'Map' : 'Set';
    const src = d.freq([
      [9, () => `__t(()=>{let S=Symbol("s"),o1={},o2={},f1=function(){},T={},M2,M=new ${C}(${d.bool(0.5) ? '' : iterable(d, mp).replace(/^\{.*/, '')}),I=[M.keys(),M.values(),M.entries()];${d.list(3, 25, () => stmt(d, mp, 2)).join('')}return [M,[...I[0]],[...I[1]],[...I[2]],M.size]});`],
      [4, () => `__t(()=>{let S=Symbol("s"),o1={},o2={},f1=function(){},M;${d.bool(0.2) ? d.pick([`let old=${C}.prototype.${mp ? 'set' : 'add'};`]) + `try{${C}.prototype.${mp ? 'set' : 'add'}=${d.pick(['function(...a){__p("add",...a);return old.apply(this,a)}', 'function(a){__p("add",a);throw new EvalError("a")}', '5', 'undefined'])};` : 'let old;try{'}return ${d.bool(0.95) ? 'new ' : ''}${C}(${iterable(d, mp)})}finally{if(old)${C}.prototype.${mp ? 'set' : 'add'}=old}});`],
      [1, () => `__t(()=>${C}.prototype.${d.pick(mp ? ['get', 'set', 'has', 'delete', 'clear', 'keys', 'entries', 'forEach', 'values'] : ['add', 'has', 'delete', 'clear', 'values', 'entries', 'forEach', 'keys'])}.call(${d.pick(['{}', 'undefined', '5', 'new Map([[1,2]])', 'new Set([1])', 'new WeakMap', 'Map.prototype', 'Object.create(new Map)', 'new Proxy(new Set,{})'])}${d.bool() ? ',1' : ''}));`],
      [1, () => `__t(()=>new ${C}([${mp ? '[1,2]' : '1'}]).forEach(${d.pick(['', '5', 'undefined', '{}', '(...a)=>{__p(a.length,a[0],a[1],a[2] instanceof ' + C + ')}'])}));`],
      [1, () => `__t(()=>{class K extends ${C}{constructor(i){super(i);this.z=1}${mp ? 'set(k,v){__p("set",k,v,this.z);return super.set(k,v)}' : 'add(k){__p("add",k,this.z);return super.add(k)}'}};let k=new K(${iterable(d, mp).replace(/S|o1|o2|f1|M/g, '7')});return [k.size,k instanceof K,k[Symbol.toStringTag],[...k]]});`],
      [1, () => `__t(()=>{let i=new ${C}([${mp ? '[1,2],[3,4]' : '1,2'}]).${d.pick(['keys', 'values', 'entries'])}();return ${d.pick(['Object.getPrototypeOf(i).next.call({})', 'Object.getPrototypeOf(i).next.call(new Map().keys())', 'Object.getPrototypeOf(i).next.call(new Set().keys())', 'Object.getPrototypeOf(i).next.call([].keys())', 'i[Symbol.toStringTag]', 'i[Symbol.iterator]()===i', '[i.next(),i.next(),i.next(),i.next()]', 'Reflect.ownKeys(Object.getPrototypeOf(i))'])}});`],
      [1, () => `__t(()=>[${C}[Symbol.species]===${C},${C}.prototype[Symbol.iterator]===${C}.prototype.${mp ? 'entries' : 'values'},${C}.prototype.keys===${C}.prototype.values,Object.getOwnPropertyDescriptor(${C}.prototype,"size").get.call(${d.pick(['new Map([[1,1]])', 'new Set([1])', '{}', '5'])})]);`],
    ]);
    return { src, nontrivial: (r) => r.act.out.length > 30 };
  },
};
