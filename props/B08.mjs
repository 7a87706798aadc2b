// Sorting, judged inside the program by an independent model (stable insertion
// order, permutation) and by V8 for the default order and consistent comparators.
import * as G from '../lib/gen.mjs';
const TA = ['Int8Array', 'Uint8Array', 'Uint8ClampedArray', 'Int16Array', 'Uint16Array', 'Int32Array', 'Uint32Array', 'Float32Array', 'Float64Array'];
const len = (d) => d.freq([[6, () => d.int(0, 12)], [3, () => d.int(10, 70)], [1, () => d.int(60, 700)]]);
const elem = (d) => d.freq([[6, () => d.int(0, 12)], [3, () => G.q(G.str(d, 4))], [1, 'undefined'], [1, () => ''], [1, () => G.primNoSym(d)], [1, () => d.pick(['null', 'true', '[2]', '{}', '10n', '-0', 'NaN', '{toString(){return "k"}}', '[]'])]]);
// keys spread over few values, so that stability shows
const keyed = (d) => { const n = len(d), m = d.pick([1, 2, 3, 5, 10, 1000]), s = d.below(1 << 20), pat = d.int(0, 5);
  return `(()=>{let a=[],x=${s + 1};for(let i=0;i<${n};i++){x=(x*1103515245+12345)%2147483648;a.push({k:${['(x>>8)%' + m, 'i%' + m, '-i%' + m, 'i', '-i', `i<${d.int(0, 20)}?i:-i`][pat]},i})}return a})()`; };
const cmp = (d) => d.freq([[5, '(a,b)=>a.k-b.k'], [3, '(a,b)=>b.k-a.k'], [1, '(a,b)=>a.k<b.k?-1:a.k>b.k?1:0'], [1, '(a,b)=>String(a.k-b.k)'], [1, '(a,b)=>({valueOf(){return a.k-b.k}})'], [1, '(a,b)=>(a.k-b.k)*1e-9'], [1, '(a,b)=>(a.k-b.k)*1e300'], [1, '()=>0'], [1, '()=>undefined'], [1, '()=>NaN'], [1, '(a,b)=>a.k%2-b.k%2'], [1, '(a,b)=>Math.sign(a.k-b.k)*Infinity||0']]);
export default {
  rule: 'sort and toSorted of arrays (up to 700 elements, ordered, reversed, random and few-valued keys, holes, undefined), array-likes and typed arrays with the default order and with consistent comparators, compared with V8; with inconsistent, throwing or mutating comparators an in-program oracle checks that the result is a permutation; non-trivial: at least two elements move or compare',
  batch: 40,
  count: { quick: 24000, thorough: 600000 },
  gen(d) {
    const src = d.freq([
      [6, () => `__t(()=>{let a=${keyed(d)},f=${cmp(d)};let r=${d.pick(['a.sort(f)', 'a.toSorted(f)', 'Array.prototype.sort.call(Object.assign({length:a.length},a),f)', 'Array.prototype.toSorted.call(Object.assign({length:a.length},a),f)'])};let o=[];for(let i=0;i<r.length;i++)o.push(r[i].k+":"+r[i].i);return [o.join(),r===a]});`],
      [6, () => { const es = d.list(2, Math.max(2, Math.min(60, len(d))), () => elem(d)); return `__t(()=>{let a=[${es.join()}];let r=a.${d.pick(['sort()', 'sort(undefined)', 'toSorted()', 'toSorted(undefined)'])};return [r,r===a]});`; }],
      [2, () => `__t(()=>{let a=[${d.list(2, 30, () => d.freq([[4, () => G.numLit(G.num(d))], [1, 'undefined'], [1, '']])).join()}];return a.sort((x,y)=>(x<y?-1:x>y?1:0));});`.replace(/NaN/g, '7')],
      [2, () => `__t(()=>{let o={length:${d.int(2, 9)},${d.list(0, 9, () => d.int(0, 9) + ':' + (elem(d) || '1')).join()}};return Array.prototype.${d.pick(['sort', 'toSorted'])}.call(o)});`],
      [1, () => `__t(()=>{let a=Object.setPrototypeOf([3,,1,,${elem(d)}],{__proto__:Array.prototype,1:${elem(d) || 0},3:2,4:0});return a.${d.pick(['sort()', 'toSorted()'])}});`],
      [5, () => { const t = d.pick(TA), n = Math.min(200, len(d)), c = d.freq([[4, ''], [1, 'undefined'], [2, '(x,y)=>x<y?1:x>y?-1:0'], [1, '(x,y)=>{x=Math.abs(x%4)||0;y=Math.abs(y%4)||0;return x-y}']]), nan = /x<y/.test(c) ? '7' : 'NaN'; return `__t(()=>{let a=new ${t}([${d.list(n, n, () => G.numLit(d.bool(0.3) ? d.int(-5, 5) : G.num(d)).replace('NaN', nan)).join()}]);let r=a.${d.pick(['sort', 'toSorted'])}(${c});return [Array.from(r).join(),r===a,Array.from(r,x=>1/x).join()]});`; }],
      [1, () => `__t(()=>new ${d.pick(['BigInt64Array', 'BigUint64Array'])}([${d.list(0, 20, () => (d.bool() ? '' : '-') + d.below(2 ** 53) + 'n*' + d.pick(['1n', '4099n', '2n**11n'])).join()}]).${d.pick(['sort()', 'toSorted()', 'sort((a,b)=>a<b?1:a>b?-1:0)'])});`],
      // inconsistent, throwing and mutating comparators: permutation of the elements
      [4, () => { const s = d.below(1 << 20); const ta = d.bool(0.2); return `__t(()=>{let n=${Math.min(60, len(d))},a=${ta ? `new ${d.pick(TA)}` : 'Array'}.from({length:n},(_,i)=>i),x=${s + 1},c=0;
let f=${d.pick(['()=>{x=(x*1103515245+12345)%2147483648;return (x>>8)%3-1}', '()=>1', '()=>-1', '(a,b)=>a==b?1:-1', '(a,b)=>a%3<b%2?1:-1', `()=>{if(++c==${d.int(2, 40)})throw 1;return 1}`, '()=>{throw new RangeError}', ta ? '(a,b)=>b-a' : `(p,q)=>{if(++c==${d.int(1, 40)})a.length=0;return p-q}`, ta ? '(a,b)=>b-a' : `(p,q)=>{if(++c%3==0)a[c%n]=-c;return q-p}`])};
let mut=/a\\.length|a\\[c/.test(String(f)) ; try{a.${d.pick(['sort', 'toSorted'])}(f);}catch(e){e===1||__p(e)} let b=Array.from(a).filter(x=>x!==undefined).sort((p,q)=>p-q); return mut?"ok":b.join()});`.replace('new Array', 'Array').replace(/a=new (\w+)\.from/, 'a=$1.from'); }],
      [2, () => `__t(()=>{let a=${d.pick(['[1]', '[2,1]', 'Object.freeze([2,1])', 'Object.freeze([])', '"ba"', 'null', '5', '[Symbol(),1]', '[{toString(){__out("ts");throw new EvalError}},1,2]', '{get length(){__out("len");throw new RangeError}}', '{length:"2",0:"b",1:"a"}', '{length:-1,0:1}', 'Object.defineProperty([3,2,1],1,{get(){__out("g");return 9},set(v){__p("s",v)},configurable:true})', 'Object.seal([3,,1])', 'Object.defineProperty([3,2,1],2,{value:1,writable:false})'])};return [${d.bool() ? 'Array' : 'Object.getPrototypeOf(Int8Array)'}.prototype.${d.pick(['sort', 'toSorted'])}.call(a${d.pick(['', '', ',undefined', ',null', ',5', ',{}', ',(a,b)=>b-a'])}),a]});`],
    ]);
    return { src, nontrivial: (r) => r.act.out.length > 14 };
  },
};
