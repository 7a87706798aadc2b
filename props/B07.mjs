import * as G from '../lib/gen.mjs';
const E = (d) => d.freq([[6, () => d.int(0, 5)], [3, () => G.q(d.pick(['a', 'b', 'c', '']))], [1, 'undefined'], [1, 'NaN'], [1, '-0'], [1, 'null'], [1, () => `[${d.list(0, 3, () => d.int(0, 3))}]`], [1, () => G.prim(d)], [1, '{}']]);
const hole = (d, p = 0.15) => d.bool(p) ? '' : E(d);
const pos = (d) => d.freq([[10, () => String(d.int(-4, 8))], [1, () => d.pick(['undefined', 'NaN', 'Infinity', '-Infinity', '1.9', '"1"', '-0', '2**53', '-(2**53)', '2**32', 'null', 'true'])], [1, () => `{valueOf(){__out("pos");${d.bool(0.4) ? mut(d) + ';' : ''}return ${d.int(-2, 5)}}}`]]);
// a statement that changes the array A
const mut = (d) => d.pick(['A.length=0', 'A.length=2', 'A.push(7)', 'A.pop()', 'delete A[1]', 'delete A[2]', 'A[3]="n"', 'A.shift()', 'A.unshift(8)', 'A.reverse()', 'A[0]={}', 'Object.defineProperty(A,2,{get(){__out("g2");return 9},configurable:true})', 'A.splice(1,1)', 'A.length=6']);
const many = (d, n, f) => d.list(0, n, f).join();
function receiver(d) {
  const arr = () => '[' + d.list(0, 7, () => hole(d)).join(',') + ']';
  return d.freq([
    [12, () => arr()],
    [1, () => `(()=>{let a=${arr()}; a.length=${d.int(0, 10)}; return a})()`],
    [1, () => `(()=>{let a=${arr()}; a[${d.int(10, 40)}]=1; return a})()`],
    [1, () => `(()=>{let a=${arr()}; a.x=1; Object.defineProperty(a,${d.int(0, 3)},{get(){__out("get");return ${E(d)}},${d.bool() ? 'set(v){__p("set",v)},' : ''}configurable:${d.bool()},enumerable:true}); return a})()`],
    [1, () => `(()=>{let a=${arr()}; Object.defineProperty(a,${d.int(0, 4)},{value:${E(d)},writable:${d.bool()},configurable:${d.bool()},enumerable:${d.bool()}}); return a})()`],
    [1, () => `Object.${d.pick(['freeze', 'seal', 'preventExtensions'])}(${arr()})`],
    [1, () => `(()=>{let a=${arr()}; Object.defineProperty(a,"length",{writable:false}); return a})()`],
    [2, () => `__px(${arr()})`],
    [2, () => `({${d.list(0, 5, () => d.int(0, 5) + ':' + E(d)).concat(d.bool(0.9) ? ['length:' + d.freq([[8, () => d.int(0, 6)], [1, () => d.pick(['"3"', '2.7', '-1', 'NaN', 'null', '{valueOf(){__out("len");return 3}}'])]])] : []).join()}})`],
    [1, () => `__px({${d.list(0, 5, () => d.int(0, 5) + ':' + E(d)).concat(['length:' + d.int(0, 5)]).join()}})`],
    [1, () => `({0:1,1:2,[2**53-2]:"z",[2**53-3]:"y",length:${d.pick(['2**53-1', '2**53-2', '2**53', 'Infinity'])},huge:1})`],
    [1, () => `(function(){return arguments})(${many(d, 5, () => E(d))})`],
    [1, () => `Object.setPrototypeOf(${arr()},{__proto__:Array.prototype,1:"p1",4:"p4"})`],
    [1, () => `new (class X extends Array{${d.bool() ? `static get [Symbol.species](){__out("species");return ${d.pick(['Array', 'undefined', 'null', 'X', 'function(n){__p("C",n);return []}', 'function(n){__p("C",n);return {length:9}}', 'Object', '5', 'function(n){return Object.freeze([])}', 'function(n){return __px([])}'])}}` : ''}})(${many(d, 4, () => E(d)) || '0'})`],
    [1, () => `Object.assign(${arr()},{constructor:${d.pick(['undefined', 'null', '5', '{[Symbol.species]:null}', '{[Symbol.species]:undefined}', '{}', 'Object', 'Array'])}})`],
    [1, () => G.q(G.str(d))],
    [1, () => G.val(d, 1)],
  ]);
}
const cb = (d, n) => d.freq([
  [4, () => `(${['x', 'i', 'o'].slice(0, n).join()})=>x===${E(d)}`], [3, () => `x=>x>${d.int(0, 3)}`], [3, () => '(x,i)=>i%2==0'], [2, () => '(...a)=>{__p(...a.slice(0,2),a.length,a[a.length-1]===A);return a[0]}'],
  [2, () => `function(x,i){__p(this===T);${d.bool(0.6) ? `if(i==${d.int(0, 2)}){${mut(d)}}` : ''};return ${d.pick(['x', 'i', '[x,[i]]', 'true', 'false', 'x==1'])}}`],
  [3, () => `(x,i)=>{if(i==${d.int(0, 3)}){${mut(d)}};return ${d.pick(['x', 'i', '[x,i]', 'true', 'false', 'i<2'])}}`],
  [1, () => `(x,i)=>{if(i==${d.int(0, 3)})throw new RangeError;return true}`], [1, () => d.pick(['undefined', 'null', '{}', '5', 'Math.abs', 'Boolean'])],
]);
const ta = (d) => d.bool(0.4) ? ',T' : '';
function method(d) {
  return d.freq([
    [3, () => d.pick(['concat']) + `(${many(d, 3, () => d.freq([[3, () => E(d)], [3, () => receiver(d)], [1, () => `{length:${d.int(0, 3)},0:"s",1:"t",[Symbol.isConcatSpreadable]:${d.pick(['true', 'false', 'undefined', '1'])}}`], [1, () => `Object.assign([1,2],{[Symbol.isConcatSpreadable]:${d.pick(['true', 'false', 'undefined'])}})`]]))})`],
    [3, () => d.pick(['slice']) + `(${d.list(0, 2, () => pos(d))})`],
    [4, () => `splice(${d.list(0, 2, () => pos(d)).concat(d.bool(0.7) ? [pos(d), ...d.list(0, 4, () => E(d))].slice(0) : []).join()})`],
    [2, () => `toSpliced(${d.list(0, 2, () => pos(d)).concat(d.list(0, 3, () => E(d))).join()})`],
    [2, () => `copyWithin(${d.list(1, 3, () => pos(d))})`],
    [2, () => `fill(${[E(d)].concat(d.list(0, 2, () => pos(d))).join()})`],
    [2, () => d.pick(['indexOf', 'lastIndexOf', 'includes']) + `(${E(d)}${d.bool(0.5) ? ',' + pos(d) : ''})`],
    [2, () => `push(${many(d, 3, () => E(d))})`], [2, () => `unshift(${many(d, 3, () => E(d))})`], [2, 'pop()'], [2, 'shift()'], [2, 'reverse()'], [1, 'toReversed()'],
    [1, () => `at(${pos(d)})`], [2, () => `with(${pos(d)},${E(d)})`],
    [2, () => `join(${d.bool() ? '' : d.pick(['"-"', 'undefined', '""', 'null', '1', '{toString(){__out("sep");return "+"}}'])})`], [1, 'toString()'],
    [6, () => d.pick(['map', 'filter', 'forEach', 'some', 'every', 'find', 'findIndex', 'findLast', 'findLastIndex', 'flatMap']) + `(${cb(d, 3)}${ta(d)})`],
    [3, () => d.pick(['reduce', 'reduceRight']) + `(${d.freq([[2, () => '(a,x)=>a+","+x'], [2, () => '(...a)=>{__p(...a.slice(0,3));return a[1]}'], [2, () => `(a,x,i)=>{if(i==${d.int(0, 3)}){${mut(d)}};return a+"|"+x}`], [1, () => cb(d, 3)]])}${d.bool() ? ',' + E(d) : ''})`],
    [2, () => `flat(${d.bool() ? '' : pos(d)})`],
    [2, () => d.pick(['keys', 'values', 'entries', '[Symbol.iterator]']) + '()'],
    [1, 'sort()'],
  ]);
}
const callOn = (m, r) => { const i = m.indexOf('('), n = m.slice(0, i), args = m.slice(i + 1, -1); return `Array.prototype${n[0] === '[' ? n : '.' + n}.call(${r}${args ? ',' + args : ''})`; };
const isIt = (m) => /^(keys|values|entries|\[S)/.test(m);
const isHuge = (m) => /^(splice|slice|push|pop|at|with|indexOf|lastIndexOf|includes)\(/.test(m);
function one(d) {
  let r = receiver(d), m = method(d);
  if (m === 'sort()' && r[0] !== '[') m = 'reverse()'; // V8 leaves receivers with one element alone
  if (/huge:1/.test(r)) { r = `({0:1,1:2,[2**53-2]:"z",[2**53-3]:"y",length:${d.pick(['2**53-1', '2**53-2', '2**53', 'Infinity'])}})`; m = d.pick([`splice(2**53-${d.int(1, 5)},${d.int(0, 4)}${d.bool() ? ',"i"' : ''})`, 'push(1)', 'push()', 'push(1,2)', 'pop()', `at(${d.pick([-1, -2, 0])})`, 'indexOf("z",2**53-4)', 'lastIndexOf("y",-1)', `includes("z",-${d.int(1, 3)})`, 'slice(-3,-1)', 'unshift()', 'toSpliced(0,0)', 'with(0,1)', 'toReversed()', 'toSorted()', 'fill(1,-2)', 'copyWithin(-2,-3)', 'concat()', 'findLast(x=>x=="y")', 'findLastIndex(x=>x=="z"||x=="y")']); if (m === 'concat()' ) r = 'Object.assign(' + r + ',{})'; }
  if (/2\*\*3|2\*\*5|Infinity/.test(m) && /^(fill|copyWithin)/.test(m) && 0) m = 'at(0)';
  const strictNote = d.bool(0.2) ? '"use strict";' : '';
  if (isIt(m)) return `__t(()=>{let A=${r},R=[]; let it=${callOn(m, 'A')}; for(let n=0;n<9;n++){let x=it.next();if(x.done)break;R.push(x.value);if(n==${d.int(0, 4)}){${mut(d)}}} return [R,it.next(),it.next()]});`;
  return `__t(()=>{${strictNote}let T={},A=${r}; let R; try{R=${d.bool(0.5) && /^\[|^__px\(\[/.test(r) ? 'A' + (m[0] === '[' ? m : '.' + m) : callOn(m, 'A')};}catch(e){__p("throws",e)} return [R===A?"same":R,A]});`;
}
export default {
  rule: 'one Array method, static function, length assignment or iteration per case over dense, sparse, accessor, frozen, inherited, array-like, near-2^53, arguments, subclass, species and tracing-proxy receivers, with index arguments of any type and callbacks that mutate the receiver, or a history of 4 to 10 methods on one array; non-trivial: output longer than 20 characters',
  batch: 60,
  count: { quick: 60000, thorough: 1500000 },
  gen(d) {
    const src = d.freq([
      [14, () => one(d)],
      [2, () => { // history on one array
        const ms = d.list(4, 10, () => { let m; do m = method(d); while (0); return isIt(m) ? `__p([...A.${m.replace('.[', '[').replace('[Symbol.iterator]', 'values')}])` : /^toLocale/.test(m) ? '0' : d.bool(0.3) ? `(${mut(d)})` : `__p(A.${m})`; });
        return `__t(()=>{let T={},A=[${d.list(0, 6, () => hole(d))}]; ${ms.map((m) => `try{${m}}catch(e){__p("t",e)};__p(A);if(A.length>60)A.length=5;`).join('')}});`;
      }],
      [2, () => { // sparse and dense storage: the vector and tree representations
        const ix = () => d.freq([[4, () => d.int(0, 6)], [3, () => d.int(0, 40)], [1, () => d.int(0, 3000)], [1, () => d.pick([4294967294, 65536, 1 << 20])]]);
        const o = () => d.freq([[6, () => `A[${ix()}]=${d.int(0, 9)}`], [3, () => `delete A[${ix()}]`], [3, () => `A.length=${ix()}`], [1, () => 'A.length=0'], [2, () => 'if(A.length<5000)A.push(1,2,3)'], [1, () => 'if(A.length<5000)A.reverse()'], [1, () => `if(A.length<5000)A.fill(5,0,${ix()})`], [1, () => `Object.defineProperty(A,${ix()},{get(){return 1},configurable:${d.bool(0.7)}})`], [1, () => `for(let i=0;i<${d.int(0, 40)};i++)A[i]=i`], [1, () => `for(let i=${d.int(0, 40)};i-->0;)delete A[i]`], [1, () => 'if(A.length<5000)A.shift()'], [1, () => 'if(A.length<5000)A.unshift(8)'], [1, () => 'if(A.length<5000)A.splice(2,2)']]);
        return `__t(()=>{let A=${d.pick(['[]', '[1,2,3]', '[,,5]'])}; ${d.list(4, 14, () => `try{${o()}}catch(e){__p(e)};`).join('')} __p(A); return [Object.keys(A).slice(0,40),${d.list(1, 3, ix).map((x) => `A[${x}],${x} in A`).join()}]});`;
      }],
      [2, () => `__t(()=>{let T={},A=[1,2,3]; return Array.from${d.bool(0.3) ? '.call(' + d.pick(['Object', 'Array', 'function(...a){__p("C",...a);this.l=1}', 'undefined', 'Math.abs', 'class{set 0(v){__p("s0",v)}}', 'class{constructor(){return Object.freeze([])}}']) + ',' : '('}${d.freq([[3, () => receiver(d).replace(/.*huge.*/, '[1]')], [1, () => G.val(d, 1)], [1, () => `{[Symbol.iterator](){let i=0;return{next(){__out("next");return{done:i>=${d.int(0, 4)},value:i++}},return(){__out("return");return{}}}}}`], [1, () => `new Set([1,2])`], [1, () => `{[Symbol.iterator]:${d.pick(['null', 'undefined', '5', '()=>5', '{}'])},length:2,0:"a"}`]])}${d.bool() ? ',' + cb(d, 2) + ta(d) : ''})});`],
      [1, () => `__t(()=>Array.of${d.bool(0.4) ? '.call(' + d.pick(['Object', 'function(...a){__p("C",...a)}', 'undefined', 'class{constructor(){return Object.freeze({length:1})}}']) + ',' : '('}${many(d, 4, () => E(d))}));`.replace('(,', '(').replace(',)', ')')],
      [1, () => `__t(()=>[${d.bool() ? 'new ' : ''}Array(${d.freq([[3, () => many(d, 3, () => E(d))], [2, () => d.pick(['0', '3', '2**32-1', '2**32', '-1', '1.5', '"3"', 'NaN', 'new Number(2)', 'true', 'null', '-0'])]])})]);`],
      [1, () => `__t(()=>[Array.isArray(${receiver(d).replace(/.*huge.*/, '[1]')}), Array.isArray(new Proxy([],{}))]);`],
      [3, () => { // length
        const v = d.pick(['0', '1', '2', '3', '5', '"2"', '2**32-1', '2**32', '-1', '1.5', 'NaN', 'null', 'true', '{valueOf(){__out("v");return 2}}', '{valueOf(){__out("v");A[6]=1;return 3},toString(){__out("t");return 1}}', '2**31', '4294967294', '"x"', '1n']);
        const r = receiver(d).replace(/.*huge.*/, '[1,2,3]');
        return `__t(()=>{${d.bool(0.5) ? '"use strict";' : ''}let A=${r}; try{ ${d.pick([`A.length=${v}`, `__p(Reflect.defineProperty(A,"length",{value:${v}${d.bool(0.3) ? ',writable:false' : ''}${d.bool(0.2) ? ',enumerable:' + d.bool() : ''}${d.bool(0.2) ? ',configurable:' + d.bool() : ''}}))`, `__p(Reflect.set(A,"length",${v}))`, `Object.defineProperty(A,"length",{value:${v}${d.bool(0.3) ? ',writable:false' : ''}})`])}; }catch(e){__p(e)} ${d.bool(0.4) ? `try{ A[${d.pick([0, 2, 5, 4294967294, 4294967295, '"01"', 7])}]=1; A.push(2)}catch(e){__p(e)}` : ''} return A});`;
      }],
      [1, () => `__t(()=>[${many(d, 4, () => d.freq([[3, () => `{toLocaleString(){__p("tl");return ${E(d)}}}`], [1, () => G.q(d.pick(['a', 'b']))], [1, 'null'], [1, ''], [1, '{toLocaleString:null}']]))}].toLocaleString());`],
      [1, () => `__t(()=>{let A=${receiver(d).replace(/.*huge.*/, '[1]')}; let [a,b,...c]=A; return [a,b,c,[...A,0]]});`],
    ]);
    return { src, nontrivial: (r) => r.act.out.length > 20, excluded: 0 };
  },
};
