import * as G from '../lib/gen.mjs';
const NT = ['Int8', 'Uint8', 'Uint8Clamped', 'Int16', 'Uint16', 'Int32', 'Uint32', 'Float32', 'Float64'], BT = ['BigInt64', 'BigUint64'];
const SIZE = { Int8: 1, Uint8: 1, Uint8Clamped: 1, Int16: 2, Uint16: 2, Int32: 4, Uint32: 4, Float32: 4, Float64: 8, BigInt64: 8, BigUint64: 8 };
const typ = (d) => d.freq([[9, () => d.pick(NT)], [2, () => d.pick(BT)]]);
const isB = (t) => t.startsWith('Big');
const big = (d) => d.freq([[5, () => d.int(-9, 300) + 'n'], [2, () => (d.bool() ? '-' : '') + '(2n**' + d.int(30, 70) + 'n+' + d.int(0, 9) + 'n)']]);
const numv = (d) => d.freq([[6, () => G.numE(G.num(d))], [1, () => G.primNoSym(d)], [1, () => `{valueOf(){__out("v");${d.bool(0.4) ? mut(d) + ';' : ''}return ${d.int(0, 300)}}}`]]);
const val = (d, t) => d.bool(0.03) ? G.val(d, 1) : isB(t) ? (d.bool(0.08) ? d.pick(['"12"', 'true', '"x"', '5', 'undefined', '{valueOf(){__out("v");return 3n}}']) : big(d)) : d.bool(0.03) ? '1n' : numv(d);
const pos = (d) => d.freq([[10, () => String(d.int(-4, 9))], [1, () => d.pick(['undefined', 'NaN', 'Infinity', '-Infinity', '1.9', '"1"', '-0', '2**53', 'null', 'true', '-1.5'])], [1, () => `{valueOf(){__out("p");${d.bool(0.5) ? mut(d) + ';' : ''}return ${d.int(-2, 5)}}}`]]);
const mut = (d) => d.pick(['__detach(B)', '__detach(B)', 'A[0]=7', 'A[1]=9', 'U.fill(3)', '__detach(C.buffer)', 'U[2]=255']);
const many = (d, lo, hi, f) => d.list(lo, hi, f).join();
const ctorArg = (d, t) => d.freq([
  [5, () => `[${many(d, 0, 8, () => val(d, t))}]`],
  [2, () => String(d.int(0, 8))],
  [3, () => { const s = SIZE[t]; return `B${d.bool(0.7) ? ',' + d.freq([[5, () => d.int(0, 3) * s], [1, () => pos(d)]]) + (d.bool(0.6) ? ',' + d.freq([[5, () => d.int(0, 3)], [1, () => pos(d)]]) : '') : ''}`; }],
  [2, () => `new ${typ(d)}Array([${many(d, 0, 5, () => d.int(0, 300))}])`.replace(/new (Big\w+)\(\[(.*)\]\)/, (_, a, b) => `new ${a}([${b.split(',').filter((x) => x).map((x) => x + 'n')}])`)],
  [1, () => `{length:${d.int(0, 4)},0:${val(d, t)},2:${val(d, t)}}`], [1, () => `{[Symbol.iterator]:function*(){yield ${val(d, t)};yield* [${val(d, t)}]}}`], [1, () => `new Set([1,2,3])`], [1, () => `"123"`],
  [1, () => d.pick(['', 'undefined', 'null', '-1', '1.5', '"3"', 'Symbol()', '{}', '2**53', 'NaN', 'new SharedArrayBuffer(16)', '{valueOf(){return 3}}', '{[Symbol.iterator]:5}', '{[Symbol.iterator]:null,length:1}', '{length:-1}'])],
]);
const cb = (d, t) => d.freq([
  [4, () => d.pick(['(x,i)=>i%2==0', 'x=>x>3', '(x,i)=>i==2', '(x,i)=>i', 'x=>x', '()=>false', '()=>true'])],
  [2, () => '(...a)=>{__p(...a.slice(0,2),a.length,a[a.length-1]===A);return a[0]}'],
  [3, () => `function(x,i){__p(this===T,x);if(i==${d.int(0, 3)}){${mut(d)}};return ${d.pick(['x', 'i', 'true', 'false', val(d, t)])}}`],
  [1, () => d.pick(['undefined', 'null', '{}', '5', '(x,i)=>{if(i==1)throw new RangeError}'])],
]);
const callback = ['map', 'filter', 'forEach', 'some', 'every', 'find', 'findIndex', 'findLast', 'findLastIndex'];
function method(d, t) {
  return d.freq([
    [3, () => `slice(${many(d, 0, 2, () => pos(d))})`], [3, () => `subarray(${many(d, 0, 2, () => pos(d))})`],
    [3, () => `fill(${[val(d, t), ...d.list(0, 2, () => pos(d))].join()})`.replace(/,undefined,/, ',0,')], [4, () => `copyWithin(${many(d, 1, 3, () => pos(d))})`],
    [5, () => `set(${d.freq([[3, () => `[${many(d, 0, 4, () => val(d, t))}]`], [3, () => 'C'], [1, () => 'U'], [2, () => `new ${typ(d)}Array(B${d.bool() ? ',8' : ''})`], [1, () => `A.subarray(${d.int(0, 2)},${d.int(1, 5)})`], [1, () => `{length:2,0:${val(d, t)},get 1(){__out("g1");${mut(d)};return ${val(d, t)}}}`], [1, () => d.pick(['5', 'null', '"12"', 'undefined'])]])}${d.bool() ? ',' + pos(d) : ''})`],
    [2, () => d.pick(['indexOf', 'lastIndexOf', 'includes']) + `(${val(d, t)}${d.bool(0.5) ? ',' + pos(d) : ''})`],
    [1, 'reverse()'], [1, 'toReversed()'], [2, () => `at(${pos(d)})`], [2, () => `with(${d.pick(['0', '1', '-1', '2', '9', '-9', 'undefined', '1.5', '"1"'])},${isB(t) ? big(d) : d.int(-9, 300)})`],
    [1, () => `join(${d.pick(['', '"-"', 'undefined', '{toString(){__out("j");__detach(B);return "+"}}'])})`], [1, 'toString()'],
    [6, () => d.pick(callback) + `(${cb(d, t)}${d.bool(0.3) ? ',T' : ''})`],
    [2, () => d.pick(['reduce', 'reduceRight']) + `(${d.pick(['(a,x)=>a+","+x', '(...a)=>{__p(...a.slice(0,3));return a[1]}', `(a,x,i)=>{if(i==1){${mut(d)}};return a+"|"+x}`])}${d.bool() ? ',' + val(d, t) : ''})`],
    [1, () => `sort(${d.pick(['', 'undefined', '(a,b)=>a<b?1:a>b?-1:0', '5', `(a,b)=>{${mut(d)};return 0}`])})`.replace(/sort\(\(a,b\)=>\{(?!__d).*/, 'sort()')],
    [2, () => d.pick(['keys', 'values', 'entries']) + '()'],
    [1, () => d.pick(['length', 'byteLength', 'byteOffset', 'BYTES_PER_ELEMENT', '[Symbol.toStringTag]', 'buffer===B'])],
  ]);
}
const key = (d) => d.freq([[5, () => String(d.int(0, 6))], [3, () => d.pick(['"-0"', '-1', '1.5', '"1.0"', '"+1"', '"01"', 'NaN', 'Infinity', '"Infinity"', '"-Infinity"', '1e3', '"1e3"', '4294967295', '4294967296', '2**53', '"abc"', '"length"', 'Symbol.iterator', '""', '"0 "', '"9007199254740993"', '1e21', '"1e+21"', '"1e21"', '"0.0000001"', '1e-7', '"NaN"', '"-NaN"', '"1n"', '"0x1"'])]]);
function elemOp(d, t) {
  const k = key(d), v = val(d, t), sv = isB(t) ? '3n' : '3'; // V8 converts values also where the receiver differs and the index is invalid
  return d.freq([
    [3, `A[${k}]`], [4, `A[${k}]=${v}`], [1, `${k} in A`], [1, `delete A[${k}]`], [2, d.bool(0.3) ? `Reflect.set(A,${k},${sv},${d.pick(['{}', 'U', 'Object.create(A)', '5'])})` : `Reflect.set(A,${k},${v}${d.bool(0.2) ? ',A' : ''})`], [1, `Reflect.get(A,${k},{})`], [1, `Reflect.has(A,${k})`], [1, `Reflect.deleteProperty(A,${k})`],
    [2, `Object.getOwnPropertyDescriptor(A,${k})`], [3, `Reflect.defineProperty(A,${k},{${d.subset([`value:${v}`, `writable:${d.bool(0.8)}`, `enumerable:${d.bool(0.8)}`, `configurable:${d.bool(0.8)}`, ...(d.bool(0.1) ? ['get(){}'] : [])], 0.6).filter((x, i, a) => !(x.startsWith('get') && a.some((y) => /^(value|writ)/.test(y)))).join()}})`],
    [1, `Object.create(A)[${k}]`], [1, `Object.create(A)[${k}]=${sv}`], [1, `${k} in Object.create(A)`], [1, 'Reflect.ownKeys(A)'], [1, () => `Object.${d.pick(['freeze', 'preventExtensions', 'isFrozen', 'keys', 'entries'])}(A)`], [1, `A[${k}]++`], [/Symbol/.test(k) ? 0 : 1, `A[${k}]+=${isB(t) ? '2n' : '2'}`],
    [2, () => mut(d)],
  ]);
}
const head = (t, c) => `let T={},B=new ArrayBuffer(32),U=new Uint8Array(B);for(let i=0;i<32;i++)U[i]=(i*37+11)&255;let C=new ${t}Array(B.slice(8,24));let A=new ${t}Array(${c});`;
export default {
  rule: 'typed array construction from every kind of argument, element access by canonical and other numeric keys through all object operations, and every prototype method, over views that share one buffer, with value conversions and callbacks that write through other views or detach the buffer; or a history of 3 to 10 of these; non-trivial: output longer than 20 characters',
  batch: 60,
  count: { quick: 60000, thorough: 1500000 },
  gen(d) {
    const t = typ(d);
    const base = () => d.freq([[4, () => `[${many(d, 0, 7, () => isB(t) ? big(d) : d.int(0, 300))}]`], [4, () => { const s = SIZE[t], n = 32 / s, o = d.int(0, Math.min(3, n)); return `B,${o * s},${d.int(0, Math.min(6, n - o))}`; }], [1, 'B']]);
    const src = d.freq([
      [3, () => `__t(()=>{let B=new ArrayBuffer(${d.pick([32, 16, 7, 0, 24])}),U=new Uint8Array(B),A=U,C=U;U.fill(${d.int(0, 255)});return ${d.bool(0.95) ? 'new ' : ''}${t}Array(${ctorArg(d, t)})});`],
      [9, () => { const m = method(d, t), u = d.freq([[8, ''], [1, 'use strict']]); return `__t(()=>{${u ? '"use strict";' : ''}${head(t, base())} ${d.bool(0.05) ? '__detach(B);' : ''}let R;try{R=A.${m}${/^(keys|values|entries)/.test(m) ? `;let q=[];for(let n=0;n<9;n++){let x=R.next();if(x.done)break;q.push(x.value);if(n==${d.int(0, 3)}){${mut(d)}}}R=[q,R.next()]` : ''}}catch(e){__p("throws",e)} return [R===A?"same":R,A,U,C]});`.replace('A.[', 'A['); }],
      [5, () => `__t(()=>{${d.bool(0.3) ? '"use strict";' : ''}${head(t, base())} ${d.list(1, 3, () => `try{__p(${elemOp(d, t)})}catch(e){__p("t",e)};`).join('')} return [A,U]});`],
      [3, () => `__t(()=>{${head(t, base())} ${d.list(3, 9, () => d.bool() ? `try{__p(A.${method(d, t)})}catch(e){__p("t",e)};`.replace('A.[', 'A[').replace(/A\.(keys|values|entries)\(\)/, '[...A.$1()]') : `try{__p(${elemOp(d, t)})}catch(e){__p("t",e)};`).join('')} return [A,U,C]});`],
      [2, () => `__t(()=>{let B=new ArrayBuffer(16),U=new Uint8Array(B),A=U,C=U,T={};return ${t}Array.${d.freq([[3, () => `from(${ctorArg(d, t).replace(/^B,.*/, 'U') || '[]'}${d.bool() ? ',' + cb(d, t) + (d.bool(0.3) ? ',T' : '') : ''})`], [1, () => `of(${many(d, 0, 4, () => val(d, t))})`], [1, () => `from.call(${d.pick(['Array', 'Object', 'undefined', 'function(n){return new Uint8Array(1)}', 'function(n){__p("C",n);return new Float32Array(n+1)}', '{}'])},${d.pick(['[1,2]', '"12"', '{length:1,0:3}', 'null'])})`], [1, () => `of.call(${d.pick(['Array', 'Object', 'undefined', 'function(n){return new Uint8Array(1)}', 'function(n){return new Float32Array(n+1)}'])},1,2)`]])}});`],
      // species and subclasses
      [3, () => `__t(()=>{${head(t, base())} let K=${d.pick(isB(t) ? ['undefined', 'null', 'BigInt64Array', 'BigUint64Array', 'Array', 'function(...a){__p("K",...a);return new BigInt64Array(9)}', 'function(...a){__p("K",a.length);return new BigInt64Array(1)}', 'function(...a){__detach(B);return new BigUint64Array(12)}', 'function(){return A}', 'class extends BigInt64Array{}', '5', 'function(n){return new BigInt64Array(B,8)}'] : ['undefined', 'null', 'Int8Array', 'Float64Array', 'Array', 'function(...a){__p("K",...a);return new Uint8Array(9)}', 'function(...a){__p("K",a.length);return new Uint8Array(1)}', 'function(...a){__detach(B);return new Int16Array(12)}', 'function(n){return U}', 'function(){return A}', 'class extends Int16Array{}', 'Object', '5', 'function(n){return new Int8Array(B,1)}', 'function(n){return new Int8Array(B,0)}'])}; A.constructor=${d.bool(0.9) ? '{[Symbol.species]:K}' : 'K'}; let R; try{R=A.${d.freq([[2, () => `slice(${many(d, 0, 2, () => pos(d))})`], [2, () => `subarray(${many(d, 0, 2, () => pos(d))})`], [1, () => `map(${d.pick(['x=>x', '(x,i)=>i%2==0', '(...a)=>{__p(a.length);return a[0]}', 'undefined'])})`], [1, () => `filter(${cb(d, t)})`], [1, () => 'toReversed()'], [1, () => `with(0,${val(d, t)})`]])}}catch(e){__p("throws",e)} return [R===A?"same":R===U?"U":R,A.slice?1:0,U]});`],
      [1, () => `__t(()=>{class S extends ${t}Array{constructor(...a){__p("S",a.length);super(...a)}} ; let s=new S(${isB(t) ? '[1n,2n,3n]' : '[1,2,3]'}); let r=s.${d.pick(['slice(1)', 'subarray(1)', 'map(x=>x)', 'filter(()=>true)', 'toReversed()', 'toSorted()'])}; return [r instanceof S, r.constructor===S, r]});`],
      [1, () => `__t(()=>Object.getPrototypeOf(Int8Array).prototype.${d.pick([...callback, 'slice', 'subarray', 'set', 'fill', 'join', 'at', 'with', 'keys', 'values', 'sort', 'toString'])}.call(${d.pick(['[]', '{}', '5', 'undefined', 'new DataView(new ArrayBuffer(1))', 'new ArrayBuffer(3)', 'new Proxy(new Uint8Array(2),{})'])},()=>1));`],
      [1, () => `__t(()=>{let P=Object.getPrototypeOf(Int8Array); return ${d.pick(['new P()', 'P()', 'P.from([])', 'P.of()', 'Reflect.construct(P,[],Int8Array)', `Reflect.construct(${t}Array,[3],Object)`, `Reflect.construct(${t}Array,[3],Array)`, `new ${t}Array(new Proxy([1],{}))`, `Object.getOwnPropertyDescriptor(P.prototype,"length").get.call([])`, 'Object.getOwnPropertyDescriptor(P.prototype,Symbol.toStringTag).get.call(5)'])}});`],
    ]);
    return { src, nontrivial: (r) => r.act.out.length > 20 };
  },
};
