import * as G from '../lib/gen.mjs';
const K = ['Int8', 'Uint8', 'Int16', 'Uint16', 'Int32', 'Uint32', 'Float32', 'Float64', 'BigInt64', 'BigUint64'];
const isB = (t) => t.startsWith('Big');
const big = (d) => d.freq([[3, () => d.int(-9, 300) + 'n'], [3, () => (d.bool() ? '-' : '') + `(2n**${d.int(30, 70)}n+${d.int(0, 9)}n)`], [3, () => (d.bool() ? '-' : '') + `0x${d.list(1, 20, () => d.int(0, 15).toString(16)).join('')}n`.replace('-0x', '-0x')]]);
const off = (d) => d.freq([[14, () => String(d.int(0, 26))], [2, () => d.pick(['-1', 'undefined', 'NaN', 'Infinity', '-0', '1.9', '"1"', '"x"', 'null', 'true', '2**53', '2**53-1', '2**32', '2**31', '-0.9', '-Infinity', '1n', 'Symbol()', '4294967295', '']) || '0'], [1, () => `{valueOf(){__out("o");${d.bool(0.3) ? '__detach(B);' : ''}return ${d.int(-1, 12)}}}`]]);
const mutv = (d, r) => `{valueOf(){__out("v");${d.bool(0.3) ? d.pick(['__detach(B);', 'U.fill(7);', 'throw new EvalError;']) : ''}return ${r}}}`;
const val = (d, t) => d.bool(0.04) ? G.prim(d) : isB(t) ? d.freq([[9, () => big(d)], [1, () => d.pick(['"12"', 'true', '"0x1f"', '5', 'undefined', '"x"', '""'])], [1, () => mutv(d, big(d))]]) : d.freq([[9, () => G.numE(G.num(d))], [2, () => G.numE(G.bits(d))], [1, () => G.primNoSym(d)], [1, () => mutv(d, d.int(-300, 300))]]);
const le = (d) => d.freq([[3, ''], [2, ',true'], [2, ',false'], [1, () => ',' + d.pick(['1', '0', '"x"', '""', 'undefined', 'null', '{}', 'NaN', 'document', '[]'].filter((x) => x !== 'document'))]]);
function dvOp(d) {
  const t = d.pick(K);
  return d.freq([
    [6, () => `D.set${t}(${off(d)},${val(d, t)}${le(d)})`],
    [6, () => `D.get${t}(${off(d)}${le(d)})`],
    [1, () => `D.set${t}(${d.pick(['', off(d)])})`], [1, () => `D.get${t}()`],
    [1, () => d.pick(['D.byteLength', 'D.byteOffset', 'D.buffer===B', 'B.byteLength'])],
    [1, () => `U[${d.int(0, 23)}]=${d.int(0, 255)}`],
    [1, () => d.pick(['__detach(B)'])],
  ]);
}
const tr = (s) => `try{__p(${s})}catch(e){__p("t",e)};`;
const DK = ['setInt8', 'getInt8', 'getFloat64', 'setBigInt64'];
const bad = (d) => d.pick(['{}', '5', 'undefined', '[]', 'new ArrayBuffer(8)', 'new Uint8Array(8)', 'new DataView(new ArrayBuffer(8))', 'new SharedArrayBuffer(8)', 'Object.create(new DataView(new ArrayBuffer(8)))', 'null', 'DataView.prototype', 'ArrayBuffer.prototype']);
const AB = (d) => d.pick(['ArrayBuffer', 'ArrayBuffer', 'ArrayBuffer', 'SharedArrayBuffer']);
const species = (d, n) => d.pick(['undefined', 'null', n, 'Object', '5', `function(n){__p("C",n,new.target===K);return new ${n}(n)}`, `function(n){__p("C",n);return new ${n}(n+3)}`, `function(n){return new ${n}(Math.max(0,n-1))}`, 'function(n){return B}', `function(n){__detach(B);return new ${n}(40)}`, 'function(n){return {}}', 'function(n){return new Uint8Array(n)}', `function(n){return new ${n === 'ArrayBuffer' ? 'SharedArrayBuffer' : 'ArrayBuffer'}(n)}`, `class extends ${n}{}`, `function(n){let r=new ArrayBuffer(n);__detach(r);return r}`]);
export default {
  rule: 'histories of DataView reads and writes of every element type over one buffer with converting, writing, throwing and detaching arguments, DataView and (Shared)ArrayBuffer construction from every kind of argument, slice with species, isView and accessors on wrong receivers; non-trivial: output longer than 12 characters',
  batch: 60,
  count: { quick: 60000, thorough: 1500000 },
  gen(d) {
    const src = d.freq([
      [10, () => `__t(()=>{let B=new ArrayBuffer(24),U=new Uint8Array(B);for(let i=0;i<24;i++)U[i]=(i*${d.pick([37, 151, 73])}+${d.int(0, 255)})&255;let D=new DataView(B${d.bool(0.4) ? ',' + d.int(0, 12) + (d.bool() ? ',' + d.int(0, 12) : '') : ''});${d.list(1, 8, () => tr(dvOp(d))).join('')}return [U,B]});`],
      // the same bytes seen through every type and both byte orders
      [3, () => { const t = d.pick(K), n = /64/.test(t) ? 8 : /32/.test(t) ? 4 : /16/.test(t) ? 2 : 1; return `{let B=new ArrayBuffer(16),D=new DataView(B);D.set${t}(${d.int(0, 16 - n)},${isB(t) ? big(d) : d.bool() ? G.numE(G.bits(d)) : G.numE(G.num(d))}${le(d)});__p(B);${K.map((k) => `__p(D.get${k}(${d.int(0, 8)}${le(d)}));`).join('')}}`; }],
      [3, () => `__t(()=>{let B=new ${AB(d)}(${d.pick([0, 8, 24])}),U=B;let D=${d.bool(0.95) ? 'new ' : ''}DataView(${d.freq([[8, 'B'], [1, () => bad(d)]])}${d.bool(0.8) ? ',' + off(d) + (d.bool(0.6) ? ',' + off(d) : '') : ''});return [D.byteOffset,D.byteLength,D.buffer===B]});`],
      [3, () => { const n = AB(d); return `__t(()=>{let B=new ArrayBuffer(8),U=new Uint8Array(B);let b=${d.bool(0.95) ? 'new ' : ''}${n}(${d.bool(0.1) ? '' : off(d).replace(/^(2\*\*\d+|4294967295|2\*\*53-1)$/, '2**53')});return [b,b.byteLength,Object.prototype.toString.call(b)]});`; }],
      [5, () => { const n = AB(d); return `__t(()=>{let B=new ${n}(20),U=new Uint8Array(B);for(let i=0;i<20;i++)U[i]=i*11;let K=${species(d, n)};${d.bool(0.5) ? `B.constructor=${d.pick(['{[Symbol.species]:K}', '{[Symbol.species]:K}', '{[Symbol.species]:K}', 'K', '{}', 'undefined'])};` : ''}let R=B.slice(${d.list(0, 2, () => d.bool(0.7) ? d.int(-22, 22) : off(d)).join()});R instanceof ${n}||R.byteLength;return [R===B,R.byteLength,R]});`; }],
      [1, () => `__t(()=>{let B=new ArrayBuffer(8),U=new Uint8Array(B);return ${d.freq([[2, () => `DataView.prototype.${d.pick(DK)}.call(${bad(d)},${off(d)},${val(d, 'Int8')})`], [1, () => `Object.getOwnPropertyDescriptor(DataView.prototype,${d.pick(['"buffer"', '"byteLength"', '"byteOffset"'])}).get.call(${bad(d)})!==1`], [1, () => `Object.getOwnPropertyDescriptor(${d.pick(['ArrayBuffer', 'SharedArrayBuffer'])}.prototype,"byteLength").get.call(${bad(d)})`], [1, () => `${AB(d)}.prototype.slice.call(${bad(d)},0,1)`], [1, () => `ArrayBuffer.isView(${bad(d)})`], [1, () => `ArrayBuffer.isView(${d.pick(['', 'new Float32Array(2)', 'new DataView(B)', 'new (class extends DataView{})(B)'])})`]])}});`],
      [1, () => `__t(()=>{let B=new ArrayBuffer(8),U=B;class S extends ${d.pick(['DataView', 'ArrayBuffer', 'SharedArrayBuffer'])}{constructor(...a){super(...a);__p(a.length)}};let s=new S(${d.pick(['B', 'B,2', '4', '', 'B,8', 'B,9'])});return [s instanceof S,s.byteLength,s.slice&&s.byteLength>2&&s.slice(1) instanceof S]});`],
      [1, () => `__t(()=>{let B=new ArrayBuffer(8),P={get prototype(){__out("proto");${d.pick(['', '__detach(B);', 'throw new RangeError;'])}return null}};let f=new Proxy(function(){},{get(t,k){if(k==="prototype")return P.prototype;return t[k]}});return Reflect.construct(${d.pick(['DataView', 'ArrayBuffer', 'SharedArrayBuffer', 'DataView'])},[${d.pick(['B', 'B,1', '9', 'B,9', '-1', 'B,0,9', '7'])}],f) && 1});`],
    ]);
    return { src, nontrivial: (r) => r.act.out.length > 12 };
  },
};
