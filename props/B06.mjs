import * as G from '../lib/gen.mjs';
import { pattern, subject, flagsOf, decided } from './B05.mjs';
const rep = (d) => d.freq([
  [5, () => G.q(d.list(0, 5, () => d.pick(['$', '$$', '$&', '$`', "$'", '$1', '$2', '$0', '$00', '$01', '$10', '$11', '$<n1>', '$<', '$<zz>', '$<n1', 'x', '-', '1'])).join(''))],
  [3, () => `(...a)=>{__p(a);return ${d.pick(['"X"', 'a[0]+a.length', 'undefined', '"$1$&"', '{toString(){__out("rs");return "o"}}', 'a[1]'])}}`],
  [1, () => G.val(d, 1)],
]);
const lim = (d) => d.bool(0.4) ? ',' + d.freq([[4, () => d.int(0, 5)], [1, () => d.pick(['-1', 'undefined', '2**32+1', '"2"', 'NaN', '{valueOf(){__out("lim");return 2}}'])]]) : '';
export default {
  rule: 'match, matchAll, replace, replaceAll, search, split, test, flags, lastIndex, source and the Symbol.* methods with generated expressions and replacement templates, and with objects that override exec, flags, species and constructor and log every access; non-trivial: output shows at least one match, replacement or logged access',
  batch: 60,
  count: { quick: 50000, thorough: 1000000 },
  gen(d) {
    const f = flagsOf(d), p = pattern(d, f, d.bool(0.03)), re = `new RegExp(${G.q(p)},'${f}')`, s = G.q(subject(d));
    const li = d.bool(0.3) && !(/u/.test(f) && /\\ud[89a-f]/i.test(s)) ? `r.lastIndex=${d.pick(['0', '1', '2', '5', '-1', '2**53', '"1"', 'NaN', '1.7'])};` : '';
    const src = d.freq([
      [3, () => `__t(()=>{let r=${re};${li} return [${s}.match(r), r.lastIndex]});`],
      [2, () => `__t(()=>{let r=${re};${li} return [[...${s}.matchAll(r)], r.lastIndex]});`],
      [5, () => `__t(()=>{let r=${re};${li} return [${s}.${d.pick(['replace', 'replaceAll'])}(r,${rep(d)}), r.lastIndex]});`],
      [2, () => `__t(()=>{let r=${re};${li} return [${s}.search(r), r.lastIndex]});`],
      [4, () => `__t(()=>{let r=${re};${li} return [${s}.split(r${lim(d)}), r.lastIndex]});`],
      [2, () => `__t(()=>{let r=${re};${li} return [r.test(${s}), r.lastIndex, r.test(${s}), r.lastIndex]});`],
      [1, () => `__t(()=>{let r=${re}; return [String(r), r.source, r.flags, r.global, r.ignoreCase, r.multiline, r.dotAll, r.unicode, r.sticky, r.hasIndices, new RegExp(r).source===r.source, new RegExp(r,'g${f.replace(/[^u]/g, '')}').flags, RegExp(r)===r]});`],
      [1, () => `__t(()=>{let r=${re}; r=new RegExp(r.source,r.flags); return [r.exec(${s}), eval(String(r)).exec(${s})]});`],
      // strings as patterns
      [1, () => `/*s*/__t(()=>[${s}.${d.pick(['match', 'search', 'matchAll'])}(${d.freq([[3, () => G.q(p)], [1, () => G.prim(d)]])})].map(x=>x&&x.next?[...x]:x));`],
      // protocol with logging
      [5, () => {
        const rmr = d.bool(0.4); // V8 reads global and unicode where the specification reads flags in replace, match and replaceAll
        const res = () => d.pick(['null', '["m"]', '{index:1,0:"a",length:1}', '{index:0,0:"ab",length:3,1:"x",2:undefined}', '{index:2,0:"",length:1}', '{index:9,0:"b",length:2,1:"q",groups:{n1:"G"}}', '1', 'undefined', '{get index(){__out("index");return 1},0:"a",get length(){__out("len");return 2},get 1(){__out("1");return "c"},get groups(){__out("groups");return undefined}}']);
        const o = `{ __proto__: ${d.pick(['RegExp.prototype', 'null', '/a/g'])}, _n:0, _li:${d.int(0, 3)}, ` +
          d.subset(rmr ? [`flags:${d.pick(['"g"', '"g"', '""'])}`].map((x) => x + (x === 'flags:"g"' ? ',global:true,unicode:false,unicodeSets:false' : ',global:false,unicode:false,unicodeSets:false')).concat([
            `exec(s){__out("exec "+s);return this._n++<${d.int(0, 3)}?${res()}:null}`,
            `get lastIndex(){__out("get lastIndex "+this._li);return this._li}, set lastIndex(v){__out("set lastIndex "+v);this._li=v}`]) : [`get flags(){__out("flags");return ${d.pick(['"g"', '"gu"', '"y"', '""', '"dgimsuy"', 'undefined', '"g"'])}}`,
            `get global(){__out("global");return ${d.bool()}}`, `get unicode(){__out("unicode");return ${d.bool()}}`, `get sticky(){__out("sticky");return ${d.bool()}}`,
            `exec(s){__out("exec "+s);return this._n++<${d.int(0, 3)}?${res()}:null}`,
            `get lastIndex(){__out("get lastIndex "+this._li);return this._li}, set lastIndex(v){__out("set lastIndex "+v);this._li=v}`,
            `get constructor(){__out("constructor");return ${d.pick(['undefined', 'RegExp', '{[Symbol.species]:function(p,f){__p("species",f);let r=new RegExp("b",f);return r}}', '{[Symbol.species]:null}', '5'])}}`,
            'get source(){__out("source");return "b"}', 'get [Symbol.match](){__out("Symbol.match");return RegExp.prototype[Symbol.match]}',
          ], rmr ? 0.99 : 0.6).join(',') + '}';
        const call = d.pick(rmr ? [`RegExp.prototype[Symbol.replace].call(o,${s},${rep(d)})`, `RegExp.prototype[Symbol.match].call(o,${s})`] : [`RegExp.prototype[Symbol.search].call(o,${s})`, `RegExp.prototype[Symbol.split].call(o,${s}${lim(d)})`, `[...RegExp.prototype[Symbol.matchAll].call(o,${s})]`, `RegExp.prototype.test.call(o,${s})`, `RegExp.prototype.toString.call(o)`, `Object.getOwnPropertyDescriptor(RegExp.prototype,"flags").get.call(o)`, `RegExp(o)===o`, `${s}.matchAll(o)`, `${s}.startsWith(o)`]);
        return `__t(()=>{let o=${o}; return ${call}});`;
      }],
      [2, () => `__t(()=>{class R extends RegExp { ${d.subset(['exec(s){__out("exec");return super.exec(s)}', 'static get [Symbol.species](){__out("species");return RegExp}', '[Symbol.replace](...a){__p("rep",a.length);return super[Symbol.replace](...a)}', 'get lastIndexx(){}']).join(' ')} } let r=new R(${G.q(p)},'${f}'); return [r instanceof R, ${s}.${d.pick(['replace(r,"<$&>")', 'match(r)', 'split(r)', 'search(r)'])}, r.lastIndex]});`],
      [1, () => `__t(()=>{let r=Object.${d.pick(['freeze', 'seal', 'preventExtensions'])}(${re}); return [${s}.${d.pick(['replace(r,"x")', 'match(r)', 'search(r)', 'split(r)'])}]});`],
      [1, () => `__t(()=>{let r=${re}; let x=r.exec(${s}); let r2=r.compile?1:1; return [Object.getOwnPropertyNames(r), x&&Object.keys(x)]});`],
      [1, () => `__t(()=>Object.getOwnPropertyDescriptor(RegExp.prototype,"${d.pick(['source', 'flags', 'global', 'sticky', 'unicode', 'hasIndices', 'dotAll'])}").get.call(${d.pick(['RegExp.prototype', '{}', '5', 'undefined', '/a/'])}));`],
      [1, () => `__t(()=>{let r=${re}; Object.defineProperty(r,"lastIndex",{value:${d.int(0, 2)},writable:false}); return r.${d.pick(['exec', 'test'])}(${s})});`],
      [1, () => `__t(()=>new RegExp(${d.bool() ? G.prim(d) : re}${d.bool() ? ',' + d.pick(['"g"', 'undefined', '"gg"', '"x"', 'null', '""', '"uv"']) : ''}));`],
    ]);
    return { src, skip: !decided(p, src.startsWith('/*s*/') ? '' : f), nontrivial: (r) => r.act.out.length > 12 };
  },
};
