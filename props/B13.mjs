// Histories over weak collections, checked by a reachability model that
// follows the choices the collector was free to make.
const KINDS = ['({id})', 'Object.assign([],{id})', 'Object.assign(function(){},{id})', 'Symbol(String(id))', 'Object.assign(()=>id,{id})', 'new (class{id=id;#p=1})', 'new Proxy({id},{})', 'Object.assign(new Map([[1,{}]]),{id})', 'Object.assign(new Uint8Array(3),{id})', 'Object.assign(Promise.resolve({}),{id})', 'Object.assign((function*(){yield id})(),{id})', 'Object.assign((function(){}).bind({}),{id})', 'Object.assign(new Date(0),{id})', 'Object.assign(new WeakMap,{id})', 'Object.assign(new WeakRef({}),{id})', 'Object.assign(/x/g,{id})', 'Object.assign(new Error("e"),{id})', 'Object.assign(new String("s"),{id})', 'Object.assign(new FinalizationRegistry(()=>{}),{id})'];
const SYM = 3;
const HEAD = `const o=[],wm=[new WeakMap,new WeakMap],ws=[new WeakSet,new WeakSet],wr=[],p=(x)=>__out(String(x));
const F=(k)=>new FinalizationRegistry((h)=>p("F "+k+" "+(typeof h==="object"?h.h:h))),fr=[F(0),F(1)];
const I=(x)=>x===undefined?"-":typeof x==="number"?"#"+x:typeof x==="symbol"?x.description:String(x.id);
const isO=(x)=>x!==undefined&&typeof x!=="symbol"&&typeof x!=="number",ok=(x)=>x!==undefined&&typeof x!=="number";
const mk=[${KINDS.map((k) => `(id)=>${k}`).join()}];
const T=(f)=>{try{return f()}catch(e){return "throw "+e.constructor.name}};
function churn(n){for(let i=0;i<n;i++)({a:[i],b:()=>i})}
`;
const js = (op) => {
  const [t, a, b, c, e] = op;
  switch (t) {
    case 'new': return `o[${a}]=mk[${b}](${c});`;
    case 'drop': return `o[${a}]=undefined;`;
    case 'link': return `if(isO(o[${a}]))o[${a}].l=o[${b}];`;
    case 'follow': return `o[${a}]=isO(o[${b}])?o[${b}].l:undefined;p(I(o[${a}]));`;
    case 'set': return `if(ok(o[${b}]))p(T(()=>wm[${a}].set(o[${b}],${c < 0 ? -c : `o[${c}]`})===wm[${a}]));`;
    case 'mget': return `p(I(wm[${a}].get(o[${b}])));`;
    case 'mtake': return `o[${c}]=wm[${a}].get(o[${b}]);p(I(o[${c}]));`;
    case 'mhas': return `p(wm[${a}].has(o[${b}]));`;
    case 'mdel': return `p(wm[${a}].delete(o[${b}]));`;
    case 'sadd': return `if(ok(o[${b}]))p(T(()=>ws[${a}].add(o[${b}])===ws[${a}]));`;
    case 'shas': return `p(ws[${a}].has(o[${b}]));`;
    case 'sdel': return `p(ws[${a}].delete(o[${b}]));`;
    case 'bad': return `p(T(()=>wm[${a}].set(${b},1)));p(T(()=>ws[${a}].add(${b})));p(T(()=>new WeakRef(${b})));p(T(()=>fr[${a}].register(${b},1)));p(T(()=>wm[${a}].has(${b})));p(T(()=>ws[${a}].delete(${b})));p(T(()=>fr[${a}].unregister(${b})));`;
    case 'newmap': return `wm[${a}]=new WeakMap([${b.map(([x, y]) => `[o[${x}],o[${y}]]`).join()}].filter(([x])=>ok(x)));`;
    case 'newset': return `ws[${a}]=new WeakSet([${b.map((x) => `o[${x}]`).join()}].filter(ok));`;
    case 'stash': return `if(isO(o[${b}]))o[${b}].w=wm[${a}];wm[${a}]=new WeakMap;`;
    case 'unstash': return `{let x=isO(o[${b}])?o[${b}].w:undefined;if(x){wm[${a}]=x;p("u")}else p("n")}`;
    case 'ref': return `wr[${a}]=ok(o[${b}])?new WeakRef(o[${b}]):undefined;`;
    case 'deref': return `p(wr[${a}]?I(wr[${a}].deref()):"none");`;
    case 'take': return `o[${b}]=wr[${a}]?wr[${a}].deref():undefined;p(I(o[${b}]));`;
    case 'reg': return `if(ok(o[${b}]))p(T(()=>fr[${a}].register(o[${b}],${c % 3 ? c : `{h:${c}}`}${e < 0 ? '' : `,o[${e}]`})));`;
    case 'unreg': return `if(ok(o[${b}]))p(fr[${a}].unregister(o[${b}]));`;
    case 'gc': return '__gc();';
    case 'churn': return `churn(${a});`;
    case 'seg': return '';
  }
};
// null when the output is allowed, else what is wrong
export function model(ops, out, opts = {}) {
  const lines = out.split('\n'); if (lines[lines.length - 1] === '') lines.pop();
  let pos = 0;
  const o = [], wr = [], maps = [], sets = [], regs = [];
  const obj = new Map(); // id -> {sym, l, w}
  const dead = new Set();
  let wm = [0, 1], ws = [0, 1];
  maps.push(new Map(), new Map()); sets.push(new Set(), new Set());
  const reach = (extra) => { // extra: also tokens of pending registrations
    const live = new Set(), lm = new Set(), todo = [];
    const add = (v) => { if (typeof v === 'number' && v > 0 && !live.has(v)) { live.add(v); todo.push(v); } };
    const addMap = (m) => { if (m !== undefined && m !== null && !lm.has(m)) lm.add(m); };
    for (const v of o) add(v);
    for (const m of wm) addMap(m);
    if (extra) for (const r of regs) if (r.live && r.token && r.token !== r.target) add(r.token);
    for (;;) {
      while (todo.length) { const x = obj.get(todo.pop()); add(x.l); if (x.w !== undefined) addMap(x.w); }
      for (const m of lm) for (const [k, v] of maps[m]) if (live.has(k)) add(v);
      if (!todo.length) return live;
    }
  };
  const str = (v) => v === undefined ? '-' : v < 0 ? '#' + -v : String(v);
  const callbacks = () => {
    while (pos < lines.length && lines[pos].startsWith('F ')) {
      const [, k, h] = lines[pos++].split(' ');
      const r = regs.find((x) => x.k === +k && x.h === +h && x.live);
      if (!r) return `callback ${k} ${h} without a live registration`;
      if (reach().has(r.target)) return `callback ${k} ${h} while its target is reachable`;
      r.live = false; dead.add(r.target);
    }
    return null;
  };
  const want = (s) => { const c = callbacks(); if (c) return c; const g = lines[pos++]; return g === s ? null : `line ${pos - 1}: expected ${s}, got ${g}`; };
  const obsDeref = (id) => { // {err} or {v}
    const c = callbacks(); if (c) return { err: c };
    const g = lines[pos++];
    if (reach().has(id)) return g === String(id) ? { v: id } : { err: `line ${pos - 1}: reachable ${id}, deref gave ${g}` };
    if (g === '-') { dead.add(id); return { v: undefined }; }
    if (g !== String(id)) return { err: `line ${pos - 1}: deref of ${id} gave ${g}` };
    if (dead.has(id)) return { err: `line ${pos - 1}: ${id} came back` };
    return { v: id };
  };
  const isO = (v) => v > 0 && !obj.get(v).sym, ok = (v) => v > 0;
  for (const op of ops) {
    const [t, a, b, c, e] = op;
    let err = null;
    const m = maps[wm[a]], s = sets[ws[a]];
    switch (t) {
      case 'new': obj.set(c, { sym: b === SYM }); o[a] = c; break;
      case 'drop': o[a] = undefined; break;
      case 'link': if (isO(o[a])) obj.get(o[a]).l = o[b]; break;
      case 'follow': o[a] = isO(o[b]) ? obj.get(o[b]).l : undefined; err = want(str(o[a])); break;
      case 'set': if (ok(o[b])) { m.set(o[b], c < 0 ? c : o[c]); err = want('true'); } break;
      case 'mget': err = want(str(ok(o[b]) ? m.get(o[b]) : undefined)); break;
      case 'mtake': o[c] = ok(o[b]) ? m.get(o[b]) : undefined; err = want(str(o[c])); break;
      case 'mhas': err = want(String(m.has(o[b]))); break;
      case 'mdel': err = want(String(ok(o[b]) && m.delete(o[b]))); break;
      case 'sadd': if (ok(o[b])) { s.add(o[b]); err = want('true'); } break;
      case 'shas': err = want(String(s.has(o[b]))); break;
      case 'sdel': err = want(String(ok(o[b]) && s.delete(o[b]))); break;
      case 'bad': for (const x of ['throw TypeError', 'throw TypeError', 'throw TypeError', 'throw TypeError', 'false', 'false', 'throw TypeError']) err = err || want(x); break;
      case 'newmap': { const n = new Map(); for (const [x, y] of b) if (ok(o[x])) n.set(o[x], o[y]); maps.push(n); wm[a] = maps.length - 1; break; }
      case 'newset': sets.push(new Set(b.map((x) => o[x]).filter(ok))); ws[a] = sets.length - 1; break;
      case 'stash': if (isO(o[b])) obj.get(o[b]).w = wm[a]; maps.push(new Map()); wm[a] = maps.length - 1; break;
      case 'unstash': { const x = isO(o[b]) ? obj.get(o[b]).w : undefined; if (x !== undefined) wm[a] = x; err = want(x !== undefined ? 'u' : 'n'); break; }
      case 'ref': wr[a] = ok(o[b]) ? o[b] : undefined; break;
      case 'deref': if (wr[a] === undefined) err = want('none'); else err = obsDeref(wr[a]).err; break;
      case 'take': if (wr[a] === undefined) { o[b] = undefined; err = want('-'); } else { const old = o[b]; o[b] = undefined; const had = reach().has(wr[a]); o[b] = old; const r = obsDeref(wr[a]); err = r.err; o[b] = r.v; } break;
      case 'reg': if (ok(o[b])) {
        const tok = e < 0 ? undefined : o[e];
        if (tok < 0) err = want('throw TypeError'); else { regs.push({ k: a, h: c, target: o[b], token: tok, live: true }); err = want('undefined'); }
      } break;
      case 'unreg': if (ok(o[b])) { const r = regs.filter((x) => x.live && x.k === a && x.token === o[b]); const cb = callbacks(); if (cb) err = cb; else { const r2 = r.filter((x) => x.live); for (const x of r2) x.live = false; err = want(String(r2.length > 0)); } } break;
    }
    if (err) return `${JSON.stringify(op)}: ${err}`;
  }
  const c = callbacks(); if (c) return c;
  if (lines[pos] === 'END') pos++; else return `no END: ${lines[pos]}`;
  // after two collections in a later job everything unreachable has gone
  const live = reach(true);
  for (let i = 0; i < wr.length; i++) {
    if (wr[i] === undefined) continue;
    const g = lines[pos++];
    if (reach().has(wr[i]) ? g !== `${i} ${wr[i]}` : !live.has(wr[i]) ? g !== `${i} -` : false) return `final deref ${i} of ${wr[i]}: ${g}`;
  }
  for (const r of regs) if (r.live && !live.has(r.target)) return `no callback ${r.k} ${r.h} for the unreachable ${r.target}`;
  if (lines[pos] !== '= undefined' && pos < lines.length) { /* the completion value is printed first by the host */ }
  return null;
}
const OPS = /^\/\/OPS (.*)$/m;
const strip = (out) => out.split('\n').filter((l) => l !== '= undefined').join('\n');
export default {
  rule: 'histories of at most 70 operations on WeakMap, WeakSet, WeakRef and FinalizationRegistry objects, strong references, links between keys and values and collections at chosen and at forced points, judged by a reachability model; non-trivial: some object died or some callback ran before the end',
  batch: 20, realm: true, stress: 97,
  count: { quick: 4000, thorough: 200000 },
  expected: () => ({ status: 'ok', out: '' }),
  judge: (c, e, a) => { if (a.status !== 'ok') return false; const m = model(JSON.parse(OPS.exec(c.src)[1]), strip(a.out)); if (m) a.err = 'model: ' + m; return !m; },
  gen(d) {
    const n = d.int(1, 70), ops = [], N = d.int(1, 6);
    let id = 0, h = 0;
    const sl = () => d.below(N), k = () => d.below(2), w = () => d.below(4);
    for (let i = 0; i < n; i++) {
      d.freq([
        [14, () => { const s = sl(); ops.push(['new', s, d.bool(0.6) ? 0 : d.below(KINDS.length), ++id]); }],
        [12, () => ops.push(['drop', sl()])],
        [6, () => ops.push(['link', sl(), sl()])],
        [4, () => ops.push(['follow', sl(), sl()])],
        [10, () => ops.push(['set', k(), sl(), d.bool(0.85) ? sl() : -1 - d.below(5)])],
        [6, () => ops.push(['mget', k(), sl()])],
        [6, () => ops.push(['mtake', k(), sl(), sl()])],
        [4, () => ops.push(['mhas', k(), sl()])],
        [3, () => ops.push(['mdel', k(), sl()])],
        [5, () => ops.push(['sadd', k(), sl()])],
        [4, () => ops.push(['shas', k(), sl()])],
        [2, () => ops.push(['sdel', k(), sl()])],
        [1, () => ops.push(['bad', k(), d.pick(['5', '"x"', 'null', 'undefined', 'Symbol.for("r")', '1n', 'true'])])],
        [2, () => ops.push(['newmap', k(), d.list(0, 4, () => [sl(), sl()])])],
        [1, () => ops.push(['newset', k(), d.list(0, 4, sl)])],
        [3, () => ops.push(['stash', k(), sl()])],
        [3, () => ops.push(['unstash', k(), sl()])],
        [7, () => ops.push(['ref', w(), sl()])],
        [6, () => ops.push(['deref', w()])],
        [4, () => ops.push(['take', w(), sl()])],
        [7, () => ops.push(['reg', k(), sl(), ++h, d.bool(0.4) ? -1 : sl()])],
        [4, () => ops.push(['unreg', k(), sl()])],
        [10, () => ops.push(['gc'])],
        [2, () => ops.push(['churn', d.int(1, 40)])],
        [6, () => ops.push(['seg'])],
      ]);
    }
    let src = HEAD + '//OPS ' + JSON.stringify(ops) + '\nlet q=Promise.resolve();\n', cur = [];
    const segs = [[]];
    for (const op of ops) if (op[0] === 'seg') segs.push([]); else segs[segs.length - 1].push(js(op));
    src += segs.map((s) => `q=q.then(()=>{${s.join('\n')}});`).join('\n');
    src += '\nconst nop=()=>{};q=q.then(()=>{__gc();churn(3);__gc()}).then(()=>{churn(2);__gc();__gc()}).then(nop).then(nop).then(nop)' + '.then(nop)'.repeat(Math.min(h + 2, 40)) + '.then(()=>{p("END");for(let i=0;i<wr.length;i++)if(wr[i])p(i+" "+I(wr[i].deref()))});undefined';
    return { src, nontrivial: (r) => /^F /m.test(r.act.out) || / -$/m.test(r.act.out) };
  },
};
