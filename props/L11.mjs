// Graphs of modules against node's implementation of source text module records.
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { fork } from 'node:child_process';
import { ROOT } from '../lib/engine.mjs';

let ref = null, dir = null, k = 0;
function refRun(msg) {
  if (!ref) {
    ref = fork(path.join(ROOT, 'lib/modref.mjs'), [], { execArgv: ['--experimental-vm-modules', '--no-warnings'] });
    ref.on('exit', () => { const w = ref && ref.w; ref = null; if (w) w({ status: 'skip', out: '' }); });
    ref.n = 0;
  }
  return new Promise((r) => { const p = ref; p.w = (x) => { p.w = null; clearTimeout(p.t); r(x); }; p.removeAllListeners('message'); p.on('message', (m) => p.w && p.w(m)); p.t = setTimeout(() => p.kill('SIGKILL'), 20000); p.send(msg); if (++p.n > 400) { /* contexts pile up */ } });
}
const parse = (src) => { // "//FILE name\n..." sections
  const f = {};
  for (const m of src.matchAll(/^\/\/FILE (\S+)\n([^]*?)(?=^\/\/FILE |$(?![^]))/mg)) f[m[1]] = m[2];
  return f;
};
const FAILED = new Set(['nocompile', 'linkerror', 'loaderror', 'failed']);
const norm = (r) => FAILED.has(r.status) ? { status: 'failed', out: r.out.replace(/^!throw .*\n/mg, ''), err: r.err } : r;

const NAMES = ['a', 'b', 'c', 'd', 'f', 'g', 'K', 'x', 'y'];
const VAL = ['1', '"s"', 'undefined', '[1,2]', '{p:1}', '7n', 'null', '()=>3', 'function(){}', 'class{}', '(0,function(){})', 'Symbol.iterator.description', 'typeof this', 'import.meta===import.meta'];
function gen(d) {
  const n = d.int(2, d.tier === 'thorough' ? 7 : 6);
  const dyn = d.bool(0.35) && n > 2 ? d.int(1, Math.min(2, n - 2)) : 0; // the last `dyn` modules are only imported dynamically
  const tla = d.bool(0.4);
  const mods = [];
  let syntaxErr = d.bool(0.01), missing = 0;
  const hasJson = d.bool(0.15);
  // 1. local exports
  for (let i = 0; i < n; i++) {
    const m = { i, file: `m${i}.mjs`, locals: [], star: [], ex: [], imports: [] };
    const names = d.shuffle(NAMES).slice(0, d.int(0, 4));
    for (const nm of names) {
      const kind = d.pick(['let', 'var', 'const', 'function', 'class', 'let', 'function*', 'async function']);
      m.locals.push({ nm, kind, exp: d.freq([[6, 'decl'], [2, 'list'], [2, 'as'], [1, 'str'], [1, 'none'], [1, 'both']]) });
    }
    if (d.bool(0.35)) m.def = d.pick(['expr', 'expr', 'function', 'namedf', 'class', 'namedc', 'as', 'arrow', 'gen', 'asyncf', 'anonclass']);
    for (const l of m.locals) {
      if (l.exp === 'decl' || l.exp === 'list' || l.exp === 'both') m.ex.push(l.nm);
      if (l.exp === 'as' || l.exp === 'both') { l.as = d.pick([...NAMES, l.nm + '2', 'if', 'then']); if (!m.ex.includes(l.as)) m.ex.push(l.as); else l.as = null; }
      if (l.exp === 'str') { l.as = d.pick(['s t', '', '*', 'default', 'a', '\\u{1F600}']); if (l.as === 'default' && m.def || m.ex.includes(l.as)) l.as = null; else { m.ex.push(l.as); if (l.as === 'default') m.def = null; } }
    }
    if (m.def === 'as' && !m.locals.length) m.def = null;
    if (m.def) m.ex.push('default');
    mods.push(m);
  }
  // 2. edges
  const target = (i) => {
    const lim = i < n - dyn ? n - dyn : n;
    return mods[d.bool(0.7) ? Math.min(lim - 1, i + 1 + d.below(lim - i)) : d.below(lim)];
  };
  // star exports and indirect exports first, so that names can be resolved approximately
  for (const m of mods) {
    for (let q = d.freq([[5, 0], [3, 1], [1, 2]]); q > 0; q--) m.star.push({ t: target(m.i), as: d.bool(0.25) ? d.pick(['ns', 'N', 'a', '"n s"', 'default']) : null });
    for (const s of m.star) if (s.as) { const nm = s.as.replace(/"/g, ''); if (m.ex.includes(nm)) s.as = null; else m.ex.push(nm); }
  }
  const all = (m, seen = new Set()) => { // names a module probably exports
    if (seen.has(m)) return [];
    seen.add(m);
    return [...new Set([...m.ex, ...m.star.filter((s) => !s.as).flatMap((s) => all(s.t, seen).filter((x) => x !== 'default'))])];
  };
  for (const m of mods) {
    m.re = [];
    for (let q = d.freq([[6, 0], [3, 1], [1, 2]]); q > 0; q--) {
      const t = target(m.i), av = all(t);
      let nm = av.length ? d.pick(av) : d.bool(0.1) ? 'zz' : null;
      if (d.bool(0.01)) { nm = 'zz'; missing++; }
      if (nm === null) { m.re.push({ t, empty: true }); continue; }
      const as = d.bool(0.5) ? nm : d.pick([...NAMES, 'w', 'default', 's t']);
      if (m.ex.includes(as)) continue;
      m.ex.push(as); m.re.push({ t, nm, as });
    }
  }
  const lit = (s) => /^[\w$]+$/.test(s) && !/^\d/.test(s) ? s : `"${s}"`;
  // 3. imports and bodies
  let cid = 0;
  const text = [];
  for (const m of mods) {
    const H = [];
    if (hasJson && m.i === 0) H.push(`import './data.json';`); // its value is available from the start
    const used = new Set(m.locals.map((l) => l.nm));
    const im = [];
    const nimp = m.i === 0 ? d.int(1, 4) : d.freq([[3, 0], [4, 1], [3, 2], [1, 3]]);
    for (let q = 0; q < nimp; q++) {
      const t = target(m.i), av = all(t), parts = [];
      const loc = (base) => { let x = base; while (used.has(x) || !/^[A-Za-z_$][\w$]*$/.test(x) || ['default', 'if'].includes(x)) x = 'i' + cid++; used.add(x); return x; };
      const form = d.below(6);
      if (form === 0) { H.push(`import ${d.pick(["'", '"'])}`.slice(0, 7) + `'./${t.file}';`); continue; }
      if ((form === 1 || form === 5) && av.includes('default')) { const x = loc('dflt'); parts.push(x); im.push({ x, kind: 'v' }); }
      if (form === 2) { const x = loc('ns' + t.i); parts.push(`* as ${x}`); im.push({ x, kind: 'ns', t }); }
      else if (av.length || d.bool(0.02)) {
        const L = [];
        for (let z = d.int(av.length ? 1 : 0, 3); z > 0; z--) {
          let nm = d.pick(av.length ? av : ['q']);
          if (d.bool(0.01)) { nm = 'zz'; missing++; }
          const x = loc(d.bool(0.7) ? nm : 'z' + nm);
          L.push(x === nm ? nm : `${lit(nm)} as ${x}`);
          im.push({ x, kind: 'v' });
        }
        parts.push(`{${L.join(',')}${L.length && d.bool(0.1) ? ',' : ''}}`);
      }
      H.push(parts.length ? `import ${parts.join(',')} from './${t.file}';` : `import './${t.file}';`);
    }
    if (hasJson && d.bool(0.4)) { const x = 'js' + cid++; H.push(`import ${x} from './data.json';`); im.push({ x, kind: 'v' }); }
    for (const s of m.star) H.push(s.as ? `export * as ${s.as} from './${s.t.file}';` : `export * from './${s.t.file}';`);
    for (const r of m.re) H.push(r.empty ? `export {} from './${r.t.file}';` : `export {${r.as === r.nm ? lit(r.nm) : `${lit(r.nm)} as ${lit(r.as)}`}} from './${r.t.file}';`);
    // declarations
    const decls = [];
    const reads = [];
    for (const l of m.locals) {
      const e = l.exp === 'decl' || l.exp === 'both' ? 'export ' : '';
      const v = d.pick(VAL);
      let s;
      const others = im.filter((x) => x.kind === 'v');
      if (l.kind === 'function') s = `${e}function ${l.nm}(v){${d.bool(0.5) && others.length ? `return ${d.pick(others).x}` : d.bool(0.4) && m.locals.some((o) => o.kind === 'let' || o.kind === 'var') ? `${m.locals.find((o) => o.kind === 'let' || o.kind === 'var').nm}=v;return v` : `return "${l.nm}${m.i}"`}}`;
      else if (l.kind === 'async function' || l.kind === 'function*') s = `${e}${l.kind} ${l.nm}(){}`;
      else if (l.kind === 'class') s = `${e}class ${l.nm}{${d.bool(0.3) ? 'static v=1' : ''}}`;
      else if (l.kind === 'const' && d.bool(0.15)) s = `${e}const {p:${l.nm}=${m.i}}={p:${d.pick(['undefined', '1'])}};`;
      else s = `${e}${l.kind} ${l.nm}${l.kind !== 'const' && d.bool(0.15) ? '' : '=' + (d.bool(0.3) && others.length ? `__t(()=>${d.pick(others).x})` : v)};`;
      decls.push(s);
      if (l.exp === 'list' || (l.exp === 'as' || l.exp === 'both' || l.exp === 'str') && l.as) {
        const as = l.exp === 'list' ? l.nm : l.as;
        decls.push(`export {${as === l.nm ? l.nm : `${l.nm} as ${l.exp === 'str' ? `"${as}"` : lit(as)}`}};`);
      }
      reads.push(l.nm);
    }
    if (m.def) decls.push({
      expr: () => `export default ${d.pick(VAL.filter((v) => !/^(function|class)/.test(v)))};`, function: () => 'export default function(){return 1}', namedf: () => `export default function F${m.i}(){return F${m.i}.name}`, class: () => `export default class{static s=${m.i}}`,
      namedc: () => `export default class D${m.i}{}`, as: () => `export {${d.pick(m.locals).nm} as default};`, arrow: () => 'export default ()=>4;', gen: () => 'export default function*(){}', asyncf: () => 'export default async function(){}', anonclass: () => 'export default (class{});',
    }[m.def]());
    // statements
    const st = () => {
      const v = im.filter((x) => x.kind === 'v'), nss = im.filter((x) => x.kind === 'ns');
      const c = d.below(20), T = `m${m.i}`;
      const nm = () => { const t = nss.length ? d.pick(nss).t : null; const av = t ? all(t) : []; return av.length && d.bool(0.8) ? d.pick(av) : 'zz'; };
      if (c < 6 && v.length) return `__t(()=>__l("${T}",${d.pick(v).x}));`;
      if (c < 8 && reads.length) return `__t(()=>__l("${T}l",${d.pick(reads)}));`;
      if (c === 8 && v.length) return `__t(()=>{${d.pick(v).x}${d.pick(['=5', '++', '??=3', '+=1', '&&=2'])}});`;
      if (c === 9 && v.length) return `__t(()=>typeof ${d.pick(v).x});`;
      if (c === 10 && m.locals.some((l) => l.kind !== 'const')) return `__t(()=>{${d.pick(m.locals.filter((l) => l.kind !== 'const')).nm}=${d.pick(['10', '"re"', 'undefined'])}});`; // (V8 throws a TypeError for exported constants in their dead zone)
      if (c === 11 && v.length) return `__t(()=>${d.pick(v).x}(${d.pick(['', '1', '"arg"'])}));`;
      if (c < 17 && nss.length) {
        const x = d.pick(nss).x, p = JSON.stringify(nm()).replace(/\\\\u/g, '\\u');
        return d.pick([
          `__t(()=>__l("${T}n",Reflect.ownKeys(${x})));`, `__t(()=>__l("${T}n",${x}[${p}]));`, `__t(()=>Reflect.set(${x},${p},1));`, `__t(()=>{${x}[${p}]=1});`, `__t(()=>delete ${x}[${p}]);`, `__t(()=>Reflect.deleteProperty(${x},${p}));`,
          `__t(()=>Reflect.getOwnPropertyDescriptor(${x},${p}));`, `__t(()=>${p} in ${x});`, `__t(()=>Object.prototype.hasOwnProperty.call(${x},${p}));`, `__t(()=>Object.keys(${x}));`, `__t(()=>[Object.isExtensible(${x}),Object.isFrozen(${x}),Object.isSealed(${x})]);`,
          `__t(()=>Object.freeze(${x})===${x});`, `__t(()=>Reflect.setPrototypeOf(${x},${d.pick(['null', '{}'])}));`, `__t(()=>Reflect.getPrototypeOf(${x}));`, `__t(()=>${x}[Symbol.toStringTag]);`, `__t(()=>Object.prototype.toString.call(${x}));`, `__t(()=>Object.getOwnPropertyDescriptor(${x},Symbol.toStringTag));`,
          `__t(()=>Reflect.defineProperty(${x},${p},${d.pick(['{value:1}', '{}', '{writable:true,enumerable:true,configurable:false}', '{get(){}}', '{enumerable:false}', `{value:Reflect.get(${x},${p})}`])}));`, `__t(()=>{let r=[];for(let q in ${x})r.push(q);return r});`, `__t(()=>({...${x}}));`,
          `__t(()=>Reflect.preventExtensions(${x}));`, `__t(()=>Object.entries(${x}).length);`, `__t(()=>JSON.stringify(Object.keys(${x})));`, `__t(()=>Reflect.get(${x},${p},1));`, `__t(()=>{let {[${p}]:q,...r}=${x};return [q,Object.keys(r)]});`, `__t(()=>Object.create(${x})[${p}]);`, `__t(()=>${x}[Symbol.iterator]);`, `__t(()=>Reflect.set(${x},Symbol.toStringTag,1));`, `__t(()=>Reflect.defineProperty(${x},"q",{value:1}));`, `__t(()=>Object.assign({},${x}));`,
        ]);
      }
      if (c === 17) return d.pick([`__l("${T}",this);`, `__t(()=>typeof import.meta);`, `__t(()=>{undeclared${m.i}=1});`, `__t(()=>Object.getPrototypeOf(import.meta));`, `__t(()=>(0,eval)("typeof ${d.pick(NAMES)}"));`, `__t(()=>typeof globalThis.${d.pick(NAMES)});`, `__t(()=>eval("typeof ${reads.length ? d.pick(reads) : 'zz'}"));`]);
      if (c === 18 && tla) return d.pick(['await 0;', 'await null;', `__l("${T}aw",await Promise.resolve(${m.i}));`, `for await(let z of [1,Promise.resolve(2)])__l("${T}fa",z);`, `try{await Promise.reject(${m.i})}catch(e){__l("${T}c",e)}`, `await (async()=>{__out("in${m.i}");await 1;__out("in2${m.i}")})();`]);
      if (c === 19 && d.bool(0.12)) return d.pick([`throw new Error("${T}");`, `throw ${m.i};`, `if(${d.pick(['true', 'false'])})throw new TypeError("${T}");`, `null.x;`, ...(tla ? [`await Promise.reject("${T}");`] : [])]);
      return `__out("${T}.${d.below(10)}");`;
    };
    const body = [`__out("start ${m.i}");`];
    const slots = [...decls, ...d.list(1, 6, st)];
    body.push(...d.shuffle(slots));
    if (tla && d.bool(0.25)) body.splice(d.int(0, body.length), 0, 'await 0;');
    body.push(`__out("end ${m.i}");`);
    if (m.i === 0 && dyn) {
      for (let q = d.int(1, 4); q > 0; q--) {
        const t = mods[d.bool(0.75) ? n - 1 - d.below(dyn) : d.below(n)];
        body.push(`try{let n=await import('./${t.file}');${d.pick([`__l("dyn",Object.keys(n));`, `__l("dyn",n);`, `__t(()=>__l("dyn",n.${d.pick(all(t).filter((x) => /^\w+$/.test(x) && !/^\d/.test(x)).concat('zz'))}));`, `globalThis.__n===undefined?(globalThis.__n=n):__out(String(globalThis.__n===n));`])}}catch(e){__out("dynerr "+(e&&(/^(Syntax|Type|Reference)E/.test(e.name)?"SyntaxError or the like":e.name)));${d.pick(['', 'if(e===+e||/^m\\d$/.test(e&&e.message))globalThis.__e===undefined?(globalThis.__e=e):__out(String(globalThis.__e===e));'])}}`);
        d.note('dynamic');
      }
    }
    // imports are hoisted: any place will do
    const lines = d.bool(0.8) || hasJson ? [...(hasJson && m.i === 0 ? H : d.shuffle(H)), ...body] : (() => { const r = [...body]; for (const h of H) r.splice(d.int(0, r.length), 0, h); return r; })();
    if (syntaxErr && d.bool(0.3)) { lines.splice(d.int(0, lines.length), 0, d.pick(['let q q;', 'export {nope};', 'export let a1,a1;', 'with(1){}', 'import {a as b,c as b} from "./m0.mjs";', 'delete this1;var delete;', 'export {f1,f1};function f1(){}', 'await=1;', 'return;', 'new.target;', 'break;', 'export default 1;export default 2;', 'super.x;', '<!-- x', 'label:label:;', 'var enum;', '010;', 'if(1)export let q1;'])); syntaxErr = false; d.note('syntax error'); }
    text.push(`//FILE ${m.file}\n${lines.join('\n')}\n`);
  }
  if (hasJson) text.push(`//FILE data.json\n${d.pick(['{"a":[1,2,{"b":null}]}', '[]', '12', '"x"', 'null'])}\n`);
  if (tla) d.note('top-level await');
  if (missing) d.note('missing name');
  return { src: text.join(''), nontrivial: (r) => r.exp && r.exp.out.length > 60 };
}

// ResolveExport and the import/export checks of linking, on the text above (each statement is one line): V8 reports
// some cycles through star exports that the specification resolves.
const unq = (x) => x[0] === '"' ? JSON.parse(x.replace('\\u{1F600}', '\u{1F600}')) : x;
const pairs = (s) => s.split(',').filter((x) => x.trim()).map((x) => { const m = /^\s*("[^"]*"|[^\s"]+)(?: as ("[^"]*"|\S+))?\s*$/.exec(x); return [unq(m[1]), unq(m[2] || m[1])]; });
function links(files) {
  const M = {};
  for (const f in files) {
    const m = M[f] = { loc: new Set(), ind: new Map(), star: [], imp: [], req: [] };
    if (f.endsWith('.json')) { m.loc.add('default'); continue; }
    for (const l of files[f].split('\n')) {
      let x;
      if ((x = /^(import|export) .*?from '\.\/(\S+)';$/.exec(l) || /^(import) '\.\/(\S+)';$/.exec(l))) m.req.push(x[2]);
      if ((x = /^export \* from '\.\/(\S+)';$/.exec(l))) m.star.push(x[1]);
      else if ((x = /^export \* as ("[^"]*"|\S+) from '\.\/(\S+)';$/.exec(l))) m.ind.set(unq(x[1]), [x[2], null]);
      else if ((x = /^export \{(.*)\} from '\.\/(\S+)';$/.exec(l))) for (const [a, b] of pairs(x[1])) m.ind.set(b, [x[2], a]);
      else if ((x = /^export \{(.*)\};$/.exec(l))) for (const [, b] of pairs(x[1])) m.loc.add(b);
      else if (/^export default/.test(l)) m.loc.add('default');
      else if ((x = /^export (?:let|var|const|class|(?:async )?function\*?) (?:\{p:)?([\w$]+)/.exec(l))) m.loc.add(x[1]);
      else if ((x = /^import (?:(\w+),?)?(?:\{(.*)\})? from '\.\/(\S+)';$/.exec(l))) { if (x[1]) m.imp.push([x[3], 'default']); if (x[2]) for (const [a] of pairs(x[2])) m.imp.push([x[3], a]); }
    }
  }
  const resolve = (f, n, set) => {
    const m = M[f], k = f + '|' + n;
    if (set.has(k)) return null;
    set.add(k);
    if (m.loc.has(n)) return k;
    if (m.ind.has(n)) { const [g, a] = m.ind.get(n); return a === null ? g + '|' : resolve(g, a, set); }
    if (n === 'default') return null;
    let r = null;
    for (const g of m.star) { const q = resolve(g, n, set); if (q === '?') return q; if (q !== null) { if (r === null) r = q; else if (r !== q) return '?'; } }
    return r;
  };
  const good = (f, n) => { const r = resolve(f, n, new Set()); return r !== null && r !== '?'; };
  const seen = new Set();
  const visit = (f) => { if (seen.has(f)) return true; seen.add(f); const m = M[f]; return m.req.every(visit) && [...m.ind].every(([n]) => good(f, n)) && m.imp.every(([g, n]) => good(g, n)); };
  return visit('m0.mjs');
}

export default {
  // V8 takes the same namespace exported by two modules for two bindings
  tolerate: (c, e, a) => new Set([...c.src.matchAll(/^export \* as .*$/mg)].map((m) => m[0])).size < (c.src.match(/^export \* as .*$/mg) || []).length || e.status === 'failed' && a.status !== 'failed' && /does not provide|ambiguous|conflicting|cycle|circular/i.test(e.err || '') && links(parse(c.src)),
  rule: 'graphs of 2-7 modules with every import and export form, cycles, star exports, namespaces, JSON modules, top-level await, throwing modules and sequential dynamic imports; outcome class and printed trace (evaluation order, binding values, namespace reflection) compared with node; non-trivial: the trace is longer than 60 characters',
  batch: 20, count: { quick: 12000, thorough: 200000 },
  close() { if (ref) { const p = ref; ref = null; p.kill('SIGKILL'); } if (dir) fs.rmSync(dir, { recursive: true, force: true }); dir = null; },
  async custom(c, j) {
    dir ||= fs.mkdtempSync(path.join(os.tmpdir(), 'L11-'));
    const files = parse(c.src), sub = path.join(dir, String(k++));
    fs.mkdirSync(sub);
    try {
      for (const f in files) fs.writeFileSync(path.join(sub, f), files[f]);
      const e = norm(await refRun({ files, entry: 'm0.mjs' }));
      const [a0] = await j.host.run([{ src: path.join(sub, 'm0.mjs'), mode: 3 }], { stress: [0, 0, 0, 7, 3][c.src.length % 5] });
      const a = norm(a0);
      if (a.err) a.err = a.err.replaceAll(sub, '');
      return { ...j.judge(c, e, a), exp: e, act: a };
    } finally { fs.rmSync(sub, { recursive: true, force: true }); }
  },
  gen,
};
