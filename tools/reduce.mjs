// node tools/reduce.mjs FILE.js : ddmin over lines, then tokens, keeping "engines differ" (same kind of failure)
import fs from 'node:fs';
import { Host, Ref } from '../lib/engine.mjs';
const file = process.argv[2];
let src = fs.readFileSync(file, 'utf8');
const mode = Number(process.env.MODE || 0);
const h = new Host(process.env.FLAVOR || 'asan'), ref = new Ref();
const kind = (e, a) => a.status === 'crash' ? 'crash ' + a.err.replace(/exit=\S+ sig=\S+/, '').replace(/0x[0-9a-f]+/g, '') : (e.status === 'nocompile' ? null : e.status === 'timeout' ? null : (e.status !== a.status || e.out !== a.out) ? 'diff' + (a.status !== e.status ? e.status + a.status : '') : null);
async function t(s) { const e = ref.run([{ src: s, mode }])[0]; if (e.status === 'nocompile' || e.status === 'timeout') return null; const a = (await h.run([{ src: s, mode }]))[0]; return kind(e, a); }
const k0 = await t(src);
console.error('kind', k0);
async function dd(parts, join) {
  let n = 2;
  while (parts.length >= 2) {
    const sz = Math.ceil(parts.length / n); let ok = false;
    for (let i = 0; i < parts.length; i += sz) {
      const c = parts.slice(0, i).concat(parts.slice(i + sz));
      if (await t(c.join(join)) === k0) { parts = c; n = Math.max(n - 1, 2); ok = true; break; }
    }
    if (!ok) { if (sz === 1) break; n = Math.min(parts.length, n * 2); }
  }
  return parts;
}
if (k0) {
  for (let r = 0; r < 3; r++) {
    const b = src;
    src = (await dd(src.split('\n'), '\n')).join('\n');
    let toks = src.match(/\s+|[A-Za-z_$0-9]+|'[^']*'|"[^"]*"|[^\s\w]/g);
    // balanced group removal
    const OPEN = { '(': ')', '[': ']', '{': '}' };
    for (let i = 0; i < toks.length; i++) {
      if (!OPEN[toks[i]]) continue;
      let dpt = 0, j = i;
      for (; j < toks.length; j++) { if (OPEN[toks[j]]) dpt++; else if (')]}'.includes(toks[j])) { dpt--; if (!dpt) break; } }
      for (const c of [toks.slice(0, i).concat(toks.slice(j + 1)), toks.slice(0, i + 1).concat(toks.slice(j)), toks.slice(0, i).concat(toks.slice(i + 1, j), toks.slice(j + 1)), toks.slice(0, i).concat(['0'], toks.slice(j + 1))]) {
        if (c.length < toks.length && await t(c.join('')) === k0) { toks = c; i--; break; }
      }
    }
    toks = await dd(toks, '');
    // windows of 2..6 tokens
    for (let w = 8; w >= 1; w--) for (let i = 0; i + w <= toks.length; i++) { const c = toks.slice(0, i).concat(toks.slice(i + w)); if (await t(c.join('')) === k0) { toks = c; i = Math.max(-1, i - 2); } }
    src = toks.join('');
    if (src === b) break;
  }
}
console.log(src);
h.kill(); process.exit(0);
