// File, Dir, FileState and the file functions, against a model over node's fs.
import fs from 'node:fs';
import path from 'node:path';
import os from 'node:os';
import { execFileSync, spawnSync } from 'node:child_process';

const UID = 65534;
let root = null, n = 0;
const scratch = () => {
  if (!root) { root = fs.mkdtempSync(path.join(os.tmpdir(), 'vh02-')); fs.chmodSync(root, 0o755); process.on('exit', clean); }
  return root;
};
const clean = () => { if (root) { try { fs.rmSync(root, { recursive: true, force: true }); } catch (e) {} root = null; } };
for (const s of ['SIGTERM', 'SIGINT', 'SIGHUP']) process.on(s, () => { clean(); process.exit(143); });

// ---------------------------------------------------------------- the model
const enc = { 'utf-8': 'utf8', 'utf8': 'utf8', 'utf-16le': 'utf16le', 'iso-8859-1': 'latin1' };
const fds = new Map();
let excluded = false; // the history left what the model describes (see DESIGN.md)
const truncated = (b) => { for (let k = 1; k <= 3 && k <= b.length; k++) { const x = b[b.length - k]; if (x >= 0xc0) return k < (x >= 0xf0 ? 4 : x >= 0xe0 ? 3 : 2); if (x < 0x80) return false; } return false; };
function prim(op, ...a) { // returns a primitive, or throws (any error means: the call failed)
  const E = (k) => { const r = enc[k.toLowerCase()]; if (!r) throw 1; return r; };
  const dec = (b, e) => E(e) === 'utf8' ? (truncated(b) && (excluded = true), new TextDecoder('utf-8', { ignoreBOM: true }).decode(b)) : b.toString(E(e));
  switch (op) {
  case 'rename': fs.renameSync(a[0], a[1]); return;
  case 'unlink': fs.unlinkSync(a[0]); return;
  case 'rmdir': fs.rmdirSync(a[0]); return;
  case 'mkdir': fs.mkdirSync(a[0], { mode: a[1] }); return;
  case 'chmod': fs.chmodSync(a[0], a[1] & 0o7777); return;
  case 'realpath': return fs.realpathSync.native(a[0]);
  case 'stat': { const s = fs.statSync(a[0]); return [s.size, s.isFile() ? 0 : s.isDirectory() ? 1 : 9, s.mode & 0o7777, Math.floor(s.atimeMs / 1000), Math.floor(s.mtimeMs / 1000), Math.floor(s.ctimeMs / 1000)].join(); }
  case 'list': return ['.', '..', ...fs.readdirSync(a[0])].map((x) => encodeURIComponent(x)).join();
  case 'load': return dec(fs.readFileSync(a[0]), a[1]);
  case 'enc': E(a[0]); return;
  case 'save': { const b = Buffer.from(a[2], E(a[3])); if (a[1]) fs.appendFileSync(a[0], b); else fs.writeFileSync(a[0], b); return; }
  case 'loadhex': return fs.readFileSync(a[0]).toString('latin1');
  case 'savehex': { const b = Buffer.from(a[2], 'latin1'); if (a[1]) fs.appendFileSync(a[0], b); else fs.writeFileSync(a[0], b); return; }
  case 'open': {
    const m = a[1].replace(/b/g, '');
    const fl = { r: 0, 'r+': 2, w: 1 | 64 | 512, 'w+': 2 | 64 | 512, a: 1 | 64 | 1024, 'a+': 2 | 64 | 1024 }[m];
    if (fl === undefined) throw 1;
    const fd = fs.openSync(a[0], fl, 0o666), st = fs.fstatSync(fd);
    if (st.isDirectory()) excluded = true; // fopen works, stdio on it does not
    const id = fds.size + 1;
    fds.set(id, { fd, pos: m === 'a' ? st.size : 0, app: m[0] === 'a', rd: /[r+]/.test(m), wr: /[wa+]/.test(m) });
    return id;
  }
  case 'seek': { const f = fds.get(a[0]); const base = [0, f.pos, fs.fstatSync(f.fd).size][a[2]]; if (base === undefined || base + a[1] < 0) throw 1; f.pos = base + a[1]; return; }
  case 'tell': return fds.get(a[0]).pos;
  case 'close': { const f = fds.get(a[0]); fs.closeSync(f.fd); return; }
  case 'read': { const f = fds.get(a[0]), b = Buffer.alloc(a[1]); if (!f.rd) throw 1; const k = fs.readSync(f.fd, b, 0, a[1], f.pos); f.pos += k; return b.toString('latin1', 0, k); }
  case 'line': { const f = fds.get(a[0]); if (!f.rd) return ''; const all = fs.readFileSync(`/proc/self/fd/${f.fd}`).subarray(f.pos); const i = all.indexOf(10), l = i < 0 ? all : all.subarray(0, i + 1); f.pos += l.length; return dec(l, a[1]); }
  case 'write': {
    const f = fds.get(a[0]), b = Buffer.from(a[1], a[2] === undefined ? 'latin1' : E(a[2]));
    if (!b.length) return;
    if (!f.wr) throw 1;
    fs.writeSync(f.fd, b, 0, b.length, f.app ? null : f.pos);
    f.pos = f.app ? fs.fstatSync(f.fd).size : f.pos + b.length;
    return;
  }
  case 'env': return process.env['H02_' + a[0]] ?? ({ PATH: '/usr/bin:/bin', LANG: 'C.UTF-8', TZ: 'UTC' })[a[0]];
  case 'system': { const r = spawnSync('/bin/sh', ['-c', a[0]], { cwd: '/tmp', stdio: 'ignore', env: { PATH: '/usr/bin:/bin', TZ: 'UTC' } }); return r.status << 8; }
  }
  throw new Error('model: ' + op);
}
const MODEL = `(function(g, prim) { 'use strict';
const T = (f) => { let r = f(); if (r === false) throw new TypeError('failed'); return r; };
const S = String, U8 = Uint8Array, isAB = (b) => { try { return Object.getOwnPropertyDescriptor(ArrayBuffer.prototype,'byteLength').get.call(b) >= 0; } catch (e) { return false; } };
const toIdx = (v) => { let n = Math.trunc(+v) || 0; if (n < 0 || n > 2**53-1) throw new RangeError('index'); return n; };
const toLen = (v) => { let n = Math.trunc(+v) || 0; return Math.min(Math.max(n, 0), 2**53-1); };
const str = (v) => { if (typeof v === 'symbol') throw new TypeError('symbol'); return S(v); };
const bytes = (s) => { const b = new U8(s.length); for (let i = 0; i < s.length; i++) b[i] = s.charCodeAt(i); return b.buffer; };
const lat = (b, i, n) => { let u = new U8(b, i, n), r = ''; for (let x of u) r += String.fromCharCode(x); return r; };
const detached = (b) => b.byteLength === 0 && (() => { try { new U8(b); return false; } catch (e) { return true; } })();
const def = (o, n, v) => Object.defineProperty(o, n, { value: v, writable: true, configurable: true, enumerable: false });
const F = new WeakMap(), D = new WeakMap();
const fn = (n, f) => def(g, n, f);
fn('rename', (a, b) => { a = str(a); b = str(b); T(() => prim('rename', a, b)); });
fn('unlink', (a) => { a = str(a); T(() => prim('unlink', a)); });
fn('rmdir', (a) => { a = str(a); T(() => prim('rmdir', a)); });
fn('mkdir', function (a, m) { a = str(a); m = arguments.length > 1 ? m | 0 : 0o777; T(() => prim('mkdir', a, m)); });
fn('chmod', (a, m) => { a = str(a); m = m | 0; T(() => prim('chmod', a, m)); });
fn('realpath', (a) => { a = str(a); let r = prim('realpath', a); return r === false ? undefined : r; });
fn('getenv', (a) => { a = str(a); return prim('env', a); });
fn('system', (a) => { a = str(a); return prim('system', a); });
fn('getcwd', () => '/tmp');
fn('dirname', (p) => { p = str(p); let s = p.replace(/\\/+$/, ''); if (!s) return p ? '/' : '.'; let i = s.lastIndexOf('/'); if (i < 0) return '.'; s = s.slice(0, i).replace(/\\/+$/, ''); return s || '/'; });
fn('basename', (p) => { p = str(p); if (!p) return '.'; let s = p.replace(/\\/+$/, ''); if (!s) return '/'; return s.slice(s.lastIndexOf('/') + 1); });
function FileState(n) { n = str(n); let r = prim('stat', n); if (r === false) return undefined; let o = {}, k = ['size', 'format', 'mode', 'atime', 'mtime', 'ctime']; r.split(',').forEach((x, i) => Object.defineProperty(o, k[i], { value: +x, enumerable: true })); return o; }
fn('FileState', function (n) { return FileState(n); });
for (let [k, v] of Object.entries({ FORMAT_REGULAR: 0, FORMAT_DIR: 1 })) def(g.FileState, k, v);
class File {
  constructor(p, m) { p = str(p); m = str(m); F.set(this, { id: T(() => prim('open', p, m)) }); }
  static loadString(p, e) { p = str(p); e = arguments.length > 1 ? str(e) : 'utf-8'; return T(() => prim('load', p, e)); }
  static storeString(p, s, e) { p = str(p); s = str(s); e = arguments.length > 2 ? str(e) : 'utf-8'; T(() => prim('save', p, false, s, e)); }
  static appendString(p, s, e) { p = str(p); s = str(s); e = arguments.length > 2 ? str(e) : 'utf-8'; T(() => prim('save', p, true, s, e)); }
  static loadData(p) { p = str(p); return bytes(T(() => prim('loadhex', p))); }
  static #save(app, a) { let p = str(a[0]), b = a[1]; if (!isAB(b)) throw new TypeError('buffer'); let size = b.byteLength, i = a.length > 2 ? Math.min(toIdx(a[2]), size) : 0, n = a.length > 3 ? Math.min(toLen(a[3]), size - i) : size - i; if (detached(b)) throw new TypeError('detached'); let s = lat(b, i, n); T(() => prim('savehex', p, app, s)); }
  static storeData() { File.#save(false, arguments); }
  static appendData() { File.#save(true, arguments); }
  #f() { let f = F.get(this); if (!f) throw new TypeError('not a file'); if (f.closed) throw new TypeError('closed'); return f.id; }
  read(b, i, c) { File.#of(this); if (!isAB(b)) throw new TypeError; let size = b.byteLength; i = arguments.length > 1 ? Math.min(toIdx(i), size) : 0; c = arguments.length > 2 ? Math.min(toLen(c), size - i) : size - i; let id = File.#of(this); if (!c) return 0; if (detached(b)) throw new TypeError; let s = T(() => prim('read', id, c)); let u = new U8(b); for (let k = 0; k < s.length; k++) u[i + k] = s.charCodeAt(k); return s.length; }
  write(b, i, c) { File.#of(this); if (!isAB(b)) throw new TypeError; let size = b.byteLength; i = arguments.length > 1 ? Math.min(toIdx(i), size) : 0; c = arguments.length > 2 ? Math.min(toLen(c), size - i) : size - i; let id = File.#of(this); if (!c) return 0; if (detached(b)) throw new TypeError; T(() => prim('write', id, lat(b, i, c))); return c; }
  static #of(x) { let f = F.get(x); if (!f) throw new TypeError('not a file'); if (f.closed) throw new TypeError('closed'); return f.id; }
  seek(o, w) { File.#of(this); o = Math.trunc(+o) || 0; w = w | 0; let id = File.#of(this); if (Math.abs(o) >= 2 ** 63) throw new RangeError; T(() => prim('seek', id, o, w)); return this; }
  tell() { return prim('tell', File.#of(this)); }
  close() { let f = F.get(this); if (!f) throw new TypeError; if (!f.closed) { prim('close', f.id); f.closed = true; } }
  getChar() { let s = prim('read', File.#of(this), 1); return s === false || s === '' ? undefined : s.charCodeAt(0); }
  putChar(c) { File.#of(this); c = c | 0; let id = File.#of(this); T(() => prim('write', id, String.fromCharCode(c & 255))); return this; }
  getString(e) { File.#of(this); e = arguments.length > 0 ? str(e) : 'utf-8'; let id = File.#of(this); return T(() => prim('line', id, e)); }
  putString(s, e) { File.#of(this); s = str(s); e = arguments.length > 1 ? str(e) : 'utf-8'; let id = File.#of(this); T(() => prim('enc', e)); T(() => prim('write', id, s, e)); return this; }
}
def(g, 'File', File); def(File, 'SEEK_SET', 0); def(File, 'SEEK_CUR', 1); def(File, 'SEEK_END', 2);
const ItP = Object.getPrototypeOf(Object.getPrototypeOf([][Symbol.iterator]()));
class Dir {
  constructor(p) { p = str(p); D.set(this, { l: T(() => prim('list', p)).split(',').map(decodeURIComponent), i: 0 }); }
  #d() {}
  static #of(x) { let d = D.get(x); if (!d) throw new TypeError; return d; }
  read() { let d = Dir.#of(this); if (d.closed) throw new TypeError; return d.l[d.i++]; }
  next() { let d = Dir.#of(this); if (!d.closed && d.i >= d.l.length) d.closed = true; return d.closed ? { value: undefined, done: true } : { value: d.l[d.i++], done: false }; }
  close() { Dir.#of(this).closed = true; }
  return() { Dir.#of(this).closed = true; return { value: undefined, done: true }; }
}
Object.setPrototypeOf(Dir.prototype, ItP); def(g, 'Dir', Dir);
})`;
function refExtra(g, ctx) {
  const p = (...a) => { try { return prim(...a); } catch (e) { return false; } };
  ctxRun(ctx, MODEL)(g, p);
}
import vm from 'node:vm';
const ctxRun = (ctx, s) => vm.runInContext(s, ctx);

// ---------------------------------------------------------------- scratch trees
function build(dir, spec, uid) {
  fs.mkdirSync(dir); if (uid) fs.chownSync(dir, uid, uid);
  for (const [kind, name, arg] of spec) {
    const f = path.join(dir, name);
    if (kind === 'd') { fs.mkdirSync(f); fs.chmodSync(f, 0o755); } else if (kind === 'l') fs.symlinkSync(arg, f); else { fs.writeFileSync(f, Buffer.from(arg, 'latin1')); fs.chmodSync(f, 0o644); }
    if (uid) fs.lchownSync(f, uid, uid);
  }
}
function tree(dir) {
  let r = '';
  const go = (p) => {
    for (const n of fs.readdirSync(p).sort()) {
      const f = path.join(p, n), s = fs.lstatSync(f), rel = path.relative(dir, f);
      if (s.isSymbolicLink()) r += `L ${rel} ${fs.readlinkSync(f)}\n`;
      else if (s.isDirectory()) { r += `D ${rel} ${(s.mode & 0o7777).toString(8)}\n`; fs.chmodSync(f, 0o755); go(f); } else r += `F ${rel} ${(s.mode & 0o7777).toString(8)} ${fs.readFileSync(f).toString('hex')}\n`;
    }
  };
  go(dir);
  return r;
}

// ---------------------------------------------------------------- histories
const NAMES = ['a', 'b', 'c.txt', 'd', 'd/x', 'd/y', 'e', 'e/f', 'nope/z', 'sl', 'dl', 'dangle', 'd/sub', 'd/sub/q', '\u00e9\u20ac', '\u{1f600}.t', 'sp ace', '.', '..', '', 'd/', 'a/', './a', 'd/../b', 'd//x'];
const q = JSON.stringify;
const TEXT = ['', 'a', 'hello\n', 'line1\nline2\nlast', '\n', '\n\n', 'h\u00e9\u20ac\n', '\u{1f600}', '\u0416\u4e2d\n\u00ff', 'tab\t\r\n', '\ufeffbom'];
function text(d, lat) {
  let s = d.list(1, 3, () => d.pick(TEXT)).join('');
  if (d.bool(0.12)) s = 'x'.repeat(d.int(0, 5)) + d.pick(['\u20ac', '\u00e9', '\u{1f600}', 'ab\n', '\u4e2d\u0416']).repeat(d.pick([255, 256, 257, 300, 340, 341, 342, 512, 1023, 1024, 1366, 2048, 3000]));
  if (lat) s = s.replace(/[^\0-\xff]+/g, '?');
  return s;
}
const long = (s) => s.length > 60 ? (() => { const m = /^(x*)(.{1,3}?)\2+$/su.exec(s); return m ? `${q(m[1])}+${q(m[2])}.repeat(${(s.length - m[1].length) / m[2].length})` : q(s); })() : q(s);
export default {
  rule: 'histories of up to 30 File, Dir, FileState, rename, unlink, mkdir, rmdir, chmod and system calls on a fresh directory, run as an unprivileged user; printed results and the final tree (names, kinds, modes, contents) are compared with a model over node fs calls; non-trivial: the history opens a file or stores data and the final tree differs from the initial one',
  level: 'tested', batch: 10, count: { quick: 4000, thorough: 100000 },
  hostOpts: { uid: UID, gid: UID, cwd: '/tmp', env: { H02: 'x' } },
  refExtra,
  close: clean,
  async custom(c, j) {
    const top = scratch(), k = ++n, A = path.join(top, `A${k}`), B = path.join(top, `B${k}`);
    const spec = JSON.parse(/^\/\/FS (.*)$/m.exec(c.src)[1]);
    try {
      build(A, spec, UID); build(B, spec, 0);
      const src = (dir) => c.src.replace(/@D@/g, dir);
      fds.clear(); excluded = false;
      const old = process.umask(0o022);
      let e;
      try { e = j.ref.run([{ src: src(B), mode: c.mode }], { realm: true })[0]; } finally { process.umask(old); }
      const [a] = await j.host.run([{ src: src(A), mode: c.mode }], {});
      const fix = (s, dir) => s.split(dir).join('@D@');
      const E = { status: e.status, out: fix(e.out, B) + 'tree\n' + tree(B) }, R = { ...a, out: fix(a.out, A) + (a.status === 'crash' ? '' : 'tree\n' + tree(A)) };
      if (excluded || e.status === 'timeout') return { ok: null, exp: E, act: R };
      return { ok: E.status === R.status && E.out === R.out, exp: E, act: R };
    } finally { for (const x of [A, B]) fs.rmSync(x, { recursive: true, force: true }); }
  },
  gen(d) {
    const spec = [['d', 'd'], ['d', 'e']];
    if (d.bool(0.3)) spec.push(['d', 'd/sub']);
    for (const f of ['a', 'b', 'd/x', 'e/f', '\u00e9\u20ac', 'sp ace']) if (d.bool(0.6)) spec.push(['f', f, d.freq([[4, () => Buffer.from(text(d)).toString('latin1')], [2, () => d.list(0, 20, () => String.fromCharCode(d.below(128))).join('')], [1, () => 'y'.repeat(d.pick([4095, 4096, 4097, 8192, 1024]))]])]);
    let slf = 'a';
    if (d.bool(0.4)) { const t = d.pick(['a', 'd/x', 'd']); spec.push(['l', 'sl', t]); if (t !== 'd') slf = 'sl'; }
    if (d.bool(0.2)) spec.push(['l', 'dl', 'd'], ['l', 'dangle', 'none']);
    const name = () => d.freq([[6, () => d.pick(NAMES.slice(0, 12))], [2, () => d.pick(NAMES)]]);
    const P = (x) => d.bool(0.04) ? `{toString(){__out("ts");return ${q('@D@/' + (x ?? name()))}}}` : q('@D@/' + (x ?? name()));
    const busy = new Map(); // open handle -> {file, mode, last}
    let h = 0, opened = 0;
    const L = [];
    const inUse = (x) => [...busy.values()].some((b) => b.alias === undefined);
    const abuf = () => d.freq([[5, () => `__buf(${d.pick([0, 1, 2, 5, 10, 64, 4096, 5000])},${d.below(200)})`], [1, () => 'B']]);
    const numArg = (nn) => d.freq([[8, () => String(d.pick([0, 1, 2, 3, nn >> 1, nn, nn + 1]))], [1, () => d.pick(['undefined', 'NaN', '"2"', '1.9', '-0', '-0.5', '2**31', '2**40', '-1', '1n', 'null', '{valueOf(){__out("vo");return 1}}', 'Infinity', 'Symbol()'])]]);
    const cntArg = () => d.freq([[8, () => String(d.pick([0, 1, 2, 3, 7, 64, 4096]))], [1, () => d.pick(['NaN', '"2"', '1.9', '-1', '2**40', '2**53', 'Infinity', '-Infinity', '1n', '{valueOf(){__out("vc");return 2}}'])]]);
    const rng = () => d.freq([[3, ''], [2, () => ',' + numArg(5)], [3, () => ',' + numArg(5) + ',' + cntArg()]]);
    const encArg = (force) => d.freq([[6, ''], [1, ',"UTF-8"'], [1, ',"utf-8"'], [force ? 1 : 0, ',"no-such-enc"'], [1, ',"ISO-8859-1"']]);
    const evil = (b, r) => d.bool(0.03) ? `{valueOf(){${b}.close();return ${r}}}` : null;
    const plain = () => { // path-based operations; not while a handle is open
      const k = d.below(22);
      switch (k) {
      case 0: case 1: { const e = encArg(true), u16 = d.bool(0.1); L.push(`__t(()=>File.storeString(${P()},${long(text(d, /ISO/.test(e)))}${u16 ? ',"UTF-16LE"' : e}));`); return; }
      case 2: { const e = encArg(true); L.push(`__t(()=>File.appendString(${P()},${d.bool(0.1) ? d.pick(['12', 'null', 'undefined', '{toString(){__out("s");return "q"}}', 'Symbol()', '{toString(){throw 1}}']) : long(text(d, /ISO/.test(e)))}${e}));`); return; }
      case 3: case 4: L.push(`__t(()=>File.loadString(${P()}${d.freq([[5, ''], [1, ',"UTF-8"'], [1, ',"ISO-8859-1"'], [1, ',"bad-enc"']])}));`); return;
      case 5: L.push(`__t(()=>__big(File.loadData(${P()})));`); return;
      case 6: case 7: L.push(`__t(()=>File.${d.pick(['storeData', 'appendData'])}(${P()},${d.bool(0.07) ? d.pick(['undefined', '{}', '"abc"', 'new Uint8Array(3)', '__det()']) : abuf()}${rng()}));`); return;
      case 8: L.push(`__t(()=>rename(${P()},${P()}));`); return;
      case 9: L.push(`__t(()=>unlink(${P()}));`); return;
      case 10: L.push(`__t(()=>rmdir(${P()}));`); return;
      case 11: L.push(`__t(()=>mkdir(${P()}${d.freq([[3, ''], [2, () => ',0o' + d.pick(['777', '755', '700', '711', '1777'])], [1, ',"493"']])}));`); return;
      case 12: { const x = d.pick(['a', 'b', 'c.txt', 'd/x', 'd/y', 'e/f', 'nope/z']), dir = d.bool(0.2); L.push(dir ? `__t(()=>chmod(${P(d.pick(['d', 'e']))},0o${d.pick(['755', '700', '711', '1777', '2775'])}));` : `__t(()=>chmod(${P(x)},${d.pick(['0o644', '0o600', '0o666', '0o755', '384', '"420"', '420.7', '-32384'])}));`); return; }
      case 13: case 14: L.push(`__t(()=>__st(${P()}));`); return;
      case 15: case 16: L.push(d.pick([
        (p) => `__t(()=>[...new Dir(${p})].sort());`,
        (p) => `__t(()=>{let D=new Dir(${p}),r=[],x;while((x=D.read())!==undefined)r.push(x);D.close();return r.sort()});`,
        (p) => `__t(()=>{let D=new Dir(${p}),n=0;for(let x of D){n++;if(n==${d.int(1, 3)})break}return [n,D.next()]});`,
        (p) => `__t(()=>{let D=new Dir(${p});D.close();D.close();__t(()=>D.read());__t(()=>D.return(3));return D.next()});`,
        (p) => `__t(()=>{let D=new Dir(${p}),r=[];for(;;){let x=D.next();if(x.done)break;r.push(x.value)}return [r.length,D.next(),D[Symbol.iterator]()===D]});`,
        (p) => `__t(()=>{let D=new Dir(${p});let [x,y]=D;__t(()=>D.read());return [typeof x,D.next()]});`,
      ])(P())); return;
      case 17: L.push(`__t(()=>realpath(${P()}));`); return;
      case 18: L.push(`__t(()=>${d.pick(['dirname', 'basename'])}(${d.bool(0.15) ? d.pick(['12', 'null', '{toString(){return "p/q"}}', 'Symbol()', '[]', '["a/b"]']) : q(d.list(0, 4, () => d.pick(['/', 'a', 'bc', '.', '..', '//', 'x.y', '\u00e9', '///'])).join(d.pick(['', '/', ''])).replace(/^\/\/+/, '/'))}));`); return;
      case 19: L.push(d.pick([`__t(()=>getcwd());`, `__t(()=>getenv("TZ"));`, `__t(()=>getenv("H02_NONE"));`, `__t(()=>getenv("PATH"));`, `__t(()=>getenv({toString(){return "LANG"}}));`, `__t(()=>File.prototype.${d.pick(['read', 'tell', 'seek', 'getString', 'putChar', 'close', 'write'])}.call(${d.pick(['{}', 'undefined', 'new Dir("@D@")', 'File.prototype', '1'])},new ArrayBuffer(1)));`, `__t(()=>Dir.prototype.${d.pick(['read', 'next', 'close', 'return'])}.call(${d.pick(['{}', 'undefined', 'Dir.prototype', '"x"'])}));`])); return;
      case 20: L.push(`__t(()=>system(${q(d.pick(['exit 0', 'true', 'printf xyz >@D@/a', 'printf 12 >>@D@/b', 'rm -f @D@/c.txt', 'mkdir @D@/m', 'cat @D@/a >@D@/o', 'cd @D@ && echo "$TZ" >tz']))}));`); return;
      case 21: L.push(`__t(()=>{let s=${long(text(d))};File.storeString(${q('@D@/c.txt')},s);return File.loadString(${q('@D@/c.txt')})===s});`); return;
      }
    };
    const openF = () => {
      const mode = d.freq([[3, 'r'], [2, 'r+'], [3, 'w'], [3, 'w+'], [2, 'a'], [2, 'a+'], [1, 'zz'], [1, '']]), b = mode.length && mode !== 'zz' && d.bool(0.3) ? (d.bool(0.5) || mode.length === 1 ? mode + 'b' : mode[0] + 'b+') : mode;
      const f = `f${h++}`;
      const nm = d.pick(['a', 'b', 'c.txt', 'd/x', 'd/y', 'e/f', 'nope/z', '\u00e9\u20ac', slf, 'd/sub/q']);
      L.push(`let ${f};__t(()=>{${f}=new File(${P(nm)},${q(b)});return ${f} instanceof File});`);
      busy.set(f, { mode, last: '', n: 0 }); opened++;
      if (mode === 'a+') { L.push(`__t(()=>${f}.seek(${d.pick(['0', '1', '2'])},File.${d.pick(['SEEK_SET', 'SEEK_END', 'SEEK_CUR'].slice(0, 2))})===${f});`); }
      return f;
    };
    const use = (f) => {
      const b = busy.get(f), rd = /r|\+/.test(b.mode), wr = /w|a|\+/.test(b.mode);
      const kinds = []; if (rd) kinds.push('R', 'R'); if (wr) kinds.push('W', 'W'); kinds.push('S', 'T');
      const k = d.pick(kinds);
      const turn = (to) => { if (b.last && b.last !== to) L.push(`__t(()=>${f}.seek(${d.pick(['0,File.SEEK_CUR', '0,File.SEEK_SET', '0,File.SEEK_END', '0,1'])})===${f});`); b.last = to; };
      if (k === 'R') {
        turn('R');
        L.push(d.freq([
          [3, () => `__t(()=>{let b=${abuf()};let n=${f}.read(b${d.bool(0.04) ? `,0,{valueOf(){${f}.close();return 2}}` : rng()});return [n,__big(b)]});`],
          [3, () => `__t(()=>__eof(${f}.getChar()));`],
          [3, () => `__t(()=>__eof(${f}.getString(${d.freq([[5, ''], [1, '"UTF-8"'], [1, '"ISO-8859-1"'], [1, '"bad"']])})));`],
          [1, () => `__t(()=>{let r=[],c;while((c=__eof(${f}.getChar()))!=="EOF"&&r.length<50)r.push(c);return r});`],
          [1, () => `__t(()=>{let r=[],c;while((c=__eof(${f}.getString()))!=="EOF"&&r.length<9)r.push(c);return r});`],
          [0.3, () => `__t(()=>${f}.read(${d.pick(['{}', 'undefined', 'new Uint8Array(2)', '__det()'])}));`],
        ].map(([w, x]) => [Math.round(w * 10), x])));
      } else if (k === 'W') {
        turn('W');
        const e = encArg(true);
        L.push(d.freq([
          [30, () => `__t(()=>${f}.write(${abuf()}${d.bool(0.04) ? `,{valueOf(){${f}.close();return 0}}` : rng()}));`],
          [20, () => `__t(()=>${f}.putChar(${d.bool(0.06) ? `{valueOf(){${f}.close();return 65}}` : d.pick(['65', '0', '255', '10', '256+66', '-1', '"67"', 'NaN', '127'])})===${f});`],
          [30, () => `__t(()=>${f}.putString(${d.bool(0.05) ? `{toString(){${f}.close();return "x"}}` : d.bool(0.1) ? d.pick(['12', 'undefined', 'Symbol()', '{toString(){throw 2}}', '[1,2]']) : long(text(d, /ISO/.test(e)))}${e})===${f});`],
          [3, () => `__t(()=>${f}.write(${d.pick(['{}', 'undefined', '"x"', '__det()'])}));`],
        ]));
      } else if (k === 'S') {
        L.push(`__t(()=>${f}.seek(${d.freq([[8, () => String(d.pick([0, 1, 2, 3, 5, -1, -2, -3, 10, -100, 4096]))], [1, () => d.pick(['"1"', '1.9', '-1.9', 'NaN', '1n', `{valueOf(){${f}.close();return 0}}`, '2**70', '-(2**70)', 'undefined'])]])},${d.freq([[9, () => d.pick(['File.SEEK_SET', 'File.SEEK_CUR', 'File.SEEK_END', '0', '1', '2'])], [1, () => d.pick(['3', '-1', '"1"', 'undefined', '77'])]])})===${f});`);
        L.push(`__t(()=>${f}.tell());`);
        if (b.mode === 'a+') b.last = ''; else b.last = '';
        // a failed seek does not make the direction change legal
        b.last = b.lastIO || ''; 
      } else L.push(`__t(()=>${f}.tell());`);
      if (k === 'R' || k === 'W') b.lastIO = k;
    };
    const steps = d.int(3, 22);
    for (let i = 0; i < steps; i++) {
      if (!busy.size) { if (d.bool(0.35)) openF(); else plain(); continue; }
      const f = d.pick([...busy.keys()]);
      if (d.bool(0.12)) {
        const b = busy.get(f);
        if (d.bool(0.15)) L.push(/^[wa]$/.test(b.mode) ? d.pick([`__t(()=>${f}.read(new ArrayBuffer(3)));`, `__t(()=>__eof(${f}.getChar()));`]) : b.mode === 'r' ? d.pick([`__t(()=>${f}.write(__buf(3,1)));${f}.x=1;`, `__t(()=>${f}.putChar(65));`]) : '');
        L.push(`__t(()=>${f}.close());`);
        if (d.bool(0.2)) L.push(`__t(()=>${f}.${d.pick(['close()', 'tell()', 'read(new ArrayBuffer(2))', 'write(new ArrayBuffer(2))', 'seek(0,0)', 'getChar()', 'putChar(1)', 'getString()', 'putString("a")'])});`);
        busy.delete(f);
      } else use(f);
    }
    for (const f of busy.keys()) L.push(`__t(()=>${f}.close());`);
    for (let i = 0; i < 2; i++) if (d.bool(0.5)) plain();
    const head = `const __buf=(n,s)=>{let u=new Uint8Array(n);for(let i=0;i<n;i++)u[i]=(i*7+s)%251;return u.buffer},__det=()=>{let b=new ArrayBuffer(4);__detach(b);return b},__eof=(x)=>x===undefined||x===-1||x===""?"EOF":x;let B=__buf(9,3);
const __big=(b)=>{let u=new Uint8Array(b),h=0;for(let x of u)h=(h*31+x)%1000003;return [u.length,h,...u.subarray(0,12)]};
const __st=(p)=>{let s=new FileState(p);if(s===undefined||s.size===undefined)return "none";let now=Date.now()/1000,t=(x)=>Number.isInteger(x)&&Math.abs(x-now)<3000;return [s.format===FileState.FORMAT_DIR?"dir":s.size,s.format,s.mode,t(s.mtime),t(s.ctime),t(s.atime)]};\n`;
    const init = JSON.stringify(spec);
    return { src: '//FS ' + init.replace(/[\u007f-\uffff]/g, (x) => '\\u' + x.charCodeAt(0).toString(16).padStart(4, '0')) + '\n' + head + L.filter(Boolean).join('\n'), nontrivial: (r) => (opened > 0 || /store|append/.test(L.join())) && /^F /m.test(r.act.out) };
  },
};
