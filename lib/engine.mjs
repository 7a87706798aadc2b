// The two engines a program is run on: the host built from /repo, and node.
import { spawn, spawnSync } from 'node:child_process';
import inspector from 'node:inspector';
import vm from 'node:vm';
import fs from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';

export const ROOT = path.dirname(path.dirname(fileURLToPath(import.meta.url)));
export const BUILD = process.env.VBUILD || path.join(ROOT, '.build');
export const PRELUDE = fs.readFileSync(path.join(ROOT, 'lib/prelude.js'), 'utf8');
const MAGIC = 0x52415431;
export const STATUS = ['ok', 'threw', 'nocompile', '', 'linkerror', 'loaderror', 'unsettled'];

// stop a host from outliving its driver, bound its memory
const ASAN = 'detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:hard_rss_limit_mb=3000:max_allocation_size_mb=1500:detect_stack_use_after_return=0:handle_abort=1:symbolize=1:quarantine_size_mb=64';

export class Host {
  constructor(flavor = 'asan', opts = {}) {
    this.flavor = flavor;
    this.opts = opts;
    this.proc = null;
  }
  start() {
    const p = this.proc = spawn(path.join(BUILD, this.flavor, 'host'), [], {
      stdio: ['pipe', 'pipe', 'pipe'],
      cwd: this.opts.cwd || '/tmp',
      env: { PATH: '/usr/bin:/bin', LANG: 'C.UTF-8', LC_ALL: 'C.UTF-8', TZ: 'UTC', ASAN_OPTIONS: ASAN, UBSAN_OPTIONS: 'print_stacktrace=1', HOST_CPU: String(this.opts.cpu || 20), ...(this.opts.env || {}) },
      uid: this.opts.uid, gid: this.opts.gid,
    });
    const s = this.s = { chunks: [], have: 0, err: '', dead: false, waiter: null };
    const wake = () => { const w = s.waiter; s.waiter = null; if (w) w(); };
    p.stdin.on('error', () => {});
    p.stdout.on('data', (b) => { s.chunks.push(b); s.have += b.length; wake(); });
    p.stderr.on('data', (b) => { s.err += b.toString('latin1'); if (s.err.length > 200000) s.err = s.err.slice(-100000); });
    p.on('error', (e) => { s.err += String(e); s.dead = true; wake(); });
    p.on('close', (code, sig) => { s.code = code; s.sig = sig; s.dead = true; wake(); });
  }
  async bytes(n) {
    const s = this.s;
    while (s.have < n) {
      if (s.dead) return null;
      if (s.left <= 0) { s.err += 'HOST-CPU-LIMIT (no answer)'; this.proc.kill('SIGKILL'); s.left = Infinity; }
      const t0 = Date.now();
      await new Promise((r) => { s.waiter = r; s.timer ||= setTimeout(() => { s.timer = null; const w = s.waiter; s.waiter = null; if (w) w(); }, Math.min(s.left, 1e6)); });
      s.left -= Date.now() - t0;
    }
    let buf = s.chunks.length === 1 ? s.chunks[0] : Buffer.concat(s.chunks);
    const r = buf.subarray(0, n);
    buf = buf.subarray(n);
    s.chunks = buf.length ? [buf] : [];
    s.have = buf.length;
    return r;
  }
  kill() { if (this.proc) { this.proc.kill('SIGKILL'); this.proc = null; } }
  // cases: [{src, mode}] -> [{status, out}]; a crash ends the list with {status:'crash', out, err}
  async run(cases, { realm = false, stress = 0, compileOnly = false, canBlock = true, leak = false, prelude = PRELUDE } = {}) {
    if (!this.proc || this.s.dead) this.start();
    this.s.err = '';
    const parts = [];
    const u32 = (...v) => { const b = Buffer.alloc(4 * v.length); v.forEach((x, i) => b.writeUInt32LE(x >>> 0, 4 * i)); parts.push(b); };
    const pb = Buffer.from(prelude, 'utf8');
    u32(MAGIC, (realm ? 1 : 0) | (compileOnly ? 2 : 0) | (canBlock ? 8 : 0) | (leak ? 16 : 0), stress, cases.length, pb.length);
    parts.push(pb);
    for (const c of cases) {
      const b = Buffer.isBuffer(c.src) ? c.src : Buffer.from(c.src, 'utf8');
      u32(c.mode || 0, b.length);
      parts.push(b);
    }
    this.proc.stdin.write(Buffer.concat(parts));
    const res = [];
    for (let i = 0; i < cases.length; i++) {
      this.s.left = this.opts.wall || 200000; // a blocked process uses no CPU time
      clearTimeout(this.s.timer); this.s.timer = null;
      const h = await this.bytes(8);
      if (!h) { res.push(this.crash()); return res; }
      const st = h.readUInt32LE(0), len = h.readUInt32LE(4);
      const b = len ? await this.bytes(len) : Buffer.alloc(0);
      if (!b) { res.push(this.crash()); return res; }
      res.push({ status: STATUS[st] || String(st), out: b.toString('latin1') });
    }
    clearTimeout(this.s.timer); this.s.timer = null;
    return res;
  }
  crash() {
    clearTimeout(this.s.timer); this.s.timer = null;
    this.kill();
    const e = this.s.err;
    let sum = (e.match(/HOST-CPU-LIMIT|SUMMARY: [^\n]*|runtime error: [^\n]*|Assertion [^\n]*|hard rss limit[^\n]*/) || [''])[0];
    if (!sum) sum = e.slice(-300);
    const kind = /HOST-CPU-LIMIT/.test(e) ? 'hang' : /hard rss limit|AddressSanitizer:? failed to allocate 0x[0-9a-f]{7,9} bytes/.test(e) ? 'memlimit' : 'crash';
    return { status: kind, out: '', err: `exit=${this.s.code} sig=${this.s.sig} ${sum}`, log: e.slice(-6000) };
  }
}

function esc(s) {
  let r = '';
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    if (c === 92) r += '\\\\';
    else if (c >= 32 && c < 127) r += s[i];
    else r += '\\u' + c.toString(16).padStart(4, '0');
  }
  return r + '\n';
}

const preludeScript = new vm.Script(PRELUDE, { filename: 'prelude' });

const TRACE = process.env.REFTRACE; // names the last case if the reference engine dies

const drain = new vm.Script('0');

// The reference: node's engine, one context per case (or one per batch).
export class Ref {
  constructor(extra) { this.extra = extra; }
  context(sink, opts = { microtaskMode: 'afterEvaluate' }) {
    const ctx = vm.createContext(vm.constants.DONT_CONTEXTIFY, opts);
    const g = vm.runInContext('globalThis', ctx);
    for (const k of Object.getOwnPropertyNames(g)) {
      // what the engine under test does not have (later editions, hosts)
      if (['console', 'WebAssembly', 'Iterator', 'escape_', 'Intl'].includes(k)) delete g[k];
    }
    g.__out = (s) => { const t = String(s); if (sink.len + t.length < 4e6) { sink.out += esc(t); sink.len += t.length; } };
    g.__gc = () => {};
    g.__tz = (s) => { process.env.TZ = s; };
    g.__detach = (ab) => { try { structuredClone(ab, { transfer: [ab] }); } catch (e) {} };
    g.__newrealm = () => this.context(sink, opts).g;
    g.__evalscript = (s) => vm.runInContext(s, ctx);
    if (this.extra) this.extra(g, ctx, sink);
    preludeScript.runInContext(ctx);
    return { ctx, g };
  }
  // through the inspector: vm.Script aborts node on a few syntax errors (GetErrorSource assertion)
  compile(k) {
    if (!this.insp) { this.insp = new inspector.Session(); this.insp.connect(); this.insp.post('Runtime.enable'); }
    let res;
    this.insp.post('Runtime.compileScript', { expression: (k.mode === 2 ? '"use strict";' : '') + k.src, sourceURL: 'case', persistScript: false }, (e, r) => { if (e) throw e; res = r; });
    const x = res.exceptionDetails;
    return x ? { status: 'nocompile', out: '', err: x.exception && x.exception.description ? x.exception.description.split('\n')[0] : x.text } : { status: 'ok', out: '' };
  }
  run(cases, { realm = false, timeout = 4000 } = {}) {
    const res = [];
    let sink, c;
    for (const k of cases) {
      if (realm || !c) { sink = { out: '', len: 0 }; c = this.context(sink); }
      if (TRACE) fs.writeFileSync(TRACE + process.pid, k.src);
      sink.out = ''; sink.len = 0;
      let script;
      try {
        script = new vm.Script((k.mode === 2 ? '"use strict";' : '') + k.src, { filename: 'case' });
      } catch (e) {
        if (e instanceof SyntaxError) { res.push({ status: 'nocompile', out: '' }); continue; }
        throw e;
      }
      try {
        script.runInContext(c.ctx, { timeout });
        res.push({ status: 'ok', out: sink.out });
      } catch (e) {
        if (e && e.code === 'ERR_SCRIPT_EXECUTION_TIMEOUT') { res.push({ status: 'timeout', out: sink.out }); c = null; continue; }
        let s;
        try { s = c.g.__str(e); } catch (e2) { s = '?'; }
        sink.out += '!throw ' + esc(s);
        try { drain.runInContext(c.ctx, { timeout }); } catch (e3) {} // jobs queued before the throw
        res.push({ status: 'threw', out: sink.out });
      }
    }
    return res;
  }
}

// The reference in processes of its own, for programs on which the reference engine itself may crash.
export class SafeRef {
  run(cases, o = {}) {
    const r = spawnSync(process.execPath, [path.join(ROOT, 'lib/refproc.mjs')], { input: JSON.stringify({ cases: cases.map(({ src, mode }) => ({ src, mode })), o }), encoding: 'utf8', maxBuffer: 1 << 28, timeout: 120000 });
    if (r.status === 0) return JSON.parse(r.stdout);
    if (cases.length === 1) return [{ status: 'skip', out: '' }];
    const h = cases.length >> 1;
    return [...this.run(cases.slice(0, h), o), ...this.run(cases.slice(h), o)];
  }
}
