// One worker: generates, runs and judges the cases index = me, me+n, ...
import { Draw, hash32, shrink } from './draw.mjs';
import { Host, Ref, SafeRef, ROOT } from './engine.mjs';
import path from 'node:path';

export async function loadProp(id) {
  return (await import(path.join(ROOT, 'props', id + '.mjs'))).default;
}

export const MAXCASE = 300000;

export function generate(prop, src, tier) {
  const d = new Draw(src, prop.maxChoices || 6000);
  d.tier = tier;
  const c = prop.gen(d);
  c.choices = d.choices;
  c.notes = d.notes;
  return c;
}

export class Judge {
  constructor(prop) {
    this.prop = prop;
    this.flavor = prop.flavor || 'asan';
    this.host = new Host(this.flavor, prop.hostOpts || {});
    this.host2 = prop.flavor2 ? new Host(prop.flavor2, prop.hostOpts || {}) : null;
    this.ref = prop.safeRef ? new SafeRef() : new Ref(prop.refExtra);
  }
  close() { this.host.kill(); if (this.host2) this.host2.kill(); if (this.prop.close) this.prop.close(); }
  // -> [{ok, exp, act}]
  async runBatch(cases) {
    const p = this.prop, o = { realm: !!p.realm, stress: p.stress || 0, compileOnly: !!p.compileOnly };
    if (p.custom) { const r = []; for (const c of cases) r.push(await p.custom(c, this)); return r; }
    let exp;
    if (p.expected) exp = cases.map((c) => p.expected(c, this));
    else if (this.host2) {
      exp = await this.host2.run(cases, { ...o, stress: p.stress2 || 0 });
      while (exp.length < cases.length) exp.push({ status: 'skip', out: '' });
    } else exp = this.ref.run(cases, o);
    const act = await this.host.run(cases, o);
    return cases.map((c, i) => {
      if (i >= act.length) return { ok: null, exp: exp[i], act: { status: 'notrun', out: '' } };
      return { ...this.judge(c, exp[i], act[i]), exp: exp[i], act: act[i] };
    });
  }
  judge(c, e, a) {
    if (e.out && e.out.includes('{ [native code] }')) e = { ...e, out: e.out.replaceAll('{ [native code] }', '{[native code]}') }; // implementation-defined text
    if (e.status === 'timeout' || e.status === 'skip' || a.status === 'memlimit' || (a.status === 'hang' && e.out && e.out.length > 300000)) return { ok: null };
    if (this.prop.tolerate && !(e.status === a.status && e.out === a.out) && a.status !== 'crash' && this.prop.tolerate(c, e, a)) return { ok: null };
    if (this.prop.judge) return { ok: this.prop.judge(c, e, a) };
    return { ok: e.status === a.status && e.out === a.out };
  }
  async runOne(c) {
    let r = (await this.runBatch([c]))[0];
    return r;
  }
  // Fresh processes, three times: a failure must repeat.
  async confirm(c) {
    let last;
    if (this.prop.racy && this.prop.racy(c)) { // the oracle holds for every schedule: one repetition is enough
      for (let i = 0; i < 30; i++) {
        this.host.kill();
        last = await this.runOne(c);
        if (last.ok === false && last.act.status !== 'timeout') return last;
      }
    }
    for (let i = 0; i < 3; i++) {
      this.host.kill();
      last = await this.runOne(c);
      if (last.ok !== false) return null;
    }
    return last;
  }
}

async function main() {
  const { id, tier, seed, me, n, count, keepGoing, deadline, kgShrink } = JSON.parse(process.argv[2]);
  const prop = await loadProp(id);
  const judge = new Judge(prop);
  const st = { evals: 0, nontrivial: [], notes: {}, samples: [], inconclusive: 0, excluded: 0, status: {}, fails: [], reached: 0 };
  const batchSize = prop.batch || 20;
  let batch = [];
  const flush = async () => {
    if (!batch.length) return;
    const b = batch; batch = [];
    let todo = b;
    while (todo.length) {
      const rs = await judge.runBatch(todo);
      const again = [];
      for (let i = 0; i < todo.length; i++) {
        const r = rs[i], c = todo[i];
        if (r.act && r.act.status === 'notrun') { again.push(c); continue; }
        st.evals++;
        st.status[r.exp ? r.exp.status : '?'] = (st.status[r.exp ? r.exp.status : '?'] || 0) + 1;
        if (r.ok === null) { st.inconclusive++; continue; }
        for (const k in c.notes) st.notes[k] = (st.notes[k] || 0) + 1;
        if (c.excluded) st.excluded += c.excluded;
        const nt = c.nontrivial === undefined ? true : typeof c.nontrivial === 'function' ? c.nontrivial(r) : c.nontrivial;
        if (nt) {
          st.nontrivial.push(hash32(c.src) * 0x100000 + (hash32(c.src, 'x') >>> 12));
          if (st.samples.length < 1 || (st.samples.length < 3 && st.evals % 97 === 0)) st.samples.push({ program: c.src.toString().slice(0, 1500), output: String(r.act.out).slice(0, 400) });
        }
        if (r.ok === false) {
          const f = { index: c.index, src: c.src.toString('latin1'), mode: c.mode || 0, exp: r.exp, act: r.act, batch: b.slice(0, b.indexOf(c) + 1).map((x) => x.index) };
          const conf = await judge.confirm(c);
          if (conf) {
            f.exp = conf.exp; f.act = conf.act;
            f.choices = c.choices;
            const sig = (f.act.err || '').replace(/exit=\S+ sig=\S+/, '');
            st.sigs ||= {}; if (sig) st.sigs[sig] = (st.sigs[sig] || 0) + 1;
            if (!keepGoing || (kgShrink && st.fails.filter((x) => x.shrinkTries).length < kgShrink && (!sig || st.sigs[sig] <= 1))) {
              if (!keepGoing) process.send({ type: 'failing', index: c.index });
              const shr = await shrink(c.choices, async (ch) => {
                let c2;
                try { c2 = generate(prop, ch, tier); } catch (e) { return null; }
                if (c2.skip || c2.src.length > MAXCASE) return null;
                const r2 = await judge.runOne(c2);
                return r2.ok === false ? c2.choices : null;
              }, prop.shrinkBudget || 500, keepGoing ? 15000 : 60000);
              const c3 = generate(prop, shr.choices, tier);
              const conf3 = await judge.confirm(c3);
              if (conf3) { f.src = c3.src.toString('latin1'); f.mode = c3.mode || 0; f.exp = conf3.exp; f.act = conf3.act; f.choices = shr.choices; f.shrinkTries = shr.tries; f.extra = c3.extra; }
            }
            st.fails.push(f);
          } else {
            // alone it does not fail: what the cases before it in the batch left behind?
            const seq = b.slice(0, b.indexOf(c) + 1);
            let rep = true, last;
            for (let k = 0; k < 3 && rep; k++) {
              judge.host.kill();
              const rr = await judge.runBatch(seq);
              last = rr.find((x) => x.ok === false);
              if (!last) rep = false;
            }
            if (rep && last) { f.sequence = seq.map((x) => ({ src: x.src.toString('latin1'), mode: x.mode || 0, index: x.index })); f.exp = last.exp; f.act = last.act; st.fails.push(f); }
            else { st.inconclusive++; st.flaky = (st.flaky || 0) + 1; }
          }
          if (st.fails.length && !keepGoing) { todo = []; again.length = 0; break; }
        }
      }
      todo = again;
    }
  };
  const end = Date.now() + deadline * 1000;
  let stop = false;
  process.on('unhandledRejection', () => {});
  process.on('message', (m) => { if (m.type === 'stop') stop = true; });
  for (let i = me; i < count; i += n) {
    if (stop || (st.fails.length && !keepGoing)) break;
    if (Date.now() > end) { st.cut = true; break; }
    let c;
    c = generate(prop, hash32(seed, id, i), tier);
    c.index = i;
    if (c.skip) { st.excluded++; continue; }
    if (c.src.length > MAXCASE) { st.excluded++; continue; }
    batch.push(c);
    if (batch.length >= batchSize) { await flush(); if (i % 8 === 0) await new Promise((r) => setImmediate(r)); }
    st.reached = i;
  }
  if (!(st.fails.length && !keepGoing)) await flush();
  judge.close();
  process.send({ type: 'done', st }, () => process.exit(0));
}

if (process.argv[1] && process.argv[1].endsWith('worker.mjs')) main().catch((e) => { process.send({ type: 'error', error: e.stack }, () => process.exit(5)); });
