#!/usr/bin/env node
// node run.mjs PROPERTY [--keep-going] [--count N] [--replay FILE] [--jobs N]
import { fork, spawnSync } from 'node:child_process';
import fs from 'node:fs';
import path from 'node:path';
import os from 'node:os';
import { loadProp, generate, Judge } from './lib/worker.mjs';
import { ROOT, Host } from './lib/engine.mjs';

const args = process.argv.slice(2);
const id = args.shift();
const opt = (n, d) => { const i = args.indexOf('--' + n); return i < 0 ? d : args[i + 1]; };
const keepGoing = args.includes('--keep-going');
const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const seed = Number(process.env.VERIF_SEED || 1) >>> 0;
const t0 = Date.now();
const prop = await loadProp(id);
const evidenceFile = path.join(ROOT, 'evidence', id + '.json');

function die(msg) { console.error(msg); process.exit(2); }

if (!process.env.NOBUILD) {
  const b = spawnSync('python3', [path.join(ROOT, 'lib/build.py'), ...new Set([prop.flavor || 'asan', ...(prop.flavor2 ? [prop.flavor2] : []), ...(prop.needs || [])])], { stdio: ['ignore', 'inherit', 'inherit'] });
  if (b.status !== 0) die('build failed');
}
const tb = Date.now();
if (prop.setup) await prop.setup({ tier, seed });

const replay = opt('replay');
if (replay) {
  const f = JSON.parse(fs.readFileSync(replay, 'utf8'));
  if (f.runner) { process.exit(await prop.replay(f)); }
  const j = new Judge(prop);
  const seq = f.sequence || [{ src: f.src, mode: f.mode, extra: f.extra }];
  const rs = await j.runBatch(seq.map((c) => ({ ...c, src: Buffer.from(c.src, 'latin1').toString(prop.bytes ? 'latin1' : 'utf8'), index: 0 })));
  const bad = rs.find((r) => r.ok === false);
  console.log(JSON.stringify(bad || rs[rs.length - 1], null, 1));
  j.close();
  process.exit(bad ? 1 : 0);
}

// ---- known findings: probes with a recorded wrong answer
const kfFile = path.join(ROOT, 'known_findings.json');
const findings = fs.existsSync(kfFile) ? JSON.parse(fs.readFileSync(kfFile, 'utf8')).findings.filter((f) => f.property === id) : [];
const outDir = path.join(ROOT, 'out', id);
fs.mkdirSync(outDir, { recursive: true });
fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
let violations = 0;
const known = [];
function violation(file) {
  violations++;
  console.log(`VIOLATION property=${id} replay=${file}`);
}
if (findings.length || prop.regress) {
  const j = new Judge(prop);
  for (const f of findings) {
    if (f.probe === undefined) { known.push(f.id); console.log(`KNOWN-FINDING: property=${id} ${f.id}: ${f.what}`); continue; }
    const c = { src: f.probe, mode: f.mode || 0 };
    if (f.expect) { // judged against the recorded right answer, on the sanitized build
      const is = (a, x) => (a.status === x.status || (x.status === 'crash' && /hang|memlimit/.test(a.status))) && (x.out === undefined || a.out === x.out);
      const h = new Host('asan'), go = async () => (await h.run([c], {}))[0];
      let a = await go();
      if (!is(a, f.actual) && !is(a, f.expect)) a = await go();
      h.kill();
      if (is(a, f.expect)) { console.log(`note: finding "${f.id}" no longer fails`); continue; }
      if (is(a, f.actual)) { known.push(f.id); console.log(`KNOWN-FINDING: property=${id} ${f.id}: ${f.what}`); continue; }
      const file = path.join(outDir, `finding-${f.id}.json`);
      fs.writeFileSync(file, JSON.stringify({ property: id, note: 'a known finding now fails in another way', src: c.src, mode: c.mode, exp: f.expect, act: a }, null, 1));
      violation(file);
      continue;
    }
    let r = await j.runOne(c);
    const hit = (a) => a.status === f.actual.status && (f.actual.out === undefined || a.out === f.actual.out);
    if (r.ok !== false) { console.log(`note: finding "${f.id}" no longer fails`); continue; }
    if (hit(r.act)) { known.push(f.id); console.log(`KNOWN-FINDING: property=${id} ${f.id}: ${f.what}`); continue; }
    const conf = await j.confirm(c);
    if (conf && !hit(conf.act)) {
      const file = path.join(outDir, `finding-${f.id}.json`);
      fs.writeFileSync(file, JSON.stringify({ property: id, note: 'a known finding now fails in another way', src: c.src, mode: c.mode, exp: conf.exp, act: conf.act }, null, 1));
      violation(file);
    }
  }
  for (const src of prop.regress || []) {
    const c = typeof src === 'string' ? { src, mode: 0 } : src;
    const r = await j.runOne(c);
    if (r.ok === false) {
      const conf = await j.confirm(c);
      if (conf) {
        const file = path.join(outDir, `regress-${violations}.json`);
        fs.writeFileSync(file, JSON.stringify({ property: id, src: c.src, mode: c.mode || 0, exp: conf.exp, act: conf.act }, null, 1));
        console.log(JSON.stringify({ src: c.src, exp: conf.exp, act: conf.act }, null, 1));
        violation(file);
      }
    }
  }
  j.close();
}

const count = Number(opt('count', (prop.count || { quick: 4000, thorough: 60000 })[tier]));
const jobs = Math.max(1, Number(opt('jobs', prop.jobs || Math.min(8, os.cpus().length))));
const deadline = Number(opt('deadline', tier === 'thorough' ? (prop.deadline?.thorough || 3000) : (prop.deadline?.quick || 420)));
const total = { evals: 0, notes: {}, samples: [], inconclusive: 0, excluded: 0, status: {}, fails: [], flaky: 0, cut: false };
const nontrivial = new Set();
let firstFail = null, errors = 0;

if (!(violations && !keepGoing)) {
  await Promise.all(Array.from({ length: jobs }, (_, me) => new Promise((res) => {
    const w = fork(path.join(ROOT, 'lib/worker.mjs'), [JSON.stringify({ id, tier, seed, me, n: jobs, count, keepGoing, deadline, kgShrink: Number(opt('shrink', 0)) })], { execArgv: ['--max-old-space-size=3000', ...(prop.nodeArgs || [])] });
    (globalThis.ws ||= []).push(w);
    w.on('message', (m) => {
      if (m.type === 'failing') {
        for (const x of globalThis.ws) if (x !== w && x.connected) x.send({ type: 'stop' });
      } else if (m.type === 'error') { console.error(m.error); errors++; }
      else {
        const s = m.st;
        total.evals += s.evals; total.inconclusive += s.inconclusive; total.excluded += s.excluded; total.flaky += s.flaky || 0;
        total.cut ||= !!s.cut;
        for (const k in s.notes) total.notes[k] = (total.notes[k] || 0) + s.notes[k];
        for (const k in s.status) total.status[k] = (total.status[k] || 0) + s.status[k];
        for (const h of s.nontrivial) nontrivial.add(h);
        total.samples.push(...s.samples);
        total.fails.push(...s.fails);
      }
    });
    w.on('exit', (code, sig) => { if (code !== 0) { errors++; console.error('worker exit', code, sig); } res(); });
  })));
}

if (prop.after && !(total.fails.length && !keepGoing)) {
  // extra, non-batched exploration of the property (own machinery); returns {evals, nontrivial, notes, samples, fails:[{file}]}
  const r = await prop.after({ tier, seed, outDir, keepGoing });
  total.evals += r.evals || 0;
  for (const h of r.nontrivial || []) nontrivial.add(h);
  Object.assign(total.notes, r.notes || {});
  total.samples.push(...(r.samples || []));
  total.fails.push(...(r.fails || []));
}

total.fails.sort((a, b) => (a.src || '').length - (b.src || '').length);
if (keepGoing) {
  const sigs = {};
  for (const f of total.fails) { const k = (f.act?.err || '(different output)').replace(/exit=\S+ sig=\S+ /, ''); sigs[k] = (sigs[k] || 0) + 1; }
  console.log(JSON.stringify(sigs, null, 1));
  const byShrunk = total.fails.filter((f) => f.shrinkTries).concat(total.fails.filter((f) => !f.shrinkTries));
  total.fails.forEach((f, i) => { if (f.src) fs.writeFileSync(path.join(outDir, `kg-${i}.js`), f.src); });
  const shownSrc = new Set();
  for (const f of byShrunk.slice(0, Number(opt('show', 15)))) {
    if (shownSrc.has(f.src)) continue;
    shownSrc.add(f.src);
    console.log('===================', `kg-${total.fails.indexOf(f)}`, 'index', f.index, f.sequence ? 'SEQUENCE' : '', f.shrinkTries ? 'shrunk' : '');
    console.log(prop.strip ? prop.strip(f.src || '') : f.src);
    console.log(`--- expected ${f.exp?.status} actual ${f.act?.status} ${f.act?.err || ''}`);
    const x = (f.exp?.out || '').split('\n'), y = (f.act?.out || '').split('\n');
    let shown = 0;
    for (let i = 0; i < Math.max(x.length, y.length) && shown < 4; i++) if (x[i] !== y[i]) { shown++; console.log(`  line ${i}: exp ${(x[i] ?? '<none>').slice(0, 300)}\n          act ${(y[i] ?? '<none>').slice(0, 300)}`); }
  }
  console.log('failures:', total.fails.length);
}
for (const f of total.fails.slice(0, keepGoing ? 0 : 1)) {
  if (f.file) { violation(f.file); continue; }
  const file = path.join(outDir, `fail-${seed}-${f.index}.json`);
  fs.writeFileSync(file, JSON.stringify({ property: id, seed, tier, replay: `node run.mjs ${id} --replay ${file}`, ...f }, null, 1));
  console.log(`failing case (shrunk in ${f.shrinkTries || 0} tries):\n${f.src}\n--- expected ${f.exp?.status}\n${f.exp?.out}--- actual ${f.act?.status} ${f.act?.err || ''}\n${f.act?.out}`);
  violation(file);
}
const ev = {
  property: id, tier, seed, level: prop.level || 'exploration',
  coverage: {
    evaluations: total.evals, distinct_nontrivial: nontrivial.size, rule: prop.rule || 'n/a',
    samples: total.samples.slice(0, 6), classes: total.notes, reference_status: total.status,
    inconclusive: total.inconclusive, excluded_by_construction: total.excluded, cut_by_deadline: total.cut, flaky_discarded: total.flaky,
    known_findings_seen: known,
  },
  assumptions: prop.assumptions || [],
  wall_s: (Date.now() - t0) / 1000,
  violations,
};
fs.writeFileSync(evidenceFile, JSON.stringify(ev, null, 1));
console.log(`${id}: ${total.evals} cases, ${nontrivial.size} distinct non-trivial, ${total.inconclusive} inconclusive, ${total.excluded} excluded, ${violations} violations, build ${(tb - t0) / 1000}s, total ${ev.wall_s}s${total.cut ? ' (cut)' : ''}`);
if (process.env.STATS) console.log(JSON.stringify(total.notes), JSON.stringify(total.status));
if (!violations && !keepGoing && (errors || total.evals === 0)) die('check error');
process.exit(violations ? 1 : 0);
