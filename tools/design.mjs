// Writes DESIGN.md from the text below, the property modules, known_findings.json and seeded/*/meta.json.
import fs from 'node:fs';
import path from 'node:path';
const R = path.dirname(path.dirname(new URL(import.meta.url).pathname));
const J = (f) => JSON.parse(fs.readFileSync(path.join(R, f), 'utf8'));
const props = fs.readFileSync(path.join(R, 'properties.jsonl'), 'utf8').trim().split('\n').map((l) => JSON.parse(l));
const claims = J('tools/claims.json'), kf = J('known_findings.json'), man = J('MANIFEST.json');
const extra = eval('(' + fs.readFileSync(path.join(R, 'tools/design_extra.json5'), 'utf8') + ')');
const out = [fs.readFileSync(path.join(R, 'tools/design_head.md'), 'utf8').trim(), '', '## Properties', ''];
for (const p of props) {
  out.push(`### ${p.id} ${p.title}`, '');
  const f = path.join(R, 'props', p.id + '.mjs');
  if (!claims[p.id]) { out.push('Not claimed: ' + (man.not_applicable.find((x) => x.property === p.id) || {}).reason, ''); continue; }
  const m = (await import(f)).default, x = extra[p.id] || {};
  out.push(`- **Decided by:** ${claims[p.id][0]}.`);
  out.push(`- **Cases:** ${m.rule}.`);
  if (x.oracle) out.push(`- **Oracle:** ${x.oracle}`);
  else out.push('- **Oracle:** V8 through the common printer; also any sanitizer report, assertion, signal or CPU limit.');
  out.push(`- **Bounds and cost:** ${m.count.quick} cases quick, ${m.count.thorough} thorough; ${x.bounds || 'sampling, no exhaustive bound.'}`);
  if (x.why) out.push(`- **Beyond the tests:** ${x.why}`);
  if (x.excl) out.push(`- **Left out or tolerated:** ${x.excl}`);
  out.push('');
}
out.push('## Known findings', '', 'Listed in known_findings.json with a probe and the recorded right and wrong answers. The check of the property runs the probe, prints KNOWN-FINDING while the wrong answer stays, and raises a violation if it becomes wrong in another way. Generators avoid these inputs by construction (or the judge calls the named symptom inconclusive).', '');
for (const f of kf.findings) out.push(`- ${f.property} \`${f.id}\`: ${f.what}`);
out.push('', '## Repaired defects', '', 'Each is one fix: commit in /repo, found by the property named.', '');
const seen = new Map();
for (const l of kf.fixed) { const m = /^fixed: property=(\S+) (\S+) (.*)$/.exec(l); if (!seen.has(m[2])) seen.set(m[2], [[], m[3]]); seen.get(m[2])[0].push(m[1]); }
for (const [h, [ids, t]] of seen) out.push(`- ${h} (${ids.join(', ')}) ${t}`);
out.push('', '## Planted bugs', '', 'Each lies in seeded/<id>/ with a patch, a demonstration and its needs. "Caught by" is the check of the named property, quick tier, seed 1.', '', '| id | property | what it breaks | needs | caught |', '|---|---|---|---|---|');
const sd = path.join(R, 'seeded');
const caught = fs.existsSync(path.join(R, 'tools/seeded_results.json')) ? J('tools/seeded_results.json') : {};
for (const s of fs.readdirSync(sd).sort()) { const m = J(`seeded/${s}/meta.json`), c = (t) => String(t).replace(/\|/g, '\\|').replace(/\n/g, ' '); out.push(`| ${s} | ${m.property} | ${c(m.what_it_breaks)} | ${c(m.needs)} | ${caught[s] || '?'} |`); }
out.push('', fs.readFileSync(path.join(R, 'tools/design_tail.md'), 'utf8').trim(), '');
fs.writeFileSync(path.join(R, 'DESIGN.md'), out.join('\n'));
process.exit(0);
