// node lib/diff.mjs FILE|-e CODE : run one program on both engines and show both.
import fs from 'node:fs';
import { Host, Ref } from './engine.mjs';
const a = process.argv.slice(2);
const src = a[0] === '-e' ? a[1] : fs.readFileSync(a[0], 'utf8');
const stress = Number(process.env.STRESS || 0);
const h = new Host(process.env.FLAVOR || 'asan');
const act = (await h.run([{ src }], { realm: false, stress }))[0];
h.kill();
const exp = new Ref().run([{ src }])[0];
if (act.status === exp.status && act.out === exp.out) { console.log('SAME', exp.status); console.log(exp.out); }
else if (!process.env.FULL && !act.log) { const a = exp.out.split('\n'), b = act.out.split('\n'); console.log(`DIFF node ${exp.status} ratjs ${act.status} ${act.err || ''}`); for (let i = 0; i < Math.max(a.length, b.length); i++) if (a[i] !== b[i]) console.log(`  node: ${a[i]}\n  rat : ${b[i]}`); }
else { console.log('--- node', exp.status); console.log(exp.out); console.log('--- ratjs', act.status, act.err || ''); console.log(act.out); if (act.log) console.log(act.log.slice(0, 3000)); }
process.exit(0);
