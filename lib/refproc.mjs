// node lib/refproc.mjs : cases and options as JSON on stdin, reference results on stdout.
import fs from 'node:fs';
import { Ref } from './engine.mjs';
const { cases, o } = JSON.parse(fs.readFileSync(0, 'utf8'));
fs.writeFileSync(1, JSON.stringify(new Ref().run(cases, o)));
process.exit(0);
