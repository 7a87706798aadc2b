// A reference engine process for module graphs: node's vm.SourceTextModule, forked with --experimental-vm-modules.
import vm from 'node:vm';
import path from 'node:path';
import fs from 'node:fs';
import { Ref } from './engine.mjs';

const tick = () => new Promise((r) => setImmediate(r));
process.on('unhandledRejection', () => {});
process.on('message', async (m) => process.send(await run(m.files, m.entry, m.links)));
process.on('disconnect', () => process.exit(0));

async function run(files, entry) {
  const sink = { out: '', len: 0 };
  const { ctx, g } = new Ref().context(sink, {});
  const mods = new Map(), linked = new Map();
  let uncertain = false, badLink = false;
  function get(name) {
    let x = mods.get(name);
    if (x) return x;
    const src = files[name];
    if (src === undefined) throw new Error('no file ' + name);
    if (name.endsWith('.json')) {
      let v;
      v = vm.runInContext('JSON.parse', ctx)(src);
      x = new vm.SyntheticModule(['default'], function () { this.setExport('default', v); }, { identifier: name, context: ctx });
    } else {
      x = new vm.SourceTextModule(src, { identifier: name, context: ctx, importModuleDynamically: async (spec) => {
        if (badLink) uncertain = true;
        try {
          const y = get(path.basename(spec));
          await link(y);
          await y.evaluate();
          return y;
        } catch (e) {
          if (e && /^ERR_/.test(e.code)) uncertain = true; // node's own bookkeeping
          throw e;
        }
      } });
    }
    mods.set(name, x);
    return x;
  }
  function link(x) {
    if (x.status !== 'unlinked') { if (x.status === 'linking') uncertain = true; return; }
    return x.link((spec) => get(path.basename(spec))).catch((e) => { badLink = true; throw e; });
  }
  let st = 'unsettled', err;
  let x;
  try { x = get(entry); await link(x); } catch (e) { return { status: 'failed', out: sink.out, err: String(e) }; }
  x.evaluate().then(() => { st = 'ok'; }, (e) => { st = 'threw'; err = e; });
  for (let i = 0; i < 60 && st === 'unsettled'; i++) await tick();
  if (st === 'threw') { let s; try { s = g.__str(err); } catch { s = '?'; } g.__out('!throw ' + s); }
  for (let i = 0; i < 5; i++) await tick();
  return { status: uncertain ? 'skip' : st, out: sink.out };
}
