import { Prog, HEAD, TAIL } from '../lib/prog.mjs';
export default {
  rule: 'programs of nested statements (loops, labels, switch, try/catch/finally with every abrupt completion, closures, destructuring, templates, optional chains, compound assignments); non-trivial: more than 6 trace lines',
  batch: 20,
  count: { quick: 16000, thorough: 250000 },
  strip: (s) => s.replace(HEAD, 'HEAD ').replace(TAIL, ' TAIL'),
  gen(d) {
    const p = new Prog(d, { size: d.int(5, 40) });
    const strict = d.bool(0.3);
    let src;
    if (d.bool(0.8)) { p.fn = 1; src = `(function () { ${strict ? '"use strict";' : ''} ${HEAD} function main() { ${p.stmts(d.int(2, 8))} } __t(main); ${TAIL} })()`; }
    else src = `{ ${HEAD} ${p.stmts(d.int(2, 8))} ${TAIL} }`;
    return { src, nontrivial: (r) => r.act.out.split('\n').length > 6 };
  },
};
