// Atomics and SharedArrayBuffer: single-threaded programs compared with V8, and
// programs of several agents judged by invariants that hold for every schedule.
import * as G from '../lib/gen.mjs';
const INT = ['Int8Array', 'Uint8Array', 'Int16Array', 'Uint16Array', 'Int32Array', 'Uint32Array', 'BigInt64Array', 'BigUint64Array'];
const BITS = { Int8Array: 8, Uint8Array: 8, Int16Array: 16, Uint16Array: 16, Int32Array: 32, Uint32Array: 32, BigInt64Array: 64, BigUint64Array: 64 };
const big = (t) => t.startsWith('Big');
const wrap = (t, v) => (t[0] === 'I' || t[3] === 'I' ? BigInt.asIntN : BigInt.asUintN)(BITS[t], BigInt(v));
const RMW = ['add', 'sub', 'and', 'or', 'xor', 'exchange'];
const fn = { add: (o, v) => o + v, sub: (o, v) => o - v, and: (o, v) => o & v, or: (o, v) => o | v, xor: (o, v) => o ^ v, exchange: (o, v) => v };
const lit = (t, v) => big(t) ? v + 'n' : String(v);

// ---- single-threaded programs
const OPSIG = { add: 3, sub: 3, and: 3, or: 3, xor: 3, exchange: 3, compareExchange: 4, load: 2, store: 3 };
function num(d) { return d.freq([[4, () => String(d.int(-5, 300))], [3, () => d.pick(['2**31', '-(2**31)', '2**32-1', '2**32', '2**53', '-1', '127', '128', '-129', '32768', '65535', '65536', '0.5', '-0.9', '-0', 'NaN', 'Infinity', '-Infinity', '1e300', '2**40+7'])]]); }
function bnum(d) { return d.freq([[4, () => d.int(-5, 300) + 'n'], [3, () => d.pick(['2n**63n', '-(2n**63n)', '2n**64n-1n', '2n**64n', '-1n', '2n**70n+5n', '0x1234567890abcdefn'])]]); }
const odd = (d) => d.pick(['undefined', 'null', 'true', '"12"', '"x"', '" 0x10 "', 'Symbol()', '{}', '[3]', '[]']);
function val(d, b, eff) {
  return d.freq([[12, () => b ? bnum(d) : num(d)], [1, () => b ? num(d) : bnum(d)], [2, () => odd(d)],
    [3, () => `({[Symbol.toPrimitive](h){__out("c"+h);${eff(d)}return ${b ? bnum(d) : num(d)}}})`], [2, () => `({valueOf(){__out("v");${eff(d)}return ${b ? bnum(d) : num(d)}},toString(){__out("s");return "1"}})`],
    [1, () => `({valueOf(){__out("v");throw new RangeError}})`]]);
}
function single(d) {
  const shared = d.bool(0.5), nt = d.int(1, 3), types = d.list(nt, nt, () => d.bool(0.9) ? d.pick(INT) : d.pick(['Float32Array', 'Float64Array', 'Uint8ClampedArray']));
  const size = d.pick([8, 16, 32, 64]);
  let s = `let b=new ${shared ? 'Shared' : ''}ArrayBuffer(${size});`;
  s += types.map((t, i) => { const w = BITS[t] ? BITS[t] / 8 : t === 'Uint8ClampedArray' ? 1 : t === 'Float32Array' ? 4 : 8, off = w * d.int(0, Math.min(2, size / w - 1)); return `let a${i}=new ${t}(b,${off}${d.bool(0.3) ? ',' + d.int(0, (size - off) / w) : ''});`; }).join('');
  const eff = (d) => d.freq([[8, ''], [2, () => `Atomics.add(a0,0,1${big(types[0]) ? 'n' : ''});`], [shared ? 0 : 2, '__detach(b);'], [1, () => `a0[0]=${big(types[0]) ? '5n' : '5'};`]]);
  const n = d.int(1, 14);
  for (let i = 0; i < n; i++) {
    const k = d.below(nt), t = types[k], b = big(t), op = d.pick([...Object.keys(OPSIG), ...RMW, 'compareExchange', 'wait', 'notify', 'isLockFree']);
    const idx = d.freq([[10, () => d.int(0, 5)], [2, () => d.pick(['-1', '1.7', '"1"', '"x"', 'undefined', 'null', '1e10', '-0', '2**53', '-0.5', 'NaN', '1n', '[1]'])], [2, () => `({valueOf(){__out("i");${eff(d)}return ${d.int(0, 4)}}})`]]);
    const recv = d.freq([[24, `a${k}`], [1, () => d.pick(['[1,2]', 'null', 'b', '({})', 'new DataView(b)', 'new Proxy(a0,{})', 'Object.create(a0)', '5'])]]);
    let args;
    if (op === 'isLockFree') args = d.freq([[3, () => num(d)], [2, () => d.int(0, 9)], [1, () => odd(d)], [1, '({valueOf(){__out("l");return 4}})']]);
    else if (op === 'notify') args = [recv, idx, ...d.bool(0.3) ? [] : [val(d, false, eff)]].join();
    else if (op === 'wait') { // never blocks for long: the value differs or the timeout is short
      args = [recv, idx, val(d, b, eff), d.freq([[5, () => d.pick(['0', '1', '-1', '-Infinity', '0.5', '"0"', 'null', 'false', '-0', '[]'])], [1, () => `({valueOf(){__out("t");${eff(d)}return ${d.int(0, 1)}}})`], [1, 'Symbol()'], [1, '1n'], [1, '({valueOf(){throw new EvalError}})']])].join();
    } else args = [recv, idx, ...Array.from({ length: OPSIG[op] - 2 }, () => val(d, b, eff))].slice(0, d.bool(0.96) ? 9 : d.int(0, 3)).join();
    s += `__t(()=>Atomics.${op}(${args}));`;
    if (d.bool(0.12) && !shared) s += '__t(()=>{__detach(b)});';
  }
  s += types.map((t, i) => `__t(()=>[...a${i}]);`).join('');
  return { src: `{${s}}`, nontrivial: (r) => r.act.out.length > 20 };
}

// ---- several agents
// every agent prints "@agent line"; the main program prints the joined text sorted by agent
// the agents start together: they meet at a counter in the last 8 bytes of the buffer
const GO = (k) => `{let B=new Int32Array(s,s.byteLength-8);Atomics.add(B,0,1);while(Atomics.load(B,0)<${k});}`;
const MAIN = (shared, agents, body, tail) => `{${agents.map((a) => `__agent_start(${JSON.stringify(a)});`).join('\n')}
${shared}
__agent_broadcast(sab);
${body}
let R=__agent_join();
R.split("\\n").forEach((x)=>x&&__out(x));
${tail}}`;
// k agents perform read-modify-write operations on one element. Every operation is an edge
// from the value it returned to the value it stored: together they form a path from the
// initial to the final value (in-degree and out-degree match, and the edges are connected).
function rmw(d) {
  const t = d.pick(INT), k = d.int(2, 4), w = BITS[t], idx = d.int(0, 3), rounds = d.pick([1, 4, 20, 60]);
  const family = d.pick(['inc', 'add', 'exchange', 'bits', 'cas', 'mixed', 'mixed']);
  const rnd = () => w === 64 ? BigInt(d.below(2 ** 31)) * BigInt(d.below(2 ** 31)) + BigInt(d.below(1000)) : BigInt(d.below(2 ** Math.min(w, 31)));
  let uniq = 1n;
  const plan = Array.from({ length: k }, () => Array.from({ length: d.int(1, 8) }, () => {
    const op = family === 'inc' || family === 'add' ? d.pick(['add', 'sub']) : family === 'exchange' ? 'exchange' : family === 'bits' ? d.pick(['or', 'and', 'xor']) : family === 'cas' ? 'cas' : d.pick([...RMW, 'cas', 'load', 'compareExchange']);
    const v = family === 'inc' ? 1n : family === 'exchange' ? uniq++ : family === 'bits' ? (op === 'and' ? ~(1n << BigInt(d.below(w))) : 1n << BigInt(d.below(w))) : rnd();
    return [op, String(wrap(t, v)), String(wrap(t, rnd()))];
  }));
  const bl = (x) => lit(t, x);
  const agents = plan.map((ops, i) => `__agent_receive((s)=>{const a=new ${t}(s,8);let o=[];${GO(k)}for(let r=0;r<${rounds};r++){${ops.map(([op, v, u]) =>
    op === 'load' ? `o.push(Atomics.load(a,${idx}));` :
    op === 'cas' ? `for(;;){const c=Atomics.load(a,${idx});if(Atomics.compareExchange(a,${idx},c,c+${bl(v)})===c){o.push(c);break}}` :
    op === 'compareExchange' ? `o.push(Atomics.compareExchange(a,${idx},${bl(v)},${bl(u)}));` :
    `o.push(Atomics.${op}(a,${idx},${bl(v)}));`).join('')}}__out("@${i} "+o.join(" "))});`);
  const init = wrap(t, rnd());
  const src = '//AG ' + JSON.stringify({ kind: 'rmw', t, plan, rounds, init: String(init) }) + '\n' +
    MAIN(`const sab=new SharedArrayBuffer(${8 + 8 * 8 + 8});const A=new ${t}(sab,8,8);A[${idx}]=${bl(init)};`, agents,
      d.pick(['', '__gc();', 'for(let i=0;i<50;i++)({i});__gc();']), `__out("F "+A[${idx}]);A.forEach((x,i)=>{if(i!=${idx}&&x!=0)__out("neighbour "+i+" "+x)})`);
  return { src, nontrivial: true };
}
function judgeRmw(m, lines) {
  const f = lines.find((l) => l.startsWith('F ')); if (!f) return 'no final value';
  if (lines.some((l) => l.startsWith('neighbour'))) return 'another element was changed';
  const fin = BigInt(f.slice(2)), init = BigInt(m.init), edges = [], need = [];
  for (let i = 0; i < m.plan.length; i++) {
    const l = lines.filter((x) => x.startsWith('@' + i + ' ')); if (l.length !== 1) return 'agent ' + i + ' printed ' + l.length + ' lines';
    const v = l[0].slice(3).split(' ').filter(Boolean).map((x) => BigInt(x));
    if (v.length !== m.plan[i].length * m.rounds) return 'agent ' + i + ' made ' + v.length + ' operations';
    v.forEach((o, j) => {
      const [op, a, b] = m.plan[i][j % m.plan[i].length];
      if (wrap(m.t, o) !== o) { edges.push(null); return; }
      const nv = op === 'load' ? o : op === 'cas' ? wrap(m.t, o + BigInt(a)) : op === 'compareExchange' ? (o === BigInt(a) ? BigInt(b) : o) : wrap(m.t, fn[op](o, BigInt(a)));
      if (nv === o) need.push(o); else edges.push([o, nv]);
    });
  }
  if (edges.includes(null)) return 'a value outside the element type';
  const deg = new Map([[init, 1]]), adj = new Map();
  deg.set(fin, (deg.get(fin) || 0) - 1);
  for (const [o, n] of edges) {
    deg.set(o, (deg.get(o) || 0) - 1); deg.set(n, (deg.get(n) || 0) + 1);
    if (!adj.has(o)) adj.set(o, []); adj.get(o).push(n);
  }
  for (const [v, c] of deg) if (c) return `value ${v}: stored ${c > 0 ? 'more' : 'less'} often than replaced (${c})`;
  const seen = new Set([init]), todo = [init];
  while (todo.length) for (const n of adj.get(todo.pop()) || []) if (!seen.has(n)) { seen.add(n); todo.push(n); }
  for (const [o] of edges) if (!seen.has(o)) return `value ${o} replaced but never stored`;
  for (const o of need) if (!seen.has(o)) return `value ${o} read but never stored`;
  return null;
}
// each agent owns elements of one shared array of small elements
function owners(d) {
  const t = d.pick(INT), k = d.int(2, 4), n = d.pick([10, 100, 300]), b = big(t);
  const ops = Array.from({ length: k }, () => d.list(1, 5, () => [d.pick([...RMW, 'store', 'plain']), String(wrap(t, BigInt(d.below(2 ** 31))))]));
  const agents = ops.map((o, i) => `__agent_receive((s)=>{const a=new ${t}(s);${GO(k)}for(let r=0;r<${n};r++){${o.map(([op, v]) => op === 'plain' ? `a[${i}]+=${b ? '3n' : 3};` : `Atomics.${op}(a,${i},${lit(t, v)});`).join('')}}__out("@${i} "+a[${i}])});`);
  const want = ops.map((o) => { let v = 0n; for (let r = 0; r < n; r++) for (const [op, a] of o) v = wrap(t, op === 'plain' ? v + 3n : op === 'store' ? BigInt(a) : fn[op](v, BigInt(a))); return String(v); });
  return { src: '//AG ' + JSON.stringify({ kind: 'lines', want: want.map((v, i) => `@${i} ${v}`).concat('F ' + want.join()) }) + '\n' +
    MAIN('const sab=new SharedArrayBuffer(64);', agents, '', `__out("F "+[...new ${t}(sab)].slice(0,${k}).join())`), nontrivial: true };
}
// one writer stores patterns, readers only ever see whole patterns; a flag publishes plain data
function publish(d) {
  if (d.bool(0.5)) {
    const t = d.pick(INT), w = BITS[t], pats = ['0', ...d.list(1, 4, () => String(wrap(t, BigInt('0x' + d.pick(['11', '22', 'ff', 'a5', '80', '7f', '01']).repeat(w / 8)))))];
    const n = d.pick([200, 1000]), k = d.int(1, 3), wr = d.pick(['store', 'exchange']);
    const writer = `__agent_receive((s)=>{const a=new ${t}(s,8),p=[${pats.map((x) => lit(t, x))}];${GO(k + 1)}for(let i=0;i<${n};i++)Atomics.${wr}(a,1,p[i%p.length]);Atomics.store(new Int32Array(s),0,1)});`;
    const readers = Array.from({ length: k }, (_, i) => `__agent_receive((s)=>{const a=new ${t}(s,8),f=new Int32Array(s),S=new Set;let c=0;${GO(k + 1)}do{S.add(${d.pick(['Atomics.load(a,1)', `Atomics.or(a,1,0${big(t) ? 'n' : ''})`, `Atomics.add(a,1,0${big(t) ? 'n' : ''})`])})}while(!Atomics.load(f,0)&&c++<20000);__out("@${i} "+[...S].join(" "))});`);
    return { src: '//AG ' + JSON.stringify({ kind: 'subset', pats, k }) + '\n' + MAIN('const sab=new SharedArrayBuffer(64);', [writer, ...readers], '', ''), nontrivial: true };
  }
  const k = d.int(1, 3), n = d.pick([5, 50]), f = d.pick(['store', 'exchange', 'add']);
  const flag = (i) => f === 'add' ? 'Atomics.add(f,0,1)' : `Atomics.${f}(f,0,${i})`;
  const w = `__agent_receive((s)=>{const f=new Int32Array(s,0,2),a=new Float64Array(s,16);${GO(k + 1)}for(let i=1;i<=${n};i++){a[i]=i*1.5;${flag('i')}}});`;
  const r = Array.from({ length: k }, (_, i) => `__agent_receive((s)=>{const f=new Int32Array(s,0,2),a=new Float64Array(s,16);${GO(k + 1)}let last=0,bad=0;for(;;){const v=Atomics.load(f,0);if(v<last)bad++;last=v;for(let j=1;j<=v;j+=${n > 5 ? 7 : 1})if(a[j]!==j*1.5)bad++;if(v>=${n})break}__out("@${i} "+bad)});`);
  return { src: '//AG ' + JSON.stringify({ kind: 'lines', want: r.map((_, i) => `@${i} 0`) }) + '\n' + MAIN(`const sab=new SharedArrayBuffer(${16 + 8 * (n + 2)});`, d.shuffle([w, ...r]), '', ''), nontrivial: true };
}
// a lock built from compareExchange, wait and notify protects plain data
function mutex(d) {
  const k = d.int(2, 4), n = d.pick([5, 30, 100]), b = d.bool(0.3), T = b ? 'BigInt64Array' : 'Int32Array', z = b ? 'n' : '', off = d.pick([0, 8, 16]), cnt = d.pick(['1', '1', 'Infinity', '2', '']);
  const agents = Array.from({ length: k }, (_, i) => `__agent_receive((s)=>{const a=new ${T}(s,${off}),p=new Float64Array(s,64);${GO(k)}
const lock=()=>{let c=Atomics.compareExchange(a,0,0${z},1${z});if(c!==0${z}){if(c!==2${z})c=Atomics.exchange(a,0,2${z});while(c!==0${z}){Atomics.wait(a,0,2${z});c=Atomics.exchange(a,0,2${z})}}};
const unlock=()=>{if(Atomics.sub(a,0,1${z})!==1${z}){Atomics.store(a,0,0${z});Atomics.notify(a,0${cnt ? ',' + cnt : ''})}};
for(let r=0;r<${n};r++){lock();p[0]=p[0]+1;${d.pick(['', 'p[1]=p[0];', 'for(let q=0;q<20;q++);'])}p[2]=p[2]+p[0]-p[0]+2;unlock()}__out("@${i} done")});`);
  return { src: '//AG ' + JSON.stringify({ kind: 'lines', want: [...agents.map((_, i) => `@${i} done`), `F ${k * n} ${2 * k * n} 0`] }) + '\n' +
    MAIN('const sab=new SharedArrayBuffer(128);', agents, '', `__out("F "+new Float64Array(sab,64)[0]+" "+new Float64Array(sab,64)[2]+" "+new ${T}(sab,${off})[0])`), nontrivial: true };
}
// waiters and notifiers: the notify results add up to the number of "ok"
function waits(d) {
  const b = d.bool(0.3), T = b ? 'BigInt64Array' : 'Int32Array', z = b ? 'n' : '', w = b ? 8 : 4, k = d.int(1, 5), idx = d.int(0, 3), off = w * d.int(0, 2), off2 = w * d.int(0, off / w);
  const idx2 = idx + (off - off2) / w, form = d.pick(['all', 'timed', 'timed', 'other', 'order', 'value']);
  const view = `const a=new ${T}(s,${64 + off})`;
  const main = `const sab=new SharedArrayBuffer(160),A=new ${T}(sab,${64 + off2}),C=new Int32Array(sab);`;
  const W = (i, x, v, to) => `__agent_receive((s)=>{${view},c=new Int32Array(s);Atomics.add(c,0,1);__out("@${i} "+Atomics.wait(a,${x},${v}${z}${to === '' ? '' : ',' + to}))});`;
  const all = 'while(Atomics.load(C,0)<' + k + ')__agent_sleep(0.05);';
  if (form === 'all') { // every waiter is woken exactly once
    const counts = d.list(1, 4, () => d.pick(['1', '1', '2', '3', '', 'Infinity', '0', '-3', '1.9', 'NaN', 'undefined', '"1"']));
    const to = d.pick(['', 'Infinity', 'NaN', 'undefined', '1e6', '2**62', '1e300']);
    return { src: '//AG ' + JSON.stringify({ kind: 'counts', k, total: k, caps: counts }) + '\n' + MAIN(main, Array.from({ length: k }, (_, i) => W(i, idx, 0, to)),
      `let n=0,N=[];for(let i=0;n<${k};i++){${counts.map((c) => `{let x=Atomics.notify(A,${idx2}${c ? ',' + c : ''});n+=x;if(x)N.push(x+":"+${JSON.stringify(c)})}`).join('')}if(i%3==0)__agent_sleep(0.1);if(i>20)n+=Atomics.notify(A,${idx2})}`, '__out("N "+n);for(let x of N)__out("C "+x)'), nontrivial: true };
  }
  if (form === 'timed') { // time-outs race with notifications
    const rounds = d.pick([1, 5, 15]), ag = Array.from({ length: k }, (_, i) => `__agent_receive((s)=>{${view};let o=[];for(let r=0;r<${rounds};r++)o.push(Atomics.wait(a,${idx},0${z},${d.pick(['0', '1', '1', '2', '3', '0.2', '5'])}));Atomics.add(new Int32Array(s),0,1);__out("@${i} "+o.join(" "))});`);
    return { src: '//AG ' + JSON.stringify({ kind: 'counts', k, rounds }) + '\n' + MAIN(main, ag,
      `let n=0;while(Atomics.load(C,0)<${k}){n+=Atomics.notify(A,${idx2}${d.pick(['', ',1', ',2'])});${d.pick(['', '', '__agent_sleep(0.05);', '__agent_sleep(1);'])}}`, '__out("N "+n)'), nontrivial: (r) => /ok/.test(r.act.out) };
  }
  if (form === 'other') { // notifying one element does not wake the waiters of another
    const other = idx === 3 ? 2 : idx + 1;
    return { src: '//AG ' + JSON.stringify({ kind: 'lines', want: ['@0 ok', '@1 timed-out', 'N 1'] }) + '\n' + MAIN(main, [W(0, idx, 0, ''), W(1, other, 0, 30)],
      `let n=0;while(!n){n+=Atomics.notify(A,${idx2});__agent_sleep(0.2)}`, '__out("N "+n)'), nontrivial: true };
  }
  if (form === 'value') { // the value decides, before the time-out does
    return { src: '//AG ' + JSON.stringify({ kind: 'lines', want: ['@0 not-equal', '@1 timed-out', 'N 0'] }) + '\n' + MAIN(main + `A[${idx2}]=7${z};`, [W(0, idx, 6, ''), W(1, idx, 7, d.pick(['0', '1', '-5', '3']))], '', '__out("N "+Atomics.notify(A,' + idx2 + '))'), nontrivial: true };
  }
  // waiters are woken first in, first out: retried with growing pauses, so that load cannot make it fail
  const kk = d.int(2, 3);
  const a = Array.from({ length: kk }, (_, i) => `__agent_receive((s)=>{${view},c=new Int32Array(s);for(let r=0;r<5;r++){while(Atomics.load(c,1)!==r*100+${i + 1})__agent_sleep(0.2);Atomics.store(c,2,r*100+${i + 1});Atomics.wait(a,${idx},0${z});Atomics.store(c,4+Atomics.add(c,3,1),${i + 1})}});`);
  return { src: '//AG ' + JSON.stringify({ kind: 'lines', want: ['N fifo'] }) + '\n' + MAIN(main, a,
    `let good=false;for(let r=0;r<5;r++){for(let i=1;i<=${kk};i++){Atomics.store(C,1,r*100+i);while(Atomics.load(C,2)!==r*100+i)__agent_sleep(0.2);__agent_sleep([2,2,20,80,250][r])}
let got=[];for(let i=0;i<${kk};i++){while(!Atomics.notify(A,${idx2},1))__agent_sleep(0.1);while(Atomics.load(C,3)!==i+1)__agent_sleep(0.1);got.push(C[4+i])}C[3]=0;if(got.join()===[${Array.from({ length: kk }, (_, i) => i + 1)}].join())good=true;}`, '__out("N "+(good?"fifo":"not fifo"))'), nontrivial: true };
}
function judgeCounts(m, lines) {
  const n = +(lines.find((l) => l.startsWith('N ')) || 'N NaN').slice(2), ws = lines.filter((l) => l[0] === '@');
  if (ws.length !== m.k) return `${ws.length} agents reported`;
  const words = ws.flatMap((l) => l.split(' ').slice(1)), ok = words.filter((x) => x === 'ok').length, to = words.filter((x) => x === 'timed-out').length;
  if (ok !== n) return `notify woke ${n}, but ${ok} waits said ok`;
  if (ok + to !== (m.rounds || 1) * m.k) return 'unexpected wait result';
  if (m.total !== undefined && ok !== m.total) return 'not all were woken';
  for (const l of lines) if (l.startsWith('C ')) { const [x, c] = l.slice(2).split(':'); const cap = c === '' || c === 'undefined' ? Infinity : Math.max(0, Math.trunc(Number(c.replace(/"/g, ''))) || 0); if (+x > cap) return `notify with count ${c} woke ${x}`; }
  return null;
}
const AG = /^\/\/AG (.*)$/m;
function judgeAgents(src, out) {
  const m = JSON.parse(AG.exec(src)[1]), lines = out.split('\n').filter((l) => l && !l.startsWith('= '));
  if (m.kind === 'rmw') return judgeRmw(m, lines);
  if (m.kind === 'counts') return judgeCounts(m, lines);
  if (m.kind === 'lines') { const a = lines.slice().sort().join('\n'), b = m.want.slice().sort().join('\n'); return a === b ? null : `expected ${b}`; }
  if (m.kind === 'subset') {
    const ws = lines.filter((l) => l[0] === '@'); if (ws.length !== m.k) return 'missing reader';
    for (const l of ws) for (const v of l.split(' ').slice(1)) if (!m.pats.includes(v)) return `reader saw ${v}`;
    return null;
  }
}
export default {
  rule: 'programs of up to 14 Atomics operations on views of plain and shared buffers with coercions that detach or modify, compared with V8; and programs of 2 to 5 agents whose operations are judged by schedule-independent invariants (edge balance and connectivity of read-modify-write values, counts of woken waiters, mutual exclusion, publication, FIFO wake-up); non-trivial: single programs that print more than 20 characters, agent programs that reach their end (timed waits: at least one was woken)',
  batch: 10, jobs: 6, hostOpts: { wall: 40000 },
  count: { quick: 4200, thorough: 120000 },
  racy: (c) => AG.test(c.src),
  expected(c, j) { return AG.test(c.src) ? { status: 'ok', out: '' } : j.ref.run([c], {})[0]; },
  judge(c, e, a) {
    if (!AG.test(c.src)) return e.status === a.status && e.out === a.out;
    if (a.status !== 'ok') return false;
    let m; try { m = judgeAgents(String(c.src), a.out); } catch (x) { m = x.message; }
    if (m) a.err = 'agents: ' + m;
    return !m;
  },
  gen(d) {
    return d.freq([[50, () => single(d)], [12, () => rmw(d)], [4, () => owners(d)], [8, () => publish(d)], [4, () => mutex(d)], [8, () => waits(d)]]);
  },
};
