import * as G from '../lib/gen.mjs';
// patterns: a small alphabet so that matches are likely
const LIT = ['a', 'b', 'c', 'A', 'B', 'x', '1', ' ', '\\n', '\n'.length ? '-' : '', '_', '\\u0061', '\\x62', '\\cJ', '\\t', '\\.', '\\$', '\\-', 'K', '\u00e9', '\u017f', '\u212a', '\u00df', '\\u{1f600}', '\ud83d\ude00', '\\ud83d\\ude00', '\ud83d', '\\/', '\\0', 'ſ', 'İ', 'ς', 'Σ'];
const CLS = ['\\d', '\\D', '\\w', '\\W', '\\s', '\\S', '.'];
const PROP = ['\\p{L}', '\\p{Lu}', '\\P{Lu}', '\\p{Script=Greek}', '\\p{ASCII}', '\\p{Ll}', '\\p{ID_Start}', '\\p{Alphabetic}', '\\p{Any}', '\\P{Any}', '\\p{Nd}', '\\p{sc=Latin}', '\\p{scx=Grek}', '\\p{Emoji}', '\\p{General_Category=Uppercase_Letter}', '\\p{gc=N}', '\\p{Foo}', '\\p{L', '\\p', '\\p{White_Space}', '\\p{Lowercase}'];
function cls(d, st) {
  const lit = () => d.pick(['a', 'b', 'c', 'A', 'Z', 'z', '0', '9', '_', '\\n', '\\x61', '\\u0062', 'k', 'K', '\u00e9', '\u017f']);
  const range = () => { if (st.junk) return one() + '-' + one(); let a = lit(), b = lit(); const v = (x) => eval('"' + x + '"').charCodeAt(0); if (v(a) > v(b)) [a, b] = [b, a]; return a + '-' + b; };
  const one = () => d.freq([[10, () => d.pick(['a', 'b', 'c', 'A', 'Z', 'z', '0', '9', '_', 'x', '1', ' ', '^', '.', '*', '$', '\\]', '\\\\', '\\n', '\\b', '\\x61', '\\u0062', 'k', 'K', '\u00e9', '\u017f'])], [1, () => d.pick(['\\d', '\\w', '\\s', '\\D', '\\W', '\\S'])], [st.u ? 1 : 0, () => d.pick([...PROP.slice(0, 6), '\ud83d\ude00', '\\u{1f600}', '\\ud83d\\ude01'])], [st.junk ? 1 : 0, () => d.pick(st.u ? ['\\c', '\\8', '\\1', '\\012', '\\q', '\\u', '\\x', '\\cA', '\\c1', '\\k'] : ['\\cA', '\\x4'])]]);
  return '[' + (d.bool(0.3) ? '^' : '') + d.list(0, 4, () => d.bool(0.3) ? range() : one()).join('') + ']';
}
function quant(d, st) { return d.freq([[3, '*'], [3, '+'], [3, '?'], [2, () => `{${d.int(0, 3)}}`], [1, () => `{${d.int(0, 2)},}`], [2, () => `{${d.int(0, 2)},${d.int(0, 4)}}`], [st.junk ? 1 : 0, () => d.pick(['{', '{,5}', '{a}', '{1', '**', '{2,1}'])]]) + (d.bool(0.3) ? '?' : ''); }
function term(d, st, depth) {
  return d.freq([
    [12, () => d.pick(['a', 'b', 'c', 'a', 'b', '1'])], [4, () => d.pick(LIT)], [4, () => d.pick(CLS)], [4, () => cls(d, st)],
    [st.u ? 2 : 0, () => d.pick(st.junk ? PROP : PROP.filter((x) => !/Foo|L$|p$/.test(x)))],
    [2, () => d.pick(['^', '$', '\\b', '\\B'])],
    [depth > 0 ? 6 : 0, () => { st.n++; return '(' + alt(d, st, depth - 1) + ')'; }],
    [depth > 0 ? 3 : 0, () => '(?:' + alt(d, st, depth - 1) + ')'],
    [depth > 0 ? 2 : 0, () => { st.n++; const n = d.bool(0.1) ? d.pick(st.junk ? ['1', '', 'a-b'] : ['a', '$', '_x', 'é'].filter((x) => !st.names.includes(x)).concat('n' + st.n)) : 'n' + st.n; st.names.push(n); return `(?<${n}>` + alt(d, st, depth - 1) + ')'; }],
    [depth > 0 ? 2 : 0, () => d.pick(['(?=', '(?!']) + alt(d, st, depth - 1) + ')'],
    [depth > 0 ? 2 : 0, () => d.pick(['(?<=', '(?<!']) + alt(d, st, depth - 1) + ')'],
    [3, () => '\x01' + String.fromCharCode(2 + d.int(0, 9))],
    [st.names.length ? 3 : 0, () => '\\k<' + (d.bool(0.9) ? d.pick(st.names) : st.junk ? 'zz' : st.names[0]) + '>'],
    [st.junk ? 2 : 0, () => d.pick(['\\', '(', ')', '[', ']', '{', '}', '*', '?', '(?', '(?<', '\\k', '\\c', '\\8', '\\u', '\\u{110000}', '\\x1', '(?a)', '\\k<', '|', '\\07', '\\400', '\\a', '(?<=a)*', '(?=a)*'])],
  ]);
}
function seq(d, st, depth) { return d.list(d.bool(0.9) ? 1 : 0, 4, () => term(d, st, depth) + (d.bool(0.3) ? quant(d, st) : '')).join(''); }
function alt(d, st, depth) { return d.list(1, d.bool(0.3) ? 3 : 1, () => seq(d, st, depth)).join('|'); }
export function pattern(d, flags, junk) { const st = { n: 0, names: [], u: /u/.test(flags), junk }; 
  let p = alt(d, st, d.int(0, 3));
  p = p.replace(/\x01([^])/g, (m, c) => st.n ? '\\' + (1 + (c.charCodeAt(0) - 2) % (st.n + (junk ? 1 : 0))) + '\x02' : 'b');
  p = p.replace(/\x02([0-9]?)/g, (m, c) => c ? '(?:)' + c : '');
  return p; }
const compiles = (p, f) => { try { new RegExp(p, f); return true; } catch { return false; } };
// Annex B extends the pattern grammar outside u mode; the engine implements the main grammar.
// A pattern is decided when it means the same in both: with u always, else when it is valid
// with u or invalid without.
export const decided = (p, f) => /u/.test(f) || !compiles(p, f) || (compiles(p, f + 'u') && !/\\p|\\P|\\u\{/.test(p));
const SUB = ['a', 'b', 'c', 'a', 'b', 'A', 'B', 'x', '1', ' ', '-', '_', '\n', 'K', 'k', '\u00e9', '\u017f', '\u212a', '\ud83d\ude00', '\ud83d', '\ude00', '$', '^', '.', '\u00c9', 'ß', 'ς', 'Σ', 's', 'S'];
export const subject = (d) => d.list(0, 10, () => d.freq([[6, () => d.pick(['a', 'b', 'c', '1'])], [2, () => d.pick(SUB)]])).join('');
export const flagsOf = (d) => ['d', 'g', 'i', 'm', 's', 'u', 'y'].filter((f) => d.bool(f === 'i' || f === 'u' ? 0.3 : f === 'g' ? 0.25 : 0.15)).join('');
// V8 also tries a pattern that starts with an assertion in the middle of a surrogate pair
const midPair = (p, f, subs) => /u/.test(f) && /[\ud800-\udbff][\udc00-\udfff]/.test(subs.join('')) && /\\B|\(\?</.test(p);
export default {
  rule: 'regular expressions generated from the grammar (quantifiers, groups, named groups, lookaround, back references, classes, unicode properties, malformed ones) executed on subjects over the same small alphabet; non-trivial: the pattern compiles and at least one exec matches',
  batch: 60,
  count: { quick: 60000, thorough: 1500000 },
  gen(d) {
    const f = flagsOf(d), p = pattern(d, f, d.bool(0.15)), n = d.int(1, 4);
    const subs = d.list(1, 3, () => subject(d));
    const src = `__t(()=>{let r=new RegExp(${G.q(p)},'${f}'); __out(r.flags+' '+r.source); for (let s of [${subs.map(G.q)}]) { ${d.bool(0.3) && !(/u/.test(f) && /[\ud800-\udfff]/.test(subs.join())) ? `r.lastIndex=${d.int(0, 5)};` : /u/.test(f) && /[gy]/.test(f) ? 'r.lastIndex=0; ' : ''} for (let i=0;i<${n};i++) { let m=r.exec(s); __p(m, ${/d/.test(f) ? 'm&&m.indices,m&&m.indices.groups,' : ''} r.lastIndex); if (!m) break; } } });`;
    return { src, skip: !decided(p, f) || midPair(p, f, subs), nontrivial: (r) => /index:/.test(r.act.out) };
  },
};
