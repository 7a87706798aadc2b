// A recogniser of the superset of JSON that the engine's JSON reader accepts on purpose
// (comments, trailing commas, quoted or bare keys, single quoted and template strings,
// JavaScript number literals, signs, Infinity and NaN).  Used only to leave texts outside
// strict JSON but inside the superset undecided.
const WS = /[\t\v\f \u00a0\ufeff\u1680\u2000-\u200a\u202f\u205f\u3000\n\r\u2028\u2029]/;
export function loose(s) {
  let i = 0;
  const fail = () => { throw 0; };
  const ws = () => { for (;;) { if (i < s.length && WS.test(s[i])) i++; else if (s.startsWith('//', i)) { while (i < s.length && !/[\n\r\u2028\u2029]/.test(s[i])) i++; } else if (s.startsWith('/*', i)) { const j = s.indexOf('*/', i + 2); if (j < 0) fail(); i = j + 2; } else return; } };
  const ident = () => { const m = /^(?:[\p{ID_Start}$_]|\\u[0-9a-fA-F]{4}|\\u\{[0-9a-fA-F]+\})(?:[\p{ID_Continue}$\u200c\u200d]|\\u[0-9a-fA-F]{4}|\\u\{[0-9a-fA-F]+\})*/u.exec(s.slice(i)); if (!m) fail(); i += m[0].length; return m[0].replace(/\\u(?:\{(.*?)\}|(....))/g, (m, a, b) => String.fromCodePoint(parseInt(a || b, 16))); };
  const num = () => { const m = /^(?:0[xX][0-9a-fA-F_]+|0[oO][0-7_]+|0[bB][01_]+|[0-9_]*\.?[0-9_]*(?:[eE][-+]?[0-9_]*)?)n?/.exec(s.slice(i)); if (!m || !m[0]) fail(); i += m[0].length; };
  const str = (q) => { i++; for (;;) { if (i >= s.length) fail(); const c = s[i]; if (c === q) { i++; return; } if (c === '\\') { i += 2; continue; } if (q !== '`' && /[\n\r]/.test(c)) fail(); i++; } };
  const value = () => {
    ws(); if (i >= s.length) fail();
    const c = s[i];
    if (c === '[') { i++; for (;;) { ws(); if (s[i] === ']') { i++; return; } value(); ws(); if (s[i] === ']') { i++; return; } if (s[i] !== ',') fail(); i++; } }
    if (c === '{') { i++; for (;;) { ws(); if (s[i] === '}') { i++; return; } if (/["'`]/.test(s[i] ?? '')) str(s[i]); else ident(); ws(); if (s[i] !== ':') fail(); i++; value(); ws(); if (s[i] === '}') { i++; return; } if (s[i] !== ',') fail(); i++; } }
    if (/["'`]/.test(c)) return str(c);
    if (c === '+' || c === '-') { i++; ws(); if (s[i] === 'I' || s[i] === 'N') { if (!['Infinity', 'NaN'].includes(ident())) fail(); return; } return num(); }
    if (/[0-9.]/.test(c)) return num();
    if (!['null', 'true', 'false', 'Infinity', 'NaN'].includes(ident())) fail();
  };
  try { value(); ws(); return i === s.length; } catch (e) { if (e !== 0) throw e; return false; }
}
