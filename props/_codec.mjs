// Reference encoders and decoders for the encodings the checks use.
const FF = 0xfffd;
export function points(s) { // code points; lone surrogates become U+FFFD
  const r = [];
  for (let i = 0; i < s.length; i++) {
    const c = s.charCodeAt(i);
    if (c >= 0xd800 && c < 0xdc00 && i + 1 < s.length) { const d = s.charCodeAt(i + 1); if (d >= 0xdc00 && d < 0xe000) { r.push(((c - 0xd800) << 10) + d - 0xdc00 + 0x10000); i++; continue; } }
    r.push(c >= 0xd800 && c < 0xe000 ? FF : c);
  }
  return r;
}
export const canon = (e) => ({ 'utf8': 'utf-8', 'latin1': 'iso-8859-1', 'utf16le': 'utf-16le', 'l1': 'iso-8859-1' })[e.toLowerCase()] || e.toLowerCase();
export const ENCODINGS = ['utf-8', 'utf-16le', 'utf-16be', 'utf-32le', 'utf-32be', 'iso-8859-1', 'us-ascii'];
export function encode(s, e) { // -> Buffer, or null: unknown encoding
  e = canon(e);
  const p = points(s), b = [];
  switch (e) {
  case 'utf-8': return Buffer.from(String.fromCodePoint(...[]) + p.map((x) => String.fromCodePoint(x)).join(''), 'utf8');
  case 'utf-16le': case 'utf-16be': for (const x of p) { const u = x < 0x10000 ? [x] : [0xd800 + ((x - 0x10000) >> 10), 0xdc00 + ((x - 0x10000) & 0x3ff)]; for (const y of u) b.push(...(e === 'utf-16le' ? [y & 255, y >> 8] : [y >> 8, y & 255])); } return Buffer.from(b);
  case 'utf-32le': case 'utf-32be': for (const x of p) { const q = [x & 255, (x >> 8) & 255, x >> 16, 0]; b.push(...(e === 'utf-32le' ? q : q.reverse())); } return Buffer.from(b);
  case 'iso-8859-1': return Buffer.from(p.map((x) => x < 256 ? x : 0x1a));
  case 'us-ascii': return Buffer.from(p.map((x) => x < 128 ? x : 0x1a));
  }
  return null;
}
const cp = (x) => String.fromCodePoint(x);
export function decode(b, e) { // -> string, or null: unknown encoding
  e = canon(e);
  let r = '';
  switch (e) {
  case 'utf-8': return new TextDecoder('utf-8', { ignoreBOM: true }).decode(b);
  case 'utf-16le': case 'utf-16be': {
    const u = []; for (let i = 0; i + 1 < b.length; i += 2) u.push(e === 'utf-16le' ? b[i] | b[i + 1] << 8 : b[i] << 8 | b[i + 1]);
    for (const x of points(u.map((x) => String.fromCharCode(x)).join(''))) r += cp(x);
    return r;
  }
  case 'utf-32le': case 'utf-32be':
    for (let i = 0; i + 3 < b.length; i += 4) { const x = e === 'utf-32le' ? b.readUInt32LE(i) : b.readUInt32BE(i); r += x > 0x10ffff || (x >= 0xd800 && x < 0xe000) ? cp(FF) : cp(x); }
    return r;
  case 'iso-8859-1': return b.toString('latin1');
  case 'us-ascii': return [...b].map((x) => x < 128 ? cp(x) : cp(FF)).join('');
  }
  return null;
}
// does the input end inside a character? (the engine drops such a tail: a known finding)
export function truncated(b, e) {
  e = canon(e);
  if (e === 'utf-8') { for (let k = 1; k <= 3 && k <= b.length; k++) { const x = b[b.length - k]; if (x >= 0xc0) return k < (x >= 0xf0 ? 4 : x >= 0xe0 ? 3 : 2); if (x < 0x80) return false; } return false; }
  if (/^utf-16/.test(e)) { if (b.length % 2) return true; if (!b.length) return false; const h = e === 'utf-16le' ? b[b.length - 1] : b[b.length - 2]; return (h & 0xfc) === 0xd8; }
  if (/^utf-32/.test(e)) return b.length % 4 !== 0;
  return false;
}
