// Programs borrowed from the generators of the other properties.
const IDS = ['B01', 'B02', 'B03', 'B04', 'B05', 'B06', 'B07', 'B08', 'B09', 'B10', 'B12', 'B14', 'B15', 'B16', 'B17', 'B18', 'L01', 'L02', 'L03', 'L04', 'L05', 'L06', 'L07', 'L08', 'L10'];
const W = { L02: 3, L03: 3, L04: 3, L05: 3, L06: 3, L07: 3, L08: 3, B07: 3, B12: 2, B14: 2, B15: 2, B16: 2, B08: 2, B06: 2 };
const P = Object.fromEntries(await Promise.all(IDS.map(async (id) => [id, (await import(`./${id}.mjs`)).default])));
export function borrow(d, ids = IDS, w = W) {
  const id = d.freq(ids.map((i) => [w[i] || 1, i]));
  const c = P[id].gen(d);
  d.note('from ' + id);
  return { ...c, from: id, nontrivial: undefined };
}
export { P, IDS };
