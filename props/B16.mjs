import * as G from '../lib/gen.mjs';
// fixed offsets only: the engine has no daylight saving time
const TZ = ['UTC', 'UTC', 'Etc/GMT+3', 'Etc/GMT-9', 'Etc/GMT+12', 'Etc/GMT-14'];
const MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec'];
const DAY = ['Sun', 'Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat'];
const tval = (d) => d.freq([
  [6, () => String(d.int(-8640000000000, 8640000000000) * 1000 + d.int(0, 999))], [5, () => String(d.int(-2208988800, 4102444800) * 1000 + d.int(0, 999))],
  [4, () => { const y = d.pick([-271821, -1, 0, 1, 99, 100, 1582, 1600, 1700, 1900, 1968, 1969, 1970, 1972, 1999, 2000, 2001, 2004, 2100, 2400, 9999, 10000, 275760]); return `(Date.UTC(2000,${d.int(0, 11)},${d.int(1, 31)},${d.pick([0, 23, 12])},${d.pick([0, 59])},${d.pick([0, 59])},${d.pick([0, 999])})+${(y - 2000)}*31556952000)`; }],
  [3, () => `${d.int(-20000, 20000)}*864e5+${d.pick([0, 1, -1, 86399999, 3600000, -3600000])}`],
  [2, () => d.pick(['0', '-0', '-1', '1', '8.64e15', '-8.64e15', '8.64e15+1', '-8.64e15-1', '8.64e15-1', '8639999999999999', 'NaN', 'Infinity', '-62198755200000', '-62167219200001', '-62167219200000', '253402300799999', '253402300800000', '1.9', '-1.9', '951782400000', '951868800000', '68169600000'])],
]);
// V8 leaves the later arguments of setters of invalid dates unconverted
const comp = (d, plain) => plain ? d.freq([[8, () => String(d.int(-3, 40))], [2, () => String(d.int(-100000, 100000))], [1, () => d.pick(['NaN', 'undefined', 'Infinity', '-0', '1.9', '-1.9', '"7"', 'null', '1e9', '-1e15', '1e300'])]]) : d.freq([[8, () => String(d.int(0, 31))], [4, () => String(d.int(-40, 100))], [2, () => String(d.int(-100000, 100000))], [1, () => d.pick(['NaN', 'undefined', 'Infinity', '-Infinity', '-0', '1.9', '-1.9', '"7"', 'null', 'true', '1e9', '-1e9', '1e15', '8.64e15', '1e300', '-1e300', '2147483648', '-2147483649', '4294967296', '9007199254740993', '1e20', '{}', '"x"'])], [1, () => `{valueOf(){__out("v${d.int(0, 9)}");${d.bool(0.15) ? 'throw new EvalError' : 'return ' + d.int(0, 20)}}}`], [d.bool(0.1) ? 1 : 0, () => d.pick(['1n', 'Symbol()'])]]);
const year = (d) => d.freq([[6, () => String(d.int(1900, 2100))], [3, () => String(d.int(0, 100))], [3, () => String(d.int(-300000, 300000))], [2, () => comp(d)]]);
const pad = (n, w) => String(n).padStart(w, '0');
const DIM = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
const leap = (y) => y % 4 === 0 && (y % 100 !== 0 || y % 400 === 0);
// an illegal element: only where V8's own fallback parser also gives NaN
function iso(d) { const s = iso0(d); return BAD && !Number.isNaN(Date.parse(s)) ? '2001-02-03' : s; }
let BAD = false;
function iso0(d) {
  BAD = false; const bad = (p) => { const b = d.bool(p); if (b) BAD = true; return b; };
  const y = d.freq([[5, () => d.int(1900, 2100)], [2, () => d.int(0, 9999)], [2, () => d.int(-271821, 275760)], [1, () => d.pick([-271821, 275760, 0, -1, 275761, -271822, 1970, 1969])]]);
  let s = y < 0 ? '-' + pad(-y, 6) : y > 9999 || d.bool(0.1) ? '+' + pad(y, 6) : pad(y, 4);
  const m = bad(0.03) ? d.pick([0, 13, 20]) : d.int(1, 12);
  const max = DIM[m - 1] === 29 ? (leap(y) ? 29 : 28) : DIM[m - 1] || 28;
  const form = d.int(0, 2);
  if (form > 0) s += '-' + pad(m, 2);
  if (form > 1) s += '-' + pad(bad(0.03) ? d.pick([0, 32, 99]) : d.bool(0.2) ? max : d.int(1, max), 2);
  if (d.bool(0.7)) {
    const w = (hi, badv) => pad(bad(0.02) ? d.pick(badv) : d.bool(0.2) ? hi : d.int(0, hi), 2);
    const h = bad(0.08) ? '24' : w(23, [25, 30, 99]);
    s += 'T' + h + ':' + (h === '24' && d.bool(0.8) ? '00' : w(59, [60, 99]));
    if (d.bool(0.7)) { s += ':' + (h === '24' && d.bool(0.8) ? '00' : w(59, [60, 61])); if (d.bool(0.6)) s += '.' + (h === '24' ? '000' : pad(d.int(0, 999), 3)); }
    s += d.freq([[4, 'Z'], [3, ''], [4, () => (d.bool() ? '+' : '-') + w(23, [24, 60]) + ':' + w(59, [60, 61])]]);
  }
  return s;
}
const own = (d) => { // the formats of toString and toUTCString
  const y = d.freq([[5, () => d.int(1900, 2100)], [2, () => d.int(100, 9999)]]), m = d.int(0, 11), dd = d.int(1, DIM[m] === 29 ? 28 : DIM[m]);
  const wd = new Date(Date.UTC(y, m, dd)).getUTCDay();
  const t = `${pad(d.int(0, 23), 2)}:${pad(d.int(0, 59), 2)}:${pad(d.int(0, 59), 2)}`;
  return d.bool() ? `${DAY[wd]}, ${pad(dd, 2)} ${MON[m]} ${pad(y, 4)} ${t} GMT` : `${DAY[wd]} ${MON[m]} ${pad(dd, 2)} ${pad(y, 4)} ${t} GMT${d.pick(['+0000', '+0530', '-0330', '+1400', '-1200', '+0001'])}${d.bool() ? ' (X Time)' : ''}`;
};
const GET = ['Date', 'Day', 'FullYear', 'Hours', 'Milliseconds', 'Minutes', 'Month', 'Seconds', 'UTCDate', 'UTCDay', 'UTCFullYear', 'UTCHours', 'UTCMilliseconds', 'UTCMinutes', 'UTCMonth', 'UTCSeconds', 'Time', 'TimezoneOffset'].map((x) => 'get' + x);
const SET = { Date: 1, FullYear: 3, Hours: 4, Milliseconds: 1, Minutes: 3, Month: 2, Seconds: 2 };
const FMT = ['toString', 'toDateString', 'toTimeString', 'toISOString', 'toUTCString', 'toJSON', 'valueOf'];
const setter = (d, ok) => { const k = d.pick(Object.keys(SET)), u = d.bool() ? 'UTC' : ''; const n = d.bool(0.1) ? 0 : d.int(1, SET[k] + (d.bool(0.1) ? 1 : 0)); return d.bool(0.08) ? `setTime(${d.bool(0.8) ? tval(d) : comp(d)})` : `set${u}${k}(${Array.from({ length: n }, (_, i) => k === 'FullYear' && i === 0 ? year(d) : comp(d, i && !ok)).join()})`; };
const show = 'try{__p(D.valueOf(),D.getTimezoneOffset(),__d(()=>D.toISOString()),D.toString(),D.toUTCString())}catch(e){__p("t",e)}';
const bad = (d) => d.pick(['{}', '5', 'undefined', '"2000"', 'Date.prototype', 'Object.create(new Date(0))', 'null', 'new Proxy(new Date(0),{})', '[]']);
export default {
  rule: 'time values over the whole range, component lists, ISO strings (valid, with one illegal element, in every length), strings in the engine\'s own formats, setter histories with converting and throwing arguments, formatting, toJSON and toPrimitive, under six fixed time zones; non-trivial: output longer than 30 characters',
  batch: 80,
  count: { quick: 80000, thorough: 2000000 },
  // the name of the time zone is implementation-defined; V8 pads negative years to 6 digits
  judge: (c, e, a) => { const z = (o) => o.replace(/ \([^()"]*\)/g, '').replace(/((?:[A-Z][a-z]{2} \d\d|\d\d [A-Z][a-z]{2}) -)0*/g, '$1'); return e.status === a.status && z(e.out) === z(a.out); },
  gen(d) {
    const tz = d.pick(TZ);
    const body = d.freq([
      [4, () => `let D=new Date(${tval(d)});${d.bool(0.15) ? `__p(${GET.map((g) => `D.${g}()`).join()});` : `__p(${d.list(1, 6, () => `D.${d.pick(GET)}()`).join()});`}${show};`],
      [4, () => `let D=new Date(${year(d)},${d.list(1, 6, () => comp(d)).join()});${show};`],
      [3, () => `__p(Date.UTC(${d.bool(0.05) ? '' : [year(d), ...d.list(0, 7, () => comp(d))].join()}));`],
      [5, () => `__p(Date.parse("${iso(d)}"));`], [2, () => `let D=new Date("${iso(d)}");${show};`],
      [3, () => `__p(Date.parse("${own(d)}"));`],
      [6, () => `let D=new Date(${tval(d)});${d.list(1, 5, () => `try{__p(D.${setter(d)})}catch(e){__p("t",e)}`).join(';')};${show};`],
      [2, () => `let D=new Date(${d.int(-99999, 999999) * 1e7 + d.int(0, 999999)});try{__p(D.${setter(d, true)})}catch(e){__p("t",e)};${show};`],
      [3, () => `let D=new Date(${tval(d)});__p(${d.list(1, 4, () => `__d(()=>D.${d.pick(FMT)}())`).join()});`],
      // round trips of the engine's own formats
      [3, () => `let D=new Date(${tval(d)});__p(__d(()=>Date.parse(D.toISOString())===+D),Date.parse(D.toString())===Math.floor(D/1000)*1000||D.getFullYear()<0||D.getFullYear()>9999||D.getFullYear()<100||+D,Date.parse(D.toUTCString())===Math.floor(D/1000)*1000||D.getUTCFullYear()<0||D.getUTCFullYear()>9999||D.getUTCFullYear()<100||+D);`],
      [1, () => `let D=new Date(${tval(d)});D.${d.pick(['x', 'toString', 'valueOf', 'toISOString'])}=${d.pick(['()=>5', '()=>({})', '5', '()=>{throw new EvalError}', 'undefined'])};try{__p(${d.pick(['`${D}`', 'D+1', 'D-1', 'D*1', 'D==0', 'D<5', 'JSON.stringify(D)', 'JSON.stringify({a:D})', 'D[Symbol.toPrimitive]("number")', 'D[Symbol.toPrimitive]("string")', 'D[Symbol.toPrimitive]("default")', 'D[Symbol.toPrimitive]()', 'D[Symbol.toPrimitive](new String("number"))', 'Date.prototype.toJSON.call({toISOString(){return 7},valueOf(){return NaN}})', 'Date.prototype.toJSON.call({toISOString(){return 7},valueOf(){return 1}})', 'Date.prototype.toJSON.call({})', 'Date.prototype[Symbol.toPrimitive].call({valueOf(){return 1},toString(){return "s"}},"default")', 'Date.prototype[Symbol.toPrimitive].call(5,"default")', 'new Date(D)-D', '[D]+""'])})}catch(e){__p("t",e)}`],
      [1, () => `try{__p(Date.prototype.${d.freq([[2, () => d.pick(GET)], [2, () => setter(d)], [1, () => d.pick(FMT)]]).replace(/\(.*$/, '')}.call(${bad(d)},1))}catch(e){__p("t",e)}`],
      [1, () => `let D=${d.pick(['new Date(new Date(5))', 'new Date({valueOf(){__out("v");return "2000-01-01"}})', 'new Date({[Symbol.toPrimitive](h){__out(h);return 7}})', 'new Date(new String("2001"))', 'new Date(true)', 'new Date(null)', 'new Date(undefined)', 'new Date("")', 'new Date("x")', 'new (class extends Date{constructor(){super(5);this.z=1}})', 'new Date(2000,0,1,undefined)', 'Reflect.construct(Date,[7],Object)', 'new Date(Object.assign(new Date(3),{valueOf(){return 9}}))', 'new Date(Object.assign(new Date(3),{toString(){return "x"}}))'])};__p(typeof D, D instanceof Date, __d(()=>+D));`],
      [1, () => `__p(typeof Date(),Date().length>20,typeof Date.now(),Math.abs(Date.now()-new Date)<1000,Date(5)!=="x",Date.length,Number.isInteger(Date.now()));`],
      [1, () => `try{new Date(${d.pick(['1n', 'Symbol()', '{valueOf(){throw new EvalError}}', '1,2n', '1,Symbol()', '1,{valueOf(){throw new EvalError}}', '{[Symbol.toPrimitive]:5}', '{[Symbol.toPrimitive](){return {}}}'])});__p(1)}catch(e){__p("t",e)}`],
    ]);
    return { src: `{__tz("${tz}");let __d=(f)=>{try{return f()}catch(e){return e.constructor.name}};${body}}`, nontrivial: (r) => r.act.out.length > 30 };
  },
};
