// Self tail calls: each call has an environment of its own.
export default [
  "function f(n, fs){ fs.push(() => n); if (n) return f(n-1, fs); return fs.map(g => g()); } __p(f(3, []));",
  "function f(n, fs){ let k = n * 2; fs.push(() => k++); if (n) return f(n-1, fs); return fs.map(g => g()); } __p(f(3, []));",
  "function f(n, as){ as.push(arguments); if (n) return f(n-1, as); return as.map(a => a[0]); } __p(f(3, []));",
  "function F(n){ this.n = n; if (n) return F.call({}, n-1); __p(new.target === undefined); } __p(new F(2));",
  "function F(n){ if (n === 2) { return F(1); } __p(new.target === undefined, typeof this); return {z: 1} } __p(new F(2));",
  "function F(n){ 'use strict'; __p(new.target === undefined, typeof this); if (n) return F(n-1); return 5 } __p(new F(2));",
  "async function f(n){ __l('n', n); if (n) return f(n-1); return 'v' } f(3).then((v) => __l('v', v)); (async () => { for (let i = 0; i < 15; i++) { __l('t', i); await i } })();",
  "async function f(n){ await 1; __l('n', n); if (n) return f(n-1); return 'v' } f(2).then((v) => __l('v', v)); (async () => { for (let i = 0; i < 15; i++) { __l('t', i); await i } })();",
  "function f(n, g){ if (n === 0) return g; return f(n - 1, g ?? (() => n)); } __p(f(3)());",
  "function f(n, r = []){ for (let i of [1,2]) { r.push(() => [i, n]); if (n) return f(n-1, r); } return r.map(h => h()) } __p(f(2));",
  "function f(n, o = {a: n}){ if (n) return f(n-1); return o } __p(f(3));",
  "var r=[]; function f(n){ var x; if (n === 3) x = 5; r.push(x); if (n) return f(n-1); return r } __p(f(3));",
  "var r=[]; function f(n){ r.push(typeof h, typeof k); function h() { return n } var k = 1; r.push(h); if (n) return f(n-1); return r.map(q => typeof q == 'function' ? q() : q) } __p(f(3));",
  "var r=[]; function f(n){ { let q = n; r.push(() => q); if (n) return f(n-1); } return r.map(g => g()) } __p(f(3));",
  "var f = (n, a = []) => { a.push(() => n); if (n) return f(n - 1, a); return a.map(g => g()) }; __p(f(2));",
  "var o = {f(n, a = []) { a.push(() => this.v); if (n) return this.f.call({v: n, f: this.f}, n - 1, a); return a.map(g => g()) }, v: 9}; __p(o.f(2));",
  "function f(n) { with ({z: n}) { if (n) return f(n - 1); return z } } __p(f(2));",
  "function f(n) { switch (n) { case 0: return 'z'; default: return f(n - 1) } } __p(f(5));",
  "function f(n, ...r) { if (n) return f(n - 1, ...r, n); return r } __p(f(4));",
  "function f({n}, [a] = [n]) { if (n) return f({n: n - 1}); return [n, a] } __p(f({n: 3}));",
  "function f(n) { eval('var ev' + n + ' = n'); if (n) return f(n - 1); return [typeof ev0, typeof ev1, typeof ev2] } __p(f(2));",
  "class A { constructor(n) { this.n = n } static make(n) { if (n) return A.make(n-1); return new this(n) } } __p(A.make(3));",
  "function f(n) { arguments[0] = n - 1; if (n > 0) return f(n, 5); return [n, arguments.length] } __p(f(3));",
  "function f(s, ...v) { if (v.length < 3) return f`a${1}b${2}c${3}`; return [s.raw, v] } __p(f(0));",
  "function f(n, p) { if (n == 2) return f.apply(null, [1, 2]); if (n) return f(n - 1, n, n); return [arguments.length, p] } __p(f(3));",
  "function* g(n) { yield n; if (n) return g(n - 1); } __p([...g(2)], (() => { const i = g(1); i.next(); return typeof i.next().value.next })());",
  "function F(n){ this.n = n; if (n) return F(n-1); } __p(new F(2).n, Object.keys(new F(3)));",
  "function f(n, fs){ for (let i = 0; i < 3; i++) { fs.push(() => [i, n]); if (n && i == 1) return f(n-1, fs); } return fs.map(g => g()); } __p(f(3, []));",
  "function f(n) { try { if (n) return f(n-1); return 'x' } finally { __l('f', n) } } __p(f(3));",
  "function f(n, fs = [], g = () => n) { fs.push(g); var n; if (n) return f(n-1, fs); return fs.map(h => h()) } __p(f(3));",
  "function f(n) { switch (n) { case 0: { let z = 1; return () => z } default: let q = n; if (q) return f(q-1); } } __p(f(3)());",
  "var o = {m(n) { if (n) return super.toString === Object.prototype.toString ? this.m(n - 1) : 0; return typeof this.m }}; __p(o.m(3));",
  "function f(n, c) { const k = {n}; c.push(k); class A { #p = n; static g() { return n } h() { return this.#p } } c.push(A.g, new A); if (n) return f(n-1, c); return c.map(x => typeof x == 'function' ? x() : x.h ? x.h() : x.n) } __p(f(2, []));",
];
