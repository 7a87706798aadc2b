// Evaluated in both engines before any case. Prints values canonically.
(function (g) {
  'use strict';
  var out = g.__out;
  var O = Object, R = Reflect, S = String, A = Array, isA = Array.isArray;
  var gpo = O.getPrototypeOf, own = R.ownKeys, gopd = O.getOwnPropertyDescriptor, isE = O.isExtensible;
  var hexd = '0123456789abcdef';
  var ap = R.apply;
  var cca = S.prototype.charCodeAt;
  var names = new Map();
  var mget = Map.prototype.get, mset = Map.prototype.set;
  var E = Error, symStr = Symbol.prototype.toString;
  var MapP = Map.prototype, SetP = Set.prototype, DateP = Date.prototype, ReP = RegExp.prototype, EP = Error.prototype;
  var mapFE = MapP.forEach, setFE = SetP.forEach, dateGT = DateP.getTime;
  var msz = gopd(MapP, 'size').get, ssz = gopd(SetP, 'size').get;
  var resrc = gopd(ReP, 'source').get, refl = gopd(ReP, 'flags').get;
  var TA = gpo(Int8Array), TAP = TA.prototype, tag = gopd(TAP, Symbol.toStringTag).get;
  var talen = gopd(TAP, 'length').get, taoff = gopd(TAP, 'byteOffset').get;
  var ablen = gopd(ArrayBuffer.prototype, 'byteLength').get;
  var U8 = Uint8Array;
  var wk = ['Object', 'Function', 'Array', 'Error', 'TypeError', 'RangeError', 'SyntaxError', 'ReferenceError', 'EvalError', 'URIError',
    'AggregateError', 'Map', 'Set', 'WeakMap', 'WeakSet', 'Promise', 'Date', 'RegExp', 'String', 'Number', 'Boolean', 'Symbol', 'BigInt',
    'ArrayBuffer', 'SharedArrayBuffer', 'DataView', 'Int8Array', 'Uint8Array', 'Uint8ClampedArray', 'Int16Array', 'Uint16Array',
    'Int32Array', 'Uint32Array', 'Float32Array', 'Float64Array', 'BigInt64Array', 'BigUint64Array', 'WeakRef', 'FinalizationRegistry'];
  for (var i = 0; i < wk.length; i++) {
    if (g[wk[i]]) { ap(mset, names, [g[wk[i]].prototype, wk[i]]); ap(mset, names, [g[wk[i]], '%' + wk[i] + '%']); }
  }
  ap(mset, names, [TAP, 'TypedArray']); ap(mset, names, [TA, '%TypedArray%']);
  ap(mset, names, [gpo(gpo([][Symbol.iterator]())), 'Iterator']);
  ap(mset, names, [gpo([][Symbol.iterator]()), 'ArrayIterator']);
  ap(mset, names, [gpo(function* () {}.prototype), 'Generator']);
  ap(mset, names, [gpo(async function* () {}.prototype), 'AsyncGenerator']);
  ap(mset, names, [gpo(function* () {}), 'GeneratorFunction']);
  ap(mset, names, [gpo(async function () {}), 'AsyncFunction']);
  ap(mset, names, [gpo(async function* () {}), 'AsyncGeneratorFunction']);
  ap(mset, names, [R, '%Reflect%']); ap(mset, names, [Math, '%Math%']); ap(mset, names, [JSON, '%JSON%']);
  function qs(s) {
    var r = '"', n = s.length;
    for (var i = 0; i < n; i++) {
      var c = ap(cca, s, [i]);
      if (c === 34) r += '\\"';
      else if (c >= 32 && c < 127) r += s[i];
      else r += '\\x' + hexd[(c >> 12) & 15] + hexd[(c >> 8) & 15] + hexd[(c >> 4) & 15] + hexd[c & 15];
    }
    return r + '"';
  }
  function num(n) { return n === 0 && 1 / n < 0 ? '-0' : '' + n; }
  function key(k) { return typeof k === 'symbol' ? '[' + ap(symStr, k, []) + ']' : k; }
  function str(v, depth, seen) {
    switch (typeof v) {
    case 'undefined': return 'undefined';
    case 'boolean': return v ? 'true' : 'false';
    case 'number': return num(v);
    case 'bigint': return v + 'n';
    case 'string': return qs(v);
    case 'symbol': return ap(symStr, v, []);
    }
    if (v === null) return 'null';
    if (depth > 6) return '...';
    var nm = ap(mget, names, [v]);
    if (nm !== undefined) return '<' + nm + '>';
    if (v === g) return '<global>';
    for (var i = 0; i < seen.length; i++) if (seen[i] === v) return '<^' + (seen.length - i) + '>';
    seen[seen.length] = v;
    var r = obj(v, depth, seen);
    seen.length--;
    return r;
  }
  function desc(v, k, depth, seen) {
    var d = gopd(v, k);
    if (!d) return '?gone';
    var f = (d.enumerable ? '' : '!e') + (d.configurable ? '' : '!c');
    if ('value' in d || 'writable' in d) return (d.writable ? '' : '!w') + f + (f || !d.writable ? ' ' : '') + str(d.value, depth + 1, seen);
    return 'accessor' + f + '(' + (d.get ? str(d.get, depth + 1, seen) : '') + ',' + (d.set ? str(d.set, depth + 1, seen) : '') + ')';
  }
  function obj(v, depth, seen) {
    var p, r = '', skip = null;
    if (typeof v === 'function') {
      var dn = gopd(v, 'name'), dl = gopd(v, 'length');
      return 'fn ' + (dn && typeof dn.value === 'string' ? qs(dn.value) : dn ? '?' : '-') + '/' + (dl && 'value' in dl ? str(dl.value, 9, seen) : '-');
    }
    p = gpo(v);
    var pn = p === null ? 'null' : ap(mget, names, [p]);
    if (pn === undefined) {
      var pc = p, hops = '';
      while (pc !== null && pn === undefined) { hops += '>'; pc = gpo(pc); pn = pc === null ? 'null' : ap(mget, names, [pc]); if (hops.length > 5) break; }
      var cd = gopd(p, 'constructor');
      var cn = cd && typeof cd.value === 'function' ? gopd(cd.value, 'name') : undefined;
      pn = (cn && typeof cn.value === 'string' ? cn.value : '?') + hops + pn;
    }
    if (isA(v)) {
      r = pn === 'Array' ? '[' : pn + '[';
      var n = v.length, ks = own(v), shown = 0, i;
      if (n <= 200) {
        for (i = 0; i < n; i++) {
          var d = gopd(v, i);
          r += (i ? ',' : '') + (d === undefined ? '' : (d.writable && d.enumerable && d.configurable) ? str(d.value, depth + 1, seen) : desc(v, '' + i, depth, seen));
          if (d !== undefined) shown++;
        }
        for (i = shown; i < ks.length; i++) {
          if (ks[i] !== 'length') r += ',' + key(ks[i]) + ':' + desc(v, ks[i], depth, seen);
        }
        var ld = gopd(v, 'length');
        if (!ld.writable) r += ',length!w';
        r += '#' + n + ']';
      } else {
        for (i = 0; i < ks.length && i < 60; i++) r += (i ? ',' : '') + key(ks[i]) + ':' + desc(v, ks[i], depth, seen);
        r += '#' + n + ']';
      }
      return r + (isE(v) ? '' : '!x');
    }
    var t = undefined;
    try { t = ap(tag, v, []); } catch (e) {}
    if (t !== undefined) {
      var tl = ap(talen, v, []);
      r = t + '@' + ap(taoff, v, []) + '(';
      for (var j = 0; j < tl && j < 64; j++) r += (j ? ',' : '') + str(v[j], depth + 1, seen);
      return r + '#' + tl + ')';
    }
    if (pn === 'ArrayBuffer' || pn === 'SharedArrayBuffer') {
      try {
        var u = new U8(v), bl = u.length;
        r = pn + '(';
        for (var b = 0; b < bl && b < 64; b++) r += hexd[u[b] >> 4] + hexd[u[b] & 15];
        return r + '#' + bl + ')';
      } catch (e) { return pn + '(detached)'; }
    }
    r = pn === 'Object' ? '' : pn;
    try { var n1 = ap(msz, v, []); r += '#' + n1 + '('; ap(mapFE, v, [function (x, k) { r += str(k, depth + 1, seen) + '=>' + str(x, depth + 1, seen) + ','; }]); r += ')'; } catch (e) {}
    if (p === SetP || pn.length > 3) try { var n2 = ap(ssz, v, []); r += '#' + n2 + '('; ap(setFE, v, [function (x) { r += str(x, depth + 1, seen) + ','; }]); r += ')'; } catch (e) {}
    if (pn !== 'Object') {
      try { r += '@' + num(ap(dateGT, v, [])); } catch (e) {}
      if (pn !== 'RegExp>Object') try { if (p === ReP || gopd(v, 'lastIndex')) r += '/' + qs(ap(resrc, v, [])) + '/' + ap(refl, v, []); } catch (e) {}
    }
    var ks2 = own(v), lim = ks2.length > 80 ? 80 : ks2.length, first = true;
    r += '{';
    for (var q = 0; q < lim; q++) {
      var k = ks2[q];
      if ((k === 'stack' || k === 'message') && v instanceof E) continue;
      r += (first ? '' : ',') + key(k) + ':' + desc(v, k, depth, seen);
      first = false;
    }
    if (lim < ks2.length) r += ',+' + (ks2.length - lim);
    return r + '}' + (isE(v) ? '' : '!x');
  }
  function def(n, v) { O.defineProperty(g, n, { value: v, writable: true, configurable: true, enumerable: false }); }
  def('__str', function (v) {
    if (v instanceof E) {
      var n;
      try { n = '' + v.name; } catch (e) { n = '?'; }
      var pn = ap(mget, names, [gpo(v)]);
      return 'E:' + (pn || n) + (pn && pn !== n ? '/' + n : '');
    }
    return str(v, 0, []);
  });
  def('__p', function () {
    var r = '';
    for (var i = 0; i < arguments.length; i++) r += (i ? ' ' : '') + g.__str(arguments[i]);
    out(r);
    return arguments[0];
  });
  // print a tagged value and return it
  def('__l', function (t, v) { out(t + ':' + g.__str(v)); return v; });
  // run f; print its result or what it throws
  def('__t', function (f) {
    var r;
    try { r = f(); } catch (e) { out('throws ' + g.__str(e)); return; }
    out('= ' + g.__str(r));
    return r;
  });
  // a transparent proxy that prints every trap
  var Px = g.Proxy, traps = ['get', 'set', 'has', 'deleteProperty', 'defineProperty', 'getOwnPropertyDescriptor', 'ownKeys', 'getPrototypeOf', 'setPrototypeOf', 'isExtensible', 'preventExtensions', 'apply', 'construct'];
  var Rf = {};
  for (i = 0; i < traps.length; i++) Rf[traps[i]] = R[traps[i]];
  def('__px', function (t, tag) {
    var h = O.create(null);
    for (var i = 0; i < traps.length; i++) (function (n) {
      h[n] = function () {
        var k = arguments[1], r = (tag || '') + n;
        if (typeof k === 'string' || typeof k === 'symbol') r += ' ' + key(k);
        if (n === 'set') r += '=' + g.__str(arguments[2]);
        if (n === 'defineProperty') { var d = arguments[2]; r += ':' + own(d).join() + ('value' in d ? '=' + g.__str(d.value) : ''); }
        out(r);
        return ap(Rf[n], R, arguments);
      };
    })(traps[i]);
    return new Px(t, h);
  });
  var hide = ['__out', '__gc', '__detach', '__newrealm', '__evalscript', '__jobs', '__agent_start', '__agent_broadcast', '__agent_receive', '__agent_sleep', '__agent_join'];
  for (i = 0; i < hide.length; i++) if (g[hide[i]]) def(hide[i], g[hide[i]]);
})(globalThis);
