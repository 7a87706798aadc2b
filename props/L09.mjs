// The parser accepts exactly the programs of the grammar.
const IDS = ['a', 'b', 'c', 'f', 'x'];
const ODD = ['let', 'static', 'yield', 'await', 'async', 'of', 'get', 'set', 'eval', 'arguments', 'target', 'from', 'as', 'implements', 'interface', 'package', 'private', 'public', 'enum', 'undefined', 'meta', 'accessor', 'constructor', 'prototype', 'name', 'null', 'this', 'super', 'new', 'in', 'typeof', 'class', 'function', 'var', 'const', 'import', 'default', 'l\\u0065t', 'y\\u0069eld', 'aw\\u0061it', '\\u0061', '\\u{62}', 'v\\u0061r', 'n\\u0065w', '\\u{110000}', '\\u00', '$', '_', 'ünï', '𠮷', 'a\u200c', '\u2118', 'a\u00b7', '\u30fb'];
const LITS = ['0', '1', '1.5', '.5', '5.', '0x1F', '0b101', '0o17', '1e3', '1E-2', '1n', '0n', '0x1fn', '1_000', '1_0.0_1e1_0', '"s"', "'t'", '"use strict"', '"\\u{1F600}"', '"\\x41"', '"\\0"', '"a\\\nb"', '"\u2028"', '/r/', '/[/]/g', '/a/dgimsuy', '/=x/', '`t`', '`a${1}b`', '`${a}${b}`', 'true', 'null', 'this'];
const BADLITS = ['01', '08', '09.5', '00', '0b2', '0o8', '0x', '1__0', '1_', '0_1', '1e', '1en', '01n', '.5n', '1.5n', '08n', '1_n', '3in []', '3a', '"\\u{110000}"', '"\\u12"', '"\\xZ1"', '"\\01"', '"\\8"', '"\\1"', '"a\nb"', '"unterminated', '`\\01`', '`\\u{}`', 'a`\\u{}`', '`${', '`', '/a', '/a/gg', '/a/x', '/(/', '/a\n/', '/(?<a>)(?<a>)/', '/\\k<a>(?<b>)/', '/a**/', '/[b-a]/', '/{1}/u', '/\\p{X}/u', '#a', '#', '@', '\\', '1_.5', '0.0_', '0B1', '0O7', '0X1', '1E5', '5..a', '5.a', '\u180e'];
const BIN = ['+', '-', '*', '/', '%', '**', '<<', '>>', '>>>', '<', '>', '<=', '>=', '==', '===', '!=', '!==', '&', '|', '^', '&&', '||', '??', 'in', 'instanceof', ','];
const ASG = ['=', '=', '=', '+=', '**=', '>>>=', '&&=', '||=', '??=', '-='];
const PUNCT = ['(', ')', '{', '}', '[', ']', ';', ',', '=>', '...', '.', '?.', '?', ':', '=', '=>', '+', '++', '--', '-', '!', '*', '**', '/', '??', '&&', '||', 'in', 'of', 'let', 'const', 'var', 'yield', 'await', 'async', 'function', 'class', 'new', 'return', 'break', 'continue', 'throw', 'static', 'get', 'set', 'super', 'this', 'extends', 'if', 'else', 'for', 'while', 'do', 'case', 'default', 'try', 'catch', 'finally', 'with', 'delete', 'void', 'typeof', 'debugger', 'a', 'b', '1', '"s"', '`t`', '/r/', '#p', '"use strict"', '\n', '\n'];
class Syn {
  constructor(d) { this.d = d; this.left = d.int(6, 40); }
  id() { const d = this.d; return d.freq([[20, () => d.pick(IDS)], [1, () => d.pick(ODD)]]); }
  lab() { return this.d.pick(['L', 'M', 'L', 'a']); }
  e(n = 3) {
    const d = this.d; this.left--;
    if (n <= 0 || this.left < 0) return d.freq([[6, () => [this.id()]], [3, () => [d.pick(LITS)]]]);
    const x = () => this.e(n - 1), p = (t) => ['(', ...t, ')'];
    return d.freq([
      [8, () => [this.id()]], [6, () => [d.pick(LITS)]], [1, () => [d.pick(BADLITS)]],
      [6, () => [...x(), d.pick(BIN), ...x()]], [3, () => p([...x(), d.pick(BIN), ...x()])], [2, () => p(x())],
      [3, () => [d.pick(['+', '-', '!', '~', 'typeof', 'void', 'delete']), ...x()]], [2, () => d.bool() ? [d.pick(['++', '--']), ...this.target(n)] : [...this.target(n), d.pick(['++', '--'])]],
      [5, () => [...this.target(n), d.pick(ASG), ...x()]], [2, () => [...x(), '?', ...x(), ':', ...x()]],
      [3, () => [...x(), d.pick(['.', '?.', '.', '?.']), d.pick(['a', 'b', 'if', 'new', '#p'])]], [2, () => [...x(), ...d.pick([[], ['?.']]), '[', ...x(), ']']], [4, () => [...x(), ...d.pick([[], [], ['?.']]), '(', ...this.args(n), ')']], [1, () => [...x(), ...d.pick([[], [], ['?.']]), '`t`']],
      [2, () => ['new', ...x(), ...d.pick([[], ['(', ...this.args(n), ')']])]], [1, () => d.pick([['new', '.', 'target'], ['super', '.', 'a'], ['super', '(', ')'], ['super', '[', 'a', ']'], ['import', '.', 'meta'], ['import', '(', 'a', ')'], ['#p', 'in', 'a'], ['new', '.', 't\\u0061rget'], ['super'], ['new', 'import', '(', 'a', ')'], ['import', '(', ')'], ['import', '(', '...', 'a', ')']])],
      [3, () => ['[', ...this.els(() => d.bool(0.15) ? ['...', ...x()] : d.bool(0.1) ? [] : x()), ']']], [4, () => this.obj(n)],
      [4, () => this.fn(n)], [4, () => this.arrow(n)], [2, () => this.cls(n, true)],
      [2, () => [d.pick(['await', 'yield', 'yield', 'await']), ...(d.bool(0.2) ? [] : d.bool(0.2) ? ['*', ...x()] : x())]],
    ]);
  }
  els(f) { const d = this.d, r = []; for (let i = d.int(0, 3); i > 0; i--) { r.push(...f()); if (i > 1 || d.bool(0.15)) r.push(','); } return r; }
  args(n) { return this.els(() => this.d.bool(0.15) ? ['...', ...this.e(n - 1)] : this.e(n - 1)); }
  target(n) { const d = this.d; return d.freq([[8, () => [this.id()]], [3, () => [...d.pick([['a'], ['this'], ['(', 'a', ')'], ['a', '(', ')'], ['super'], ['1'], ['a', '?.', 'b']]), '.', 'b']], [1, () => ['a', '[', ...this.e(n - 1), ']']], [1, () => ['(', ...this.target(n - 1 > 0 ? n - 1 : 0), ')']], [2, () => this.patt(n)], [1, () => n > 0 ? this.e(n - 1) : ['a']]]); }
  patt(n, bind) {
    const d = this.d, el = () => { const t = n > 1 && d.bool(0.2) ? this.patt(n - 1, bind) : bind ? [this.id()] : this.target(n > 1 ? n - 2 : 0); return d.bool(0.25) ? [...t, '=', ...this.e(n - 2)] : t; };
    if (d.bool()) return ['[', ...this.els(() => d.freq([[6, el], [1, () => []], [1, () => ['...', ...el()]]])), ']'];
    return ['{', ...this.els(() => d.freq([[3, () => [this.id()]], [2, () => [this.id(), '=', ...this.e(n - 2)]], [4, () => [...this.key(n), ':', ...el()]], [1, () => ['...', ...el()]]])), '}'];
  }
  key(n) { const d = this.d; return d.freq([[8, () => [d.pick(['a', 'b', 'c', 'if', 'get', 'set', 'static', 'async', 'yield', 'await', 'constructor', 'prototype', '__proto__', 'eval'])]], [1, () => ['"' + d.pick(['a', 'constructor', 'prototype', '__proto__']) + '"']], [1, () => [d.pick(['1', '0x1', '1n', '.5', '1_0', '08'.slice(1)])]], [2, () => ['[', ...this.e(n - 1), ']']]]); }
  params(n, one) { const d = this.d; if (one) return d.freq([[5, () => [this.id()]], [2, () => this.patt(n - 1, 1)], [1, () => [this.id(), '=', ...this.e(n - 1)]], [1, () => []], [1, () => ['...', this.id()]]]); return this.els(() => d.freq([[9, () => [this.id()]], [1, () => this.patt(n - 1, 1)], [2, () => [this.id(), '=', ...this.e(n - 2)]], [1, () => ['...', d.bool(0.8) ? [this.id()] : this.patt(n - 1, 1)].flat()]])); }
  body(n) { const d = this.d; return ['{', ...(d.bool(0.1) ? ['"use strict"', ';'] : []), ...this.stmts(d.int(0, 2), n - 1), '}']; }
  fn(n, decl) { const d = this.d; return [...(d.bool(0.25) ? ['async'] : []), 'function', ...(d.bool(0.25) ? ['*'] : []), ...(decl || d.bool() ? [this.id()] : []), '(', ...this.params(n), ')', ...this.body(n)]; }
  arrow(n) { const d = this.d; return [...(d.bool(0.25) ? ['async'] : []), ...(d.bool() ? [this.id()] : ['(', ...this.params(n), ')']), '=>', ...(d.bool() ? this.body(n) : this.e(n - 1))]; }
  method(n) { const d = this.d; return d.freq([[5, () => [...this.key(n), '(', ...this.params(n), ')', ...this.body(n)]], [2, () => ['get', ...this.key(n), '(', ...(d.bool(0.1) ? ['a'] : []), ')', ...this.body(n)]], [2, () => ['set', ...this.key(n), '(', ...this.params(n, 1), ')', ...this.body(n)]], [2, () => ['*', ...this.key(n), '(', ...this.params(n), ')', ...this.body(n)]], [2, () => ['async', ...(d.bool(0.3) ? ['*'] : []), ...this.key(n), '(', ...this.params(n), ')', ...this.body(n)]]]); }
  obj(n) { const d = this.d; return ['{', ...this.els(() => d.freq([[4, () => [...this.key(n), ':', ...this.e(n - 1)]], [3, () => [this.id()]], [3, () => this.method(n)], [1, () => ['...', ...this.e(n - 1)]], [1, () => [this.id(), '=', ...this.e(n - 1)]]])), '}']; }
  cls(n, ex) {
    const d = this.d, el = () => {
      const st = d.bool(0.25) ? ['static'] : [];
      const r = d.freq([[4, () => this.method(n)], [3, () => [...this.key(n), ...(d.bool() ? ['=', ...this.e(n - 1)] : []), ...(d.bool(0.8) ? [';'] : ['\n'])]], [1, () => [';']], [1, () => ['{', ...this.stmts(d.int(0, 2), n - 1), '}']], [1, () => ['constructor', '(', ')', '{', ...(d.bool(0.3) ? ['super', '(', ')', ';'] : []), '}']]]);
      return [...st, ...(d.bool(0.15) ? r.map((t, i) => i < 3 && /^[abc]$/.test(t) ? '#p' : t) : r)];
    };
    const els = []; for (let i = d.int(0, 3); i > 0; i--) els.push(...el());
    return ['class', ...(!ex || d.bool(0.4) ? [this.id()] : []), ...(d.bool(0.3) ? ['extends', ...this.e(d.bool(0.7) ? 0 : n - 1)] : []), '{', ...els, '}'];
  }
  decl(n, noinit) { const d = this.d; return [d.pick(['let', 'const', 'var']), ...(noinit ? (d.bool(0.3) ? this.patt(n, 1) : [this.id()]) : this.d.list(1, d.bool(0.8) ? 1 : 2, () => d.freq([[6, () => [this.id(), ...(d.bool(0.8) ? ['=', ...this.e(n - 1)] : [])]], [2, () => [...this.patt(n, 1), ...(d.bool(0.95) ? ['=', ...this.e(n - 1)] : [])]]])).flatMap((t, i) => i ? [',', ...t] : t))]; }
  semi() { return this.d.freq([[10, () => [';']], [2, () => ['\n']], [1, () => []]]); }
  stmts(k, n) { const r = []; for (; k > 0; k--) r.push(...this.s(n)); return r; }
  s(n = 3) {
    const d = this.d; this.left--;
    if (this.left < 0 || n <= 0) return d.pick([['a', ';'], [';'], ['f', '(', ')', '\n']]);
    const x = () => this.e(n - 1), st = () => this.s(n - 1), blk = () => ['{', ...this.stmts(d.int(0, 2), n - 1), '}'];
    return d.freq([
      [8, () => [...this.e(n), ...this.semi()]], [6, () => [...this.decl(n), ...this.semi()]], [1, () => [';']], [2, blk],
      [2, () => ['if', '(', ...x(), ')', ...st(), ...(d.bool() ? ['else', ...st()] : [])]],
      [2, () => ['for', '(', ...d.pick([() => [], x, () => this.decl(n - 1)])(), ';', ...(d.bool() ? x() : []), ';', ...(d.bool() ? x() : []), ')', ...st()]],
      [3, () => ['for', ...(d.bool(0.15) ? ['await'] : []), '(', ...(d.bool() ? this.decl(n - 1, true) : this.target(n - 1)), d.pick(['of', 'in']), ...x(), ')', ...st()]],
      [1, () => ['while', '(', ...x(), ')', ...st()]], [1, () => ['do', ...st(), 'while', '(', ...x(), ')', ...this.semi()]],
      [2, () => [d.pick(['break', 'continue']), ...(d.bool(0.4) ? [this.lab()] : []), ...this.semi()]], [2, () => ['return', ...(d.bool(0.7) ? x() : []), ...this.semi()]], [1, () => ['throw', ...x(), ...this.semi()]],
      [2, () => [this.lab(), ':', ...st()]], [1, () => ['with', '(', ...x(), ')', ...st()]], [1, () => ['debugger', ...this.semi()]],
      [2, () => ['switch', '(', ...x(), ')', '{', ...d.list(0, 3, () => [...(d.bool(0.75) ? ['case', ...x()] : ['default']), ':', ...this.stmts(d.int(0, 2), n - 1)]).flat(), '}']],
      [3, () => { const k = d.int(0, 2); return ['try', ...blk(), ...(k !== 1 ? ['catch', ...(d.bool(0.3) ? [] : ['(', ...(d.bool(0.7) ? [this.id()] : this.patt(n, 1)), ')']), ...blk()] : []), ...(k ? ['finally', ...blk()] : [])]; }],
      [5, () => this.fn(n, true)], [4, () => this.cls(n)],
      [1, () => [d.pick(['yield', 'await', 'async', 'let', 'static', 'get', 'of']), ...d.pick([[], ['\n'], ['/* \n */']]), ...d.pick([['function', 'f', '(', ')', '{', '}'], ['a'], ['=', '1', ';'], ['[', 'a', ']', '=', 'b'], ['(', 'a', ')', '=>', 'b'], ['{', '}'], ['*', 'a', ';'], ['/', 'a', '/', 'g'], ['=>', '1'], ['a', '=>', '1'], ['++', 'a'], ['`t`']])]],
      [1, () => d.pick(FRAGS).split(' ').filter((t) => t)],
    ]);
  }
}
const FRAGS = `for ( let of a ) ;|for ( let of of a ) ;|for ( let of = 1 ; ; ) break ;|for ( async of a ) ;|for ( async of => 1 ; ; ) break ;|for ( let in a ) ;|for ( let = 1 ; ; ) break ;|for ( let . a of b ) ;|for ( let [ a ] of b ) ;|for ( const a ; ; ) ;|for ( const a = 1 ; ; ) break ;|for ( let a , b of c ) ;|for ( let a = 1 of b ) ;|for ( var [ a ] = 1 of b ) ;|for ( const a in b , c ) ;|for ( const a of b , c ) ;|for ( var a of b ) let c ;|for ( ; ; ) function f ( ) { }|while ( 0 ) class A { }|if ( 0 ) let a ;|if ( 0 ) let \n a|if ( 0 ) let [ a ] = b|if ( 0 ) const a = 1 ;|do a while ( 0 ) b|do ; while ( 0 ) 1|a \n ++ \n b|a ++ b|return \n a|throw \n a ;|break \n L ;|let \n a|let \n let ;|let let ;|const let = 1 ;|var let ;|let a ; let a ;|let a ; var a ;|var a ; let a ;|{ let a ; { var a ; } }|function a ( ) { } let a ;|{ function a ( ) { } let a ; }|{ function a ( ) { } var a ; }|{ async function a ( ) { } function a ( ) { } }|class a { } var a ;|switch ( 1 ) { case 1 : let a ; default : let a ; }|switch ( 1 ) { default : default : }|try { } catch ( e ) { let e ; }|try { } catch ( [ e ] ) { var e ; }|try { } catch ( [ a , a ] ) { }|try { } catch { let e ; }|try { }|function f ( a , a ) { }|function f ( a , a ) { "use strict" }|function f ( a , [ a ] ) { }|( a , a ) => 1|( [ a , a ] ) => 1|function f ( a ) { let a ; }|( a ) => { let a ; }|function f ( a = 1 ) { "use strict" }|function eval ( ) { }|function f ( eval ) { "use strict" }|( eval ) => { "use strict" }|"use strict" ; with ( a ) ;|function f ( ) { "use strict" ; 010 }|function f ( ) { "use strict" ; "\\01" }|function f ( ) { "\\01" ; "use strict" }|( { a : 1 , a : 2 } )|( { __proto__ : 1 , __proto__ : 2 } )|( { __proto__ : a , __proto__ : b } = c )|( { __proto__ , __proto__ : b } )|( { a = 1 } )|( { a = 1 } ) => 1|( { a = 1 } = b )|( { a } ) = b|[ a ] = b|( [ a ] ) = b|[ ( a ) ] = b|[ ( a . b ) ] = b|[ ( [ a ] ) ] = b|{ a } = b|( { a : ( b ) } = c )|( { a : ( { } ) } = c )|( { ... { a } } = b )|( { ... a . b } = c )|let { ... { a } } = b|let { ... a , } = b|[ ... a , ] = b|[ ... a = 1 ] = b|( ... a ) => 1|( ... a , ) => 1|( a , ) => 1|( , ) => 1|( a , ... b )|( )|( a , )|async ( a , )|async ( ... a , b )|async ( ) \n => 1|async \n ( ) => 1|async ( a , a ) => 1|async ( await ) => 1|async await => 1|async ( x = await 1 ) => 1|async yield => 1|( ) => { } ( )|( ) => { } || a|a => { } \n / b / c|a ? ( b ) : c => d|a ? ( b ) => c : d|a ? b => ( c ) : d => e|a ?? b || c|a ?? ( b || c )|a && b ?? c|- a ** b|( - a ) ** b|a ** - b|a ++ ** b|await a ** b|typeof a ** b|new . target|new a ?. b|new ( a ?. b )|new a ( ) ?. b|a ?. b = 1|a ?. b \`t\`|a ?. [ 0 ] ++|delete a ?. b|delete a|"use strict" ; delete a|delete ( a )|delete this . #p|class A { #p ; m ( ) { delete this . #p } }|class A { #p ; m ( ) { delete this ?. #p . a } }|class A { #p ; #p }|class A { get #p ( ) { } set #p ( a ) { } }|class A { static get #p ( ) { } set #p ( a ) { } }|class A { #constructor }|class A { constructor ( ) { } constructor ( ) { } }|class A { get constructor ( ) { } }|class A { * constructor ( ) { } }|class A { async constructor ( ) { } }|class A { static constructor ( ) { } }|class A { static prototype ( ) { } }|class A { static prototype = 1 }|class A { constructor = 1 }|class A { static constructor = 1 }|class A { 'constructor' = 1 }|class A { [ 'constructor' ] = 1 }|class A { a = arguments }|class A { a = ( ) => arguments }|class A { a = function ( ) { arguments } }|class A { static { await } }|class A { static { arguments } }|class A { static { return } }|class A { static { var a ; let a } }|class A { static { await : 1 } }|class A { static { ( ) => await } }|class A { static { class await { } } }|class A { a = await }|class A { a = yield }|class A { m ( ) { super ( ) } }|class A { constructor ( ) { super ( ) } }|class A extends B { constructor ( ) { ( ) => super ( ) } }|class A extends B { constructor ( ) { function f ( ) { super ( ) } } }|class A extends B { a = super ( ) }|class A { a = super . b }|class A { a \n b }|class A { a b }|class A { get \n a ( ) { } }|class A { get \n * a ( ) { } }|class A { static \n a }|class A { async \n a ( ) { } }|class A { a \n [ b ] }|class A { a = 1 \n * b ( ) { } }|class A { get }|class A { static }|class A { static async * #p ( ) { } }|class A { static static static }|class A { get = 1 ; set ; static ; async }|class A { m ( ) { #p in this } }|class A { #p ; m ( ) { #p in this } }|class A { #p ; m ( ) { #p in this in this } }|class A { #p ; m ( ) { ( #p ) in this } }|class A { #p ; m ( ) { 1 + #p in this } }|class A { #p ; m ( ) { #p + 1 } }|class A extends class { x = this . #p } { #p }|class let { }|class static { }|class yield { }|class A extends a , b { }|class A extends a => 1 { }|class A extends ( a => 1 ) { }|class A extends - a { }|( { m ( ) { super . a } } )|( { m ( ) { super ( ) } } )|( { a : function ( ) { super . a } } )|( { get a ( b ) { } } )|( { set a ( ) { } } )|( { set a ( ... b ) { } } )|( { async \n a ( ) { } } )|( { async get a ( ) { } } )|( { get * a ( ) { } } )|( { * async a ( ) { } } )|( { async * a ( ) { } } )|( { async } )|( { get } )|( { async , get , set , static } )|( { yield } )|( { if } )|( { eval } = a )|"use strict" ; ( { eval } = a )|"use strict" ; eval = 1|"use strict" ; arguments ++|"use strict" ; ( { a : eval } = b )|"use strict" ; [ arguments ] = b|"use strict" ; let static|"use strict" ; var public|"use strict" ; yield = 1|"use strict" ; L : function f ( ) { }|function * g ( ) { yield \n * a }|function * g ( ) { yield \n a }|function * g ( ) { yield * \n a }|function * g ( ) { function yield ( ) { } }|function * g ( ) { ( yield ) => 1 }|function * g ( ) { ( a = yield ) => 1 }|function * g ( a = yield ) { }|function * yield ( ) { }|( function * yield ( ) { } )|function * g ( ) { a ? yield : yield }|function * g ( ) { yield ? 1 : 2 }|function * g ( ) { yield in a }|function * g ( ) { yield / 1 / g }|function * g ( ) { [ yield ] }|function * g ( ) { ( { yield } ) }|function * g ( ) { ( { [ yield ] : yield } ) }|function * g ( ) { var yield }|function * g ( ) { yield : 1 }|function * g ( ) { void yield }|function * g ( ) { 1 + yield }|function * g ( ) { yield = 1 }|function * g ( ) { for ( yield of a ) ; }|function * g ( ) { for ( var a of yield ) ; }|function * g ( ) { for ( yield in a ; ; ) break }|function * g ( ) { class A extends ( yield ) { } }|function * g ( ) { class A { [ yield ] = 1 } }|function * g ( ) { class A { a = yield } }|async function f ( ) { function await ( ) { } }|async function f ( await ) { }|async function f ( a = await 1 ) { }|async function await ( ) { }|( async function await ( ) { } )|async function f ( ) { await }|async function f ( ) { await : 1 }|async function f ( ) { var await }|async function f ( ) { ( await ) => 1 }|async function f ( ) { ( a = await 1 ) => 1 }|async function f ( ) { async ( a = await 1 ) => 1 }|async function f ( ) { for await ( a of b ) ; }|async function f ( ) { for await ( var a in b ) ; }|async function f ( ) { for await ( ; ; ) ; }|async function f ( ) { for await ( async of a ) ; }|async function f ( ) { for await ( let a = 1 of b ) ; }|function f ( ) { for await ( a of b ) ; }|async function f ( ) { await a = 1 }|async function f ( ) { await a ++ }|async function f ( ) { ++ await a }|async function f ( ) { - await a }|async function f ( ) { new await a }|async function f ( ) { class A { a = await 1 } }|async function f ( ) { class A { [ await 1 ] = 1 } }|L : L : a|L : { L : a }|L : { ( ( ) => { L : a } ) }|L : { break M }|L : { continue L }|L : { ( ) => { break L } }|L : for ( ; ; ) { continue L }|L : M : for ( ; ; ) { continue L }|L : { for ( ; ; ) { continue L } }|yield : 1|await : 1|let : 1|async : 1|static : 1|if ( a ) L : function f ( ) { }|import a from "b"|export default 1|import ( a , b )|import . meta|new import ( a )|import ( a ) . then ( b )|#! x|/* unterminated|/* a \n */ b|a /* \n */ ++ b|// c \n a|a --> b|x \n --> y|var a\\u{2F} ;|"\\u{0}"|\u2028 a|\ufeff a|a \u00a0 + b`.split('|').filter((s) => !/--> /.test(s));
const NOSP = new Set([';', ',', ')', '(', '{', '}', '[', ']', '.', '=>', '...', '?', ':', '=']);
// Annex B and web reality that V8 has and the engine (by design) has not, or that V8 reports at run time
export const WEB = [/\bimport\b/, /\)\s*(?:\/\*[^]*?\*\/\s*)?(=(?![=>])|\+\+|--|[-+*\/%&|^<>?]+=|in\b|of\b)/, /\)\s*\]?\s*(=(?![=>])|of\b|in\b)/, /(\+\+|--)[^]*\)/, /(\)|else|:)\s*(?:\/\*[^]*?\*\/\s*)?function/, /<!--|-->/, /catch/, /for\s*\(\s*var\b[^]*=[^]*\bin\b/, /\{[^]*function[^]*function/];
export default {
  rule: 'source texts generated from the full grammar (all statements, expressions, patterns, classes, functions and literals, odd identifiers and malformed literals included, with no regard for context) plus about 280 hand-written boundary fragments, nested in random contexts, with random token deletions, insertions, duplications, swaps and line breaks; only compiled. About a quarter of all texts are valid. The engine must accept exactly the texts that V8 accepts; non-trivial: at least 4 tokens',
  batch: 120, compileOnly: true, count: { quick: 250000, thorough: 4000000 },
  gen(d) {
    const g = new Syn(d);
    let t = d.bool(0.3) ? d.pick(FRAGS).split(' ').filter((x) => x) : g.stmts(d.int(1, 3), d.int(1, 4));
    for (let i = d.freq([[4, () => 0], [3, () => 1], [1, () => 2]]); i > 0; i--) {
      t = d.pick([(t) => ['function', 'f', '(', 'x', ')', '{', ...t, '}'], (t) => ['function', '*', 'g', '(', ')', '{', ...t, '}'], (t) => ['async', 'function', 'h', '(', ')', '{', ...t, '}'], (t) => ['(', '(', ')', '=>', '{', ...t, '}', ')', ';'], (t) => ['{', ...t, '}'], (t) => ['L', ':', 'for', '(', ';', ';', ')', '{', ...t, '}'], (t) => ['"use strict"', ';', ...t], (t) => ['class', 'Q', '{', 'm', '(', ')', '{', ...t, '}', '#p', ';', '}'], (t) => ['class', 'Q', 'extends', 'f', '{', 'constructor', '(', ')', '{', ...t, '}', '}'], (t) => ['class', 'Q', '{', 'static', '{', ...t, '}', '}'], (t) => ['switch', '(', 'a', ')', '{', 'case', '1', ':', ...t, '}'], (t) => ['(', '{', 'm', '(', ')', '{', ...t, '}', '}', ')', ';'], (t) => ['async', 'function', '*', 'h', '(', ')', '{', ...t, '}'], (t) => ['if', '(', 'a', ')', '{', ...t, '}', 'else', ';'], (t) => ['(', 'async', '(', ')', '=>', '{', ...t, '}', ')', ';'], (t) => ['function', 'f', '(', ')', '{', '"use strict"', ';', ...t, '}']])(t);
    }
    for (let i = d.freq([[6, () => 0], [5, () => 1], [2, () => 2]]); i > 0 && t.length; i--) {
      const k = d.below(t.length);
      d.freq([[3, () => t.splice(k, 1)], [3, () => t.splice(k, 0, d.pick(PUNCT))], [2, () => t.splice(k, 1, d.pick(PUNCT))], [1, () => t.splice(k, 0, t[d.below(t.length)])], [1, () => { const j = d.below(t.length); [t[k], t[j]] = [t[j], t[k]]; }], [3, () => t.splice(k, 0, d.pick(['\n', '\n', '/**/', '//\n', '/*\n*/', '\u2028', '\r\n']))]]);
    }
    let s = '';
    const sep = d.freq([[3, () => () => ' '], [1, () => () => d.bool(0.1) ? '\n' : ' '], [1, () => () => '\n'], [2, () => (x, y) => NOSP.has(x) || NOSP.has(y) ? '' : ' ']]);
    for (let i = 0; i < t.length; i++) s += (i ? (t[i] === '`' || /\/\/$/.test(s) ? '' : sep(t[i - 1], t[i])) : '') + t[i];
    return { src: s, nontrivial: t.length >= 4, extra: t };
  },
  expected(c, j) { return j.ref.compile(c); },
  tolerate(c, e, a) {
    // V8 accepts legacy octal numbers as class element names and re-reads `a => {}\n/b/` as a regular expression
    // and reserves await in static field initializers; it misses let/var clashes inside static blocks
    if (e.status === 'nocompile' && a.status === 'ok' && /static[^]*(?:await|\\u)/.test(c.src) && e.err === 'SyntaxError: Unexpected reserved word') return true;
    // f(a += b, {} = c) is valid, V8 does not think so; V8 accepts "\\8" in class bodies
    if (e.status === 'nocompile' && a.status === 'ok' && /[-+*\/%&|^?<>]=/.test(c.src) && e.err === 'SyntaxError: Invalid destructuring assignment target') return true;
    if (e.status === 'nocompile' && a.status === 'ok' && /catch/.test(c.src) && e.err === 'SyntaxError: let is disallowed as a lexically bound name') return true;
    return e.status === 'ok' && a.status === 'nocompile' && (WEB.some((r) => r.test(c.src)) || /class[^]*\b0[0-9]/.test(c.src) || /=>[^]*\}\s*\//.test(c.src) || /static\s*(?:\/[*\/][^]*?)?\{[^]*\bvar\b/.test(c.src) || /class[^]*\\[0-9]/.test(c.src) || /\/[^]*\\u\{[^]*\//.test(c.src) || /use strict[^]*\b0[0-9]/.test(c.src));
  },
};
