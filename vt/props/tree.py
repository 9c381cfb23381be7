"""The syntax trees the generated parser and its actions build, by symbolic execution of the LLVM IR that rustc emits for
the parser that lalrpop generates from /repo's grammar: the kinds of free tokens and the characters of names, numbers
and strings are symbolic variables."""
import z3
import bv, sym, rust, llir, build, grammar
from check import Violation, ref_paths, Failure
from props import front
from props.syntax import winner, load, KINDS, KEYWORDS, PUNCT

NAME = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.$'


class Parser(rust.Front):
    def __init__(self):
        b = build.parser()
        self.wasm = b['wasm']
        self.mod = llir.parse(rust.normalise(rust.reachable(open(b['ll']).read(), ['@fe_parse'])))


class Words:
    """A sequence of tokens: (kind or None, text); `?` in a text is a symbolic character, `_` a token of symbolic kind."""

    def __init__(self, template, idx, kinds):
        self.toks, self.pc, self.idx = [], [], idx
        for n, w in enumerate(template.split()):
            if w == '_':
                k = bv.var('k%d' % n, 8)
                self.pc.append(z3.Or(*[k.z() == i for i in kinds]))
                self.toks.append((k, [ord(c) for c in 'q%02dz' % n]))
                continue
            w = w.replace('~', ' ')
            kind = winner(w.replace('?', '0' if w[0] in '0123456789' or w.startswith('hex"') else 'a'), idx.pats)
            digits = '0123456789abcdefABCDEF' if w.startswith(('0x', 'hex"')) else '0123456789' if w[0] in '?0123456789' and w[0] != '?' else NAME
            if w[0] == '"':
                digits = [chr(c) for c in range(32, 127) if chr(c) not in '"\\']
            if w.startswith('data'):
                digits = [c for c in NAME if c != '$']
            tx = []
            for j, c in enumerate(w):
                if c == '?':
                    b = bv.var('t%d_%d' % (n, j), 8)
                    self.pc.append(z3.Or(*[b.z() == ord(x) for x in digits]))
                    tx.append(b)
                else:
                    tx.append(ord(c))
            self.toks.append((kind, tx))
        for c in self.pc:
            bv._keep[c.get_id()] = c

    def bytes(self, known):
        out = []
        for i, (k, t) in enumerate(self.toks):
            out += [known.get(i, k), len(t)] + t
        return out


class Index(dict):
    pass


class Error(Exception):
    pass


class Ref:
    """The Yul grammar, by recursive descent; the tree in the form the harness writes."""

    def __init__(self, c, words):
        self.c, self.w, self.i, self.known = c, words, 0, {}
        self.out = []

    def at(self, kind, off=0):
        i = self.i + off
        if i >= len(self.w.toks):
            return False
        k = self.known.get(i, self.w.toks[i][0])
        want = self.w.idx[kind]
        if isinstance(k, int):
            return k == want
        if self.c.branch(bv.eq(k, want, 8)):
            self.known[i] = want
            return True
        return False

    def text(self):
        t = self.w.toks[self.i][1]
        self.i += 1
        return t

    def take(self, kind):
        if not self.at(kind):
            raise Error()
        return self.text()

    def str(self, bs):
        return [len(bs)] + list(bs)

    def parse(self):
        try:
            r = self.object()
            if self.i != len(self.w.toks):
                raise Error()
            return r
        except Error:
            return [ord('E')]

    def string(self, t):
        return unescape(t[1:-1]) if t[0] == ord('"') else list(t[1:-1])

    def object(self):
        self.take('object')
        out = [ord('O')] + self.str(self.string(self.take('string')))
        self.take('{')
        self.take('code')
        out += self.block()
        segs, n = [], 0
        while True:
            if self.at('object'):
                segs += self.object()
            elif self.at('data'):
                nm = self.text()
                if nm[0] == ord('d'):
                    nm = nm[6:-1]
                vals, m = [], 0
                while self.at('hexdata'):
                    h = self.text()
                    vals += [ord('h')] + self.str(h[4:-1] if h[0] == ord('h') else h)
                    m += 1
                segs += [ord('D')] + self.str(nm) + [m] + vals
            else:
                break
            n += 1
        self.take('}')
        return out + [n] + segs

    def block(self):
        self.take('{')
        n, out = 0, []
        while True:
            s = self.stmt()
            if s is None:
                break
            out += s
            n += 1
        self.take('}')
        return [n] + out

    def typed(self):
        n, out = 0, []
        while True:
            out += self.str(self.take('name')) + self.type()
            n += 1
            if not self.at(','):
                return [n] + out
            self.i += 1

    def type(self):
        if self.at(':'):
            self.i += 1
            return [ord(':')] + self.str(self.take('name'))
        return [ord('-')]

    def stmt(self):
        if self.at('{'):
            return [ord('B')] + self.block()
        if self.at('name'):
            if self.at('(', 1):
                return [ord('C')] + self.call()
            n, out = 1, self.str(self.text())
            while self.at(','):
                self.i += 1
                out += self.str(self.take('name'))
                n += 1
            self.take(':=')
            return [ord('A'), n] + out + self.expr()
        if self.at('let'):
            self.i += 1
            out = [ord('V')] + self.typed()
            if self.at(':='):
                self.i += 1
                return out + self.expr()
            return out + [ord('-')]
        if self.at('if'):
            self.i += 1
            out = [ord('I')] + self.expr()
            return out + self.block()
        if self.at('for'):
            self.i += 1
            out = [ord('R')] + self.block()
            out += self.expr()
            out += self.block()
            return out + self.block()
        if self.at('switch'):
            self.i += 1
            out, cases, n = [ord('S')] + self.expr(), [], 0
            while self.at('case'):
                self.i += 1
                l = self.lit()
                if l is None:
                    raise Error()
                cases += l
                cases += self.block()
                n += 1
            out += [n] + cases
            if self.at('default'):
                self.i += 1
                return out + [ord('d')] + self.block()
            if n == 0:
                raise Error()
            return out + [ord('-')]
        if self.at('function'):
            self.i += 1
            out = [ord('F')] + self.str(self.take('name'))
            self.take('(')
            out += [0] if self.at(')') else self.typed()
            self.take(')')
            if self.at('->'):
                self.i += 1
                out += self.typed()
            else:
                out += [0]
            return out + self.block()
        for k in ('leave', 'break', 'continue'):
            if self.at(k):
                self.i += 1
                return [ord(k[0])]
        return None

    def call(self):
        out = self.str(self.text())
        self.take('(')
        args, n = [], 0
        if not self.at(')'):
            while True:
                args += self.expr()
                n += 1
                if not self.at(','):
                    break
                self.i += 1
        self.take(')')
        return out + [n] + args

    def expr(self):
        if self.at('name'):
            if self.at('(', 1):
                return [ord('C')] + self.call()
            return [ord('i')] + self.str(self.text())
        l = self.lit()
        if l is None:
            raise Error()
        return l

    def lit(self):
        for k, t in (('true', 't'), ('false', 'f'), ('dec', 'n'), ('hex', 'x'), ('string', 's')):
            if self.at(k):
                x = self.text()
                out = [ord(t)]
                if k == 'string':
                    out += self.str(self.string(x))
                elif k in ('dec', 'hex'):
                    out += self.str(x)
                return out + self.type()
        return None


def unescape(bs):
    out, i = [], 0
    while i < len(bs):
        b = bs[i]
        if isinstance(b, int) and b == ord('\\'):
            e = chr(bs[i + 1])
            if e == 'x':
                out.append(int(bytes(bs[i + 2:i + 4]), 16))
                i += 4
                continue
            out.append({'n': 10, 't': 9, 'r': 13}.get(e, ord(e)))
            i += 2
            continue
        out.append(b)
        i += 1
    return out


def main(code, segs=''):
    return 'object "??" { code { %s } %s }' % (code, segs)


SHAPES = [
    ('empty', main('')),
    ('one statement of any kind', main('_')), ('two tokens', main('_ _')), ('three tokens', main('_ _ _')),
    ('whole text', '_ _ _ _'), ('head', 'object _ _ _ _ }'), ('tail', 'object "a" { code { } _ _ _ }'),
    ('call with 0 arguments', main('n?? ( )')), ('call with 1 argument', main('n?? ( m?? )')),
    ('call with 2 arguments', main('n?? ( m?? , o?? )')), ('call with 3 arguments', main('n?? ( 1? , 0x? , "a?" )')),
    ('call with 5 arguments', main('n? ( a? , b? , c? , d? , e? )')),
    ('nested calls', main('n? ( f? ( 1? , g? ( ) ) , h? ( i? ( 0x?? ) ) , j? )')),
    ('arguments of any kind', main('f? ( _ , _ , _ )')), ('after an argument', main('f? ( a? _ b? _')),
    ('literals', main('f? ( true , false , 1?? , 0x??? , "???" , 00? )')),
    ('typed literals', main('f? ( true : b? , false : c? , 1? : d? , 0x? : e? , "?" : g? )')),
    ('strings', main(r'f? ( "" , "?~?" , "\\?" , "\"?\"" , "?\n?" , "\t??" , "\x41?" , "?\\" , "\r?" )')),
    ('strings with quotes at the ends', main(r'''f? ( "\"" , "\"\"" , "'?'" , "//?" , "/*?*/" )''')),
    ('declarations', main('let a? let b? := c? let d? , e? let g? , h? , i? := j? ( k? )')),
    ('typed declarations', main('let a? : b? let c? : d? := 1? let e? : g? , h? , i? : j? := k? ( )')),
    ('declaration, free tail', main('let a? _ b? _ c? }')),
    ('assignments', main('a? := b? c? , d? := e? ( ) g? , h? , i? := j? ( 1? ) k? := "?"')),
    ('assignment, free tail', main('a? _ b? _ c?')),
    ('if', main('if a? { b? ( ) } if c? ( d? ) { } if 1? { if e? { leave } }')),
    ('if, free', main('if _ _ _')),
    ('for', main('for { let a? := b? } c? ( d? ) { e? := g? } { h? ( ) }')),
    ('for, all parts different', main('for { break } i? { continue } { leave }')),
    ('for, empty parts', main('for { } 1? { } { }')),
    ('nested for', main('for { a? := 1? } b? { for { } c? { d? ( ) } { break } } { for { } e? { } { continue } }')),
    ('for, free body', main('for { _ } _ { } { _ }')), ('for, free post', main('for { } _ { _ } { a ( ) }')),
    ('switch', main('switch a? case 1? { b? ( ) } case 0x? { c? ( ) } case "?" { } default { d? ( ) }')),
    ('switch without default', main('switch a? ( b? ) case true { leave } case false { }')),
    ('switch with default only', main('switch a? default { b? ( ) }')),
    ('switch, typed cases', main('switch 1? case 2? : a? { } case 3? : b? { break } case 4? { continue }')),
    ('nested switch', main('switch a? case 1? { switch b? case 2? { c? ( ) } default { d? ( ) } } default { switch e? default { } }')),
    ('switch, free', main('switch _ _ _ { }')), ('switch, free cases', main('switch a? case 1 { } _ _ { }')),
    ('functions', main('function a? ( ) { } function b? ( c? ) { leave } function d? ( ) -> e? { } function g? ( h? , i? ) -> j? , k? { l? ( m? ) }')),
    ('typed functions', main('function a? ( b? : c? , d? ) -> e? : g? , h? , i? : j? { }')),
    ('nested function', main('function a? ( b? , c? , d? ) -> e? { function g? ( ) -> h? , i? , j? { } k? := g? ( ) }')),
    ('function, free head', main('function _ _ _ _ { }')), ('function, free tail', main('function f? ( a? _ _ _ b? { }')),
    ('blocks', main('{ } { { a? ( ) } b? ( ) } { leave break continue }')),
    ('order of statements', main('a? ( ) b? := 1? let c? { } if d? { } leave e? ( ) break g? ( ) continue')),
    ('long list', main(' '.join('a%d? ( %d? )' % (i, i) for i in range(9)))),
    ('data', main('', 'data~"??" hex"????"')), ('data in parts', main('', 'data~"a?" hex"??" hex"????" hex"??"')),
    ('several data', main('', 'data~"a?" hex"??" data~"b?" hex"????" hex"??"')),
    ('data after code', main('a? ( )', 'data~"?.?" hex"00"')),
    ('objects', 'object "a?" { code { b? ( ) } object "c?" { code { d? ( ) } object "e?" { code { } } } object "g?" { code { h? ( ) } } }'),
    ('objects and data', 'object "a?" { code { } data~"b?" hex"??" object "c?" { code { leave } data~"d?" hex"??" } data~"e?" hex"??" }'),
    ('segments, free', main('', '_ _ _ _')), ('segments after data, free', main('', 'data~"a?" _ _')),
    ('code in nested object, free', 'object "a" { code { } object "b" { code { _ _ } } }'),
]


def families():
    """Programs of fixed shape (symbolic names and literals): every combination of small sizes."""
    out = {}

    def stmts(n, tag):
        return ' '.join('%s%d? ( )' % (tag, i) for i in range(n))

    def names(n, tag, typed=0):
        return ' , '.join('%s%d?' % (tag, i) + (' : t%d?' % i if typed >> i & 1 else '') for i in range(n))
    out['loops with parts of 0 to 2 statements'] = [main('for { %s } c? { %s } { %s }' % (stmts(a, 'a'), stmts(b, 'b'), stmts(c, 'd'))) for a in range(3) for b in range(3) for c in range(3)]
    out['loops with every kind of condition'] = [main('for { let i? := 0 } %s { i? := b? } { %s }' % (e, s)) for e in ('x?', 'f? ( )', '1?', '0x?', 'true', 'false', '"?"', 'f? ( a? , b? )') for s in ('', 'break', 'continue g? ( )')]
    out['functions with 0 to 4 parameters and returns'] = [main('function f? ( %s ) %s { %s }' % (names(a, 'a', t), '-> ' + names(b, 'r', t >> 1) if b else '', s)) for a in range(5) for b in range(5) for t, s in ((0, 'g? ( )'), (5, ''))]
    out['declarations of 1 to 5 variables'] = [main('let %s %s' % (names(a, 'a', t), v)) for a in range(1, 6) for t in (0, 1, 2, 31) for v in ('', ':= f? ( b? )', ':= 1? : t?')]
    out['assignments to 1 to 6 variables'] = [main('%s := %s' % (names(a, 'a'), v)) for a in range(1, 7) for v in ('f? ( )', 'x?', '"?"')]
    out['calls with 0 to 8 arguments'] = [main('%s f? ( %s ) g? ( )' % (h, names(a, 'a'))) for a in range(9) for h in ('', 'let x? :=', 'x? :=')]
    out['switches with 0 to 4 cases'] = [main('switch x? %s %s h? ( )' % (' '.join('case %d? { %s }' % (i + 1, stmts((i + k) % 3, 'c%d' % i)) for i in range(a)), d))
                                        for a in range(5) for k in range(3) for d in ('', 'default { }', 'default { d? ( ) }', 'default { d? ( ) e? ( ) }') if a or d]
    out['ifs'] = [main('if %s { %s } g? ( )' % (e, stmts(n, 's'))) for e in ('x?', 'f? ( )', 'f? ( g? ( a? ) , b? )', '1?', '0x??', 'true', 'false', '"?"', '1? : t?') for n in range(3)]
    lits = ['1', '1??', '0', '00?', '0x?', '0x????', '"?"', '""', '"????"', 'true', 'false']
    out['literals everywhere'] = [main(c % (l + t)) for l in lits for t in ('', ' : u8?') for c in
                                 ('f? ( %s )', 'x? := %s', 'let y? := %s', 'if %s { }', 'switch %s default { }', 'switch x? case %s { }', 'switch x? case 0 { } case %s { a? ( ) } default { }', 'for { } %s { } { }', 'f? ( a? , %s , b? )')]
    kinds = ['{ a? ( ) }', 'function a? ( ) { }', 'let a?', 'let a? := b?', 'a? := b?', 'a? , b? := f? ( )', 'a? ( b? )', 'if a? { }', 'for { } a? { } { }', 'switch a? case 1 { }', 'switch a? default { }', 'leave', 'break', 'continue', '{ }', 'let a? , b? : t?']
    out['two statements'] = [main(a + ' ' + b.replace('a?', 'c?').replace('b?', 'd?')) for a in kinds for b in kinds]
    places = ['{ %s }', 'function f? ( ) { %s }', 'if x? { %s }', 'for { %s } 1 { } { }', 'for { } 1 { %s } { }', 'for { } 1 { } { %s }', 'switch x? case 1 { %s }', 'switch x? case 1 { } case 2 { %s } default { }', 'switch x? default { %s }']
    out['every statement in every place'] = [main(p % k) for p in places for k in kinds]
    out['places nested in places'] = [main(p.replace('x?', 'y?') % (q % 'a? ( )')) for p in places for q in places]
    out['deep nesting'] = [main('{ ' * 9 + 'a? ( )' + ' }' * 9), main('f? ( ' * 9 + 'a?' + ' )' * 9), main('if a? { ' * 6 + 'b? ( )' + ' }' * 6), main('f? ( a? , g? ( b? , h? ( c? , i? ( d? , e? ) , j? ) , k? ) , l? )')]
    out['long names and texts'] = [main('%s ( %s , %s )' % ('n' * 3 + '?' * 30, 'a' + '?' * 40, 'b?')), main('function %s ( %s ) -> %s { }' % ('f' + '?' * 35, 'a' + '?' * 20, 'b' + '?' * 20)),
                                   main('f? ( %s , %s , %s )' % ('9' + '?' * 40, '0x' + '?' * 64, '"%s"' % ('?' * 32))), main('', 'data~"%s" hex"%s"' % ('a' + 'b?' * 3, '00ff' * 8 + '??'))]
    segs = ['data~"a" hex"0??0"', 'data~"b1" hex"0??0" hex"00"', 'object "c?" { code { } }', 'object "d?" { code { leave } data~"e" hex"ff" }', 'object "g?" { code { } object "h?" { code { break } } }']
    out['up to 3 segments'] = [main('s? ( )', ' '.join(x)) for n in range(4) for x in __import__('itertools').product(segs, repeat=n) if n < 3 or len(set(x)) == 3]
    return out


DEEP = [('for, free', main('for { _ } _ { _ } { _ }')), ('four tokens', main('_ _ _ _')), ('five tokens', main('_ _ _ _ _')), ('call, free', main('f? ( _ _ _ _ _')), ('let, free', main('let _ _ _ _ _')), ('for, more free', main('for { _ _ } _ { _ } { _ _ }')),
        ('switch, more free', main('switch a? _ _ _ _ _')), ('function, more free', main('function a? _ _ _ _ _ { }')), ('head, more free', 'object _ _ _ _ _ }')]


def index(ck):
    """Token kinds: the indices of the patterns."""
    t, ts = load(ck)
    pats = [(grammar.regex(p), skip) for p, skip in ts]
    idx = Index()
    idx.pats = pats
    for k, (w, _, _) in KINDS.items():
        idx[k] = winner(w, pats)
    for k in KEYWORDS + PUNCT:
        idx[k] = winner(k, pats)
    for k in idx:
        if idx[k] is None:
            raise Failure('no token of the kind ' + k)
    return idx


def F06(ck):
    idx = index(ck)
    kinds = sorted(idx.values())
    back = {v: k for k, v in idx.items()}
    F = Parser()
    ck.functions = ['the generated parser of objects with all its actions']

    def show(model, words):
        o = []
        for k, tx in words.toks:
            if isinstance(k, int):
                o.append(front.concrete(model, tx).decode())
            else:
                o.append(back[bv.evaluate(model, k, 8)])
        return ' '.join(o)

    def one(shape):
        words = Words(shape, idx, kinds)
        solver = sym.Solver()
        n = 0

        def ref(c):
            r = Ref(c, words)
            return r.parse(), r.known
        for c, (want, known) in ref_paths(solver, list(words.pc), ref, limit=200000):
            ex, out = F.call('fe_parse', words.bytes(known), c.pc, solver=solver, max_steps=3000000, max_paths=400000, room=2000)
            if ex.truncated:
                raise sym.Bound(ex.truncated)
            for st, got in out:
                n += 1
                if got is not None and len(got) == len(want):
                    m = ck.prover.prove(st.pc, bv.band(*[bv.eq(a, b, 8) for a, b in zip(got, want)]))
                else:
                    m = ck.prover.prove(st.pc, False)
                if m is None:
                    continue
                data, exp = front.concrete(m, words.bytes({})), front.concrete(m, want)
                nat = rust.native(F.wasm, 'fe_parse', data, 4000)
                if nat == exp:
                    raise Failure('the compiled parser does not show the counterexample %s' % show(m, words))
                raise Violation('the text %s is parsed as %r, not %r' % (show(m, words), nat, exp),
                                {'tokens_hex': data.hex(), 'text': show(m, words), 'expected': repr(exp), 'native': repr(nat)})
        if not n:
            raise Failure('nothing was parsed')
        return n

    work = [(nm, [shape], 4 + shape.split().count('_')) for nm, shape in SHAPES + (DEEP if ck.thorough else [])]
    for nm, shapes in families().items():
        parts = max(1, len(shapes) // 80)
        for k in range(parts):
            work.append(('%s (%d)' % (nm, k + 1) if parts > 1 else nm, shapes[k::parts], 6))
    for nm, shapes, _ in sorted(work, key=lambda x: -x[2]):
        def f(shapes=shapes):
            return sum(one(x) for x in shapes)
        ck.case(nm, f)
    ck.bounds.append('%d token sequences with up to %d tokens of free kind, and symbolic characters in all names, numbers, strings and data' % (sum(len(x) for _, x, _ in work), max(n for _, _, n in work) - 4))
    ck.assumptions.append('the tokens are given: the lexer is decided by F04; the stand-in for the regex crate means what that crate means for the pattern used')
