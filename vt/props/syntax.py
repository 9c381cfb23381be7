"""Lexical and syntactic properties, decided over the terminals and productions of the parser lalrpop generates from
/repo's grammar: languages of regular expressions by the solver's theory of strings (strings of every length),
languages of token sequences by a Boolean encoding of derivability of all spans of a symbolic word (bounded length)."""
import time
import z3
import grammar, sym
from check import Violation, Failure

KEYWORDS = ['object', 'code', 'function', 'let', 'if', 'for', 'switch', 'case', 'default', 'leave', 'break', 'continue', 'true', 'false']
PUNCT = ['{', '}', '(', ')', ',', ':', ':=', '->']
IDENT = r'[a-zA-Z_$][a-zA-Z_$0-9.]*'
PRINT = r'[\x20-\x21\x23-\x5b\x5d-\x7e]'
# kind -> (a witness, every such text must be this token, nothing outside this is taken for this token)
KINDS = {
    'name': ('x0', None, r'[a-zA-Z_$][a-zA-Z_$0-9.]*'),
    'dec': ('12', r'0|[1-9][0-9]*', r'[0-9]+'),
    'hex': ('0x1f', r'0x[0-9a-fA-F]+', r'0x[0-9a-fA-F]+'),
    'string': ('"a"', r'"(?:%s|\\"|\\\\|\\n|\\r|\\t|\\x[0-9a-fA-F][0-9a-fA-F])*"' % PRINT, r'"(?:[^"\n\\]|\\.|\\[ \n\t\r\f]+\\)*"'),
    'hexdata': ('hex"00"', r'hex"(?:[0-9a-fA-F][0-9a-fA-F])+"', r'hex"(?:[0-9a-fA-F_])*"'),
    'data': ('data "m"', r'data "[a-zA-Z_0-9.]+"', r'data[ \t\r\n]*"[^"\n]*"'),
}


def load(ck):
    t = grammar.generated()
    ts = grammar.terminals(t)
    return t, ts


def winner(s, pats):
    """The index of the token a whole text is, by the lexer's rule, for a concrete text."""
    best = None
    for i, (r, _) in enumerate(pats):
        if z3.is_true(z3.simplify(z3.InRe(z3.StringVal(s), r))):
            best = i
    return best


def solve(ck, s, what):
    t = time.time()
    sv = z3.Solver()
    sv.set('timeout', 60000)
    sv.add(s)
    r = sv.check()
    ck.prover.queries += 1
    ck.prover.time += time.time() - t
    if r == z3.unknown:
        raise sym.Bound('no verdict: ' + what)
    return None if r == z3.unsat else sv.model()


def text_of(m, x):
    v = m.eval(x, model_completion=True)
    return v.as_string()


def F04(ck):
    t, ts = load(ck)
    pats = [(grammar.regex(p), skip) for p, skip in ts]
    x = z3.String('x')
    keys = z3.Union(*[z3.Re(k) for k in KEYWORDS])
    # the text is printable so that a counterexample can be shown; strings of every length
    kinds = {k: v for k, v in KINDS.items()}
    for k in KEYWORDS + PUNCT:
        kinds['"%s"' % k] = (k, None, None)
    idx = {}
    for k, (w, _, _) in kinds.items():
        i = winner(w, pats)
        if i is not None:
            idx[k] = i

    def wins(i):
        """x as a whole is the token of pattern i."""
        return z3.And(z3.InRe(x, pats[i][0]), *[z3.Not(z3.InRe(x, pats[j][0])) for j in range(i + 1, len(pats))])

    for k, (w, must, may) in kinds.items():
        def f(k=k, w=w, must=must, may=may):
            if k not in idx:
                raise Violation('%r is no token' % w, {'text': w})
            i = idx[k]
            same = [o for o in idx if idx[o] == i and o != k]
            if same:
                raise Violation('%r and %r are the same kind of token' % (w, kinds[same[0]][0]), {'texts': [w, kinds[same[0]][0]]})
            if pats[i][1]:
                raise Violation('%r is skipped' % w, {'text': w})
            if k == 'name':
                inm = z3.And(z3.InRe(x, grammar.regex(IDENT)), z3.Not(z3.InRe(x, keys)))
                inmay = z3.And(z3.InRe(x, grammar.regex(may)), z3.Not(z3.InRe(x, keys)))
            elif must is None:
                inm = inmay = x == z3.StringVal(kinds[k][0])
            else:
                inm, inmay = z3.InRe(x, grammar.regex(must)), z3.InRe(x, grammar.regex(may))
            m = solve(ck, z3.And(inm, z3.Not(wins(i))), k)
            if m is not None:
                s = text_of(m, x)
                raise Violation('the text %s is not read as one token of the kind of %s' % (s, w), {'kind': k, 'text': s})
            m = solve(ck, z3.And(wins(i), z3.Not(inmay)), k)
            if m is not None:
                s = text_of(m, x)
                raise Violation('the text %s is read as a token of the kind of %s' % (s, w), {'kind': k, 'text': s})
            return 2
        ck.case('token ' + k, f)

    def space():
        ws = [r for r, sk in pats if sk]
        if not ws:
            raise Violation('white space is not skipped', {'text': ' '})
        m = solve(ck, z3.And(z3.InRe(x, grammar.regex(r'[ \t\r\n]+')), z3.Not(z3.Or(*[wins(i) for i, (r, sk) in enumerate(pats) if sk]))), 'white space')
        if m is not None:
            raise Violation('the white space %s is not skipped' % text_of(m, x), {'text': text_of(m, x)})
        cm = grammar.regex(r'[ \t\r\n\f\v\u{85}\u{a0}\u{1680}\u{2000}-\u{200a}\u{2028}\u{2029}\u{202f}\u{205f}\u{3000}]+|//[^\n]*\n?|/\*(?:[^*]|\*+[^*/])*\*+/')
        m = solve(ck, z3.And(z3.Or(*[wins(i) for i, (r, sk) in enumerate(pats) if sk]), z3.Not(z3.InRe(x, cm))), 'skipped text')
        if m is not None:
            raise Violation('the text %s is skipped' % text_of(m, x), {'text': text_of(m, x)})
        return 2
    ck.case('white space', space)

    def longest():
        # no token of a kind continues into a separator, so that the longest match ends where the token ends
        sep = grammar.regex(r'[ \t\r\n(){},:]')
        n = 0
        for k in ('name', 'dec', 'hex') + tuple('"%s"' % k for k in KEYWORDS):
            if k not in idx:
                continue
            y = z3.String('y')
            for j, (r, sk) in enumerate(pats):
                m = solve(ck, z3.And(z3.InRe(x, z3.Concat(pats[idx[k]][0], sep, z3.Full(z3.ReSort(z3.StringSort())))), z3.InRe(x, r), z3.InRe(x, z3.Concat(grammar.regex(r'[a-zA-Z0-9_$.]+'), sep, z3.Full(z3.ReSort(z3.StringSort())))), z3.Not(z3.InRe(x, grammar.regex(KINDS['data'][2])))), 'longest match')
                n += 1
                if m is not None:
                    s = text_of(m, x)
                    raise Violation('the text %s is read as one token across a separator' % s, {'text': s})
        return n
    ck.case('tokens end at separators', longest)

    ck.extra['terminals'] = len(ts)
    ck.bounds.append('texts of every length; characters up to U+%X' % grammar.TOP)
    ck.assumptions.append("the lexer takes the longest match and, among equal ones, the last pattern (lalrpop's lexer, whose automaton is built from the patterns checked here)")


# ---------------------------------------------------------------- F05
REF = r'''
Object = object string { code Block } | object string { code Block Segs }
Segs = Seg | Segs Seg
Seg = Object | data Hexes
Hexes = hexdata | Hexes hexdata
Block = { } | { Stmts }
Stmts = Stmt | Stmts Stmt
Stmt = Block | Func | Let | Assign | Call | If | For | Switch | leave | break | continue
Func = function name ( ) Block | function name ( Typed ) Block | function name ( ) -> Typed Block | function name ( Typed ) -> Typed Block
Typed = Tid | Typed , Tid
Tid = name | name : name
Let = let Typed | let Typed := Expr
Assign = Names := Expr
Names = name | Names , name
Call = name ( ) | name ( Args )
Args = Expr | Args , Expr
If = if Expr Block
For = for Block Expr Block Block
Switch = switch Expr Cases | switch Expr Cases Default | switch Expr Default
Cases = Case | Cases Case
Case = case Lit Block
Default = default Block
Expr = name | Call | Lit
Lit = Val | Val : name
Val = true | false | dec | hex | string
'''


def reference(term, extra=''):
    prods = []
    for l in (REF + extra).strip().split('\n'):
        if not l.strip():
            continue
        a, r = l.split(' = ', 1)
        for alt in r.split(' | '):
            prods.append((a, tuple(x if x[0].isupper() else term[x] for x in alt.split())))
    return prods


SHAPES = [
    # fixed tokens around `_` (the free tokens); the number of free tokens, quick and thorough
    ('statements', 'object string { code { _ } }', 10, 14),
    ('segments', 'object string { code { } _ }', 11, 15),
    ('whole text', '_', 9, 12),
    ('nested object', 'object string { code { } object string { code { _ } } data hexdata }', 7, 11),
    ('function', 'object string { code { function name ( _ } }', 11, 14),
    ('loop', 'object string { code { for { _ } }', 11, 14),
    ('loop parts', 'object string { code { for { } name { } { _ } } }', 9, 12),
    ('switch', 'object string { code { switch name _ } }', 11, 14),
    ('switch cases', 'object string { code { switch name case dec { } _ } }', 10, 13),
    ('if', 'object string { code { if _ } }', 11, 14),
    ('call', 'object string { code { name ( _ } }', 11, 14),
    ('nested call', 'object string { code { let name := name ( name , name ( _ } }', 10, 13),
    ('declaration', 'object string { code { let _ } }', 10, 13),
    ('assignment', 'object string { code { name , name _ } }', 10, 13),
]


def F05(ck):
    t, ts = load(ck)
    pats = [(grammar.regex(p), skip) for p, skip in ts]
    names = grammar.token_names(t)
    term = {}
    for k, (w, _, _) in KINDS.items():
        term[k] = names.get(winner(w, pats), 'no such token ' + k)
    for k in KEYWORDS + PUNCT:
        term[k] = names.get(winner(k, pats), 'no such token ' + k)
    terms = set(names.values()) | set(term.values())
    code = grammar.CFG(grammar.productions(t), 'Object', set(names.values()))
    code.terms = terms
    must = grammar.CFG(reference(term), 'Object', terms)
    may = grammar.CFG(reference(term, 'Seg = data'), 'Object', terms)
    comments = {n for n in names.values() if n not in term.values()}
    back = {v: k for k, v in term.items()}
    for nm, shape, quick, deep in SHAPES:
        for k in range(0, (deep if ck.thorough else quick) + 1):
            def f(nm=nm, shape=shape, k=k):
                fixed, n = {}, 0
                for x in shape.split():
                    if x == '_':
                        n += k
                    else:
                        fixed[n] = term[x]
                        n += 1
                done = 0
                for a, b, what in ((must, code, 'is not accepted'), (code, may, 'is accepted')):
                    try:
                        w, trivial, s = grammar.included(a, b, fixed, n, 300, comments)
                    except TimeoutError as e:
                        raise sym.Bound(str(e))
                    if not trivial:
                        ck.prover.queries += 1
                    ck.prover.time += s
                    ck.prover.slow = max(ck.prover.slow, s)
                    done += 1
                    if w is not None:
                        s = ' '.join({'name': 'x', 'dec': '1', 'hex': '0x2', 'string': '"s"', 'hexdata': 'hex"00"', 'data': 'data "d"'}.get(back.get(y, y), back.get(y, y)) for y in w)
                        raise Violation('the text %s %s' % (s, what), {'text': s})
                return done
            ck.case('%s, %d free tokens' % (nm, k), f)
    ck.extra['productions'] = sum(map(len, code.rules.values()))
    ck.bounds.append('; '.join('%s: up to %d free tokens in `%s`' % (a, d if ck.thorough else c, b) for a, b, c, d in SHAPES))
    ck.assumptions.append('lalrpop turns the productions it prints into a parser of their language; token sequences without comments (they are removed before parsing)')
