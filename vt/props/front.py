"""Front-end properties. The Rust functions are executed symbolically from the LLVM IR that rustc emits for /repo's
own source (whole program with the standard library, wasm32); every byte of the input text is a symbolic variable.
The lexical and syntactic properties are decided over the terminals and productions of /repo's grammar file."""
import z3
import bv, sym, rust
from check import Violation, ref_paths, Infeasible, Failure
from bv import BV

ASCII = 128


class Text:
    """One symbolic text: ints are fixed bytes, '?' symbolic ASCII bytes."""

    def __init__(self, template, allow=None):
        self.bs, self.pc = [], []
        for k, t in enumerate(template):
            if t == '?':
                b = bv.var('t%d' % k, 8)
                c = z3.ULT(b.z(), ASCII) if allow is None else z3.Or(*[b.z() == ord(x) for x in allow])
                bv._keep[c.get_id()] = c
                self.pc.append(c)
                self.bs.append(b)
            else:
                self.bs.extend(t.encode() if isinstance(t, str) else [t])


def is_(c, b, ch):
    return c.branch(bv.eq(b, ord(ch), 8))


def decide(ck, F, fn, name, text, ref, extra=(), max_steps=200000):
    """Every input of the shape: the compiled function's output is the reference's."""

    def f():
        room = 8 * len(text.bs) + 64
        solver = sym.Solver()
        n = 0
        # the reference divides the inputs of the property's domain; the code runs on every part
        for c, want in ref_paths(solver, list(text.pc) + list(extra), lambda c: ref(c, text.bs), limit=100000):
            try:
                ex, out = F.call(fn, text.bs, c.pc, solver=solver, max_steps=max_steps, max_paths=400000)
            except sym.Bound as e:
                if 'instructions on one path' in str(e):
                    raise hang(ck, F, fn, text, want, e)
                raise
            if ex.truncated:
                raise sym.Bound(ex.truncated)
            for st, got in out:
                n += 1
                if got is not None and len(got) == len(want):
                    goal = bv.band(*[bv.eq(a, b, 8) for a, b in zip(got, want)])
                    m = ck.prover.prove(st.pc, goal)
                else:
                    m = ck.prover.prove(st.pc, False)
                if m is not None:
                    raise fail(ck, F, fn, text, m, want, room)
        if not n:
            raise Failure('no text of this shape lies in the domain')
        return n
    ck.case(name, f)


def concrete(model, bs):
    return bytes(b if isinstance(b, int) else bv.evaluate(model, b, 8) for b in bs)


def fail(ck, F, fn, text, model, want, room):
    data, exp = concrete(model, text.bs), concrete(model, want)
    got = rust.native(F.wasm, fn, data, room)
    if got == exp:
        return Failure('the compiled code does not show the counterexample %r' % data)
    return Violation('%s(%r) gives %r, not %r' % (fn[3:], data.decode('utf-8', 'replace'), got if isinstance(got, str) else got.decode('utf-8', 'replace'), exp.decode('utf-8', 'replace')),
                     {'function': fn, 'input_hex': data.hex(), 'expected_hex': exp.hex(), 'native': got if isinstance(got, str) else got.hex()})


def hang(ck, F, fn, text, want, e):
    """A path that does not end: take an input that drives it there."""
    m = ck.prover.prove(e.state.pc, False)
    if m is not None:
        r = fail(ck, F, fn, text, m, want, 8 * len(text.bs) + 64)
        if isinstance(r, Violation):
            return r
    return e


# ---------------------------------------------------------------- F01 comments
def strip(c, bs):
    """The text without its comments. Texts whose strings or comments do not end, or with a lone slash, backslash or
    apostrophe outside them, are no Yul and outside the property."""
    out, i, n = [], 0, len(bs)

    def need(x):
        if not x:
            raise Infeasible()
    while i < n:
        b = bs[i]
        if is_(c, b, '"'):
            out.append(b)
            i += 1
            while True:
                need(i < n)
                b = bs[i]
                out.append(b)
                i += 1
                if is_(c, b, '\\'):
                    need(i < n)
                    out.append(bs[i])
                    i += 1
                elif is_(c, b, '"'):
                    break
                else:
                    need(not is_(c, b, '\n'))
            continue
        if is_(c, b, '/'):
            need(i + 1 < n)
            if is_(c, bs[i + 1], '/'):
                i += 2
                while i < n and not is_(c, bs[i], '\n'):
                    i += 1
                continue
            need(is_(c, bs[i + 1], '*'))
            i += 2
            while True:
                need(i + 1 < n)
                if is_(c, bs[i], '*') and is_(c, bs[i + 1], '/'):
                    break
                i += 1
            i += 2
            continue
        need(not is_(c, b, "'"))
        need(not is_(c, b, '\\'))
        out.append(b)
        i += 1
    return out


def F01(ck):
    F = rust.Front(['fe_remove_comments'])
    full = 6 if not ck.thorough else 7
    decide(ck, F, 'fe_remove_comments', 'no text', Text([]), strip)
    for n in range(1, full):
        decide(ck, F, 'fe_remove_comments', 'every text of %d characters' % n, Text(['?'] * n), strip)
    # the longest length is divided by the first two characters
    classes = ['"', "/", '\\', '*', None]
    for a in classes:
        for b in classes:
            t = Text(['?'] * full)
            ex = []
            for v, k in ((t.bs[0], a), (t.bs[1], b)):
                cs = [v.z() == ord(k)] if k else [v.z() != ord(x) for x in classes if x]
                for x in cs:
                    bv._keep[x.get_id()] = x
                ex += cs
            if a == '/' and b not in ('/', '*') or a == '\\' or b == '\\' and a != '"':
                continue
            decide(ck, F, 'fe_remove_comments', 'every text of %d characters, starting %s %s' % (full, a or 'other', b or 'other'), t, strip, ex)
    shapes = {
        'block comment': ['/*'] + ['?'] * 6 + ['*/x'],
        'line comment': ['//'] + ['?'] * 6 + ['\n'] + ['y'],
        'string': ['"'] + ['?'] * 6 + ['"//z'],
        'string then comment': ['a("'] + ['?'] * 3 + ['")/*'] + ['?'] * 3 + ['*/b'],
        'comment then string': ['/*'] + ['?'] * 3 + ['*/"'] + ['?'] * 3 + ['"//'],
        'comments around code': ['/** @src 0:1:2 "'] + ['?'] * 2 + ['"*/ x:='] + ['?'] * 2 + ['/*'] + ['?'] * 2 + ['*/}'],
        'nested marks': ['//', '?', '/*', '?', '\n', '?', '*/', '?', '//', '?'],
        'two strings': ['"', '?', '?', '"', '?', '?', '"', '?', '?', '"', '?'],
        'beyond ASCII': ['?', 'é', '?', '//', '?', '€\n', '?', '"', '?', '\U0001f600', '?', '"'],
        'beyond ASCII in a block': ['/*', '?', 'é*', '?', '€', '?', '\U0001f600*/', '?', 'é'],
    }
    for nm, s in shapes.items():
        decide(ck, F, 'fe_remove_comments', nm, Text(s), strip)
    ck.bounds.append('every text of at most %d ASCII characters, and every text of %d longer shapes with up to 8 free ASCII characters (some with characters of 2, 3 and 4 bytes at fixed places)' % (full, len(shapes)))
    ck.assumptions.append('the wasm32 build of the function stands for the host build (same source, same standard library; only pointer width differs)')


# ---------------------------------------------------------------- F02 string literals
HEX = '0123456789abcdefABCDEF'


def hexval(c, b):
    for lo, hi, base in (('0', '9', 0), ('a', 'f', 10), ('A', 'F', 10)):
        if c.branch(bv.band(bv.bnot(bv.ult(b, ord(lo), 8)), bv.ult(b, ord(hi) + 1, 8))):
            return bv.add(bv.sub(b, ord(lo), 8), base, 8)
    raise Infeasible()


def unescape(c, bs, high):
    """The bytes a string literal denotes. In the domain: what the lexer can deliver, without a raw carriage return."""
    out, i, n = [], 0, len(bs)

    def need(x):
        if not x:
            raise Infeasible()
    while i < n:
        b = bs[i]
        i += 1
        if not is_(c, b, '\\'):
            need(not is_(c, b, '"') and not is_(c, b, '\n') and not is_(c, b, '\r'))
            out.append(b)
            continue
        need(i < n)
        e = bs[i]
        i += 1
        if is_(c, e, '"') or is_(c, e, '\\'):
            out.append(e)
        elif is_(c, e, 'n'):
            out.append(10)
        elif is_(c, e, 't'):
            out.append(9)
        elif is_(c, e, 'r'):
            out.append(13)
        elif is_(c, e, 'x'):
            need(i + 2 <= n)
            h, l = hexval(c, bs[i]), hexval(c, bs[i + 1])
            i += 2
            v = bv.or_(bv.shl(h, 4, 8), l, 8)
            need(c.branch(bv.bnot(bv.ult(v, 0x80, 8))) == high)
            out.append(v)
        elif is_(c, e, 'u'):
            need(i + 6 <= n)
            need(is_(c, bs[i], '{') and is_(c, bs[i + 5], '}'))
            d = [hexval(c, x) for x in bs[i + 1:i + 5]]
            i += 6
            cp = bv.concat([(bv.extract(x, 3, 0), 4) for x in reversed(d)])
            need(not c.branch(bv.eq(bv.lshr(cp, 11, 16), 0xd800 >> 11, 16)))     # surrogates are no characters
            if c.branch(bv.ult(cp, 0x80, 16)):
                out.append(bv.trunc(cp, 8))
            elif c.branch(bv.ult(cp, 0x800, 16)):
                out += [bv.or_(0xc0, bv.trunc(bv.lshr(cp, 6, 16), 8), 8), bv.or_(0x80, bv.and_(bv.trunc(cp, 8), 0x3f, 8), 8)]
            else:
                out += [bv.or_(0xe0, bv.trunc(bv.lshr(cp, 12, 16), 8), 8), bv.or_(0x80, bv.and_(bv.trunc(bv.lshr(cp, 6, 16), 8), 0x3f, 8), 8),
                        bv.or_(0x80, bv.and_(bv.trunc(cp, 8), 0x3f, 8), 8)]
        else:
            raise Infeasible()
    return out


class Wrapped:
    """A string literal as a token where a program has one; the literal's bytes in the tree the parser builds."""

    def __init__(self, ck):
        from props import tree, syntax
        self.idx = tree.index(ck)
        self.F = tree.Parser()

    def text(self, t):
        idx = self.idx

        def tok(k, bs):
            return [idx[k], len(bs)] + bs
        self.pre = tok('object', [ord(x) for x in 'object'])
        self.post = tok('{', [123]) + tok('code', [ord(x) for x in 'code']) + tok('{', [123]) + tok('}', [125]) + tok('}', [125])
        w = Text([])
        w.pc = t.pc
        w.inner = t.bs
        w.bs = self.pre + tok('string', [34] + list(t.bs) + [34]) + self.post
        return w

    def ref(self, f, w):
        def g(c, _):
            r = f(c, w.inner)
            return [ord('O'), len(r)] + list(r) + [0, 0]
        return g


def F02(ck):
    W = Wrapped(ck)
    ck.functions = ['the generated parser with the string action and the unescaping functions']

    def case(nm, t, f):
        w = W.text(t)
        decide(ck, W.F, 'fe_parse', nm, w, W.ref(f, w), max_steps=3000000)
    low = unescape_low
    full = 5 if not ck.thorough else 6
    case('empty string', Text([]), low)
    for n in range(1, full + 1):
        case('every string of %d characters' % n, Text(['?'] * n), low)
    shapes = {
        'unicode escape': ['\\u{', '?', '?', '?', '?', '}'],
        'unicode escape between': ['?', '\\u{', '?', '?', '?', '?', '}', '?'],
        'three escapes': ['\\', '?', '\\', '?', '\\', '?'],
        'byte escapes': ['\\x', '?', '?', '\\x', '?', '?'],
        'text around': ['ab', '?', '\\', '?', 'cd', '?', '?', '//e', '?'],
        'beyond ASCII': ['?', 'é', '\\', '?', '€', '?', '\U0001f600', '?'],
        'long': ['https://game.example/', '?', '?', '?', '?', '/item/{', '?'],
    }
    for nm, s in shapes.items():
        case(nm, Text(s), low)
    case('byte escapes of 0x80 and above', Text(['\\x', '?', '?']), unescape_high)
    ck.bounds.append('every string of at most %d ASCII characters between the quotes, and every string of %d longer shapes with up to 6 free characters' % (full, len(shapes) + 1))
    ck.assumptions.append('a raw carriage return and a backslash before white space (a continuation, not Yul) are outside the property; the stand-in for the regex crate means what that crate means for the pattern used')


def unescape_low(c, bs):
    """Byte escapes of 0x80 and above have a case of their own."""
    return unescape(c, bs, False)


def unescape_high(c, bs):
    return unescape(c, bs, True)


def F03(ck):
    F = rust.Front(['fe_merge'])

    def ref(c, bs):
        n = len(bs)
        return [n >> 24 & 255, n >> 16 & 255, n >> 8 & 255, n & 255] + list(bs)
    sizes = [0, 1, 2, 3, 4, 5, 31, 32, 33, 127, 128, 255, 256, 257, 300, 511, 513, 4096, 32767, 32768, 65535, 65536, 70000]
    if ck.thorough:
        sizes += list(range(6, 31)) + list(range(34, 127)) + [1 << 17, (1 << 18) + 3]
    for n in sizes:
        t = Text([])
        t.bs = [bv.var('t%d' % k, 8) for k in range(n)]
        decide(ck, F, 'fe_merge', '%d bytes' % n, t, ref, max_steps=50000000)
    ck.bounds.append('embedded modules of %d sizes from 0 to %d bytes, every byte symbolic' % (len(sizes), max(sizes)))
