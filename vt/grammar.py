"""The lexer and parser that lalrpop generates from /repo's grammar: terminals as regular expressions, productions."""
import re, glob, os
import z3
import build

TOP = 0x2ffff      # the largest character of the solver's alphabet


def generated():
    return open(build.generated_parser()).read()


def rust_str(s):
    if s.startswith('r'):
        n = len(s) - len(s[1:].lstrip('#')) - 1
        return s[2 + n:len(s) - 1 - n]
    out, i, s = [], 0, s[1:-1]
    while i < len(s):
        if s[i] != '\\':
            out.append(s[i])
            i += 1
            continue
        e = s[i + 1]
        i += 2
        if e == 'u':
            j = s.index('}', i)
            out.append(chr(int(s[i + 1:j], 16)))
            i = j + 1
        elif e == 'x':
            out.append(chr(int(s[i:i + 2], 16)))
            i += 2
        else:
            out.append({'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(e, e))
    return ''.join(out)


def terminals(text):
    """[(pattern, skipped)] in the order of precedence (a later one wins a tie)."""
    i = text.index('let __strs: &[(&str, bool)] = &[')
    body = text[i:text.index('];', i)]
    return [(rust_str(m.group(1)), m.group(2) == 'true') for m in re.finditer(r'\((r(#*)".*?"\2|"(?:[^"\\]|\\.)*"), (true|false)\),\n', body)
            for m in [re.match(r'\((.*), (true|false)\),\n', m.group(0), re.S)]]


class RegexParser:
    """Regular expressions in the syntax of the regex crate, as terms of the solver."""

    def __init__(self, s):
        self.s, self.i = s, 0

    def peek(self):
        return self.s[self.i] if self.i < len(self.s) else None

    def parse(self):
        r = self.alt()
        if self.i != len(self.s):
            raise ValueError('regex: %r at %d' % (self.s, self.i))
        return r

    def alt(self):
        rs = [self.cat()]
        while self.peek() == '|':
            self.i += 1
            rs.append(self.cat())
        return rs[0] if len(rs) == 1 else z3.Union(*rs)

    def cat(self):
        rs = []
        while self.peek() not in (None, '|', ')'):
            rs.append(self.rep())
        if not rs:
            return z3.Re('')
        return rs[0] if len(rs) == 1 else z3.Concat(*rs)

    def rep(self):
        r = self.atom()
        while True:
            c = self.peek()
            if c in ('*', '+', '?'):
                self.i += 1
                r = {'*': z3.Star, '+': z3.Plus, '?': z3.Option}[c](r)
                if self.peek() == '?':
                    self.i += 1     # laziness changes no language
            elif c == '{':
                j = self.s.index('}', self.i)
                lo, _, hi = self.s[self.i + 1:j].partition(',')
                r = z3.Loop(r, int(lo), int(hi) if hi else (int(lo) if ',' not in self.s[self.i:j] else 0)) if hi or ',' not in self.s[self.i:j] \
                    else z3.Concat(z3.Loop(r, int(lo), int(lo)), z3.Star(r))
                self.i = j + 1
            else:
                return r

    def atom(self):
        c = self.peek()
        self.i += 1
        if c == '(':
            if self.s.startswith('?:', self.i):
                self.i += 2
            elif self.peek() == '?':
                raise ValueError('regex group %r' % self.s)
            r = self.alt()
            if self.peek() != ')':
                raise ValueError('regex: %r' % self.s)
            self.i += 1
            return r
        if c == '[':
            return ranges(self.cls())
        if c == '.':
            return ranges(compl([(10, 10)]))
        if c == '\\':
            x = self.escape()
            return ranges(x) if isinstance(x, list) else z3.Re(z3.Unit(z3.Char(x)) if False else ch(x))
        return z3.Re(ch(ord(c)))

    def escape(self):
        c = self.peek()
        self.i += 1
        if c == 's':
            return [(9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)]
        if c == 'd':
            return [(48, 57)]
        if c == 'w':
            return [(48, 57), (65, 90), (95, 95), (97, 122)]
        if c in 'xu':
            if self.peek() == '{':
                j = self.s.index('}', self.i)
                v = int(self.s[self.i + 1:j], 16)
                self.i = j + 1
            else:
                n = 2 if c == 'x' else 4
                v = int(self.s[self.i:self.i + n], 16)
                self.i += n
            return v
        if c in 'ntrfv':
            return {'n': 10, 't': 9, 'r': 13, 'f': 12, 'v': 11}[c]
        if c.isalnum():
            raise ValueError('regex escape \\%s' % c)
        return ord(c)

    def cls(self):
        neg = self.peek() == '^'
        self.i += neg
        out = []
        first = True
        while self.peek() != ']' or first:
            first = False
            c = self.peek()
            self.i += 1
            if c == '[':
                raise ValueError('nested class')
            a = self.escape() if c == '\\' else ord(c)
            if isinstance(a, list):
                out += a
                continue
            b = a
            if self.peek() == '-' and self.s[self.i + 1] != ']':
                self.i += 1
                c = self.peek()
                self.i += 1
                b = self.escape() if c == '\\' else ord(c)
            out.append((a, b))
        self.i += 1
        return compl(out) if neg else out


def compl(rs):
    out, n = [], 0
    for a, b in sorted(rs):
        if a > n:
            out.append((n, a - 1))
        n = max(n, b + 1)
    out.append((n, 0x10ffff))
    return out


def ch(v):
    return '\\u{%x}' % v


def ranges(rs):
    out = [z3.Range(ch(a), ch(min(b, TOP))) for a, b in rs if a <= TOP]
    return out[0] if len(out) == 1 else z3.Union(*out)


def regex(s):
    return RegexParser(s).parse()


def productions(text):
    """{(left side, (symbols...))}; terminals keep their quoting."""
    out = set()
    for l in set(re.findall(r'^ *// (.*?) =>@? ?(?:ActionFn|Lookahead|Lookbehind).*;$', text, re.M)):
        # left sides may contain '=' only inside quotes
        toks = split_symbols(l)
        if '=' not in toks:
            continue
        k = toks.index('=')
        out.add((' '.join(toks[:k]), tuple(x for x in toks[k + 1:] if x)))
    return out


def split_symbols(l):
    """Splits on the top-level ' = ' and ', '."""
    out, cur, i, depth = [], '', 0, 0
    seen = False
    while i < len(l):
        c = l[i]
        m = re.match(r'r(#+)"', l[i:])
        if m and (not cur):
            j = l.index('"' + m.group(1), i + len(m.group(0)))
            cur += l[i:j + 1 + len(m.group(1))]
            i = j + 1 + len(m.group(1))
            continue
        if c == '"':
            j = i + 1
            while l[j] != '"':
                j += 2 if l[j] == '\\' else 1
            cur += l[i:j + 1]
            i = j + 1
            continue
        if c in '(<':
            depth += 1
        if c in ')>' and depth:
            depth -= 1
        if depth == 0 and not seen and l.startswith(' =', i) and (i + 2 == len(l) or l[i + 2] == ' '):
            out += [cur, '=']
            cur = ''
            seen = True
            i += 2
            while i < len(l) and l[i] == ' ':
                i += 1
            continue
        if depth == 0 and seen and l.startswith(', ', i):
            out.append(cur)
            cur = ''
            i += 2
            continue
        cur += c
        i += 1
    out.append(cur.strip())
    return out


def token_names(text):
    """Terminal names by the index of their pattern."""
    i = text.index('const __TERMINAL: &[&str] = &[')
    names = re.findall(r'r###"(.*?)"###,\n', text[i:text.index('];', i)], re.S)
    j = text.index('fn __token_to_integer')
    m = re.findall(r'Token\((\d+), _\) if true => Some\((\d+)\)', text[j:text.index('_ => None', j)])
    return {int(a): names[int(b)] for a, b in m}


# ---------------------------------------------------------------- bounded inclusion of context-free languages
class CFG:
    """A grammar without empty words and unit productions, binarised, restricted to what `start` reaches."""

    def __init__(self, prods, start, terms):
        rules = {}
        for a, rhs in prods:
            rules.setdefault(a, set()).add(tuple(rhs))
        self.terms = terms
        nts = set(rules)
        for a in rules:
            for r in rules[a]:
                for x in r:
                    if x not in nts and x not in terms:
                        raise ValueError('unknown symbol %r in %s' % (x, a))
        # long right sides become chains
        out = {a: set() for a in rules}
        work = [(a, r) for a in rules for r in rules[a]]
        while work:
            a, r = work.pop()
            if len(r) > 2:
                n = '<%s>' % ' '.join(r[1:])
                if n not in out:
                    out[n] = set()
                    work.append((n, r[1:]))
                r = (r[0], n)
            out[a].add(r)
        # empty words
        null = set()
        ch_ = True
        while ch_:
            ch_ = False
            for a in out:
                if a not in null and any(all(x in null for x in r) for r in out[a]):
                    null.add(a)
                    ch_ = True
        self.nullable_start = start in null
        o2 = {a: set() for a in out}
        for a in out:
            for r in out[a]:
                if len(r) == 1:
                    o2[a].add(r)
                elif len(r) == 2:
                    o2[a].add(r)
                    if r[0] in null:
                        o2[a].add((r[1],))
                    if r[1] in null:
                        o2[a].add((r[0],))
        # unit productions
        reach = {a: {a} for a in o2}
        ch_ = True
        while ch_:
            ch_ = False
            for a in o2:
                for b in list(reach[a]):
                    for r in o2.get(b, ()):
                        if len(r) == 1 and r[0] in o2 and r[0] not in reach[a]:
                            reach[a].add(r[0])
                            ch_ = True
        self.rules = {a: {r for b in reach[a] for r in o2[b] if len(r) == 2 or r[0] not in o2} for a in o2}
        seen, work = set(), [start]
        while work:
            a = work.pop()
            if a in seen or a in terms:
                continue
            seen.add(a)
            for r in self.rules[a]:
                work += r
        # drop nonterminals without words
        self.rules = {a: self.rules[a] for a in seen}
        self.start = start

    def minimum(self):
        """Length of the shortest word of every symbol."""
        m = {t: 1 for t in self.terms}
        ch_ = True
        while ch_:
            ch_ = False
            for a in self.rules:
                for r in self.rules[a]:
                    if all(x in m for x in r):
                        v = sum(m[x] for x in r)
                        if v < m.get(a, 10 ** 9):
                            m[a] = v
                            ch_ = True
        return m


class Table:
    """Derivability of the spans of a symbolic word: one Boolean per (symbol, span), defined by the productions."""

    def __init__(self, g, tag, word, n, solver):
        self.g, self.n, self.word = g, n, word
        self.v, self.min = {}, g.minimum()
        self.first = None
        for l in range(1, n + 1):
            for i in range(n - l + 1):
                for a in g.rules:
                    if self.min.get(a, 10 ** 9) > l:
                        continue
                    ds = []
                    for r in g.rules[a]:
                        if len(r) == 1:
                            if l == 1:
                                t = word(i, r[0])
                                if t is True:
                                    ds.append(z3.BoolVal(True))
                                elif t is not False:
                                    ds.append(t)
                        else:
                            for k in range(1, l):
                                x, y = self.get(r[0], i, k), self.get(r[1], i + k, l - k)
                                if x is not None and y is not None:
                                    ds.append(x if y is True else y if x is True else z3.And(x, y))
                    ds = [d for d in ds if not z3.is_false(d)] if all(not isinstance(d, bool) for d in ds) else ds
                    if any(d is True for d in ds) or any(not isinstance(d, bool) and z3.is_true(d) for d in ds):
                        self.v[a, i, l] = True
                        continue
                    if not ds:
                        continue
                    if len(ds) == 1 and z3.is_const(ds[0]):
                        self.v[a, i, l] = ds[0]
                        continue
                    b = z3.Bool('%s:%s:%d:%d' % (tag, a, i, l))
                    solver.add(b == z3.Or(*ds))
                    self.v[a, i, l] = b

    def get(self, x, i, l):
        """None: impossible; True: certain; otherwise the Boolean."""
        if x in self.g.terms:
            if l != 1:
                return None
            t = self.word(i, x)
            return None if t is False else t
        return self.v.get((x, i, l))


def word(fixed, n, terms, solver):
    """A symbolic word of n tokens; fixed: {position: terminal}. Returns (lookup, variables)."""
    vs = {}
    for i in range(n):
        if i in fixed:
            continue
        for t in terms:
            vs[i, t] = z3.Bool('w:%d:%s' % (i, t))
        xs = [vs[i, t] for t in terms]
        solver.add(z3.PbEq([(x, 1) for x in xs], 1))

    def look(i, t):
        if i in fixed:
            return fixed[i] == t
        return vs.get((i, t), False)
    return look, vs


def included(a, b, fixed, n, timeout_s=300, without=()):
    """A word of L(a) that is not in L(b), of n tokens of which some are fixed; None if there is none."""
    s = z3.SolverFor('QF_FD')
    s.set('timeout', timeout_s * 1000)
    terms = sorted(x for x in a.terms if x not in without)
    look, vs = word(fixed, n, terms, s)
    ta = Table(a, 'a', look, n, s)
    x = ta.get(a.start, 0, n)
    if x is None:
        return None, True, 0
    tb = Table(b, 'b', look, n, s)
    y = tb.get(b.start, 0, n)
    if x is not True:
        s.add(x)
    if y is True:
        return None, False, 0
    if y is not None:
        s.add(z3.Not(y))
    import time
    t = time.time()
    r = s.check()
    t = time.time() - t
    if r == z3.unsat:
        return None, False, t
    if r == z3.unknown:
        raise TimeoutError('no verdict for %d tokens' % n)
    m = s.model()
    w = []
    for i in range(n):
        w.append(fixed[i] if i in fixed else next(t for t in terms if z3.is_true(m.eval(vs[i, t]))))
    return w, False, t
