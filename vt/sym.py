"""Symbolic executor for LLVM IR modules targeting wasm32, over a shared host model."""
import sys, time, collections
import z3
import bv
import llir
from bv import BV

sys.setrecursionlimit(20000)
PAGE = 65536
STACK_LO, STACK_HI = 1024, 65536


class Bound(Exception):
    """A stated bound was exceeded: the run is inconclusive, never a pass."""


class Unsupported(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.funcs = set()
        self.paths = 0
        self.instrs = 0


STATS = Stats()


def ids(c):
    """(id, id of the negated formula or -1), remembered on the object."""
    r = getattr(c, '_vt_ids', None)
    if r is None:
        n = -1
        if z3.is_not(c):
            a = c.arg(0)
            n = a.get_id()
        r = c._vt_ids = (c.get_id(), n)
    return r




def pin_of(c):
    """(variable, value) if the constraint fixes a variable."""
    r = getattr(c, '_vt_pin', 0)
    if r != 0:
        return r
    r = None
    if z3.is_eq(c):
        l, n = c.arg(0), c.arg(1)
        if z3.is_bv_value(l):
            l, n = n, l
        if z3.is_bv_value(n):
            n = n.as_long()
            while True:
                k = l.decl().kind()
                if z3.is_const(l):
                    if k == z3.Z3_OP_UNINTERPRETED:
                        r = (l, z3.BitVecVal(n, l.size()))
                    break
                if k == z3.Z3_OP_BADD and l.num_args() == 2 and (z3.is_bv_value(l.arg(0)) or z3.is_bv_value(l.arg(1))):
                    a, b = l.arg(0), l.arg(1)
                    if z3.is_bv_value(b):
                        a, b = b, a
                    n, l = (n - a.as_long()) % (1 << l.size()), b
                elif k == z3.Z3_OP_CONCAT and l.num_args() == 2 and z3.is_bv_value(l.arg(0)) and n >> l.arg(1).size() == l.arg(0).as_long():
                    l = l.arg(1)
                    n &= (1 << l.size()) - 1
                elif k == z3.Z3_OP_ZERO_EXT and n >> l.arg(0).size() == 0:
                    l = l.arg(0)
                else:
                    break
    c._vt_pin = r
    return r


def pinned(pc, t):
    """t with the variables pc fixes replaced, simplified."""
    ps = [p for p in map(pin_of, pc) if p is not None]
    return z3.simplify(z3.substitute(t, *ps)) if ps else z3.simplify(t)


class Solver:
    """Incremental feasibility solver kept in step with the path condition of the running path."""

    def __init__(self, timeout_ms=4000):
        self.s = z3.Solver()
        self.s.set('timeout', timeout_ms)
        self.stack = []
        self.cache = {}

    def _sync(self, pc):
        k = 0
        while k < len(self.stack) and k < len(pc) and self.stack[k] is pc[k]:
            k += 1
        if len(self.stack) > k:
            self.s.pop(len(self.stack) - k)
            del self.stack[k:]
        for c in pc[k:]:
            self.s.push()
            self.s.add(c)
            self.stack.append(c)

    def check(self, pc, *extra):
        self._sync(pc)
        t = time.time()
        r = self.s.check(*extra)
        STATS.queries += 1
        STATS.solver_s += time.time() - t
        if r == z3.unknown:
            STATS.unknown += 1
        return r

    def feasible(self, pc, cond):
        """False only if the solver proves pc & cond unsatisfiable (unknown counts as feasible)."""
        if isinstance(cond, (bool, int)):
            return bool(cond)
        cid, nid = ids(cond)
        for c in pc:
            i, n = ids(c)
            if i == cid:
                return True
            if n == cid or nid == i:
                return False
        s = pinned(pc, cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return self.check(pc, cond) != z3.unsat

    def values(self, pc, v, w, limit, what=''):
        """All feasible values of v under pc (raises Bound beyond `limit`)."""
        if isinstance(v, int):
            return [v]
        out = []
        t = v.z()
        s = pinned(pc, t)
        if z3.is_bv_value(s):
            return [s.as_long()]
        self._sync(pc)
        self.s.push()
        try:
            while True:
                t0 = time.time()
                r = self.s.check()
                STATS.queries += 1
                STATS.solver_s += time.time() - t0
                if r == z3.unsat:
                    return sorted(out)
                if r == z3.unknown:
                    raise Bound('solver gave up enumerating %s' % what)
                x = self.s.model().eval(t, model_completion=True).as_long()
                out.append(x)
                if len(out) > limit:
                    e = Bound('more than %d values for %s' % (limit, what))
                    e.vals = out
                    raise e
                self.s.add(t != x)
        finally:
            self.s.pop()


class Layout:
    """Addresses of a module's globals and their initial bytes."""

    def __init__(self, mod, gap=32, stack_hi=STACK_HI):
        self.mod = mod
        self.stack_hi = stack_hi
        self.addr, self.init, self.regions = {}, {}, []
        a = stack_hi + 64
        # initialised data first, then zeroed data, as wasm-ld lays them out
        for name, (t, init, align, const) in sorted(mod.globals.items(), key=lambda g: g[1][1] is None or g[1][1][0] in ('zero', 'undef')):
            al = max(align or 1, llir.alignof(t), 1)
            a = (a + al - 1) // al * al
            self.addr[name] = a
            sz = llir.sizeof(t)
            self.regions.append((a, a + sz, name, const))
            a += sz + gap
        self.end = a
        self.pages = (a + PAGE - 1) // PAGE
        self.fn = {}
        self.valid = bytearray(self.pages * PAGE)     # 1 = inside a global object, 2 = read-only object
        for lo, hi, _, const in self.regions:
            self.valid[lo:hi] = bytes([2 if const else 1]) * (hi - lo)
        for name, (t, init, align, const) in mod.globals.items():
            if init is not None:
                self._init(self.addr[name], t, init)

    def _init(self, a, t, v):
        k = v[0]
        if k == 'zero' or k == 'undef':
            return
        if k == 'bytes':
            for i, b in enumerate(v[1]):
                if b:
                    self.init[a + i] = b
            return
        if k == 'agg':
            if t[0] == 'struct':
                offs, _ = llir.layout(t)
                for o, (et, ev) in zip(offs, v[1]):
                    self._init(a + o, et, ev)
            else:
                es = llir.sizeof(t[2])
                for i, (et, ev) in enumerate(v[1]):
                    self._init(a + i * es, et, ev)
            return
        x = self.const(t, v)
        for i in range(llir.storesize(t)):
            b = (x >> (8 * i)) & 255
            if b:
                self.init[a + i] = b

    def const(self, t, v):
        k = v[0]
        if k == 'c':
            return v[1]
        if k == 'zero':
            return 0
        if k == 'g':
            if v[1] in self.addr:
                return self.addr[v[1]]
            return self.fn.setdefault(v[1], 16 + len(self.fn))
        if k == 'cgep':
            base = self.const(*v[2][0])
            return (base + gep_const(v[1], [self.const(tt, vv) for tt, vv in v[2][1:]], [tt for tt, _ in v[2][1:]])) & 0xffffffff
        if k == 'ccast':
            x = self.const(v[2], v[3])
            w2 = 32 if v[4][0] == 'ptr' else v[4][1]
            w1 = 32 if v[2][0] == 'ptr' else v[2][1]
            if v[1] == 'sext':
                x = bv.sext(x, w1, w2)
            return x & bv.mask(w2)
        if k == 'cbin':
            w = v[2][1]
            a, b = self.const(v[2], v[3]), self.const(v[2], v[4])
            f = {'add': bv.add, 'sub': bv.sub, 'mul': bv.mul, 'and': bv.and_, 'or': bv.or_, 'xor': bv.xor, 'shl': bv.shl, 'lshr': bv.lshr, 'ashr': bv.ashr}[v[1]]
            return f(a, b, w)
        if k == 'cicmp':
            w = width(v[2])
            return int(icmp(v[1], self.const(v[2], v[3]), self.const(v[2], v[4]), w))
        if k == 'cselect':
            c, a, b = v[1]
            return self.const(*a) if self.const(*c) else self.const(*b)
        if k == 'undef':
            return 0
        raise Unsupported('constant %r' % (v,))


def width(t):
    if t[0] == 'i':
        return t[1]
    if t[0] == 'ptr':
        return 32
    return 8 * llir.sizeof(t)


def gep_const(t, idx, its):
    off = bv.tosigned(idx[0], width(its[0])) * llir.sizeof(t)
    for x, it in zip(idx[1:], its[1:]):
        if t[0] == 'struct':
            off += llir.layout(t)[0][x]
            t = t[1][x]
        else:
            t = t[2]
            off += bv.tosigned(x, width(it)) * llir.sizeof(t)
    return off


def icmp(p, a, b, w):
    if p == 'eq':
        return bv.eq(a, b, w)
    if p == 'ne':
        return bv.bnot(bv.eq(a, b, w))
    if p == 'ult':
        return bv.ult(a, b, w)
    if p == 'ugt':
        return bv.ult(b, a, w)
    if p == 'ule':
        return bv.bnot(bv.ult(b, a, w))
    if p == 'uge':
        return bv.bnot(bv.ult(a, b, w))
    if p == 'slt':
        return bv.slt(a, b, w)
    if p == 'sgt':
        return bv.slt(b, a, w)
    if p == 'sle':
        return bv.bnot(bv.slt(b, a, w))
    if p == 'sge':
        return bv.bnot(bv.slt(a, b, w))
    raise Unsupported(p)


class State:
    __slots__ = ('pc', 'mem', 'sp', 'pages', 'host', 'out', 'steps', 'notes', 'forks')

    def __init__(self):
        self.forks = {}

    def fork(self):
        s = State()
        s.forks = dict(self.forks)
        s.pc = list(self.pc)
        s.mem = dict(self.mem)
        s.sp, s.pages, s.steps = self.sp, self.pages, self.steps
        s.host = self.host.copy()
        s.out = self.out
        s.notes = self.notes
        return s


UNDEF = 'undef'


class Trap(Exception):
    def __init__(self, kind):
        self.kind = kind


class Executor:
    def __init__(self, mods, host_factory, solver=None, max_steps=400000, max_paths=5000, max_vals=160, merge=lambda name: True, gap=32, externals=None, stack_hi=STACK_HI):
        """mods: one llir.Module or several linked by symbol name."""
        if not isinstance(mods, llir.Module):
            mods = link(mods)
        self.m = mods
        self.lay = Layout(mods, gap, stack_hi)
        self.stack_hi = stack_hi
        self.solver = solver or Solver()
        self.host_factory = host_factory
        self.max_steps, self.max_paths, self.max_vals = max_steps, max_paths, max_vals
        self.merge = merge
        self.done = []
        self.fresh = 0
        self.externals = externals or {}
        self.depth = 0
        self.deadline = None
        self.fork_select = False      # wide selects fork instead of building if-then-else terms
        self._dec = {}
        self.truncated = None
        self.region_after = 4         # forks at one branch on one path before its arms are merged where they meet
        self._regions = {}
        self._stops = []

    # ---------------------------------------------------------------- state helpers
    def initial(self, pc=()):
        s = State()
        s.pc = [c for c in pc if not isinstance(c, bool)]
        s.mem = dict(self.lay.init)
        s.sp = self.stack_hi
        s.pages = self.lay.pages
        s.steps = 0
        s.host = self.host_factory()
        s.out = None
        s.notes = ()
        return s

    def fresh_bv(self, w, why='undef'):
        self.fresh += 1
        return bv.var('%s!%d' % (why, self.fresh), w)

    def check_addr(self, st, a, n, write=False):
        b = a + n
        if a >= self.lay.pages * PAGE:
            if b <= st.pages * PAGE:
                return
            raise Trap('out-of-bounds access at %#x' % a)
        if a >= self.stack_hi:
            v = self.lay.valid[a:b]
            if b <= self.lay.pages * PAGE and 0 not in v:
                if write and 2 in v:
                    raise Trap('write to constant data at %#x' % a)
                return
            raise Trap('access outside any object at %#x' % a)
        if a >= st.sp and b <= self.stack_hi:
            return
        raise Trap('access to dead or unmapped stack/null at %#x' % a)

    def load(self, st, a, n):
        self.check_addr(st, a, n)
        mem = st.mem
        out = []
        for i in range(a, a + n):
            b = mem.get(i, 0)
            if b is UNDEF:
                b = self.fresh_bv(8)
                mem[i] = b
            out.append((b, 8))
        return bv.concat(out)

    def store(self, st, a, v, n):
        self.check_addr(st, a, n, True)
        mem = st.mem
        if isinstance(v, int):
            for i in range(n):
                mem[a + i] = (v >> (8 * i)) & 255
        else:
            for i in range(n):
                mem[a + i] = bv.extract(v, 8 * i + 7, 8 * i)

    def load_bytes(self, st, a, n):
        if n:
            self.check_addr(st, a, n)
        out = []
        for i in range(a, a + n):
            b = st.mem.get(i, 0)
            if b is UNDEF:
                b = self.fresh_bv(8)
                st.mem[i] = b
            out.append(b)
        return out

    def store_bytes(self, st, a, bs):
        if bs:
            self.check_addr(st, a, len(bs), True)
        for i, b in enumerate(bs):
            st.mem[a + i] = b

    def assume(self, st, c):
        """Add a condition; returns False if it is infeasible."""
        if isinstance(c, (bool, int)):
            return bool(c)
        if not self.solver.feasible(st.pc, c):
            return False
        st.pc.append(c)
        return True

    def split(self, st, c):
        """[(state, bool)] for a branch condition."""
        if isinstance(c, (bool, int)):
            return [(st, bool(c))]
        t = self.solver.feasible(st.pc, c)
        nc = bv.bnot(c)
        f = self.solver.feasible(st.pc, nc) if t else True
        if t and f:
            s2 = st.fork()
            st.pc.append(c)
            s2.pc.append(nc)
            return [(st, True), (s2, False)]
        return [(st, t)]

    def concretize(self, st, v, w, what='value'):
        if isinstance(v, int):
            return [(st, v)]
        try:
            vals = self.solver.values(st.pc, v, w, self.max_vals, what)
        except Bound as e:
            # go on with a few of the values to look for a violation; without one the run is inconclusive
            vals = getattr(e, 'vals', [])[:16]
            if not vals:
                raise
            self.truncated = str(e)
        if len(vals) == 1:
            return [(st, vals[0])]
        out = []
        for i, x in enumerate(vals):
            s2 = st.fork() if i + 1 < len(vals) else st
            c = v.z() == x
            bv._keep[c.get_id()] = c
            s2.pc.append(c)
            out.append((s2, x))
        return out

    def finish(self, st, out):
        st.out = out
        self.done.append(st)
        STATS.paths += 1
        if len(self.done) > self.max_paths:
            raise Bound('more than %d paths' % self.max_paths)

    # ---------------------------------------------------------------- running
    def run(self, st, name, args):
        """Runs @name; paths that return are finished with out=('return', value)."""
        for s, v in self.call(st, name, args):
            self.finish(s, ('return', v))
        return self.done

    def call(self, st, name, args):
        f = self.m.funcs.get(name)
        if f is None:
            return self.extern(st, name, args)
        STATS.funcs.add(name)
        self.depth += 1
        if self.depth > 200:
            raise Bound('call depth')
        sp = st.sp
        npc = len(st.pc)
        ev0 = st.host.stamp()
        pages0 = st.pages
        base_mem = None
        if self.merge(name):
            base_mem = True
        rets = self.exec(st, f, args)
        for s, v in rets:
            s.sp = sp
        self.depth -= 1
        if base_mem and len(rets) > 1:
            rets = self.merge_states(rets, npc, ret=f.ret)
        return rets

    def merge_states(self, rets, npc, types=None, total=False, ret=None):
        groups = collections.OrderedDict()
        for s, v in rets:
            k = (s.host.stamp(), s.pages, s.sp, s.notes)
            groups.setdefault(k, []).append((s, v))
        out = []
        for k, g in groups.items():
            if len(g) == 1:
                out.append(g[0])
                continue
            s0, v0 = g[0]
            guards = []
            # the common prefix may be longer than npc
            for s, _ in g:
                guards.append(bv.band(*s.pc[npc:]))
            s, v = s0, v0
            full = bv.bor(*guards)
            keys = set()
            for x, _ in g[1:]:
                m1 = x.mem
                for a, b in m1.items():
                    c = s0.mem.get(a, 0)
                    if c is not b and not (c is not UNDEF and b is not UNDEF and bv.same(c, b)):
                        keys.add(a)
                for a in s0.mem:
                    if a not in m1:
                        keys.add(a)
            mem = dict(s0.mem)
            # contiguous runs become one term each
            keys = sorted(keys)
            i = 0
            while i < len(keys):
                j = i
                while j + 1 < len(keys) and keys[j + 1] == keys[j] + 1 and j - i < 31:
                    j += 1
                run = keys[i:j + 1]
                i = j + 1
                if any(x.mem.get(a, 0) is UNDEF for x, _ in g for a in run):
                    for a in run:
                        vals = [x.mem.get(a, 0) for x, _ in g]
                        r = vals[-1]
                        if all(u is UNDEF for u in vals):
                            continue
                        vals = [self.fresh_bv(8) if u is UNDEF else u for u in vals]
                        r = vals[-1]
                        for gd, u in zip(reversed(guards[:-1]), reversed(vals[:-1])):
                            r = bv.ite(gd, u, r, 8)
                        mem[a] = r
                    continue
                w = 8 * len(run)
                vals = [bv.concat([(x.mem.get(a, 0), 8) for a in run]) for x, _ in g]
                r = vals[-1]
                for gd, u in zip(reversed(guards[:-1]), reversed(vals[:-1])):
                    r = bv.ite(gd, u, r, w)
                for t, a in enumerate(run):
                    mem[a] = bv.extract(r, 8 * t + 7, 8 * t)
            ns = s0.fork()
            ns.mem = mem
            ns.pc = s0.pc[:npc]
            if not isinstance(full, bool) and not (total and len(g) == len(rets)):
                # normally valid (no path ended inside); kept as an assumption otherwise
                ns.pc.append(full)
                bv._keep[full.get_id()] = full
            ns.steps = max(x.steps for x, _ in g)
            if v0 is None:
                rv = None
            else:
                rv = g[-1][1]
                for gd, (_, u) in zip(reversed(guards[:-1]), reversed(g[:-1])):
                    rv = self.tite(gd, ret, u, rv) if types is None else tuple(self.tite(gd, t, x, y) for t, x, y in zip(types, u, rv))
            out.append((ns, rv))
        return out

    def tite(self, c, t, a, b):
        if isinstance(a, tuple):
            ts = t[1] if t[0] == 'struct' else [t[2]] * len(a)
            return tuple(self.tite(c, *x) for x in zip(ts, a, b))
        if t == ('i', 1):
            return bv.bite(c, a, b)
        return bv.ite(c, a, b, width(t))

    def exec(self, st, f, args):
        regs = {}
        for (t, nm), a in zip(f.params, args):
            regs[nm] = a
        work = [(st, f.entry, None, 0, regs)]
        rets = []
        self._stops.append(None)
        try:
            while work:
                st, blk, prev, i, regs = work.pop()
                try:
                    self.block(st, f, blk, prev, i, regs, work, rets)
                except Trap as e:
                    self.finish(st, ('trap', e.kind))
        finally:
            self._stops.pop()
        return rets

    def val(self, regs, t, v):
        k = v[0]
        if k == 'l':
            return regs[v[1]]
        if k == 'c':
            x = v[1]
            return bool(x) if t == ('i', 1) else x
        if k == 'undef':
            if t[0] in ('arr', 'struct'):
                return self.fresh_agg(t)
            return z3.Bool('undef!%d' % self._n()) if t == ('i', 1) else self.fresh_bv(width(t))
        if k == 'agg':
            return tuple(self.val(regs, et, ev) for et, ev in v[1])
        if k == 'bytes':
            return tuple(v[1])
        if k == 'zero':
            return self.zero_agg(t)
        r = self.lay.const(t, v)
        return bool(r) if t == ('i', 1) else r

    def _n(self):
        self.fresh += 1
        return self.fresh

    def fresh_agg(self, t):
        if t[0] == 'arr':
            return tuple(self.fresh_agg(t[2]) for _ in range(t[1]))
        if t[0] == 'struct':
            return tuple(self.fresh_agg(x) for x in t[1])
        return z3.Bool('undef!%d' % self._n()) if t == ('i', 1) else self.fresh_bv(width(t))

    def zero_agg(self, t):
        if t[0] == 'arr':
            return tuple(self.zero_agg(t[2]) for _ in range(t[1]))
        if t[0] == 'struct':
            return tuple(self.zero_agg(x) for x in t[1])
        return False if t == ('i', 1) else 0

    def load_t(self, st, a, t):
        if t == ('i', 1):
            return bv.bv_bit(bv.extract(self.load(st, a, 1), 0, 0))
        if t[0] == 'i':
            v = self.load(st, a, (t[1] + 7) // 8)
            return bv.extract(v, t[1] - 1, 0)
        if t[0] == 'ptr':
            return self.load(st, a, 4)
        if t[0] == 'arr':
            es = llir.sizeof(t[2])
            return tuple(self.load_t(st, a + k * es, t[2]) for k in range(t[1]))
        if t[0] == 'struct':
            return tuple(self.load_t(st, a + o, x) for o, x in zip(llir.layout(t)[0], t[1]))
        raise Unsupported('load %r' % (t,))

    def store_t(self, st, a, t, v):
        if t == ('i', 1):
            self.store(st, a, bv.bool_to_bv(v, 8), 1)
        elif t[0] == 'i':
            n = (t[1] + 7) // 8
            self.store(st, a, bv.zext(v, t[1], 8 * n), n)
        elif t[0] == 'ptr':
            self.store(st, a, v, 4)
        elif t[0] == 'arr':
            es = llir.sizeof(t[2])
            for k in range(t[1]):
                self.store_t(st, a + k * es, t[2], v[k])
        elif t[0] == 'struct':
            for o, x, y in zip(llir.layout(t)[0], t[1], v):
                self.store_t(st, a + o, x, y)
        else:
            raise Unsupported('store %r' % (t,))

    def block(self, st, f, blk, prev, i, regs, work, rets):
        ins = f.blocks[blk]
        n = len(ins)
        if i == 0 and ins and ins[0][0] == 'phi':
            new = {}
            while ins[i][0] == 'phi':
                _, dst, t, inc = ins[i]
                for v, b in inc:
                    if b == prev:
                        new[dst] = self.val(regs, t, v)
                        break
                else:
                    raise Unsupported('phi without edge %s in %s' % (prev, f.name))
                i += 1
            regs.update(new)
        while True:
            x = ins[i]
            i += 1
            st.steps += 1
            STATS.instrs += 1
            if st.steps > self.max_steps:
                e = Bound('more than %d instructions on one path (%s)' % (self.max_steps, f.name))
                e.state = st
                raise e
            if self.deadline and not (STATS.instrs & 255) and time.time() > self.deadline:
                raise Bound('time limit')
            op = x[0]
            if op == 'bin':
                _, dst, o, t, a, b, fl = x
                regs[dst] = self.binop(st, o, t, self.val(regs, t, a), self.val(regs, t, b))
            elif op == 'load':
                _, dst, t, a = x
                p = self.val(regs, ('ptr',), a)
                if isinstance(p, int):
                    regs[dst] = self.load_t(st, p, t)
                else:
                    self.refork(st, p, f, blk, prev, i - 1, regs, work, a)
                    return
            elif op == 'store':
                _, _, t, v, a = x
                p = self.val(regs, ('ptr',), a)
                if isinstance(p, int):
                    self.store_t(st, p, t, self.val(regs, t, v))
                else:
                    self.refork(st, p, f, blk, prev, i - 1, regs, work, a)
                    return
            elif op == 'gep':
                _, dst, t, ops = x
                regs[dst] = self.gep(regs, t, ops)
            elif op == 'icmp':
                _, dst, p, t, a, b = x
                va, vb = self.val(regs, t, a), self.val(regs, t, b)
                if t == ('i', 1):
                    va, vb = bv.bool_to_bv(va, 1), bv.bool_to_bv(vb, 1)
                regs[dst] = icmp(p, va, vb, width(t))
            elif op == 'cast':
                _, dst, o, t, a, t2 = x
                regs[dst] = self.cast(o, t, self.val(regs, t, a), t2)
            elif op == 'br':
                prev, blk = blk, x[2]
                ins = f.blocks[blk]
                i = 0
                if ins[0][0] == 'phi' or self._stops and blk == self._stops[-1]:
                    work.append((st, blk, prev, 0, regs))
                    return
            elif op == 'condbr':
                _, _, c, a, b = x
                c = self.val(regs, ('i', 1), c)
                npc = len(st.pc)
                r = self.split(st, c)
                if len(r) == 2:
                    k = (f.name, blk)
                    n = st.forks.get(k, 0)
                    for s2, _ in r:
                        s2.forks[k] = n + 1
                    if n >= self.region_after:
                        reg = self.region(f, blk, a, b)
                        if reg is not None and (not self._stops or self._stops[-1] is None or self._stops[-1] not in reg[1]):
                            work.extend(self.merged_arms(f, blk, r, a, b, reg, regs, npc))
                            return
                if len(r) == 1:
                    prev, blk = blk, (a if r[0][1] else b)
                    work.append((st, blk, prev, 0, regs))
                    return
                for s2, tv in reversed(r):
                    work.append((s2, a if tv else b, blk, 0, dict(regs)))
                return
            elif op == 'select':
                _, dst, t, c, a, b = x
                c = self.val(regs, ('i', 1), c)
                va, vb = self.val(regs, t, a), self.val(regs, t, b)
                if self.fork_select and not isinstance(c, (bool, int)) and t[0] == 'i' and t[1] > 64:
                    r = self.split(st, c)
                    for s2, tv in reversed(r):
                        rg = dict(regs) if len(r) > 1 else regs
                        rg[dst] = va if tv else vb
                        work.append((s2, blk, prev, i, rg))
                    return
                if isinstance(va, tuple):
                    regs[dst] = self.tite(c, t, va, vb)
                elif t == ('i', 1):
                    regs[dst] = bv.bite(c, va, vb)
                else:
                    regs[dst] = bv.ite(c, va, vb, width(t))
            elif op == 'call':
                _, dst, t, name, args = x
                if isinstance(name, tuple):
                    p = regs[name[1]]
                    if not isinstance(p, int):
                        raise Unsupported('indirect call')
                    name = next((n for n, a in self.lay.fn.items() if a == p), None)
                    if name is None:
                        raise Trap('call of an invalid function pointer')
                av = [self.val(regs, at, a) if a is not None else None for at, a in args]
                if name.startswith('@llvm.'):
                    r = self.intrinsic(st, name, av, [at for at, _ in args], t)
                else:
                    r = self.call(st, name, av)
                if len(r) == 1 and r[0][0] is st:
                    if dst is not None:
                        regs[dst] = r[0][1]
                    continue
                for s2, v in reversed(r):
                    rg = dict(regs)
                    if dst is not None:
                        rg[dst] = v
                    work.append((s2, blk, prev, i, rg))
                return
            elif op == 'ret':
                _, _, t, v = x
                rets.append((st, None if t is None else self.val(regs, t, v)))
                return
            elif op == 'alloca':
                _, dst, t, cnt, align = x
                sz = llir.sizeof(t)
                if cnt is not None:
                    c = self.val(regs, cnt[0], cnt[1])
                    if not isinstance(c, int):
                        raise Unsupported('symbolic alloca')
                    sz *= c
                al = max(align or 1, llir.alignof(t), 16)
                sp = (st.sp - sz) // al * al
                if sp < STACK_LO:
                    raise Trap('stack overflow')
                st.sp = sp
                regs[dst] = sp
                m = st.mem
                for k in range(sp, sp + sz):
                    m[k] = UNDEF
            elif op == 'switch':
                _, _, t, v, d, cases = x
                v = self.val(regs, t, v)
                w = width(t)
                if isinstance(v, int):
                    tgt = d
                    for cv, lb in cases:
                        if cv == v:
                            tgt = lb
                            break
                    work.append((st, tgt, blk, 0, regs))
                    return
                if t == ('i', 1):
                    v = bv.bool_to_bv(v, 1)
                cur = st
                for cv, lb in cases:
                    r = self.split(cur, bv.eq(v, cv, w))
                    nxt = None
                    for s2, tv in r:
                        if tv:
                            work.append((s2, lb, blk, 0, dict(regs)))
                        else:
                            nxt = s2
                    cur = nxt
                    if cur is None:
                        break
                if cur is not None:
                    work.append((cur, d, blk, 0, dict(regs)))
                return
            elif op == 'unreachable':
                raise Trap('unreachable')
            elif op == 'freeze':
                regs[x[1]] = self.val(regs, x[2], x[3])
            elif op == 'extractvalue':
                v = self.val(regs, x[2], x[3])
                for k in x[4]:
                    v = v[k]
                regs[x[1]] = v
            elif op == 'insertvalue':
                _, dst, t, a, t2, b, idx = x
                regs[dst] = self.insert(self.val(regs, t, a), idx, self.val(regs, t2, b))
            elif op == 'phi':
                raise Unsupported('phi position')
            else:
                raise Unsupported(op)

    def region(self, f, blk, a, b):
        """(join, blocks, has calls) of a small single-entry acyclic region between a branch and where its arms meet, or None."""
        k = (f.name, blk)
        if k in self._regions:
            return self._regions[k]
        self._regions[k] = None
        succ = {}
        for nm, ins in f.blocks.items():
            x = ins[-1]
            succ[nm] = [x[2]] if x[0] == 'br' else [x[3], x[4]] if x[0] == 'condbr' else [x[4]] + [l for _, l in x[5]] if x[0] == 'switch' else []
        # joins in breadth-first order from the branch
        order, seen = [], set()
        q = [a, b]
        while q and len(order) < 24:
            y = q.pop(0)
            if y in seen:
                continue
            seen.add(y)
            order.append(y)
            q.extend(succ[y])
        for j in order:
            reg, w, ok = set(), [a, b], True
            while w and ok:
                y = w.pop()
                if y == j or y in reg:
                    continue
                if y == blk or not succ[y] or len(reg) > 12:
                    ok = False
                reg.add(y)
                w.extend(succ[y])
            if not ok:
                continue
            # acyclic, and entered only through the branch
            done = set()

            def acyc(y, path):
                if y == j or y in done:
                    return True
                if y in path:
                    return False
                r = all(acyc(z, path | {y}) for z in succ[y])
                done.add(y)
                return r
            if not all(acyc(y, frozenset()) for y in (a, b)):
                continue
            if any(y in reg and p not in reg and p != blk for p in succ for y in succ[p]):
                continue
            calls = any(x[0] == 'call' and not (isinstance(x[3], str) and x[3].startswith('@llvm.')) for y in reg for x in f.blocks[y])
            self._regions[k] = (j, reg, calls)
            break
        return self._regions[k]

    def merged_arms(self, f, blk, r, a, b, reg, regs, npc):
        join, _, calls = reg
        ndone, deads = len(self.done), []
        stuck = []
        phis = [x for x in f.blocks[join] if x[0] == 'phi']
        w = [(s2, a if tv else b, blk, 0, dict(regs)) for s2, tv in r]
        out = []
        self._stops.append(join)
        try:
            while w:
                it = w.pop()
                if it[1] == join and (it[3] == 0 or it[2] == ('merged',) and it[3] == len(phis)):
                    out.append(it)
                    continue
                st, bk, prev, i, rg = it
                try:
                    self.block(st, f, bk, prev, i, rg, w, stuck)
                except Trap as e:
                    self.finish(st, ('trap', e.kind))
        finally:
            self._stops.pop()
        assert not stuck
        if len(out) < 2:
            return [(st, bk, prev, i, {**regs, **rg}) for st, bk, prev, i, rg in out]
        arms = []
        for st, _, prev, _, rg in out:
            arms.append((st, tuple(rg[d] if prev == ('merged',) else self.val(rg, t, next(v for v, pb in inc if pb == prev)) for _, d, t, inc in phis)))
        types = tuple(x[2] for x in phis)
        res = self.merge_states(arms, npc, types, not calls and len(self.done) == ndone)
        ret = []
        for st, vs in res:
            rg = dict(regs)
            for x, v in zip(phis, vs):
                rg[x[1]] = v
            ret.append((st, join, ('merged',), len(phis), rg))
        return ret

    def insert(self, agg, idx, v):
        l = list(agg)
        l[idx[0]] = v if len(idx) == 1 else self.insert(l[idx[0]], idx[1:], v)
        return tuple(l)

    def refork(self, st, p, f, blk, prev, i, regs, work, opnd):
        """A symbolic address: continue once per feasible value."""
        r = self.concretize(st, p, 32, 'address in %s' % f.name)
        for s2, v in reversed(r):
            rg = dict(regs)
            rg[opnd[1]] = v
            work.append((s2, blk, prev, i, rg))

    def gep(self, regs, t, ops):
        base = self.val(regs, *ops[0])
        off = 0
        first = True
        for it, v in ops[1:]:
            if not first and t[0] == 'struct':
                k = v[1]
                off = bv.add(off, llir.layout(t)[0][k], 32)
                t = t[1][k]
                continue
            if first:
                es = llir.sizeof(t)
                first = False
            else:
                t = t[2]
                es = llir.sizeof(t)
            x = self.val(regs, it, v)
            w = width(it)
            if w < 32:
                x = bv.sext(x, w, 32)
            elif w > 32:
                x = bv.trunc(x, 32)
            off = bv.add(off, bv.mul(x, es & 0xffffffff, 32), 32)
        return bv.add(base, off, 32)

    def cast(self, o, t, v, t2):
        if o == 'bitcast':
            return v
        w, w2 = width(t), width(t2)
        if t == ('i', 1):
            if o == 'sext':
                b = bv.bool_to_bv(v, 1)
                return bv.ite(v, bv.mask(w2), 0, w2) if not isinstance(b, int) else (bv.mask(w2) if b else 0)
            return bv.bool_to_bv(v, w2)
        if t2 == ('i', 1):
            return bv.bv_bit(bv.extract(v, 0, 0))
        if o in ('ptrtoint', 'inttoptr'):
            o = 'trunc' if w2 < w else 'zext'
        if w2 == w:
            return v
        if o == 'trunc':
            return bv.trunc(v, w2)
        if o == 'zext':
            return bv.zext(v, w, w2)
        return bv.sext(v, w, w2)

    def binop(self, st, o, t, a, b):
        w = width(t)
        if t == ('i', 1):
            if o == 'and':
                return bv.band(a, b)
            if o == 'or':
                return bv.bor(a, b)
            if o in ('xor', 'add', 'sub'):
                if isinstance(a, (bool, int)):
                    a, b = b, a
                if isinstance(b, (bool, int)):
                    return bv.bnot(a) if b else a
                return z3.Xor(a, b)
            if o == 'mul':
                return bv.band(a, b)
            raise Unsupported('i1 ' + o)
        if o == 'add':
            return bv.add(a, b, w)
        if o == 'sub':
            return bv.sub(a, b, w)
        if o == 'mul':
            return bv.mul(a, b, w)
        if o == 'and':
            return bv.and_(a, b, w)
        if o == 'or':
            return bv.or_(a, b, w)
        if o == 'xor':
            return bv.xor(a, b, w)
        if o in ('shl', 'lshr', 'ashr'):
            f = {'shl': bv.shl, 'lshr': bv.lshr, 'ashr': bv.ashr}[o]
            if isinstance(b, int):
                if b >= w:
                    return self.fresh_bv(w, 'poison')
                return f(a, b, w)
            r = f(a, b, w)
            if w & (w - 1) == 0 and bv._top(b, w) >= w - (w.bit_length() - 1):
                return r        # the amount is syntactically below the width
            bad = bv.bnot(bv.ult(b, w, w))
            if not self.solver.feasible(st.pc, bad):
                return r
            return bv.ite(bad, self.fresh_bv(w, 'poison'), r, w)
        if o in ('udiv', 'urem', 'sdiv', 'srem'):
            f = {'udiv': bv.udiv, 'urem': bv.urem, 'sdiv': bv.sdiv, 'srem': bv.srem}[o]
            if isinstance(b, int):
                if b == 0:
                    raise Trap('division by zero')
                return f(a, b, w)
            zc = bv.eq(b, 0, w)
            r = f(a, b, w)
            if self.solver.feasible(st.pc, zc):
                return bv.ite(zc, self.fresh_bv(w, 'divzero'), r, w)
            return r
        raise Unsupported(o)

    # ---------------------------------------------------------------- intrinsics and externals
    def intrinsic(self, st, name, a, ts, rt):
        if name.startswith('@llvm.lifetime') or name.startswith('@llvm.assume') or name.startswith('@llvm.experimental.noalias') or name.startswith('@llvm.donothing'):
            return [(st, None)]
        w = width(rt) if rt[0] == 'i' else None
        base = name.split('.')[1]
        if base == 'bswap':
            return [(st, bv.bswap(a[0], w))]
        if base == 'bitreverse':
            return [(st, bv.concat([(bv.extract(a[0], i, i), 1) for i in range(w - 1, -1, -1)]))]
        if base in ('memcpy', 'memmove', 'memset'):
            return self.memop(st, base, a)
        if base == 'ubsantrap' or base == 'trap':
            raise Trap('overflow check (-ftrapv)' if base == 'ubsantrap' else 'trap')
        if name.startswith('@llvm.wasm.memory.size'):
            return [(st, st.pages)]
        if name.startswith('@llvm.wasm.memory.grow'):
            out = []
            for s, d in self.concretize(st, a[1], 32, 'memory.grow'):
                old = s.pages
                if d > 4096 or old + d > 8192:
                    out.append((s, 0xffffffff))
                else:
                    s.pages = old + d
                    out.append((s, old))
            return out
        if base in ('uadd', 'usub') and name.split('.')[2] == 'sat':
            if base == 'uadd':
                r = bv.add(a[0], a[1], w)
                return [(st, bv.ite(bv.ult(r, a[0], w), (1 << w) - 1, r, w))]
            return [(st, bv.ite(bv.ult(a[0], a[1], w), 0, bv.sub(a[0], a[1], w), w))]
        if base in ('sadd', 'ssub', 'smul', 'uadd', 'usub', 'umul'):
            w = rt[1][0][1]
            signed, op = base[0] == 's', base[1:]
            f = {'add': bv.add, 'sub': bv.sub, 'mul': bv.mul}[op]
            r = f(a[0], a[1], w)
            if isinstance(a[0], int) and isinstance(a[1], int):
                x, y = (bv.tosigned(a[0], w), bv.tosigned(a[1], w)) if signed else (a[0], a[1])
                e = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
                ov = not (-(1 << (w - 1)) <= e < (1 << (w - 1))) if signed else not (0 <= e < (1 << w))
            else:
                za, zb_ = bv.z(a[0], w), bv.z(a[1], w)
                ext = (z3.SignExt if signed else z3.ZeroExt)
                n = w if op == 'mul' else 1 if signed else 1
                e = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[op](ext(n, za), ext(n, zb_))
                if op == 'sub' and not signed:
                    ov = bv.ult(a[0], a[1], w)
                else:
                    ov = e != ext(n, bv.z(r, w))
            return [(st, (r, ov))]
        if base in ('smax', 'smin', 'umax', 'umin'):
            c = (bv.slt if base[0] == 's' else bv.ult)(a[0], a[1], w)
            x, y = (a[1], a[0]) if base[1:] == 'max' else (a[0], a[1])
            return [(st, bv.ite(c, x, y, w))]
        if base == 'abs':
            c = bv.slt(a[0], 0, w)
            return [(st, bv.ite(c, bv.neg(a[0], w), a[0], w))]
        if base in ('fshl', 'fshr'):
            if isinstance(a[2], int):
                k = a[2] % w
                if base == 'fshr':
                    k = (w - k) % w
                    if k == 0 and a[2] % w == 0:
                        return [(st, a[1])]
                if k == 0:
                    return [(st, a[0])]
                return [(st, bv.or_(bv.shl_c(a[0], k, w), bv.lshr_c(a[1], w - k, w), w))]
            cat = z3.Concat(bv.z(a[0], w), bv.z(a[1], w))
            k = z3.ZeroExt(w, z3.URem(bv.z(a[2], w), z3.BitVecVal(w, w)))
            r = z3.Extract(2 * w - 1, w, cat << k) if base == 'fshl' else z3.Extract(w - 1, 0, z3.LShR(cat, k))
            return [(st, bv.atom(r))]
        if base in ('ctlz', 'cttz', 'ctpop'):
            v = a[0]
            if isinstance(v, int):
                if base == 'ctpop':
                    return [(st, bin(v).count('1'))]
                if base == 'ctlz':
                    return [(st, w - v.bit_length())]
                return [(st, w if v == 0 else (v & -v).bit_length() - 1)]
            zv = v.z()
            if base == 'ctpop':
                r = z3.BitVecVal(0, w)
                for k in range(w):
                    r = r + z3.ZeroExt(w - 1, z3.Extract(k, k, zv))
            else:
                r = z3.BitVecVal(w, w)
                rng = range(w) if base == 'ctlz' else range(w - 1, -1, -1)
                for k in rng:
                    r = z3.If(z3.Extract(k, k, zv) == 1, z3.BitVecVal(w - 1 - k if base == 'ctlz' else k, w), r)
            return [(st, bv.atom(r))]
        if base in ('usub', 'uadd') and '.sat.' in name:
            raise Unsupported(name)
        if base == 'is' and name.startswith('@llvm.is.constant'):
            return [(st, False)]
        if name.startswith('@llvm.expect'):
            return [(st, a[0])]
        raise Unsupported(name)

    def memop(self, st, base, a):
        out = []
        for s1, n in self.concretize(st, a[2], 32, base + ' length'):
            for s2, d in self.concretize(s1, a[0], 32, base + ' destination'):
                if base == 'memset':
                    try:
                        self.store_bytes(s2, d, [a[1]] * n)
                        out.append((s2, None))
                    except Trap as e:
                        self.finish(s2, ('trap', e.kind))
                    continue
                for s3, p in self.concretize(s2, a[1], 32, base + ' source'):
                    try:
                        if n:
                            self.check_addr(s3, p, n)
                            if base == 'memcpy' and p != d and max(p, d) < min(p, d) + n:
                                raise Trap('llvm.memcpy on overlapping ranges')
                            bs = [s3.mem.get(k, 0) for k in range(p, p + n)]
                            self.store_bytes(s3, d, bs)
                        out.append((s3, None))
                    except Trap as e:
                        self.finish(s3, ('trap', e.kind))
        return out

    def extern(self, st, name, args):
        nm = name[1:].strip('"')
        h = self.externals.get(nm)
        if h is not None:
            return h(self, st, args)
        return st.host.call(self, st, nm, args)


def link(mods):
    """Link modules by name; private/internal names are already distinct per module in practice, or renamed here."""
    out = llir.Module()
    for k, m in enumerate(mods):
        ren = {}
        for g in list(m.globals):
            if g in out.globals:
                ren[g] = g + '.m%d' % k
        if ren:
            m = rename(m, ren)
        out.globals.update(m.globals)
        out.funcs.update(m.funcs)
        out.decls.update(m.decls)
        out.types.update(m.types)
    # external declarations of globals defined elsewhere need no entry
    return out


def rename(m, ren):
    def r(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'g' and x[1] in ren:
                return ('g', ren[x[1]])
            return tuple(r(y) for y in x)
        if isinstance(x, list):
            return [r(y) for y in x]
        return x
    n = llir.Module()
    n.types = m.types
    n.decls = m.decls
    n.globals = {ren.get(g, g): r(v) for g, v in m.globals.items()}
    for nm, f in m.funcs.items():
        f.blocks = {b: [r(i) for i in ins] for b, ins in f.blocks.items()}
        n.funcs[nm] = f
    return n
