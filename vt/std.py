"""Direct access to the C standard library: its IR (release and debug builds) under the symbolic executor."""
import os
import build, llir, sym, bv, host

_cache = {}


def mods(variant):
    if variant not in _cache:
        d = os.path.join(build.stdlib(), 'wasm', variant)
        _cache[variant] = [llir.parse(open(os.path.join(d, f)).read()) for f in sorted(os.listdir(d)) if f.endswith('.ll')]
    return _cache[variant]


class Std:
    """One executor over the linked standard library."""

    def __init__(self, variant='release', env=None, scratch=1024, heap=True, small=False, **kw):
        self.variant = variant
        self.scratch_size = scratch
        self.env = env or host.Env(max_calldata=0, size=0)
        m = sym.link(mods(variant))
        m.globals['@vt.scratch'] = (('arr', scratch, ('i', 8)), ('bytes', b''), 16, False)
        self.ex = sym.Executor(m, lambda: host.Host(self.env), stack_hi=32768 if small else 65536, **kw)
        self.scratch = self.ex.lay.addr['@vt.scratch']
        self.st = self.ex.initial(self.env.pre)
        self.small = small
        if heap:
            r = self.ex.call(self.st, '@__init_evm_heap', [0 if small else 1])
            assert len(r) == 1, 'heap initialisation forks'
            self.st = r[0][0]

    def put(self, off, v, st=None):
        """Place a big-endian word in scratch memory; returns its address."""
        a = self.scratch + off
        self.ex.store(st or self.st, a, bv.bswap(v, 256), 32)
        return a

    def put_le(self, off, v, st=None, n=32):
        a = self.scratch + off
        self.ex.store(st or self.st, a, v, n)
        return a

    def get(self, st, off):
        return bv.bswap(self.ex.load(st, self.scratch + off, 32), 256)

    def get_le(self, st, off, n=32):
        return self.ex.load(st, self.scratch + off, n)

    def call(self, st, name, args):
        return self.ex.call(st, '@' + name, args)


class P:
    """Pointer into scratch memory."""
    def __init__(self, off):
        self.off = off


class I64:
    def __init__(self, v):
        self.v = v


class R:
    """The pointer an earlier step returned, plus a delta."""
    def __init__(self, step, delta=0):
        self.step, self.delta = step, delta


class Step:
    """One call of a library function.

    args: P(offset) | int/BV (32 bits) | I64(value)
    writes: [(offset | R, value, 'be'|'le'[, bytes])] placed before the call
    outs: [(offset, 'be'|'le'[, bytes])] read after it; ret: width of the result or None ('bool': truth value)"""

    def __init__(self, fn, args=(), writes=(), outs=(), ret=None):
        self.fn, self.args, self.writes, self.outs, self.ret = fn, list(args), list(writes), list(outs), ret


def _wr(w):
    off, v, enc = w[:3]
    n = w[3] if len(w) > 3 else 32
    return off, (bv.bswap(v, 8 * n) if enc == 'be' else v), n


def run_seq(S, steps, merge_top=False):
    """Executes the steps; finished paths are in S.ex.done, with the observed values in state.notes."""
    ex = S.ex
    states = [S.st]
    tops = {'@' + s.fn for s in steps if s.fn}
    if not merge_top:
        ex.merge = lambda n: n not in tops

    def at(st, x):
        if isinstance(x, R):
            r = st.notes[x.step][0]
            if not isinstance(r, int):
                raise sym.Unsupported('symbolic pointer result')
            return r + x.delta
        return S.scratch + x

    for sp in steps:
        nxt = []
        for st in states:
            try:
                for w in sp.writes:
                    off, v, n = _wr(w)
                    ex.store(st, at(st, off), v, n)
            except sym.Trap as e:
                ex.finish(st, ('trap', e.kind))
                continue
            args = [S.scratch + a.off if isinstance(a, P) else a.v if isinstance(a, I64) else at(st, a) if isinstance(a, R) else a for a in sp.args]
            for s2, r in ex.call(st, '@' + sp.fn, args) if sp.fn else [(st, None)]:
                outs = []
                try:
                    for o in sp.outs:
                        n = o[2] if len(o) > 2 else 32
                        v = ex.load(s2, at(s2, o[0]), n)
                        outs.append(bv.bswap(v, 8 * n) if o[1] == 'be' else v)
                except sym.Trap as e:
                    ex.finish(s2, ('trap', e.kind))
                    continue
                s2.notes = s2.notes + ((r if sp.ret is not None else None, tuple(outs)),)
                nxt.append(s2)
        states = nxt
    for st in states:
        ex.finish(st, ('return',))
    return ex.done


_wasm = {}


def replay_wasm(variant):
    """The library linked to wasm, all functions exported, plus a scratch area."""
    import subprocess
    if variant in _wasm:
        return _wasm[variant]
    d = os.path.join(build.stdlib(), 'wasm', variant)
    o = os.path.join(build.BUILD, 'replay-%s-%d' % (variant, os.getpid()))
    os.makedirs(o, exist_ok=True)
    objs = []
    for f in sorted(os.listdir(d)):
        if f.endswith('.bc'):
            p = os.path.join(o, f[:-3] + '.o')
            build.run(['clang-16', '--target=wasm32', '-O0', '-c', '-x', 'ir', os.path.join(d, f), '-o', p])
            objs.append(p)
    c = os.path.join(o, 'vt_scratch.c')
    open(c, 'w').write('__attribute__((aligned(16), section(".data"))) unsigned char vt_scratch[65536 * 2];\n')
    build.run(['clang-16', '--target=wasm32', '-O1', '-c', c, '-o', c[:-2] + '.o'])
    rt = os.path.join(build.rt_lib(), 'libclang_rt.builtins-wasm32.a')
    w = os.path.join(o, 'std.wasm')
    build.run(['wasm-ld', '--no-entry', '--allow-undefined', '--export-all', '--stack-first', '--no-gc-sections', '-z', 'stack-size=65536'] + objs + [c[:-2] + '.o', rt, '-o', w])
    _wasm[variant] = w
    return w


def concrete_job(S, steps, model):
    import check
    ev = lambda v, w: bv.evaluate(model, v, w)
    hs = lambda v, n: bytes(ev(bv.byte(v, i), 8) for i in range(n)).hex()
    jp = lambda x: {'r': x.step + 1, 'd': x.delta} if isinstance(x, R) else {'p': x}
    js = [{'fn': '__init_evm_heap', 'args': [0 if S.small else 1]}]
    for sp in steps:
        ws = []
        for w in sp.writes:
            off, v, n = _wr(w)
            ws.append([jp(off), hs(v, n)])
        a = []
        for i, x in enumerate(sp.args):
            if i in getattr(sp, 'native', {}):
                a.append({'rel': sp.native[i][1]})
            elif isinstance(x, R):
                a.append(jp(x))
            elif isinstance(x, P):
                a.append({'p': x.off})
            elif isinstance(x, I64):
                a.append({'i64': str(ev(x.v, 64))})
            else:
                a.append(bv.tosigned(ev(x, 32), 32))
        js.append({'fn': sp.fn, 'args': a, 'writes': ws, 'reads': [[jp(o[0]), o[2] if len(o) > 2 else 32] for o in sp.outs]})
    return {'wasm': replay_wasm(S.variant), 'scratch': 'vt_scratch', 'steps': js, 'host': check.host_config(model, S.env)}


def fixretw(ret):
    return 32 if ret == 'bool' else ret


def check_seq(ck, name, steps, ref, env=None, variants=('release', 'debug'), pre=(), small=False, merge_top=False, scratch=2048, max_steps=400000, fork_select=False, **kw):
    """Obligation: the library sequence behaves like `ref`.

    ref(ctx, h) -> [(ret, (outs...)) per step], or raises check.Halt(outcome); h is a fresh semantic Host."""
    import check

    for v in variants:
        mods(v)

        def f(v=v):
            S = Std(v, env() if callable(env) else env, scratch=scratch, small=small, max_steps=max_steps, **kw)
            S.ex.fork_select = fork_select
            p0 = [c for c in pre if not isinstance(c, bool)]
            S.st.pc.extend(p0)
            if S.ex.solver.check(S.st.pc) != sym.z3.sat:
                raise check.Inconclusive('preconditions are not satisfiable')
            done = run_seq(S, steps, merge_top)
            n = 0
            for st in done:
                n += compare(ck, S, steps, st, ref)
            if S.ex.truncated:
                raise sym.Bound(S.ex.truncated)
            return n
        ck.case('%s[%s]' % (name, v), f)


def check_ops(ck, name, ops, **kw):
    """ops: [(Step, f)] with f(c, h, m) -> result | (result, outs) | None, or raising Halt; m is the EVM memory."""
    import evm, check

    def ref(c, h):
        m = evm.Mem()
        m.scratch = {}
        res = []
        for sp, f in ops:
            try:
                r = f(c, h, m)
            except check.Halt as e:
                e.res = res
                raise
            if not isinstance(r, tuple):
                r = (r, (None,) * len(sp.outs))
            res.append(r)
        return res
    check_seq(ck, name, [sp for sp, _ in ops], ref, **kw)


def reexec(S, steps, model):
    """Concrete execution of the same IR on the model's inputs; returns the outcome."""
    S2 = Std(S.variant, S.env, scratch=S.scratch_size, small=S.small, max_steps=S.ex.max_steps)
    S2.ex.fork_select = S.ex.fork_select
    for d in model.decls():
        if d.arity() == 0 and sym.z3.is_bv(d()):
            S2.st.pc.append(d() == model.eval(d(), model_completion=True))
    done = run_seq(S2, steps)
    return done[0].out if len(done) == 1 else None


def compare(ck, S, steps, st, ref):
    import check
    pv = ck.prover
    n = 0

    def one(c):
        h = host.Host(S.env)
        try:
            r = ref(c, h)
            return ('return',), r, h
        except check.Halt as e:
            return e.out, getattr(e, 'res', []), h

    for c, (out, res, h) in check.ref_paths(S.ex.solver, st.pc, one):
        n += 1
        goals = []
        if out[0] == 'any':
            continue
        ck.witness[out[0]] = ck.witness.get(out[0], 0) + 1
        if st.out[0] != out[0]:
            m = pv.prove(c.pc, False)
            if m is not None:
                fail(ck, S, steps, m, 'ends with %s where %s is required' % (st.out[:2] if st.out[0] == 'trap' else st.out[0], out[0]), st, out, res, h)
            continue
        if out[0] in ('finish', 'revert'):
            a, b = st.out[1], out[1]
            if len(a) != len(b):
                goals.append((False, '%s data length' % out[0]))
            elif a:
                goals.append((bv.eq(bv.from_bytes_be(a), bv.from_bytes_be(b), 8 * len(a)), '%s data' % out[0]))
        elif out[0] == 'selfdestruct':
            goals.append((bv.eq(st.out[1][0], out[1][0], 160), 'beneficiary'))
        if out[0] == 'return' or res:
            for k, (sp, (r, outs), (er, eouts)) in enumerate(zip(steps, st.notes, res)):
                if sp.ret == 'bool':
                    if er is not None:
                        x = bv.bnot(bv.eq(r, 0, 32))
                        goals.append((iff(x, er), '%s result' % sp.fn))
                elif sp.ret == 'ge32':
                    goals.append((bv.ule(er, r, 32), '%s result below the required value' % sp.fn))
                elif sp.ret is not None and er is not None:
                    goals.append((bv.eq(r, er, sp.ret), '%s result' % sp.fn))
                for o, x, y in zip(sp.outs, outs, eouts):
                    if y is not None:
                        goals.append((bv.eq(x, y, 8 * (o[2] if len(o) > 2 else 32)), '%s output' % sp.fn))
        goals.extend(event_goals(st.host.events, h.events))
        g = bv.band(*[x for x, _ in goals])
        m = pv.prove(c.pc, g)
        if m is not None:
            what = 'result'
            for x, w in goals:
                if not isinstance(x, (bool, int)):
                    x = sym.z3.is_true(m.eval(x, model_completion=True))
                if not x:
                    what = w
                    break
            fail(ck, S, steps, m, 'wrong ' + what, st, out, res, h)
    return n


def iff(a, b):
    if isinstance(a, (bool, int)):
        return b if a else bv.bnot(b)
    if isinstance(b, (bool, int)):
        return a if b else bv.bnot(a)
    return a == b


def event_goals(a, b):
    goals = []
    if len(a) != len(b):
        return [(False, 'number of external effects (%d, expected %d)' % (len(a), len(b)))]
    for x, y in zip(a, b):
        if x[0] != y[0] or len(x) != len(y) or any(p[1] != q[1] for p, q in zip(x[1:], y[1:])):
            goals.append((False, 'external effect %s, expected %s' % (x[0], y[0])))
            continue
        for p, q in zip(x[1:], y[1:]):
            if p[1]:
                goals.append((bv.eq(p[0], q[0], p[1]), '%s arguments' % x[0]))
    return goals


def fail(ck, S, steps, model, what, st, out, res, h):
    """Replay natively; a counterexample that does not reproduce is an error of the check, not a violation."""
    import check
    ev = lambda v, w: bv.evaluate(model, v, w)
    job = concrete_job(S, steps, model)
    got = check.run_node(job)
    exp = {'outcome': list(out[:1]), 'events': check.ev_events(model, h.events)}
    if out[0] in ('finish', 'revert'):
        exp['outcome'].append(bytes(ev(b, 8) for b in out[1]).hex())
    if out[0] == 'selfdestruct':
        exp['outcome'].append('%040x' % ev(out[1][0], 160))
    bad = None
    if got['outcome'][:2] != exp['outcome'][:2] and got['outcome'] != exp['outcome']:
        bad = 'outcome %s, expected %s' % (got['outcome'], exp['outcome'])
    elif got['events'] != exp['events']:
        bad = 'events %s, expected %s' % (got['events'], exp['events'])
    elif res:
        for k, (sp, (er, eouts)) in enumerate(zip(steps, res)):
            if k + 1 >= len(got['reads']):
                break
            r, rd = got['rets'][k + 1], got['reads'][k + 1]
            if sp.ret is not None and er is not None:
                x = int(r, 16)
                if sp.ret == 'bool':
                    if bool(x) != bool(ev(sym.z3.If(bv.zb(er), sym.z3.BitVecVal(1, 8), sym.z3.BitVecVal(0, 8)), 8)):
                        bad = '%s returned %s' % (sp.fn, r)
                elif sp.ret == 'ge32':
                    if x < ev(er, 32):
                        bad = '%s returned %s, less than %x' % (sp.fn, r, ev(er, 32))
                elif x & bv.mask(sp.ret) != ev(er, sp.ret):
                    bad = '%s returned %s, expected %x' % (sp.fn, r, ev(er, sp.ret))
            for o, x, y in zip(sp.outs, rd, eouts):
                if y is None:
                    continue
                w = 8 * (o[2] if len(o) > 2 else 32)
                e = ev(y, w).to_bytes(w // 8, 'big' if o[1] == 'be' else 'little').hex()
                if x != e:
                    bad = '%s wrote %s, expected %s' % (sp.fn, x, e)
    if bad is None and st.out[0] == 'trap':
        # an access outside every object need not show in one native run: confirm it on the IR with concrete inputs
        o = reexec(S, steps, model)
        if o and o[0] == 'trap':
            bad = 'memory fault in the library (%s), confirmed by executing the IR on the concrete inputs' % o[1]
    if bad is None:
        raise check.Failure('counterexample (%s) does not reproduce natively: job %s -> %s' % (what, str(job)[:1500], str(got)[:500]))
    raise check.Violation('%s: %s' % (what, bad), {'job': job, 'observed': got, 'expected': exp})
