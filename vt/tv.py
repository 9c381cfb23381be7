"""Translation validation: the LLVM module the real compiler emits for a Yul program, against the reference interpreter."""
import os, json, subprocess, hashlib, shutil, atexit
import build, llir, sym, bv, host, check, std, yul

_tools = None


def tools():
    global _tools
    if _tools is None:
        _tools = build.compiler()
    return _tools


def workdir():
    d = os.path.join(build.BUILD, 'tv', str(os.getpid()))
    os.makedirs(d, exist_ok=True)
    return d


def compile(text, main, **opts):
    """{'ok', 'll', 'wasm'} or {'ok': False, 'error'}."""
    d = os.path.join(workdir(), hashlib.sha256(repr((text, main, sorted(opts.items()))).encode()).hexdigest()[:16])
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'p.yul'), 'w') as f:
        f.write(text)
    j = dict(yul=os.path.join(d, 'p.yul'), dir=d, base='p', main=main, **opts)
    json.dump([j], open(os.path.join(d, 'jobs.json'), 'w'))
    r = subprocess.run([tools()['yulc'], os.path.join(d, 'jobs.json'), os.path.join(d, 'out.json')], env=dict(os.environ, CHAIN_IR_CLANG_RT_LIB_DIR=tools()['rt']),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    if r.returncode != 0:
        return {'ok': False, 'error': 'the compiler died with status %d: %s' % (r.returncode, r.stdout[-500:])}
    out = json.load(open(os.path.join(d, 'out.json')))[0]
    out['dir'] = d
    return out


def reduced(path):
    """The text of the module without what its entries do not reach, and without vectors."""
    r = subprocess.run(['opt', '-S', '-passes=internalize,globaldce,function(scalarizer)', '-scalarize-load-store', '-internalize-public-api-list=_start,call,deploy', '-o', '-', path],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=120)
    if r.returncode != 0:
        raise check.Failure('opt: ' + r.stderr[-300:])
    return r.stdout


class Prog:
    """A compiled program under the executor."""

    def __init__(self, text, main, env, opts, entries=None, **kw):
        self.text, self.main, self.env, self.opts = text, main, env, opts
        self.art = compile(text, main, **opts)
        if not self.art['ok']:
            raise Rejected(self.art['error'])
        m = llir.parse(reduced(self.art['ll']))
        self.entries = entries or ['call' if '@call' in m.funcs and main.endswith('_deployed') else 'deploy']
        self.kw = kw
        self.m = m
        self.ex, self.st = self.fresh()

    def fresh(self):
        ex = sym.Executor(self.m, lambda: host.Host(self.env), stack_hi=32768 if self.opts.get('enable_all_optimizers') else 65536, **self.kw)
        st = ex.initial(self.env.pre)
        r = ex.call(st, '@_start', [])
        assert len(r) == 1
        return ex, r[0][0]

    def run(self, pre=()):
        self.st.pc.extend(c for c in pre if not isinstance(c, bool))
        if self.ex.solver.check(self.st.pc) != sym.z3.sat:
            raise check.Inconclusive('preconditions are not satisfiable')
        return self.go(self.ex, self.st)

    def go(self, ex, st):
        work = [st]
        for k, e in enumerate(self.entries):
            for st in work:
                if k:
                    # the next entry runs in a new instance, on the storage the one before it left
                    old, st = st, ex.initial(self.env.pre)
                    r = ex.call(st, '@_start', [])
                    assert len(r) == 1
                    st = r[0][0]
                    st.pc, st.host = old.pc, old.host
                for s, _ in ex.call(st, '@' + e, []):
                    ex.finish(s, ('finish', []))
            if k + 1 < len(self.entries):
                work = [s for s in ex.done if s.out[0] == 'finish']
                ex.done = [s for s in ex.done if s.out[0] != 'finish']
        return ex.done

    def job(self, model):
        return {'wasm': self.art['wasm'], 'steps': [{'fn': f, 'args': []} for f in ['_start'] + self.entries], 'host': check.host_config(model, self.env)}

    def concrete(self, model):
        ex, st = self.fresh()
        for d in model.decls():
            if d.arity() == 0 and sym.z3.is_bv(d()):
                st.pc.append(d() == model.eval(d(), model_completion=True))
        done = self.go(ex, st)
        return done[0].out if len(done) == 1 else None

    def sub(self, name):
        """The contract emitted for an embedded object; the code of the object itself is not repeated."""
        f = os.path.join(self.art['dir'], '%s_%s.wasm' % (self.main, name))
        return open(f, 'rb').read() if os.path.exists(f) else b''

    def close(self):
        shutil.rmtree(self.art['dir'], ignore_errors=True)


def objects(o):
    for x in o['objects'].values():
        yield x
        yield from objects(x)


class Rejected(Exception):
    pass


def case(ck, name, text, env=None, pre=(), opts=None, main=None, limit=2000, ref=None, **kw):
    """Obligation: the compiled program does what the source says, under each set of options."""
    tools()
    if FORCED:
        if FORCED['skip'](name):
            return
        extra = next(iter((opts or {'': {}}).values()))         # what the program itself needs
        opts = {k: dict({x: extra[x] for x in ('symbols',) if x in extra}, **o) for k, o in FORCED['opts'].items()}
        name = FORCED['prefix'] + name
    tree = yul.parse(text)
    top = main or tree['name']

    def find(o, n):
        if o['name'] == n:
            return o
        for x in o['objects'].values():
            r = find(x, n)
            if r:
                return r
    obj = find(tree, top)
    called = find(tree, top + '_deployed')
    seq = 'entries' in kw
    for on, o in (opts or VARIANTS).items():
        def f(o=o):
            e = env() if callable(env) else env or host.Env(max_calldata=0, size=0)
            try:
                p = Prog(text, top, e, o, **kw)
            except Rejected as x:
                raise check.Violation('the program is not compiled: %s' % x, {'program': text, 'options': o})
            a = dict(symbols=o.get('symbols'), limit=limit, subs={x['name']: p.sub(x['name']) for x in objects(tree)}, **(ref() if callable(ref) else ref or {}))

            def reference(c, h):
                if seq:
                    try:
                        yul.Interp(obj, c, h, deploying=True, **a).run()
                    except check.Halt as e:
                        if e.out[0] != 'finish':
                            raise
                    yul.Interp(called, c, h, **a).run()
                yul.Interp(obj, c, h, deploying=not top.endswith('_deployed'), **a).run()
            try:
                n, seen = 0, set()
                for st in p.run(pre):
                    n += compare(ck, p, st, reference, seen)
                if p.ex.truncated:
                    raise sym.Bound(p.ex.truncated)
                return n
            finally:
                if not os.environ.get('VT_KEEP'):
                    p.close()
        ck.case('%s[%s]' % (name, on), f)


FORCED = None


class forced:
    """Cases use these options instead of their own."""

    def __init__(self, opts, prefix='', skip=lambda n: False):
        self.f = dict(opts=opts, prefix=prefix, skip=skip)

    def __enter__(self):
        global FORCED
        FORCED = self.f

    def __exit__(self, *a):
        global FORCED
        FORCED = None


VARIANTS = {'plain': {}, 'optimised': {'opt_level': 'aggressive'}}


# how many kinds of ending of each program are also run natively
NATIVE = 3


def compare(ck, p, st, ref, seen):
    pv = ck.prover
    n = 0

    def one(c):
        h = host.Host(p.env)
        try:
            ref(c, h)
        except check.Halt as e:
            return e.out, h

    for c, (out, h) in check.ref_paths(p.ex.solver, st.pc, one):
        n += 1
        if out[0] == 'any':
            continue
        ck.witness[out[0]] = ck.witness.get(out[0], 0) + 1
        if st.out[0] != out[0]:
            m = pv.prove(c.pc, False)
            if m is not None:
                fail(ck, p, m, 'ends with %s where %s is required' % (st.out[:2] if st.out[0] == 'trap' else st.out[0], out[0]), st, out, h)
            continue
        goals = []
        if out[0] in ('finish', 'revert'):
            a, b = st.out[1], out[1]
            if len(a) != len(b):
                goals.append((False, '%s data length' % out[0]))
            else:
                for i in range(0, len(a), 32):
                    x, y = a[i:i + 32], b[i:i + 32]
                    goals.append((bv.eq(bv.from_bytes_be(x), bv.from_bytes_be(y), 8 * len(x)), '%s data' % out[0]))
        elif out[0] == 'selfdestruct':
            goals.append((bv.eq(st.out[1][0], out[1][0], 160), 'beneficiary'))
        goals.extend(std.event_goals(st.host.events, h.events))
        # one query per goal: they are independent words, and products of different ones do not mix
        for g, what in goals:
            m = pv.prove(c.pc, g)
            if m is not None:
                fail(ck, p, m, 'wrong ' + what, st, out, h)
        if out[0] not in seen and len(seen) < NATIVE:
            seen.add(out[0])
            emitted(ck, p, c.pc, out, h)
    return n


def native(p, model, out, h):
    """Runs the emitted WebAssembly on the model's inputs: (job, what it did, what is required, the difference)."""
    ev = lambda v, w: bv.evaluate(model, v, w)
    job = p.job(model)
    got = check.run_node(job)
    exp = {'outcome': list(out[:1]), 'events': check.ev_events(model, h.events)}
    if out[0] in ('finish', 'revert'):
        exp['outcome'].append(bytes(ev(b, 8) for b in out[1]).hex())
    if out[0] == 'selfdestruct':
        exp['outcome'].append('%040x' % ev(out[1][0], 160))
    if got['outcome'] == ['return']:
        got['outcome'] = ['finish', '']
    bad = None
    if got['outcome'][:2] != exp['outcome'][:2] and not (got['outcome'][0] == exp['outcome'][0] == 'trap'):
        bad = 'outcome %s, expected %s' % (got['outcome'], exp['outcome'])
    elif got['events'] != exp['events']:
        bad = 'events %s, expected %s' % (got['events'], exp['events'])
    return job, got, exp, bad


def emitted(ck, p, pc, out, h):
    """A path that is as required in the IR is also run on the emitted WebAssembly, on inputs the solver picks."""
    s = sym.z3.Solver()
    s.set('timeout', 3000)
    s.add(*[c for c in pc if not isinstance(c, bool)])
    if s.check() != sym.z3.sat:
        return
    job, got, exp, bad = native(p, s.model(), out, h)
    ck.witness['run natively'] = ck.witness.get('run natively', 0) + 1
    if bad:
        raise check.Violation('the emitted module does not do what its IR does: %s' % bad, {'program': p.text, 'options': p.opts, 'job': {k: v for k, v in job.items() if k != 'wasm'}, 'observed': got, 'expected': exp})


def fail(ck, p, model, what, st, out, h):
    job, got, exp, bad = native(p, model, out, h)
    if bad is None and st.out[0] == 'trap':
        o = p.concrete(model)
        if o and o[0] == 'trap':
            bad = 'memory fault (%s), confirmed by executing the IR on the concrete inputs' % o[1]
    if bad is None:
        raise check.Failure('counterexample (%s) does not reproduce natively: job %s -> %s' % (what, str(job)[:1500], str(got)[:500]))
    raise check.Violation('%s: %s' % (what, bad), {'program': p.text, 'options': p.opts, 'job': {k: v for k, v in job.items() if k != 'wasm'}, 'observed': got, 'expected': exp})
