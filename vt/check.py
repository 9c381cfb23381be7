"""Check driver: obligations, the reference side, verdicts, native replay, evidence."""
import os, sys, json, time, signal, subprocess, traceback, tempfile, random, threading, multiprocessing
import z3
sys.set_int_max_str_digits(0)
import bv, sym, host, build
from sym import Bound, Unsupported

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, 'known_findings.json')


class Inconclusive(Exception):
    pass


class Ctx:
    """Decisions of the reference side under a fixed path condition, by re-execution."""

    def __init__(self, solver, pc, choices=()):
        self.solver, self.pc = solver, list(pc)
        self.choices = list(choices)
        self.k = 0
        self.alts = []

    def _decide(self, options):
        """options: conditions (jointly exhaustive); returns the index taken."""
        if self.k < len(self.choices):
            i = self.choices[self.k]
        else:
            live = [i for i, c in enumerate(options) if self.solver.feasible(self.pc, c)]
            if not live:
                raise Infeasible()
            i = live[0]
            for j in live[1:]:
                self.alts.append(self.choices + [j])
            self.choices = self.choices + [i]
        self.k += 1
        c = options[i]
        if not isinstance(c, (bool, int)):
            self.pc.append(c)
        return i

    def branch(self, c):
        if isinstance(c, (bool, int)):
            return bool(c)
        return self._decide([c, bv.bnot(c)]) == 0

    def concrete(self, v, w, what='reference value', limit=200):
        if isinstance(v, int):
            return v
        if self.k < len(self.choices):
            x = self.choices[self.k]
        else:
            vals = self.solver.values(self.pc, v, w, limit, what)
            if not vals:
                raise Infeasible()
            x = vals[0]
            for y in vals[1:]:
                self.alts.append(self.choices + [y])
            self.choices = self.choices + [x]
        self.k += 1
        c = v.z() == x
        bv._keep[c.get_id()] = c
        if len(self.pc) == 0 or not self.solver.feasible(self.pc, c) or True:
            self.pc.append(c)
        return x


class Infeasible(Exception):
    pass


class Halt(Exception):
    """The reference program ended: outcome tuple."""

    def __init__(self, out):
        self.out = out


def ref_paths(solver, pc, f, limit=4000):
    """Runs f(ctx) once per reference path; yields (ctx, result)."""
    work = [[]]
    n = 0
    while work:
        ch = work.pop()
        c = Ctx(solver, pc, ch)
        try:
            r = f(c)
        except Infeasible:
            work.extend(c.alts)
            continue
        work.extend(c.alts)
        n += 1
        if n > limit:
            raise Bound('too many reference paths')
        yield c, r


class Failure(Exception):
    pass


class Prover:
    """Discharges pc => goal; a fresh solver per query so that timeouts are dependable."""

    def __init__(self, timeout_s=60):
        self.timeout = timeout_s
        self.queries = 0
        self.trivial = 0
        self.time = 0.0
        self.slow = 0.0
        self.samples = []
        self.second = 0
        self.second_disagree = 0
        self.rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))

    def prove(self, pc, goal):
        """None if pc => goal; otherwise a model of pc and not goal."""
        if isinstance(goal, (bool, int)):
            if goal:
                self.trivial += 1
                return None
            neg, nl = None, 0
        else:
            nl = nonlinear(goal)
            # flattening nested products blows up, so those skip the simplifier
            if nl <= 4 and z3.is_true(z3.simplify(goal)):
                self.trivial += 1
                return None
            neg = z3.Not(goal)
        self.queries += 1
        t0 = time.time()
        last = None
        extra = [neg] if neg is not None else []
        if neg is not None and self.abstracted(list(pc) + extra):
            self._t(t0)
            return None
        for tactic in ('short', 'guess', 'default', 'bv', 'cvc5') if nl <= 4 else ('guess', 'short', 'default', 'bv', 'cvc5'):
            if tactic == 'cvc5':
                if cvc5_check(list(pc) + extra, self.timeout) == 'unsat':
                    self._t(t0)
                    return None
                continue
            if tactic == 'guess':
                m = guess(list(pc), neg, self.rnd)
                if m is not None:
                    self._t(t0)
                    return m
                continue
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'simplify', 'bit-blast', 'sat').solver() if tactic == 'bv' else z3.Solver()
            s.set('timeout', int(1000 * {'short': 3, 'default': max(5, self.timeout / 3), 'bv': self.timeout}[tactic]))
            for c in list(pc) + extra:
                s.add(c)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r == z3.unsat:
                self._t(t0)
                if len(self.samples) < 40 and neg is not None:
                    self.samples.append(s.to_smt2() if tactic != 'bv' else None)
                return None
            if r == z3.sat:
                self._t(t0)
                return s.model()
        self._t(t0)
        raise Inconclusive('solver gave no answer within %ds' % self.timeout)

    def abstracted(self, fs):
        """Unsatisfiable already with division and shifts uninterpreted: quotients of equal words are equal."""
        a = abstract(fs)
        if a is None:
            return False
        for s in (z3.Then('simplify', 'propagate-values', 'solve-eqs', 'ackermannize_bv', 'simplify', 'bit-blast', 'sat').solver(), z3.Solver()):
            s.set('timeout', 10000)
            s.add(*a)
            try:
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r != z3.unknown:
                return r == z3.unsat
        return False

    def _t(self, t0):
        d = time.time() - t0
        self.time += d
        self.slow = max(self.slow, d)

    def cross_check(self, n=8, timeout=20):
        """Re-decide a sample of the discharged queries with cvc5."""
        smt = [x for x in self.samples if x][:n]
        for x in smt:
            r = cvc5_text(x, timeout)
            if r == 'unsat':
                self.second += 1
            elif r == 'sat':
                self.second_disagree += 1
        if self.second_disagree:
            raise Inconclusive('cvc5 disagrees with z3 on %d queries' % self.second_disagree)


DIV = {k: n for n, k in (('udiv', z3.Z3_OP_BUDIV), ('urem', z3.Z3_OP_BUREM), ('sdiv', z3.Z3_OP_BSDIV), ('srem', z3.Z3_OP_BSREM), ('udiv', z3.Z3_OP_BUDIV_I), ('urem', z3.Z3_OP_BUREM_I), ('sdiv', z3.Z3_OP_BSDIV_I), ('srem', z3.Z3_OP_BSREM_I))}

SHIFT = {z3.Z3_OP_BSHL: 'shl', z3.Z3_OP_BLSHR: 'lshr', z3.Z3_OP_BASHR: 'ashr'}


def abstract(fs):
    """The formulas with division and shifts by a term as an uninterpreted function; None if there is none."""
    memo, found, facts, apps = {}, False, [], {}
    for f in fs:
        work = [f]
        while work:
            x = work[-1]
            if x.get_id() in memo:
                work.pop()
                continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                work.extend(todo)
                continue
            work.pop()
            new = [memo[c.get_id()][1] for c in ch]
            k = x.decl().kind()
            if k in DIV:
                so = x.sort()
                found = True
                y = z3.Function('%s!%d' % (DIV[k], so.size()), so, so, so)(*new)
                u, v = new
                apps.setdefault((u.get_id(), v.get_id()), {})[DIV[k]] = (u, v, y)
                one, m1 = z3.BitVecVal(1, so.size()), z3.BitVecVal(-1, so.size())
                facts.append(z3.Implies(v == one, y == (u if DIV[k].endswith('div') else 0)))
                if DIV[k][0] == 'u':
                    facts.append(z3.Implies(z3.ULT(u, v), y == (0 if DIV[k] == 'udiv' else u)))
                    facts.append(z3.Implies(z3.And(z3.UGE(u, v), v != 0, z3.ULT(u - v, v)), y == (1 if DIV[k] == 'udiv' else u - v)))
                    facts.append(z3.Implies(v != 0, z3.ULE(y, u)))
                if DIV[k][0] == 's':
                    facts.append(z3.Implies(v == m1, y == (-u if DIV[k] == 'sdiv' else 0)))
            elif k in SHIFT and not z3.is_bv_value(ch[1]):
                so = x.sort()
                found = True
                u, v = new
                y = z3.Function('%s!%d' % (SHIFT[k], so.size()), so, so, so)(u, v)
                facts.append(z3.Implies(v == 0, y == u))
                facts.append(z3.Implies(z3.UGE(v, so.size() - (SHIFT[k] == 'ashr')), y == (u >> (so.size() - 1) if SHIFT[k] == 'ashr' else 0)))
            elif any(not a.eq(b) for a, b in zip(ch, new)):
                y = z3.And(*new) if k == z3.Z3_OP_AND else z3.Or(*new) if k == z3.Z3_OP_OR else x.decl()(*new)
            else:
                y = x
            memo[x.get_id()] = (x, y)       # x is kept so that its id is not used again
    for d in apps.values():
        if 'udiv' in d and 'urem' in d:
            u, v, q = d['udiv']
            facts.append(z3.Implies(v != 0, d['urem'][2] == u - v * q))
    return [memo[f.get_id()][1] for f in fs] + facts if found else None


def nonlinear(t):
    """Number of products of two non-constant terms."""
    seen, n, work = set(), 0, [t]
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app_of(x, z3.Z3_OP_BMUL) and not any(z3.is_bv_value(y) for y in x.children()):
            n += 1
        work.extend(x.children())
    return n


def free_vars(t):
    seen, out, work = set(), {}, [t]
    while work:
        x = work.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_bv(x):
            out[x.decl().name()] = x
        work.extend(x.children())
    return list(out.values())


def guess(pc, neg, rnd):
    """Looks for a counterexample among assignments that fix the wide variables (only ever yields real models)."""
    if neg is None:
        return None
    vs = [v for v in free_vars(neg) if v.size() > 32]
    cands = [3, (1 << 256) - 1, 5, 1 << 255, None, None, None]
    for c in cands:
        s = z3.Solver()
        s.set('timeout', 2000)
        for x in pc:
            s.add(x)
        if s.check() != z3.sat:
            return None
        for v in vs:
            val = rnd.getrandbits(v.size()) if c is None else c
            s.push()
            s.add(v == z3.BitVecVal(val, v.size()))
            if s.check() != z3.sat:
                s.pop()
        if s.check() != z3.sat:
            continue
        m = s.model()
        r = m.eval(neg, model_completion=True)
        if z3.is_true(r):
            # pin the completed values, so that later evaluations agree
            for v in free_vars(neg):
                s.add(v == m.eval(v, model_completion=True))
            if s.check() == z3.sat:
                return s.model()
    return None


def cvc5_text(smt2, timeout):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + '\n'.join(l for l in smt2.split('\n') if not l.startswith('(set-info') and not l.startswith('(set-logic')))
    try:
        r = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % (timeout * 1000), f.name], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout + 10)
        o = r.stdout.strip().split('\n')
        if any('(error' in l for l in o):
            return 'error'
        return o[0] if o else 'none'
    except (subprocess.TimeoutExpired, FileNotFoundError):
        return 'none'
    finally:
        os.unlink(f.name)


def cvc5_check(cs, timeout):
    s = z3.Solver()
    for c in cs:
        s.add(c)
    return cvc5_text(s.to_smt2(), timeout)


# ---------------------------------------------------------------- native replay
def hexw(v, w):
    return '%0*x' % (w // 4, v)


def host_config(model, env, st_hosts=()):
    ev = lambda v, w: bv.evaluate(model, v, w)
    words = {}
    for n, (v, w) in env.vars.items():
        words[n] = '%x' % ev(v, w)
    for n, v in env.o.items():
        if isinstance(v, int):
            words[n] = '%x' % v
        elif isinstance(v, bv.BV):
            words[n] = '%x' % ev(v, v.w)
    size = ev(env.cdsize, 32)
    cd = bytes(ev(b, 8) for b in env.cd)[:size]
    calls = []
    for k in sorted(env._call):
        stt, sz, bs, ad = env._call[k]
        n = ev(sz, 32)
        calls.append({'status': bv.tosigned(ev(stt, 32), 32), 'ret': bytes(ev(b, 8) for b in bs[:n]).hex(), 'addr': hexw(ev(ad, 160), 160)})
    table = {}
    for kind, args, term in host.USES:
        k = kind + ':' + ','.join(hexw(ev(a, w), w) if w else '' for a, w in args)
        table[k] = hexw(ev(term, 256), 256)
    return {'words': words, 'calldata': cd.hex(), 'calls': calls, 'table': table, 'codesize': ev(env.codesize, 32),
            'code': bytes(ev(b, 8) for b in env.code).hex()}


def run_node(job):
    d = tempfile.mkdtemp(prefix='vtreplay')
    a, b = os.path.join(d, 'i.json'), os.path.join(d, 'o.json')
    try:
        json.dump(job, open(a, 'w'))
        r = subprocess.run(['node', os.path.join(VERIF, 'vt', 'replay.js'), a, b], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
        if r.returncode != 0:
            raise Failure('replay driver failed: ' + r.stdout[-2000:])
        return json.load(open(b))
    finally:
        for f in (a, b):
            if os.path.exists(f):
                os.unlink(f)
        os.rmdir(d)


def ev_events(model, events):
    out = []
    for e in events:
        out.append([e[0]] + [hexw(bv.evaluate(model, v, w), w) if w else '' for v, w in e[1:]])
    return out


# ---------------------------------------------------------------- one check
class Check:
    def __init__(self, pid, tier=None, budget_s=780):
        self.pid = pid
        self.tier = tier or os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1'))
        self.t0 = time.time()
        self.budget_s = budget_s
        self.queue = []
        self.lock = threading.Lock()
        self.prover = Prover(60 if self.tier == 'quick' else 300)
        self.cases = {}
        self.violations = []
        self.known_hit = []
        self.errors = []
        self.witness = {}
        self.bounds = []
        self.assumptions = []
        self.extra = {}
        try:
            self.known = [k for k in json.load(open(KNOWN))['findings'] if k['property'] == pid]
        except FileNotFoundError:
            self.known = []
        self.known_seen = set()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def known_for(self, case):
        return [k for k in self.known if k['case'] == case or k['case'] == case.rsplit('[', 1)[0]]

    def case(self, name, f):
        """Queue one obligation set; f() raises Violation/Bound/... or returns the number of compared paths."""
        self.queue.append((name, f))

    def run_case(self, name, f):
        t = time.time()
        res = {}
        try:
            n = f()
            res = {'paths': n}
            if not n:
                res = {'error': 'vacuous, no path was compared'}
        except Violation as v:
            res = {'violation': v.what, 'detail': v.detail}
        except (Bound, Unsupported, Inconclusive, Failure, build.BuildError, z3.Z3Exception) as e:
            res = {'error': '%s: %s' % (type(e).__name__, str(e)[:1500])}
        except Exception:
            res = {'error': traceback.format_exc()[-1500:]}
        res['s'] = round(time.time() - t, 2)
        return res

    def run(self):
        """Decides the queued cases on all cores."""
        q, self.queue = self.queue, []
        if not q:
            return
        jobs = int(os.environ.get('VT_JOBS', '8'))
        nxt = multiprocessing.get_context('fork').Value('i', 0)
        stop = multiprocessing.get_context('fork').Value('i', 0)
        pipes = []
        sys.stdout.flush()
        for k in range(min(jobs, len(q))):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 1
                try:
                    os.close(r)
                    os.setpgid(0, 0)
                    sym.STATS = sym.Stats()
                    z3.set_param('memory_max_size', 3000)
                    self.prover.__init__(self.prover.timeout)
                    self.witness = {}
                    with os.fdopen(w, 'w') as f:
                        while True:
                            with nxt.get_lock():
                                i = nxt.value
                                nxt.value += 1
                            if i >= len(q):
                                break
                            if stop.value and not os.environ.get('VT_ALL'):
                                f.write(json.dumps([i, {'skipped': 'after a violation', 's': 0}]) + '\n')
                                continue
                            if time.time() - self.t0 > self.budget_s:
                                res = {'error': 'time budget exhausted', 's': 0}
                            else:
                                res = self.run_case(*q[i])
                                if 'violation' in res and not self.known_for(q[i][0]):
                                    stop.value = 1
                            f.write(json.dumps([i, res], default=str) + '\n')
                            f.flush()
                        bad = 0
                        if not os.environ.get('VT_NOCROSS'):
                            try:
                                self.prover.cross_check(2)
                            except Inconclusive:
                                bad = 1
                        p, s = self.prover, sym.STATS
                        f.write(json.dumps(['stats', [p.queries, p.trivial, p.time, p.slow, p.second, bad, s.queries, s.unknown, s.solver_s, s.instrs, s.paths], sorted(s.funcs), self.witness, self.bounds, self.assumptions]) + '\n')
                    code = 0
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(code)
            os.close(w)
            try:
                os.setpgid(pid, pid)
            except OSError:
                pass
            pipes.append((pid, os.fdopen(r)))
        got = {}
        threads = []

        def drain(pid, f):
            for line in f:
                d = json.loads(line)
                if d[0] == 'stats':
                    with self.lock:
                        self.merge_stats(d)
                    got[('stats', pid)] = 1
                else:
                    got[d[0]] = d[1]
                    if os.environ.get('VT_VERBOSE'):
                        print(q[d[0]][0], {k: str(v)[:300] for k, v in d[1].items() if k != 'detail'}, flush=True)
            os.waitpid(pid, 0)
        for pid, f in pipes:
            t = threading.Thread(target=drain, args=(pid, f))
            t.start()
            threads.append(t)
        # a worker that does not come back is ended: soon after a violation, otherwise near the limit of the whole check
        since, why = None, {'error': 'the worker deciding this case died', 's': 0}
        while any(t.is_alive() for t in threads):
            for t in threads:
                t.join(0.2)
            if stop.value and since is None and not os.environ.get('VT_ALL'):
                since = time.time()
            if since and time.time() - since > 20:
                why = {'skipped': 'after a violation', 's': 0}
            elif self.tier == 'quick' and time.time() - self.t0 > self.budget_s + 60:
                why = {'error': 'time budget exhausted', 's': 0}
            else:
                continue
            for pid, _ in pipes:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
            for t in threads:
                t.join(10)
            break
        for i, (name, _) in enumerate(q):
            res = got.get(i, why)
            if 'violation' in res:
                if self.known_for(name):
                    self.known_seen.add(name)
                    self.cases[name] = {'known': True, 's': res['s']}
                else:
                    self.report(name, Violation(res['violation'], res['detail']))
                    self.cases[name] = {'violated': True, 's': res['s']}
            else:
                if 'error' in res:
                    self.errors.append('%s: %s' % (name, res['error']))
                self.cases[name] = res

    def merge_stats(self, d):
        p, s = self.prover, sym.STATS
        a = d[1]
        p.queries += a[0]
        p.trivial += a[1]
        p.time += a[2]
        p.slow = max(p.slow, a[3])
        p.second += a[4]
        if a[5]:
            self.errors.append('cvc5 disagrees with z3')
        s.queries += a[6]
        s.unknown += a[7]
        s.solver_s += a[8]
        s.instrs += a[9]
        s.paths += a[10]
        s.funcs.update(d[2])
        for k, v in d[3].items():
            self.witness[k] = self.witness.get(k, 0) + v
        for mine, theirs in ((self.bounds, d[4]), (self.assumptions, d[5])):
            for x in theirs:
                if x not in mine:
                    mine.append(x)

    def report(self, name, v):
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.pid, len(self.violations)))
        json.dump({'property': self.pid, 'case': name, 'what': v.what, 'detail': v.detail}, open(p, 'w'), indent=1, default=str)
        self.violations.append({'case': name, 'what': v.what, 'replay': p})
        print('VIOLATION property=%s replay=%s' % (self.pid, p), flush=True)
        print('  %s: %s' % (name, v.what), flush=True)

    def finish(self, level, functions=None, explanation=''):
        self.run()
        for k in self.known:
            if any(k['case'] in (x, x.rsplit('[', 1)[0]) for x in self.known_seen):
                print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        paths = sum(c.get('paths', 0) for c in self.cases.values())
        cov = {
            'explanation': explanation,
            'functions_encoded': sorted(functions or sym.STATS.funcs),
            'bounds': self.bounds,
            'cases': len(self.cases),
            'paths_compared': paths,
            'queries': {'deciding': self.prover.queries, 'structural': self.prover.trivial, 'feasibility': sym.STATS.queries, 'feasibility_unknown': sym.STATS.unknown},
            'solver_s': round(self.prover.time + sym.STATS.solver_s, 2),
            'slowest_query_s': round(self.prover.slow, 2),
            'second_solver': {'tool': 'cvc5', 'agreed': self.prover.second},
            'instructions': sym.STATS.instrs,
            'witnesses': self.witness,
            'per_case': self.cases,
            'known_findings': sorted(self.known_seen),
        }
        cov.update(self.extra)
        e = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
             'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(e, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        if self.violations:
            print('%s: %d violation(s)' % (self.pid, len(self.violations)))
            return 1
        if self.errors:
            for x in self.errors:
                print('ERROR %s: %s' % (self.pid, x), file=sys.stderr)
            return 2
        print('%s: held on %d cases, %d paths, %d solver queries, %.1fs' % (self.pid, len(self.cases), paths, self.prover.queries + sym.STATS.queries, time.time() - self.t0))
        return 0


class Violation(Exception):
    def __init__(self, what, detail):
        self.what, self.detail = what, detail
