"""The front end's Rust code, executed symbolically from the LLVM IR that rustc emits for it (wasm32, whole program)."""
import re, os, json, base64
import bv, llir, sym, build
from sym import Bound, Unsupported, Trap

ATTR = re.compile(r'\b(?:captures\([^)]*\)|range\([^)]*\)|initializes\(\([^)]*\)(?:, \([^)]*\))*\)|dead_on_unwind|dead_on_return|writable|noext)\s*')
PANIC = re.compile(r'9panicking|12handle_error|17capacity_overflow|17rust_begin_unwind|18handle_alloc_error|15slice_index_fail|16slice_error_fail')


def normalise(s):
    """The IR of the nightly's LLVM in the syntax of LLVM 16 (dropped: flags that only license more undefined behaviour)."""
    s = ATTR.sub('', s)
    s = re.sub(r'(= (?:tail |musttail |notail )?getelementptr) (?:(?:inbounds|nuw|nusw) )+', r'\1 ', s)
    s = re.sub(r'\b(trunc|zext|or|icmp|uitofp|shl|add|sub|mul)((?: (?:nuw|nsw|nneg|disjoint|samesign))+) ', r'\1 ', s)
    s = re.sub(r'getelementptr (?:(?:inbounds|nuw|nusw) )+\(', 'getelementptr (', s)
    return s


def reachable(text, roots):
    """The part of the module the roots need."""
    defs, globs, types, decls = {}, {}, [], {}
    cur = None
    for l in text.split('\n'):
        if cur is not None:
            cur.append(l)
            if l == '}':
                cur = None
            continue
        if l.startswith('define'):
            nm = re.search(r'(@(?:"[^"]*"|[-A-Za-z$._0-9]+))\(', l).group(1)
            cur = defs[nm] = [l]
        elif l.startswith('@'):
            globs[l.split(' ', 1)[0]] = l
        elif l.startswith('declare'):
            decls[re.search(r'(@(?:"[^"]*"|[-A-Za-z$._0-9]+))\(', l).group(1)] = l
        elif l.startswith('%') and ' = type ' in l:
            types.append(l)
    seen, work, out = set(), list(roots), []
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        if n in defs and (PANIC.search(n) or hook(n)):
            continue
        body = '\n'.join(defs[n]) if n in defs else globs.get(n, decls.get(n, ''))
        if body:
            out.append((0 if n in globs else 1, body))
        work += re.findall(r'@(?:"[^"]*"|[-A-Za-z$._0-9]+)', body)
    out.sort(key=lambda x: x[0])
    return '\n'.join(types + [b for _, b in out])


def hook(n):
    for k in ('___rust_alloc', '___rust_dealloc', '___rust_realloc', '___rust_alloc_zeroed', '___rust_no_alloc_shim_is_unstable_v2'):
        if n.strip('@"').endswith('7___rustc%d%s' % (len(k) - 1, k)) or n.strip('@"').endswith(k):
            return k
    return None


class NoHost:
    """Nothing outside the module may be reached."""

    def copy(self):
        h = NoHost()
        h.top = self.top
        return h

    def stamp(self):
        return self.top

    def call(self, ex, st, name, args):
        k = hook(name)
        if k in ('___rust_alloc', '___rust_alloc_zeroed', '___rust_realloc'):
            n, al = (args[0], args[1]) if k != '___rust_realloc' else (args[3], args[2])
            out = []
            for s, n in ex.concretize(st, n, 32, 'allocation size'):
                h = s.host
                a = (h.top + 15) // 16 * 16
                h.top = a + n + 16
                if h.top > s.pages * sym.PAGE:
                    raise Bound('more memory than the module is given')
                for i in range(a, a + n):
                    s.mem[i] = 0 if k.endswith('zeroed') else sym.UNDEF
                if k == '___rust_realloc':
                    for s2, old in ex.concretize(s, args[1], 32, 'old size'):
                        for i in range(min(old, n)):
                            s2.mem[a + i] = s2.mem.get(args[0] + i, 0)
                        out.append((s2, a))
                else:
                    out.append((s, a))
            return out
        if k:
            return [(st, None)]
        if PANIC.search(name):
            raise Trap('panic')
        if name in ('memcmp', 'bcmp'):
            out = []
            for s, n in ex.concretize(st, args[2], 32, 'memcmp length'):
                r = 0
                for x, y in reversed(list(zip(ex.load_bytes(s, args[0], n), ex.load_bytes(s, args[1], n)))):
                    r = bv.ite(bv.eq(x, y, 8), r, bv.sub(bv.zext(x, 8, 32), bv.zext(y, 8, 32), 32), 32)
                out.append((s, r))
            return out
        raise Unsupported('call of %s' % name)


class Front:
    def __init__(self, roots, **kw):
        b = build.frontend()
        self.wasm = b['wasm']
        self.mod = llir.parse(normalise(reachable(open(b['ll']).read(), ['@' + r for r in roots])))

    def executor(self, **kw):
        def host():
            h = NoHost()
            h.top = ex.lay.pages * sym.PAGE
            return h
        ex = sym.Executor(self.mod, host, merge=lambda n: False, gap=0, **kw)
        return ex

    def call(self, fn, bs, pc=(), room=None, solver=None, **kw):
        """Symbolic run of fn(bytes): [(state, output bytes or None with state.out a trap)]."""
        ex = self.executor(**kw)
        if solver is not None:
            ex.solver = solver
        st = ex.initial(pc)
        room = room or 8 * len(bs) + 64
        base = st.pages * sym.PAGE
        st.pages += 4 + (4 * (len(bs) + room)) // sym.PAGE
        p, o = base, base + len(bs) + 64
        for i, b in enumerate(bs):
            st.mem[p + i] = b
        st.host.top = o + room + 64
        out = []
        for s, n in ex.call(st, '@' + fn, [p, len(bs), o]):
            for s2, m in ex.concretize(s, n, 32, 'output length'):
                out.append((s2, [s2.mem.get(o + i, 0) for i in range(m)]))
        for s in ex.done:
            out.append((s, None))
        return ex, out


def native(wasm, fn, data, room):
    """The compiled code's answer: bytes, or None if it panics or does not return in time."""
    import subprocess
    js = ('const fs=require("fs");const i=new WebAssembly.Instance(new WebAssembly.Module(fs.readFileSync(process.argv[1])),{}).exports;'
          'const d=fs.readFileSync(0);const p=i.fe_buffer(d.length+1),o=i.fe_buffer(+process.argv[3]);'
          'new Uint8Array(i.memory.buffer).set(d,p);const n=i[process.argv[2]](p,d.length,o);'
          'console.log(Buffer.from(i.memory.buffer).subarray(o,o+n).toString("hex"))')
    try:
        r = subprocess.run(['node', '-e', js, wasm, fn, str(room)], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=20)
    except subprocess.TimeoutExpired:
        return 'no answer'
    return bytes.fromhex(r.stdout.decode().strip()) if r.returncode == 0 else 'panic'
