"""Builds, from the current working tree of /repo, everything the checks execute:
 - stdlib bitcode -> textual LLVM IR (clang-16, the flags of /repo/stdlib/Makefile),
 - the compiler itself (yulc / yul2wasm), from copied sources.
Everything goes to $VERIF_BUILD (default /verif/.build); /repo is only read."""
import os, sys, glob, subprocess, hashlib, fcntl, shutil, json, time, contextlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))

ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
           RUSTC_WRAPPER='', CARGO_TARGET_DIR=os.path.join(BUILD, 'target'), LC_ALL='C.UTF-8',
           PATH='/root/.cargo/bin:' + os.environ.get('PATH', '/usr/bin:/bin'), HOME=os.environ.get('HOME', '/root'))
for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'MAKEFLAGS', 'CFLAGS'):
    ENV.pop(k, None)


class BuildError(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=kw.pop('env', ENV), **kw)
    if r.returncode != 0:
        raise BuildError('%s failed (%d):\n%s' % (' '.join(cmd), r.returncode, r.stdout[-6000:]))
    return r.stdout


@contextlib.contextmanager
def lock():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield


def sync_file(src, dst, data=None):
    """Copy only when the content differs, with a fresh mtime, so that cargo's change detection is exact."""
    if data is None:
        with open(src, 'rb') as f:
            data = f.read()
    try:
        with open(dst, 'rb') as f:
            if f.read() == data:
                return False
    except FileNotFoundError:
        pass
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst + '.tmp', 'wb') as f:
        f.write(data)
    os.replace(dst + '.tmp', dst)
    return True


def sync_tree(src, dst, skip=()):
    changed, keep = False, set()
    for d, dirs, files in os.walk(src):
        rel = os.path.relpath(d, src)
        dirs[:] = sorted(x for x in dirs if os.path.normpath(os.path.join(rel, x)) not in skip and x != 'target')
        for f in sorted(files):
            r = os.path.normpath(os.path.join(rel, f))
            if r in skip or f == 'Cargo.lock' and rel == '.':
                continue
            keep.add(r)
            changed |= sync_file(os.path.join(d, f), os.path.join(dst, r))
    for d, dirs, files in os.walk(dst):
        rel = os.path.relpath(d, dst)
        dirs[:] = [x for x in dirs if os.path.normpath(os.path.join(rel, x)) not in skip]
        for f in files:
            r = os.path.normpath(os.path.join(rel, f))
            if r not in keep and r not in skip:
                os.unlink(os.path.join(d, f))
                changed = True
    return changed


def tree_hash(*paths):
    h = hashlib.sha256()
    for p in paths:
        for d, dirs, files in os.walk(p):
            dirs.sort()
            for f in sorted(files):
                q = os.path.join(d, f)
                h.update(q.encode())
                with open(q, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def src_hash(*rel):
    """Hash of parts of the repository under test."""
    h = hashlib.sha256()
    for r in rel:
        p = os.path.join(REPO, r)
        if os.path.isdir(p):
            for d, dirs, files in os.walk(p):
                dirs[:] = sorted(x for x in dirs if x not in ('wasm', 'tests', 'target', '__pycache__'))
                for f in sorted(files):
                    q = os.path.join(d, f)
                    h.update(os.path.relpath(q, REPO).encode())
                    with open(q, 'rb') as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
        else:
            with open(p, 'rb') as fh:
                h.update(r.encode() + hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def stdlib():
    """Compile the C standard library with the product's Makefile; returns the directory with wasm/{debug,release}."""
    with lock():
        return _stdlib()


def _stdlib():
    d = os.path.join(BUILD, 'tree', 'stdlib')
    sync_tree(os.path.join(REPO, 'stdlib'), d, skip=('wasm',))
    key = tree_hash_skip(d)
    stamp = os.path.join(BUILD, 'stdlib.stamp')
    try:
        if open(stamp).read() == key and os.path.exists(os.path.join(d, 'wasm/release/chain.ll')):
            return d
    except FileNotFoundError:
        pass
    run(['make', '-C', d, '-B', '-s', 'debug', 'release', 'CC=clang-16'])
    for v in ('debug', 'release'):
        w = os.path.join(d, 'wasm', v)
        for f in os.listdir(w):
            if f.endswith('.bc'):
                # -emit-llvm -S on bitcode with every pass disabled only disassembles it
                run(['clang-16', '--target=wasm32', '-x', 'ir', '-S', '-emit-llvm', '-Xclang', '-disable-llvm-passes',
                     os.path.join(w, f), '-o', os.path.join(w, f[:-3] + '.ll')])
    with open(stamp, 'w') as f:
        f.write(key)
    return d


def tree_hash_skip(d):
    h = hashlib.sha256()
    for dd, dirs, files in os.walk(d):
        dirs[:] = sorted(x for x in dirs if x != 'wasm')
        for f in sorted(files):
            q = os.path.join(dd, f)
            h.update(os.path.relpath(q, d).encode())
            with open(q, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def rt_lib():
    d = os.path.join(BUILD, 'rt')
    lib = os.path.join(d, 'libclang_rt.builtins-wasm32.a')
    src = os.path.join(VERIF, 'harness', 'rt.c')
    if not os.path.exists(lib) or os.path.getmtime(lib) < os.path.getmtime(src):
        os.makedirs(d, exist_ok=True)
        run(['clang-16', '--target=wasm32', '-O1', '-ffreestanding', '-fno-builtin', '-c', src, '-o', lib + '.tmp'])
        os.replace(lib + '.tmp', lib)
    return d


def compiler():
    """Build the compiler; returns {'yulc':..., 'yul2wasm':..., 'rt':...}."""
    with lock():
        _stdlib()
        t = os.path.join(BUILD, 'tree')
        sync_tree(os.path.join(VERIF, 'shim'), os.path.join(t, 'shim'))
        h = os.path.join(t, 'harness')
        own = {'src/yulc.rs', 'src/yul2wasm.rs'}
        sync_tree(os.path.join(REPO, 'src'), os.path.join(h, 'src'), skip=('main.rs', 'test.rs', 'tests', 'yulc.rs', 'yul2wasm.rs'))
        for f in ('Cargo.toml', 'build.rs', 'src/yulc.rs'):
            sync_file(os.path.join(VERIF, 'harness', f), os.path.join(h, f))
        if os.path.exists(os.path.join(VERIF, 'harness', 'Cargo.lock')):
            sync_file(os.path.join(VERIF, 'harness', 'Cargo.lock'), os.path.join(h, 'Cargo.lock'))
        main = open(os.path.join(REPO, 'src', 'main.rs')).read()
        import re
        main = re.sub(r'(?m)^\s*mod\s+tests?\s*;\s*$', '', main)
        sync_file(None, os.path.join(h, 'src', 'yul2wasm.rs'), main.encode())
        # include_bytes!("../../stdlib/...") is relative to src/yul2ir
        link = os.path.join(h, 'stdlib')
        if not os.path.islink(link):
            os.symlink('../stdlib', link)
        run(['cargo', 'build', '--offline', '--release', '--manifest-path', os.path.join(h, 'Cargo.toml')])
        b = os.path.join(BUILD, 'target', 'release')
        return {'yulc': os.path.join(b, 'yulc'), 'yul2wasm': os.path.join(b, 'yul2wasm'), 'rt': rt_lib()}


def rust_ir(d, out):
    """LLVM IR of the whole program (with the Rust standard library) of a crate, and the wasm module of the same build."""
    env = dict(ENV, RUSTUP_TOOLCHAIN='nightly', CARGO_TARGET_DIR=os.path.join(BUILD, out))
    root = run(['rustc', '--print', 'sysroot'], env=env).strip()
    lib = os.path.join(root, 'lib/rustlib/src/rust/library')
    run(['cargo', 'rustc', '--offline', '--release', '-Zbuild-std=std,panic_abort', '--target', 'wasm32-unknown-unknown',
         '--config', 'source.crates-io.replace-with="sv"', '--config', 'source.sv.directory="%s/vendor"' % lib,
         '--manifest-path', os.path.join(d, 'Cargo.toml'), '--', '--emit=llvm-ir'], env=env)
    rel = os.path.join(BUILD, out, 'wasm32-unknown-unknown/release')
    ll = max(glob.glob(os.path.join(rel, 'build/fe/*/out/fe.ll')) + glob.glob(os.path.join(rel, 'deps/fe*.ll')), key=os.path.getmtime)
    return {'ll': ll, 'wasm': os.path.join(rel, 'fe.wasm')}


def frontend():
    """The front end's text functions."""
    with lock():
        d = os.path.join(BUILD, 'tree', 'fe')
        sync_tree(os.path.join(VERIF, 'harness', 'fe'), d, skip=('src/utils.rs',))
        sync_file(os.path.join(REPO, 'src', 'yul2ir', 'utils.rs'), os.path.join(d, 'src', 'utils.rs'))
        return rust_ir(d, 'fe-target')


def generated_parser():
    """The parser lalrpop generates from /repo's grammar."""
    with lock():
        return _generated_parser()


def _generated_parser():
    d = os.path.join(BUILD, 'tree', 'lal')
    sync_tree(os.path.join(VERIF, 'harness', 'lal'), d, skip=('src/yul.lalrpop', 'Cargo.lock'))
    sync_file(os.path.join(VERIF, 'harness', 'lal', 'Cargo.lock'), os.path.join(d, 'Cargo.lock'))
    sync_file(os.path.join(REPO, 'src', 'yul.lalrpop'), os.path.join(d, 'src', 'yul.lalrpop'))
    run(['cargo', 'build', '--offline', '--release', '--manifest-path', os.path.join(d, 'Cargo.toml')])
    fs = glob.glob(os.path.join(BUILD, 'target/release/build/yullal-*/out/yul.rs'))
    return max(fs, key=os.path.getmtime)


def parser():
    """The generated parser and its actions, on given tokens."""
    with lock():
        gen = _generated_parser()
        d = os.path.join(BUILD, 'tree', 'ast')
        own = ('src/yul2ir/utils.rs', 'src/yul2ir/ast.rs', 'src/yul.rs')
        sync_tree(os.path.join(VERIF, 'harness', 'ast'), d, skip=own)
        for f in ('utils', 'ast'):
            sync_file(os.path.join(REPO, 'src', 'yul2ir', f + '.rs'), os.path.join(d, 'src', 'yul2ir', f + '.rs'))
        sync_file(gen, os.path.join(d, 'src', 'yul.rs'))
        return rust_ir(d, 'ast-target')


if __name__ == '__main__':
    t = time.time()
    if 'stdlib' in sys.argv[1:]:
        print(stdlib())
    else:
        print(json.dumps(compiler()))
    print('%.1fs' % (time.time() - t))
