"""C23: no effectful callee, no mutable global, no unsafe code in the library."""
import glob, os, re, shutil
import build, graph

DENY = ('std::fs::', 'std::env::', 'std::process::', 'std::net::', 'std::thread::', 'std::time::', 'std::os::',
        'std::io::_print', 'std::io::_eprint', 'std::io::stdio', 'std::io::stdin', 'std::io::stdout',
        'std::io::stderr', 'std::backtrace', 'std::sys::', 'std::alloc::set_alloc_error_hook', 'std::panic::set_hook',
        'std::panic::take_hook', 'std::arch::', 'core::arch::', 'std::ptr::read', 'std::ptr::write', 'std::ffi::')
DENY_RE = re.compile(r'(<impl std::ops::Drop for std::fs|std::path::Path::(exists|is_file|is_dir|metadata|canonicalize|'
                     r'read_dir|read_link|symlink_metadata|try_exists)|std::io::Std(in|out|err)|std::sync::(mpsc|Mutex|RwLock)|'
                     r'std::hash::random|std::collections::hash_map::RandomState::new|^libc::)')
# interior mutability in a static is global mutable state
CELLS = ('Cell', 'RefCell', 'Mutex', 'RwLock', 'AtomicBool', 'AtomicUsize', 'AtomicIsize', 'AtomicU8', 'AtomicU16',
         'AtomicU32', 'AtomicU64', 'AtomicI32', 'AtomicI64', 'AtomicPtr', 'UnsafeCell', 'Atomic')


def run(c):
    c.rule('Rule: in the MIR of every library function reachable from the public API (lib and html builds), no callee is '
           'one of the effectful std paths (files, environment, process, network, threads, time, standard streams), no '
           'body reads or writes a static with interior mutability, a `static mut` or a thread-local, and the crate '
           'compiles with `-F unsafe_code`.')
    for kind in ('html',):
        p = c.prog(kind)
        seen = graph.reach(p, p.roots.values())
        user = [k for k in seen if graph.is_user(p, k)]
        c.count('library functions (%s)' % kind, len(user))
        for k in user:
            fn = p.fns.get(k)
            if fn is None:
                continue
            for x in sorted(graph.edges(p, k)):
                d = p.callees[x]['def']
                c.count('callees')
                key = '%s calls %s' % (fn.name, d)
                if d.startswith(DENY) or DENY_RE.search(d):
                    c.violation(key, 'effectful callee in %s:%d' % (fn.file, fn.line))
                else:
                    c.ok(key, '%s:%d' % (fn.file, fn.line))
            for what in globals_of(p, fn):
                c.count('static uses')
                c.require('%s uses %s' % (fn.name, what[0]), what[1], 'mutable global state', fn.file)
    rc, log = unsafe_free()
    if rc == 0:
        c.ok('crate compiles with -F unsafe_code', '/repo')
    elif 'unsafe_code' in log or 'usage of an `unsafe`' in log:
        m = re.search(r'error: (?:usage of|declaration of|implementation of)[^\n]*\n\s*-->\s*([^\n]*)', log)
        c.violation('unsafe code', 'forbidden unsafe code: ' + (m.group(0).replace('\n', ' ') if m else log[-300:]))
    else:
        c.undecided('unsafe code', 'cargo check failed: ' + log[-300:])


def unsafe_free():
    env = dict(os.environ, RUSTFLAGS='-F unsafe_code')
    r = ''
    for f in glob.glob(build.BUILD + '/target-unsafe/debug/.fingerprint/minifier*'):
        shutil.rmtree(f, ignore_errors=True)
    for feats in ([], ['--features', 'html']):
        rc, log = build.sh(['cargo', '+nightly', 'check', '--offline', '--lib', '--no-default-features', '--manifest-path',
                            build.REPO + '/Cargo.toml', '--target-dir', build.BUILD + '/target-unsafe'] + feats, env,
                           build.VERIF)
        r += log
        if rc:
            return rc, r
    return 0, r


def globals_of(p, fn):
    def walk(x):
        if isinstance(x, dict):
            if 'static' in x:
                yield x['static']
            for v in x.values():
                yield from walk(v)
        elif isinstance(x, list):
            for v in x:
                yield from walk(v)
    for b, l, o in graph.operands(fn):
        if o[0] == 'k':
            for s in walk(o[2]):
                t = p.tystr(o[1])
                mut = p.types[o[1]]['k'] == 'ptr' and p.types[o[1]]['mut']
                bad = mut or any(re.search(r'\b%s\b' % x, t) for x in CELLS)
                yield ('static %s: %s' % (s, t), not bad)
    for b, (stmts, t) in enumerate(fn.blocks):
        for s in stmts:
            if s[0] == '=' and s[2][0] == 'tls':
                yield ('thread-local', False)
