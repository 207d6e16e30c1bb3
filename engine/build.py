"""Builds the MIR extractor and extracts the MIR of /repo's current tree."""
import fcntl, glob, os, subprocess, sys, json, shutil, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')

STOP = {
    'lib': [],
    'cli': ['clap', 'std::fmt', 'core::fmt', 'std::sys', 'std::rt', 'std::panicking', 'core::panicking'],
    'html': ['regex', 'core::fmt', 'std::fmt'],
}


def sh(cmd, env=None, cwd=None):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


_sysroot = None


def sysroot():
    global _sysroot
    if _sysroot is None:
        _sysroot = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()
    return _sysroot


class BuildError(Exception):
    pass


def build_mirdump():
    env = dict(os.environ, LD_LIBRARY_PATH=sysroot() + '/lib')
    rc, out = sh(['cargo', '+nightly', 'build', '--offline', '--target-dir', BUILD + '/mirdump'], env,
                 VERIF + '/mirdump')
    if rc:
        raise BuildError('mirdump does not build:\n' + out[-4000:])
    return BUILD + '/mirdump/debug/mirdump'


def _materialise(kind):
    """Copies the harness crate of `kind` to the build directory, pointing at REPO."""
    name = {'lib': 'harness', 'html': 'harness', 'cli': 'climain'}[kind]
    dst = BUILD + '/src-' + kind
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(VERIF + '/' + name, dst)
    p = dst + '/Cargo.toml'
    s = open(p).read().replace('/repo', REPO)
    open(p, 'w').write(s)
    # never trust cargo's freshness cache for the crates under analysis
    for f in (glob.glob(BUILD + '/target-%s/debug/.fingerprint/*' % kind) +
              glob.glob(BUILD + '/target-%s/debug/build/*' % kind)):
        if os.path.basename(f).startswith(('minifier', 'vharness', 'vcli')):
            shutil.rmtree(f, ignore_errors=True)
    return dst


def dump(kind, extra_env=None):
    """Returns the path of the MIR dump of the crate `kind`."""
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        md = build_mirdump()
        src = _materialise(kind)
        out = BUILD + '/%s.%d.json' % (kind, os.getpid())
        stop = BUILD + '/stop-' + kind
        open(stop, 'w').write('\n'.join(STOP[kind]) + '\n')
        env = dict(os.environ, LD_LIBRARY_PATH=sysroot() + '/lib', RUSTC_WORKSPACE_WRAPPER=md,
                   MIRDUMP_CRATE={'lib': 'vharness', 'html': 'vharness', 'cli': 'vcli'}[kind],
                   MIRDUMP_OUT=out, MIRDUMP_STOP=stop,
                   RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 -Zub-checks=no --cap-lints=warn')
        if kind == 'cli':
            env['MIRDUMP_ALL'] = '1'
        env.update(extra_env or {})
        cmd = ['cargo', '+nightly', 'check', '--offline', '--target-dir', BUILD + '/target-' + kind]
        if kind == 'html':
            cmd += ['--features', 'html']
        if kind == 'cli':
            cmd += ['--bins']
        rc, log = sh(cmd, env, src)
        if rc or not os.path.exists(out):
            raise BuildError('cannot extract MIR (%s):\n%s' % (kind, log[-6000:]))
        return out


def load(kind):
    from mir import Program
    p = dump(kind)
    prog = Program(p)
    os.unlink(p)
    prog.kind = kind
    return prog
