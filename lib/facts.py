"""Facts about /repo's current working tree: built with the driver, cached by the hash of the sources."""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
DRIVER = os.path.join(VERIF, 'driver', 'target', 'debug', 'mirdump')

class BuildError(Exception): pass

def sources():
    out = []
    for root, ds, fs in os.walk(REPO):
        ds[:] = sorted(d for d in ds if d not in ('.git', 'target'))
        for f in sorted(fs):
            if f.endswith(('.rs', '.pest', '.yml', '.toml', '.lock')): out.append(os.path.join(root, f))
    return out

def digest(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as fd: h.update(fd.read())
        h.update(b'\0')
    return h.hexdigest()[:24]

def sh(cmd, cwd, env):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout

def build_driver(log):
    src = sorted(glob.glob(os.path.join(VERIF, 'driver', 'src', '*.rs'))) + [os.path.join(VERIF, 'driver', 'Cargo.toml')]
    d = digest(src)
    mark = os.path.join(CACHE, 'driver.' + d)
    if os.path.exists(mark) and os.path.exists(DRIVER): return d
    env = dict(os.environ); env.pop('RUSTC_WORKSPACE_WRAPPER', None)
    rc, out = sh(['cargo', '+nightly', 'build', '--offline'], os.path.join(VERIF, 'driver'), env)
    if rc != 0 or not os.path.exists(DRIVER): raise BuildError('driver does not build:\n' + out[-4000:])
    open(mark, 'w').close()
    log('driver built')
    return d

def facts(log=lambda s: None, force=False):
    """path of the facts of the current tree"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        dd = build_driver(log)
        key = digest(sources()) + '-' + dd[:8]
        path = os.path.join(CACHE, 'facts-%s.json' % key)
        if os.path.exists(path) and not force: return path
        # the crate is analysed in a scratch copy of the sources so that nothing is written into /repo
        work = os.path.join(CACHE, 'work')
        shutil.rmtree(work, ignore_errors=True)
        shutil.copytree(REPO, work, ignore=shutil.ignore_patterns('.git', 'target'), symlinks=True)
        lock = os.path.join(work, 'Cargo.lock')
        if not os.path.exists(lock) and os.path.exists('/opt/vp/Cargo.lock'): shutil.copy('/opt/vp/Cargo.lock', lock)
        rc, root = sh(['rustc', '+nightly', '--print', 'sysroot'], VERIF, dict(os.environ))
        if rc != 0: raise BuildError('no nightly toolchain')
        target = os.path.join(CACHE, 'target')
        # what an earlier run built of the crate itself is never reused (dependencies are)
        for f in glob.glob(os.path.join(target, 'debug', '.fingerprint', 'hibou_label-*')) + glob.glob(os.path.join(target, 'debug', 'build', 'hibou_label')):
            shutil.rmtree(f, ignore_errors=True)
        env = dict(os.environ, LD_LIBRARY_PATH=root.strip() + '/lib', RUSTUP_TOOLCHAIN='nightly', CARGO_INCREMENTAL='0',
                   CARGO_TARGET_DIR=target, RUSTC_WORKSPACE_WRAPPER=DRIVER, MIRDUMP_CRATE='hibou_label', MIRDUMP_OUT=path + '.tmp')
        env.pop('RUSTFLAGS', None)
        rc, out = sh(['cargo', 'check', '--offline'], work, env)
        if rc == 0 and not os.path.exists(path + '.tmp'):
            shutil.rmtree(target, ignore_errors=True)
            rc, out = sh(['cargo', 'check', '--offline'], work, env)
        if rc != 0 or not os.path.exists(path + '.tmp'): raise BuildError('the tree does not build:\n' + out[-4000:])
        os.rename(path + '.tmp', path)
        shutil.rmtree(work, ignore_errors=True)
        olds = sorted(glob.glob(os.path.join(CACHE, 'facts-*.json')), key=os.path.getmtime)
        for o in olds[:-4]: os.remove(o)
        log('facts of the current tree extracted')
        return path
