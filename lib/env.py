"""Paths, building of the code under test, scratch directories."""
import atexit, fcntl, os, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, '.build')
SPEC = os.path.join(VERIF, 'spec')
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'
T0 = time.time()


class ToolError(Exception):
    pass


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        base = os.path.join(tempfile.gettempdir(), 'vrf')
        os.makedirs(base, exist_ok=True)
        _scratch = tempfile.mkdtemp(prefix='c%d_' % os.getpid(), dir=base)
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def cargo_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='1.98.1', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             RUSTC_WRAPPER='', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_INCREMENTAL='1')
    e.pop('CARGO_TARGET_DIR', None)
    e['PATH'] = '/root/.cargo/bin:/usr/local/cargo/bin:' + e.get('PATH', '')
    return e


class _Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def _cargo(args, what):
    r = subprocess.run(['cargo'] + args, env=cargo_env(), cwd=VERIF,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError('%s does not build:\n%s' % (what, r.stdout[-4000:]))


ARGON = ['--config', 'profile.dev.package.argon2.opt-level=3',
         '--config', 'profile.dev.package.blake2.opt-level=3']


def start_build_driver():
    def wait(p):
        with _Lock('driver'):
            _cargo(['build', '--offline', '--manifest-path', os.path.join(VERIF, 'harness/driver/Cargo.toml'),
                    '--target-dir', os.path.join(BUILD, 'driver')], 'driver')
        return os.path.join(BUILD, 'driver/debug/driver')
    return wait(None)


def ensure_lockfile():
    lk = os.path.join(REPO, 'Cargo.lock')
    if not os.path.exists(lk) and os.path.exists('/opt/vp/Cargo.lock'):
        shutil.copy('/opt/vp/Cargo.lock', lk)


def build_repo():
    """the broker and the password tool, from /repo's working tree"""
    with _Lock('repo'):
        ensure_lockfile()
        t = os.path.join(BUILD, 'target')
        _cargo(['build', '--workspace', '--offline', '--manifest-path', os.path.join(REPO, 'Cargo.toml'),
                '--target-dir', t] + ARGON, 'the repository')
        # a private copy: another check may rebuild while this one runs
        d = os.path.join(scratch(), 'bin')
        os.makedirs(d, exist_ok=True)
        for b in ('ratelmq', 'ratelmq-passwd'):
            shutil.copy(os.path.join(t, 'debug', b), os.path.join(d, b))
    return d


def slow_lib():
    """a library that makes the steps of a start slow (harness/slow), or None without a C compiler"""
    so = os.path.join(scratch(), 'slow.so')
    if not os.path.exists(so):
        try:
            r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so, os.path.join(VERIF, 'harness/slow/slow.c'), '-ldl'])
        except OSError:
            return None
        if r.returncode:
            return None
    return so


_bins = {}
import threading
_blk = threading.Lock()


def bins():
    """(directory of the repository's binaries, driver)"""
    with _blk:
        return _bins_locked()


def _bins_locked():
    if not _bins:
        err = []

        def drv():
            try:
                _bins['driver'] = start_build_driver()
            except ToolError as e:
                err.append(e)
        th = threading.Thread(target=drv)
        th.start()
        _bins['dir'] = build_repo()
        th.join()
        if err:
            raise err[0]
        log('built')
    return _bins['dir'], _bins['driver']
