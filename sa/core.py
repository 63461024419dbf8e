"""Builds the analyser and runs it on the current source of the crate."""
import fcntl, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))
TOOLCHAIN = 'nightly'
RUSTFLAGS = '-Zmir-opt-level=0 -Zmir-enable-passes=-CheckAlignment,-CheckNull -Awarnings --cap-lints allow'


class Undecided(Exception):
    """the analysis could not be carried out (the crate does not compile, ...)"""


# a check gets 900 s; what is not decided in time is not decided
START = time.time()
MOST = int(os.environ.get("VERIF_SECONDS", "780"))


def left():
    return MOST - (time.time() - START)


class limited:
    """the block is given up, as undecided, after so many seconds or when the time of the whole check is over"""

    ends = []

    def __init__(self, seconds):
        self.seconds = seconds

    def arm(self):
        if self.ends:
            signal.setitimer(signal.ITIMER_REAL, max(0.01, min(self.ends) - time.time()))
        else:
            signal.setitimer(signal.ITIMER_REAL, 0)

    def __enter__(self):
        def over(*a):
            raise Undecided('not decided within the time there is')
        signal.signal(signal.SIGALRM, over)
        self.ends.append(time.time() + min(self.seconds, left()))
        self.arm()

    def __exit__(self, *a):
        self.ends.pop()
        self.arm()


def bounded(cmd, seconds, **kw):
    """as sh, but everything it started is ended when the time is over"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=max(1, seconds))
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
    return subprocess.CompletedProcess(cmd, p.returncode, out)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree(root, sub, exts):
    out = []
    base = os.path.join(root, sub)
    if os.path.isfile(base):
        return [base]
    for d, ds, fs in os.walk(base):
        ds[:] = sorted(x for x in ds if x != 'target')
        out += [os.path.join(d, f) for f in sorted(fs) if f.endswith(exts)]
    return out


def digest(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in files:
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:24]


def sources():
    return tree(REPO, 'src', ('.rs',))


class Lock:
    def __init__(self, name):
        os.makedirs(CACHE, exist_ok=True)
        self.f = open(os.path.join(CACHE, name + '.lock'), 'w')

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)
        self.f.close()


def env():
    e = dict(os.environ)
    root = subprocess.run(['rustc', '+' + TOOLCHAIN, '--print', 'sysroot'], stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
    e['LD_LIBRARY_PATH'] = root + '/lib'
    e['CARGO_NET_OFFLINE'] = 'true'
    for k in ('RUSTC', 'RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'CARGO_BUILD_TARGET_DIR'):
        e.pop(k, None)
    return e


def driver():
    """the analyser's executable, built when it is missing or out of date"""
    adir = os.path.join(VERIF, 'analyzer')
    exe = os.path.join(adir, 'target', 'debug', 'conch-sa')
    files = tree(adir, 'src', ('.rs',)) + [os.path.join(adir, 'Cargo.toml')]
    key = digest([f for f in files])
    stamp = os.path.join(adir, 'target', 'conch-sa.stamp')
    with Lock('driver'):
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
            return exe, key
        e = env()
        e.pop('LD_LIBRARY_PATH')
        r = sh(['cargo', '+' + TOOLCHAIN, 'build', '--offline'], cwd=adir, env=e)
        if r.returncode != 0:
            raise Undecided('the analyser does not build:\n' + r.stdout[-2000:])
        with open(stamp, 'w') as f:
            f.write(key)
    return exe, key


def rustc_pass(mode, names=None, jobs=8):
    """Runs the driver as the compiler of the crate; returns a directory of results (to be removed by the caller)."""
    exe, _ = driver()
    tmp = tempfile.mkdtemp(prefix='conch-sa.')
    out = os.path.join(tmp, 'out')
    os.mkdir(out)
    e = env()
    e.update(RUSTC_WORKSPACE_WRAPPER=exe, CARGO_TARGET_DIR=os.path.join(tmp, 'target'), RUSTFLAGS=RUSTFLAGS + (' -Cdebug-assertions=off -Coverflow-checks=on' if RELEASE[0] else ''),
             CONCH_SA_OUT=out, CONCH_SA_JOBS=str(jobs))
    if DEEP[0]:
        e['CONCH_SA_DEEP'] = '1'
    e.update(mode)
    e['CONCH_SA_SECONDS'] = str(max(20, int(min(400 if DEEP[0] else 250, left() / 2))))
    r = bounded(['cargo', '+' + TOOLCHAIN, 'check', '--lib', '--offline', '--manifest-path', os.path.join(REPO, 'Cargo.toml')], left() - 120, cwd=tmp, env=e)
    shutil.rmtree(os.path.join(tmp, 'target'), ignore_errors=True)
    return tmp, out, r


# the crate as it is built without debug assertions
RELEASE = [False]
# the debug assertions of the repaired tree, which only look at values
ASSERTIONS = {'debug_assert!(self.cur.is_none());', 'debug_assert!(self.peeked.is_none());', 'debug_assert!(trailing_comments.is_empty());', 'debug_assert_eq!(cmds.is_empty(), false);', 'debug_assert_eq!(pre_esac_comments, None);',
              'debug_assert_eq!(self.escaped, None);', 'debug_assert_eq!(self.peeked, None);'}


def debugging():
    """whether the source has anything new that is there in one mode of building only; both are analysed then"""
    for f in sources():
        with open(f) as h:
            t = h.read()
        if 'debug_assertions' in t or any(re.sub(r'\s+', ' ', m) not in ASSERTIONS for m in re.findall(r'debug_assert\w*\s*!.*?;', t, re.S)):
            return True
    return False


# larger bounds (thorough runs)
DEEP = [bool(os.environ.get('DEEP'))]


def records(names):
    """{name: record} of the named analyses, computed for the current source (kept per content of the source)."""
    names = list(dict.fromkeys(names))
    _, key = driver()
    h = digest(sources() + [os.path.join(REPO, 'Cargo.toml')], key) + ('d' if DEEP[0] else '') + ('r' if RELEASE[0] else '')
    d = os.path.join(CACHE, 'rec', h)
    with Lock('rec'):
        os.makedirs(d, exist_ok=True)
        need = [n for n in names if not os.path.exists(os.path.join(d, n + '.json'))]
        if need:
            tmp, out, r = rustc_pass({'CONCH_SA_FNS': ','.join(need)})
            try:
                for n in need:
                    f = os.path.join(out, n + '.json')
                    if os.path.exists(f):
                        shutil.copy(f, os.path.join(d, n + '.json'))
                if r.returncode != 0 and not os.listdir(out):
                    raise Undecided('the crate does not compile under the analyser:\n' + r.stdout[-2000:])
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
        # keep few
        all_ = sorted((os.path.getmtime(os.path.join(CACHE, 'rec', x)), x) for x in os.listdir(os.path.join(CACHE, 'rec')))
        for _, x in all_[:-6]:
            if x != h:
                shutil.rmtree(os.path.join(CACHE, 'rec', x), ignore_errors=True)
        res = {}
        for n in names:
            f = os.path.join(d, n + '.json')
            if os.path.exists(f):
                with open(f) as fh:
                    res[n] = json.load(fh)
            else:
                res[n] = {'name': n, 'error': 'no result'}
    return res
