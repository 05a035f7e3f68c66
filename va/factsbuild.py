"""Bring the facts up to date with /repo's current source.

The facts are what the compiler itself says about the code (resolved, type-checked MIR), extracted by the driver in
driver/ running as the workspace wrapper of `cargo check`. They are cached under a hash of the source with comments and
white space removed, so a run on unchanged code takes a second and a run on changed code recompiles."""
import os, re, sys, glob, hashlib, subprocess, shutil, fcntl, json

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VREPO', '/repo')
BUILD = os.path.join(HERE, 'build')

TOK = re.compile(r'''
  (?P<raw>b?r(?P<h>\#*)"(?:.|\n)*?"(?P=h))
 |(?P<str>b?"(?:[^"\\]|\\(?:.|\n))*")
 |(?P<chr>b?'(?:[^'\\\n]|\\[^\n]{1,10}?)')
 |(?P<lc>//[^\n]*)
 |(?P<bc>/\*)
 |(?P<ws>\s+)
''', re.X)


def lexed(text):
    """the text without comments, runs of white space as one blank"""
    out, i, n = [], 0, len(text)
    while i < n:
        m = TOK.search(text, i)
        if not m:
            out.append(text[i:])
            break
        out.append(text[i:m.start()])
        k = m.lastgroup
        if m.group('ws') is not None or m.group('lc') is not None:
            if out and out[-1][-1:] != ' ':
                out.append(' ')
            i = m.end()
        elif m.group('bc') is not None:
            d, j = 1, m.end()
            while d and j < n:
                a, b = text.find('*/', j), text.find('/*', j)
                if a < 0:
                    j = n
                    break
                if 0 <= b < a:
                    d, j = d + 1, b + 2
                else:
                    d, j = d - 1, a + 2
            if out and out[-1][-1:] != ' ':
                out.append(' ')
            i = j
        else:
            # a lifetime such as 'a is not matched as a character
            out.append(m.group(0))
            i = m.end()
    return re.sub(r' +', ' ', ''.join(out)).strip()


def sources():
    out = []
    for pat in ('src/**/*.rs', 'proto/src/**/*.rs', 'cli/src/**/*.rs', 'proto/build.rs', 'cli/build.rs', 'build.rs'):
        out += glob.glob(os.path.join(REPO, pat), recursive=True)
    for pat in ('proto/definitions/**/*', 'Cargo.toml', 'Cargo.lock', 'proto/Cargo.toml', 'cli/Cargo.toml', 'src/**/*'):
        out += [p for p in glob.glob(os.path.join(REPO, pat), recursive=True) if os.path.isfile(p)]
    return sorted(set(out))


def srchash():
    h = hashlib.sha256()
    for p in sources():
        rel = os.path.relpath(p, REPO)
        data = open(p, 'rb').read()
        if p.endswith('.rs'):
            try:
                data = lexed(data.decode()).encode()
            except UnicodeDecodeError:
                pass
        elif p.endswith('.proto'):
            data = re.sub(rb'//[^\n]*', b'', data)
            data = re.sub(rb'\s+', b' ', data)
        h.update(rel.encode() + b'\0' + hashlib.sha256(data).digest())
    for p in [os.path.join(HERE, 'driver/src/main.rs'), os.path.join(HERE, 'tools/mkws.py')] + sorted(glob.glob(os.path.join(HERE, 'stubs/**/*.rs'), recursive=True)):
        h.update(hashlib.sha256(open(p, 'rb').read()).digest())
    return h.hexdigest()[:24]


CRATES = {'snapchain-rlib', 'snapchain_proto-rlib', 'snapchain-executable', 'fc-executable'}


def complete(d):
    if not os.path.isdir(d) or not os.path.exists(os.path.join(d, '.complete')):
        return False
    return True


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class BuildFailed(Exception):
    pass


def env():
    e = dict(os.environ)
    sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True).stdout.strip()
    e.update(LD_LIBRARY_PATH=sysroot + '/lib', RUSTFLAGS='-Awarnings', CARGO_NET_OFFLINE='true', CARGO_PROFILE_DEV_DEBUG='0',
             CARGO_TARGET_DIR=os.path.join(BUILD, 'target'))
    for k in ('RUSTC_WRAPPER', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTUP_TOOLCHAIN'):
        e.pop(k, None)
    return e


def build_driver():
    r = run(['cargo', '+nightly', 'build', '--release', '--offline'], cwd=os.path.join(HERE, 'driver'),
            env=dict(env(), CARGO_TARGET_DIR=os.path.join(BUILD, 'driver'), RUSTFLAGS=''))
    if r.returncode:
        raise BuildFailed('driver: ' + r.stdout[-4000:])


def ensure(verbose=False):
    """returns the directory with the facts for the current source"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = srchash()
        d = os.path.join(BUILD, 'facts-' + h)
        if complete(d):
            return d
        exe, src = os.path.join(BUILD, 'driver/release/mirfacts'), os.path.join(HERE, 'driver/src/main.rs')
        if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
            build_driver()
        ws = os.path.join(BUILD, 'ws')
        r = run([sys.executable, os.path.join(HERE, 'tools/mkws.py'), REPO, ws, os.path.join(HERE, 'stubs')])
        if r.returncode:
            raise BuildFailed(r.stdout[-2000:])
        tmp = d + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        # cargo's freshness test goes by modification times: always recompile the repository's own crates
        for c in ('snapchain', 'snapchain-proto', 'fc-cli', 'fc', 'snapchain-cli'):
            for p in glob.glob(os.path.join(BUILD, 'target/debug/build', c, '*', 'fingerprint')):
                shutil.rmtree(p, ignore_errors=True)
            for p in glob.glob(os.path.join(BUILD, 'target/debug/.fingerprint', c + '-*')):
                shutil.rmtree(p, ignore_errors=True)
        e = env()
        e.update(VFACTS_DIR=tmp, RUSTC_WORKSPACE_WRAPPER=os.path.join(BUILD, 'driver/release/mirfacts'))
        r = run(['cargo', '+nightly', 'check', '--offline', '--lib', '--bins', '--workspace'], cwd=ws, env=e)
        if r.returncode:
            shutil.rmtree(tmp, ignore_errors=True)
            raise BuildFailed('cargo check: ' + r.stdout[-6000:])
        got = {os.path.basename(p)[:-6] for p in glob.glob(tmp + '/*.jsonl')}
        if not CRATES <= got:
            raise BuildFailed('facts missing for %s' % sorted(CRATES - got))
        open(os.path.join(tmp, '.complete'), 'w').write(h)
        for old in glob.glob(os.path.join(BUILD, 'facts-*')):
            if old != tmp and os.environ.get('VKEEP') is None and len(glob.glob(os.path.join(BUILD, 'facts-*'))) > 6:
                shutil.rmtree(old, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
        return d


if __name__ == '__main__':
    print(ensure(True))
