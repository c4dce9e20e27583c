"""Facts: the MIR of /repo/steit and of the derive corpus, as produced by the compiler driver.

Rebuilt whenever a source the facts depend on changes (the key is a hash over their contents)."""
import fcntl
import hashlib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get('STEIT_SA_BUILD', HERE + '/.build')
REPO = os.environ.get('STEIT_REPO', '/repo')
FLAGS = '-Zalways-encode-mir -Zmir-opt-level=0 -Zinline-mir=no -Awarnings'


class FactsError(Exception):
    pass


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True,
                          check=True).stdout.strip()


def files_under(*dirs):
    out = []
    for d in dirs:
        if os.path.isfile(d):
            out.append(d)
            continue
        for r, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'node_modules'))
            for f in sorted(fs):
                out.append(os.path.join(r, f))
    return out


def hash_files(fs):
    h = hashlib.sha256()
    for f in fs:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as x:
            h.update(hashlib.sha256(x.read()).digest())
    return h.hexdigest()[:24]


def run(cmd, env, cwd):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def build_driver():
    src = files_under(HERE + '/driver/src', HERE + '/driver/Cargo.toml')
    key = hash_files(src)
    out = HERE + '/.build/driver-' + key
    exe = out + '/debug/steit-sa-driver'
    if not os.path.exists(exe):
        env = dict(os.environ, CARGO_TARGET_DIR=out)
        env.pop('RUSTC_WRAPPER', None)
        rc, o = run(['cargo', '+nightly', 'build', '--offline'], env, HERE + '/driver')
        if rc:
            raise FactsError('the analysis driver does not build:\n' + o[-3000:])
    return exe


def cargo_env(exe, target, outdir, crates):
    lib = sysroot() + '/lib'
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC', 'CARGO_BUILD_TARGET'):
        env.pop(k, None)
    env.update(LD_LIBRARY_PATH=lib + ':' + os.environ.get('LD_LIBRARY_PATH', ''),
               STEIT_SA_CRATES=crates, STEIT_SA_OUT=outdir, RUSTC_WRAPPER=exe, RUSTFLAGS=FLAGS,
               CARGO_TARGET_DIR=target, CARGO_TERM_COLOR='never', CARGO_NET_OFFLINE='true',
               CARGO_INCREMENTAL='0')
    return env


def repo_sources():
    return files_under(REPO + '/steit', REPO + '/steit-derive', REPO + '/Cargo.toml', REPO + '/Cargo.lock')


def facts(verbose=False):
    """directory holding steit.json and corpus.json for the current tree"""
    os.makedirs(BUILD, exist_ok=True)
    with open(BUILD + '/lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = build_driver()
        key = hash_files(repo_sources() + files_under(HERE + '/corpus/src', HERE + '/corpus/Cargo.toml') + [exe, HERE + '/sa/facts.py'])
        out = BUILD + '/facts-' + key
        if os.path.exists(out + '/done'):
            return out
        tmp = BUILD + '/facts-tmp-%d' % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        target = BUILD + '/target'
        work = BUILD + '/work'
        shutil.rmtree(work, ignore_errors=True)
        shutil.copytree(HERE + '/corpus', work + '/corpus', ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
        ct = open(work + '/corpus/Cargo.toml').read().replace('/repo/steit', REPO + '/steit')
        open(work + '/corpus/Cargo.toml', 'w').write(ct)
        if os.path.exists(REPO + '/Cargo.lock'):
            shutil.copy(REPO + '/Cargo.lock', work + '/corpus/Cargo.lock')
        env = cargo_env(exe, target, tmp, 'steit,corpus')
        # a changed source must be analysed again even when cargo thinks it is fresh
        import glob
        for p in glob.glob(target + '/debug/.fingerprint/steit*') + glob.glob(target + '/debug/.fingerprint/corpus*') + \
                glob.glob(target + '/debug/build/steit*') + glob.glob(target + '/debug/build/corpus*'):
            shutil.rmtree(p, ignore_errors=True)
        rc, o = run(['cargo', '+nightly', 'check', '--offline', '--lib'], env, work + '/corpus')
        if rc or not os.path.exists(tmp + '/steit.json'):
            # perhaps the expansion no longer compiles: the library alone still tells most
            rc2, o2 = run(['cargo', '+nightly', 'check', '--offline', '--lib'], env, REPO + '/steit')
            if not os.path.exists(tmp + '/steit.json'):
                shutil.rmtree(tmp, ignore_errors=True)
                raise FactsError('cannot compile the tree under analysis:\n' + (o + o2)[-4000:])
        if not os.path.exists(tmp + '/corpus.json'):
            open(tmp + '/corpus.err', 'w').write(o)
        # the compiled library and derive, for the compile-fail witnesses
        os.makedirs(tmp + '/lib')
        for f in glob.glob(target + '/debug/**/*.rmeta', recursive=True) + glob.glob(target + '/debug/**/*.so', recursive=True):
            b = os.path.basename(f)
            if not b.startswith(('libsyn-', 'libquote-', 'libproc_macro2-', 'libautocfg-', 'libunicode_xid-', 'libcorpus-')):
                d = tmp + '/lib/' + b
                if not os.path.exists(d):
                    shutil.copy2(f, d)
        open(tmp + '/done', 'w').write(key)
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        old = sorted((x for x in os.listdir(BUILD) if x.startswith('facts-') and x != os.path.basename(out)),
                     key=lambda x: os.path.getmtime(BUILD + '/' + x))
        for x in old[:-6]:
            shutil.rmtree(BUILD + '/' + x, ignore_errors=True)
        return out


if __name__ == '__main__':
    print(facts(True))
