"""Build /repo's current working tree, out of tree, in one of several variants.

Every variant is built from a *copy* of the sources (never inside /repo), so that
/repo and /repo/build are left untouched.  Finished builds are kept under
/verif/.build/<variant>-<hash of the copied sources> (git-ignored), keyed by the
content of every source file, so a changed tree can never meet a stale build.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import time

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, '.build')
PYTHON = '/opt/venv/bin/python'
SKIP_TOP = {'build', '.git', 'examples'}

COMMON = ['--wrap-mode=nodownload', '-Dpython.bytecompile=-1']

VARIANTS = {
    # same options as /opt/vp/build.sh
    'plain': dict(cc='gcc', cxx='g++',
                  opts=['--buildtype=release', '-Db_ndebug=if-release', '-Doptimization=3']),
    # memory + undefined behaviour.  float-divide-by-zero is IEEE-defined and relied upon.
    # "integer" (unsigned wrap) is not undefined and is left out.
    'asan': dict(cc='clang', cxx='clang++',
                 opts=['--buildtype=debugoptimized', '-Db_ndebug=true', '-Doptimization=1',
                       '-Dwerror=false', '-Db_lundef=false'],
                 flags=('-fsanitize=address,undefined,float-cast-overflow '
                        '-fno-sanitize=float-divide-by-zero,function,vptr '
                        '-fno-sanitize-recover=undefined,float-cast-overflow '
                        '-fno-omit-frame-pointer -shared-libasan -w')),
    'tsan': dict(cc='gcc', cxx='g++',
                 opts=['--buildtype=debugoptimized', '-Db_ndebug=true', '-Doptimization=1',
                       '-Dwerror=false', '-Db_lundef=false'],
                 flags='-fsanitize=thread -fno-omit-frame-pointer -w'),
}


class BuildError(Exception):
    pass


def _files(root):
    out = []
    for d, dirs, names in os.walk(root):
        if d == root:
            dirs[:] = [x for x in dirs if x not in SKIP_TOP]
        dirs[:] = sorted(x for x in dirs if x not in ('__pycache__', '.git', '.pytest_cache'))
        for n in sorted(names):
            if n.endswith('.pyc'):
                continue
            out.append(os.path.relpath(os.path.join(d, n), root))
    return sorted(out)


def tree_hash(root=None):
    root = root or REPO
    h = hashlib.sha256()
    for f in _files(root):
        p = os.path.join(root, f)
        h.update(f.encode() + b'\0')
        if os.path.islink(p):
            h.update(os.readlink(p).encode())
        else:
            with open(p, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def _copy(dst):
    for f in _files(REPO):
        s, d = os.path.join(REPO, f), os.path.join(dst, f)
        os.makedirs(os.path.dirname(d), exist_ok=True)
        shutil.copy2(s, d, follow_symlinks=False)


def _clang_rt():
    return subprocess.run(['clang', '-print-runtime-dir'], capture_output=True,
                          text=True).stdout.strip()


def _env(v):
    env = dict(os.environ)
    if v['cc'] == 'clang':
        env['LD_LIBRARY_PATH'] = _clang_rt()
    env['PATH'] = '/opt/venv/bin:' + env.get('PATH', '/usr/bin:/bin')
    env['CC'], env['CXX'] = v['cc'], v['cxx']
    env['PYTHONHASHSEED'] = '0'
    for k in ('CFLAGS', 'CXXFLAGS', 'LDFLAGS', 'CPPFLAGS', 'PYTHONPATH', 'LD_PRELOAD'):
        env.pop(k, None)
    return env


def ensure(variant, jobs=None):
    """Return the site directory of `variant`, building it when needed."""
    v = VARIANTS[variant]
    key = f'{variant}-{tree_hash()}-{hashlib.sha256(repr(v).encode()).hexdigest()[:6]}'
    dest = os.path.join(CACHE, key)
    site = os.path.join(dest, 'site')
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, f'.lock-{variant}'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, '.complete')):
            return site
        # drop older builds of this variant (disk space is limited), but not those that a running check may use
        for old in os.listdir(CACHE):
            if old.startswith(variant + '-') and time.time() - os.stat(os.path.join(CACHE, old)).st_mtime > 5400:
                shutil.rmtree(os.path.join(CACHE, old), ignore_errors=True)
        work = tempfile.mkdtemp(prefix=f'work-{variant}-', dir=CACHE)
        try:
            _copy(work)
            b = os.path.join(work, 'build')
            cmd = ['meson', 'setup', b, '--prefix', os.path.join(b, 'install'),
                   f'-Dpython.purelibdir={site}', f'-Dpython.platlibdir={site}'] + COMMON + v['opts']
            if 'flags' in v:
                cmd += [f'-Dc_args={v["flags"]}', f'-Dcpp_args={v["flags"]}',
                        f'-Dc_link_args={v["flags"]}', f'-Dcpp_link_args={v["flags"]}']
            env = _env(v)
            os.makedirs(dest, exist_ok=True)
            for step in (cmd, ['ninja', '-C', b] + ([f'-j{jobs}'] if jobs else []),
                         ['meson', 'install', '-C', b, '--no-rebuild', '--quiet']):
                r = subprocess.run(step, cwd=work, env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    raise BuildError(f'{" ".join(step)}\n{r.stdout[-6000:]}')
            open(os.path.join(dest, '.complete'), 'w').close()
        finally:
            shutil.rmtree(work, ignore_errors=True)
    return site


def runtime_env(variant):
    """Environment additions needed to load a sanitizer build into python."""
    env = {}
    if variant == 'asan':
        d = _clang_rt()
        env['LD_PRELOAD'] = os.path.join(d, 'libclang_rt.asan-x86_64.so')
        env['LD_LIBRARY_PATH'] = d
        env['PYTHONMALLOC'] = 'malloc'
    elif variant == 'tsan':
        p = subprocess.run(['gcc', '-print-file-name=libtsan.so'],
                           capture_output=True, text=True).stdout.strip()
        env['LD_PRELOAD'] = os.path.realpath(p)
        env['PYTHONMALLOC'] = 'malloc'
    return env


if __name__ == '__main__':
    for v in sys.argv[1:] or ['plain']:
        print(ensure(v))
