"""Builds the analysed program from /repo's current working tree: the project's own CMake configuration supplies
the translation units and flags; clang 18 compiles each to bitcode; mwsir links and dumps the whole program."""
import os, sys, json, shlex, subprocess, hashlib, tempfile, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MWS_REPO', '/repo')
LLVM = '/usr/lib/llvm-18/bin/'
BUILD = os.path.join(VERIF, 'build')


class FrontendError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        raise FrontendError('%s failed:\n%s' % (' '.join(cmd[:4]), r.stdout[-3000:]))
    return r.stdout


def build_tool():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, 'engine', 'mwsir.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(BUILD, 'mwsir-' + h)
    if os.path.exists(exe):
        return exe
    flags = shlex.split(sh([LLVM + 'llvm-config', '--cxxflags']))
    flags = [f for f in flags if not f.startswith('-std=')]
    ld = shlex.split(sh([LLVM + 'llvm-config', '--ldflags']))
    tmp = exe + '.%d' % os.getpid()
    sh([LLVM + 'clang++', '-O1', '-std=c++17', '-w'] + flags + [src, '-o', tmp] + ld + ['-lLLVM-18'])
    os.rename(tmp, exe)
    return exe


def tree_hash(extra):
    h = hashlib.sha256(extra.encode())
    for top in ('CMakeLists.txt', 'src', 'third_party', 'config', 'analytics'):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            h.update(open(p, 'rb').read())
            continue
        for d, dn, fn in os.walk(p):
            dn.sort()
            for f in sorted(fn):
                q = os.path.join(d, f)
                if os.path.islink(q) and not os.path.exists(q):
                    continue
                h.update(os.path.relpath(q, REPO).encode() + b'\0')
                h.update(open(q, 'rb').read())
    return h.hexdigest()[:24]


def analysed(path):
    r = os.path.relpath(path, REPO)
    return not (r.startswith('test/') or 'googleurl' in r)


def build_ir():
    """-> (path of the JSON dump, list of translation units)"""
    exe = build_tool()
    key = tree_hash(os.path.basename(exe) + os.path.realpath(REPO))
    cache = os.path.join(BUILD, 'ir'); os.makedirs(cache, exist_ok=True)
    out = os.path.join(cache, key + '.json'); tul = out + '.tus'
    if os.path.exists(out) and os.path.exists(tul):
        return out, json.load(open(tul))
    tmp = tempfile.mkdtemp(prefix='mwsa-')
    try:
        b = os.path.join(tmp, 'b')
        sh(['cmake', '-S', REPO, '-B', b, '-G', 'Ninja', '-Wno-dev', '-DCMAKE_BUILD_TYPE=Debug',
            '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON', '-DCMAKE_C_COMPILER=' + LLVM + 'clang',
            '-DCMAKE_CXX_COMPILER=' + LLVM + 'clang++', '-DCMAKE_CXX_FLAGS=-include cstdint'])
        cc = json.load(open(os.path.join(b, 'compile_commands.json')))
        jobs = {}
        for x in cc:
            f = os.path.normpath(os.path.join(x['directory'], x['file']))
            if analysed(f):
                jobs.setdefault(f, x)
        bc = os.path.join(tmp, 'bc'); os.makedirs(bc)

        def one(item):
            f, x = item
            c = shlex.split(x['command'])
            k = c.index('-o'); del c[k:k + 2]
            o = os.path.join(bc, os.path.relpath(f, REPO).replace('/', '_') + '.bc')
            c += ['-O0', '-Xclang', '-disable-O0-optnone', '-emit-llvm', '-o', o, '-w', '-flto',
                  '-fwhole-program-vtables', '-fvisibility=hidden', '-fno-discard-value-names']
            sh(c, cwd=x['directory'])
            return o
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            objs = list(ex.map(one, sorted(jobs.items())))
        if not objs:
            raise FrontendError('no translation units')
        t = os.path.join(tmp, 'o.json')
        sh([exe, t, REPO] + objs)
        for old in sorted((os.path.join(cache, y) for y in os.listdir(cache)), key=os.path.getmtime)[:-40]:
            try:
                os.unlink(old)
            except OSError:
                pass
        shutil.copy(t, out + '.%d' % os.getpid()); os.rename(out + '.%d' % os.getpid(), out)
        tus = [os.path.relpath(f, REPO) for f in sorted(jobs)]
        json.dump(tus, open(tul, 'w'))
        return out, tus
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == 'tool':
        print(build_tool())
    else:
        print(build_ir())
