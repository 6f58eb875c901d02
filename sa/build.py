"""Compile /repo's current working tree to IR and load it (both library flavours)."""
import threading
import os, subprocess, tempfile, shutil, hashlib, json
from concurrent.futures import ThreadPoolExecutor
from . import ir

REPO = os.environ.get('SA_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FLAGS = ['--target=x86_64-w64-windows-gnu', '-DPTW32_ARCHAMD64', '-DPTW32_BUILD_INLINED', '-DPTW32_STATIC_LIB',
         '-DHAVE_CONFIG_H', '-DMINGW_HAS_SECURE_API', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w',
         '-fno-discard-value-names', '-S', '-emit-llvm']
FLAVOURS = {
    'c': (['clang', '-fgnu89-inline', '-DPTW32_CLEANUP_C'], 'pthread-JMP.c'),
    'cxx': (['clang++', '-DPTW32_CLEANUP_CXX', '-include', 'exception'], 'pthread-EH.cpp'),
}


class BuildError(Exception):
    pass


def dumper():
    """The IR dumper binary, built from tools/irdump.cpp when missing or stale."""
    src = os.path.join(VERIF, 'tools', 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    out = os.path.join(VERIF, 'build', 'irdump-' + h)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cfg = '/usr/lib/llvm-18/bin/llvm-config'
    cxx = [f for f in subprocess.check_output([cfg, '--cxxflags'], text=True).split() if not f.startswith('-std')]
    ld = subprocess.check_output([cfg, '--ldflags', '--libs', '--link-shared'], text=True).split()
    tmp = '%s.%d.%d' % (out, os.getpid(), threading.get_ident())
    r = subprocess.run(['clang++', '-O1', '-fno-rtti'] + cxx + ['-std=c++17', '-w', src, '-o', tmp] + ld, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('cannot build the IR dumper:\n' + r.stderr[-3000:])
    os.rename(tmp, out)
    return out


def compile_one(fl, srcs, work, extra=()):
    cc, unit = FLAVOURS[fl]
    ll = os.path.join(work, fl + '.ll')
    r = subprocess.run(cc + FLAGS + list(extra) + ['-I' + REPO, '-o', ll, srcs or os.path.join(REPO, unit)], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('clang cannot compile %s:\n%s' % (unit, r.stderr[-3000:]))
    js = os.path.join(work, fl + '.json')
    with open(js, 'w') as f:
        r = subprocess.run([dumper(), ll], stdout=f, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        raise BuildError('irdump failed: ' + r.stderr[-2000:])
    return ir.load(js, fl)


def programs(flavours=('c', 'cxx')):
    dumper()
    work = tempfile.mkdtemp(prefix='sa-ir-')
    try:
        with ThreadPoolExecutor(2) as ex:
            fs = {fl: ex.submit(compile_one, fl, None, work) for fl in flavours}
            return {fl: f.result() for fl, f in fs.items()}
    finally:
        shutil.rmtree(work, ignore_errors=True)


def witness(fl, path):
    """Compile a witness unit of /verif against /repo's headers."""
    work = tempfile.mkdtemp(prefix='sa-wit-')
    try:
        return compile_one(fl, path, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


CLIENT = ['--target=x86_64-w64-windows-gnu', '-DPTW32_STATIC_LIB', '-O0', '-Xclang', '-disable-O0-optnone', '-g', '-w', '-fno-discard-value-names', '-S', '-emit-llvm']


def client(fl):
    """A user's program (sa/client) compiled against /repo's public headers with nothing but what a user defines:
    -> (the program alone, the program linked with the library)"""
    work = tempfile.mkdtemp(prefix='sa-cli-')
    try:
        lib, cli, both = (os.path.join(work, n) for n in ('lib.ll', 'cli.ll', 'both.ll'))
        cc, unit = FLAVOURS[fl]
        def run(*cmd):
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode:
                raise BuildError('%s failed:\n%s' % (' '.join(cmd[:1] + cmd[-1:]), r.stderr[-3000:]))
            return r.stdout
        run(*(cc + FLAGS + ['-I' + REPO, '-o', lib, os.path.join(REPO, unit)]))
        run(*(cc[:1] + CLIENT + ['-I' + REPO, '-o', cli, os.path.join(VERIF, 'sa', 'client', 'client.' + ('c' if fl == 'c' else 'cpp'))]))
        run('llvm-link', '-S', '-o', both, cli, lib)
        return tuple(ir.Program(json.loads(run(dumper(), x)), fl) for x in (cli, both))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def declared(fl='c'):
    """the functions the public headers declare to a user: {name: (file, line)}"""
    cc = FLAVOURS[fl][0][:1]
    r = subprocess.run(cc + [x for x in CLIENT if x not in ('-S', '-emit-llvm', '-g')] + ['-I' + REPO, '-fsyntax-only', '-Xclang', '-ast-dump=json',
                             os.path.join(VERIF, 'sa', 'client', 'client.' + ('c' if fl == 'c' else 'cpp'))], capture_output=True, text=True)
    if r.returncode:
        raise BuildError('the public headers do not compile:\n' + r.stderr[-3000:])
    out, cur, line = {}, '', 0
    root = os.path.realpath(REPO) + os.sep
    # locations are only printed where they change, in the order of the text
    work = [json.loads(r.stdout)]
    while work:
        n = work.pop()
        if isinstance(n, list):
            work += n[::-1]
        elif isinstance(n, dict):
            if n.get('kind') == 'FunctionDecl':
                l = n.get('loc', {})
                for x in (l.get('spellingLoc') or {}, l.get('expansionLoc') or l):
                    cur, line = x.get('file', cur), x.get('line', line)
                if os.path.realpath(cur).startswith(root) and n.get('storageClass') != 'static' and not n.get('inline'):
                    out[n['name']] = (os.path.basename(cur), line)
            if 'file' in n:
                cur = n['file']
            if 'line' in n:
                line = n['line']
            work += [v for k, v in list(n.items())[::-1] if isinstance(v, (dict, list)) and k != 'includedFrom']
    return out


def constants():
    with ThreadPoolExecutor(2) as ex:
        a, b = ex.map(lambda n: _consts(n), ('consts.c', 'iconsts.c'))
    a.update(b)
    return a


def _consts(src):
    p = witness('c', os.path.join(VERIF, 'sa', src))
    out = {}
    for k, g in p.globals.items():
        if k.startswith('v_') and 'init' in g:
            i = g['init']
            if i[0] == 'c':
                out[k[2:]] = i[1]
            elif i[0] in ('n', 'z'):
                out[k[2:]] = 0
            elif i[0] == 'ce':
                j = i
                while j[0] == 'ce':
                    j = j[2]
                if j[0] == 'c':
                    out[k[2:]] = j[1]
    return out
