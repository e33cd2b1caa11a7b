"""Builds FireFly's library sources and the harnesses from /repo's working tree (never inside /repo)."""
import os, subprocess, json, shlex, hashlib, shutil, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VK_REPO', '/repo')
BROOT = os.environ.get('VK_BUILD', os.path.join(VERIF, '.build'))
JOBS = 8

class BuildError(Exception):
    pass

def _env():
    e = dict(os.environ)
    for k in ('CXXFLAGS', 'CFLAGS', 'LDFLAGS', 'DESTDIR'):
        e.pop(k, None)
    e['CC'] = 'gcc'; e['CXX'] = 'g++'; e['LC_ALL'] = 'C'
    e['CCACHE_DIR'] = os.path.join(BROOT, 'ccache'); e['CCACHE_MAXSIZE'] = '4G'
    e['CCACHE_NOHASHDIR'] = '1'; e['CCACHE_SLOPPINESS'] = ''
    return e

def _run(cmd, cwd=None, timeout=800):
    r = subprocess.run(cmd, cwd=cwd, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if r.returncode != 0:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    return r.stdout

def cxx():
    return (['ccache'] if shutil.which('ccache') else []) + ['g++']

class Flavour:
    """One configuration of the library: cmake options + extra compile flags."""
    def __init__(self, name, opts=(), cxxflags=(), only=None, mpi_include=None):
        self.name = name; self.opts = list(opts); self.cxxflags = list(cxxflags); self.only = only
        self.dir = os.path.join(BROOT, name)
        self.mpi_include = mpi_include
    def configure(self):
        """Lets FireFly's own CMake decide sources, definitions and generated headers."""
        os.makedirs(self.dir, exist_ok=True)
        cfg = os.path.join(self.dir, 'cfg')
        shutil.rmtree(cfg, ignore_errors=True)
        _run(['cmake', '-S', REPO, '-B', cfg, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Release',
              '-DCMAKE_EXPORT_COMPILE_COMMANDS=ON'] + self.opts)
        self.files = []; self.flags = []
        for c in json.load(open(os.path.join(cfg, 'compile_commands.json'))):
            if 'FireFly_static.dir' not in c['output']:
                continue
            self.files.append(c['file'])
            if not self.flags:
                for a in shlex.split(c['command'])[1:]:
                    if a.startswith(('-D', '-I', '-std', '-isystem')):
                        self.flags.append(a)
        # cmake's library set (FLINT etc.) is fixed by the flavour
        if not self.files:
            raise BuildError('no library sources found by cmake')
        if self.mpi_include:
            self.flags = [f for f in self.flags if 'mpi' not in f.lower()]
            self.flags = ['-I' + self.mpi_include] + self.flags
        self.flags = [f for f in self.flags if f != '-DNDEBUG']
    def cflags(self, opt='-O1'):
        return self.flags + ['-pthread', '-g1', opt, '-DNDEBUG', '-w'] + self.cxxflags

def compile_many(items):
    """items: list of (src, obj, flags). Runs them on all cores."""
    def one(it):
        src, obj, flags = it
        _run(cxx() + flags + ['-c', src, '-o', obj])
        return obj
    with ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, items))

def build(flavour, harness_srcs, exe_name, extra_flags=(), libs=('-lgmpxx', '-lgmp', '-lz'), opt='-O1', lib_opt='-O1', lib=True, extra_objs=(), link_flags=(), lib_extra_flags=()):
    """Compiles the library in `flavour` plus the harness sources; links and returns the executable path."""
    flavour.configure()
    d = flavour.dir
    items = []
    # harness first (the slowest)
    for s in harness_srcs:
        items.append((s, os.path.join(d, exe_name + '_' + os.path.basename(s) + '.o'), flavour.cflags(opt) + ['-I' + os.path.join(VERIF, 'harness')] + list(extra_flags)))
    hobjs = [i[1] for i in items]
    lobjs = []
    if lib:
        files = sorted(flavour.files, key=lambda f: -os.path.getsize(f))
        for f in files:
            if flavour.only and os.path.basename(f) not in flavour.only:
                continue
            o = os.path.join(d, os.path.basename(f) + '.o')
            lobjs.append(o)
            items.append((f, o, flavour.cflags(lib_opt) + list(lib_extra_flags)))
    compile_many(items)
    exe = os.path.join(d, exe_name)
    _run(['g++', '-pthread', '-rdynamic'] + list(link_flags) + hobjs + lobjs + list(extra_objs) + ['-o', exe] + list(libs))
    return exe

def objects(flavour, srcs, prefix, opt='-O1', lib_opt='-O1', extra_flags=()):
    """Compiles the library in `flavour` plus some sources into objects, to be linked into another build."""
    flavour.configure()
    items = [(s, os.path.join(flavour.dir, prefix + '_' + os.path.basename(s) + '.o'), flavour.cflags(opt) + ['-I' + os.path.join(VERIF, 'harness')] + list(extra_flags)) for s in srcs]
    items += [(f, os.path.join(flavour.dir, os.path.basename(f) + '.o'), flavour.cflags(lib_opt) + list(extra_flags)) for f in flavour.files]
    compile_many(items)
    return [i[1] for i in items]

def mc_objs(flavour):
    """The model checker's runtime (never instrumented)."""
    d = os.path.join(BROOT, flavour); os.makedirs(d, exist_ok=True)
    o = os.path.join(d, 'mc.o')
    _run(cxx() + ['-std=gnu++14', '-O2', '-g1', '-fno-pie', '-w'] + (['-DMC_MEM'] if flavour.startswith('tsan') else []) + ['-c', os.path.join(VERIF, 'mc', 'mc.cpp'), '-o', o])
    return [o]

DEFAULT = lambda name='default', **k: Flavour(name, **k)
FLINT = lambda name='flint', **k: Flavour(name, ['-DWITH_FLINT=true'], **k)
TSAN = ['-fsanitize=thread', '-fno-pie', '-fno-builtin-memcpy', '-fno-builtin-memmove', '-fno-builtin-memset', '-D_GLIBCXX_EXTERN_TEMPLATE=0']
FLINT_LIBS = ('-lgmpxx', '-lflint', '-lgmp', '-lz')
