"""Compiles /repo's current sources: to LLVM IR for the verifier, natively
(with sanitizers) for contract execution and replay."""
import glob
import os
import threading
import subprocess
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
GUARD = 'BRUNSLI_CONTRACTS'

INC = ['-I' + REPO, '-I' + REPO + '/c/include', '-I' + ROOT + '/harness']
COMMON = ['-std=c++11', '-w', '-DNDEBUG', '-DBRUNSLI_DISABLE_LOG', '-fno-access-control']
IRFLAGS = COMMON + ['-O1', '-Xclang', '-disable-llvm-passes', '-fno-exceptions', '-fno-rtti', '-gline-tables-only',
                    '-D' + GUARD]
PASSES = 'function(sroa,early-cse,simplifycfg,loop-simplify,lcssa)'
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,function,shift-base,pointer-overflow',
       '-fno-sanitize-recover=all']
NATFLAGS = COMMON + ['-O1', '-g1', '-fno-omit-frame-pointer'] + SAN


class BuildError(Exception):
    pass


def run(cmd, timeout=300):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
    if p.returncode:
        raise BuildError(' '.join(cmd)[:300] + '\n' + p.stderr[-3000:])
    return p.stdout


def repo_sources():
    out = []
    for d in ('common', 'dec', 'enc'):
        out += sorted(glob.glob('%s/c/%s/*.cc' % (REPO, d)))
    return out


class Build:
    def __init__(self, scratch, jobs=8):
        self.dir = scratch
        self.ex = ThreadPoolExecutor(jobs)
        self.guard = True
        self.lock = threading.Lock()

    def obj(self, src, out, flags):
        run(['clang++-18'] + flags + INC + ['-c', src, '-o', out])
        return out

    def bitcode(self, src, tag='r'):
        out = os.path.join(self.dir, tag + '_' + src.replace('/', '_') + '.bc')
        flags = IRFLAGS if self.guard else [f for f in IRFLAGS if f != '-D' + GUARD]
        run(['clang++-18'] + flags + INC + ['-emit-llvm', '-c', src, '-o', out])
        return out

    def start_lib(self):
        """bitcode of every repository source"""
        self.libbc = [self.ex.submit(self.bitcode, s) for s in repo_sources()]

    def start_native_lib(self):
        def mk(s):
            return self.obj(s, os.path.join(self.dir, 'n_' + s.replace('/', '_') + '.o'), NATFLAGS)
        self.libo = [self.ex.submit(mk, s) for s in repo_sources()]
        self.runtime = self.ex.submit(lambda: self.obj(os.path.join(HERE, 'native.cc'),
                                                       os.path.join(self.dir, 'native_rt.o'), NATFLAGS))

    def native_lib(self):
        a = os.path.join(self.dir, 'librepo.a')
        os_ = [f.result() for f in self.libo]
        with self.lock:
            if not os.path.exists(a):
                run(['ar', 'rcs', a + '.tmp'] + os_)
                os.rename(a + '.tmp', a)
        return a

    def ir(self, tus, name):
        own = [self.bitcode(os.path.join(ROOT, 'harness', t), 'h_' + name) for t in tus]
        lib = [f.result() for f in self.libbc]
        cur = os.path.join(self.dir, name + '.bc')
        run(['llvm-link-18'] + own + ['-o', cur])
        # the repository's functions are pulled in on demand
        for r in range(3):
            nxt = os.path.join(self.dir, '%s.%d.bc' % (name, r))
            run(['llvm-link-18', '--only-needed', cur] + lib + ['-o', nxt])
            same = os.path.getsize(nxt) == os.path.getsize(cur)
            cur = nxt
            if same:
                break
        out = os.path.join(self.dir, name + '.ll')
        run(['opt-18', '-S', '-passes=' + PASSES, cur, '-o', out])
        return out

    def native(self, tus, name, extra=()):
        objs = []
        for t in tus:
            o = os.path.join(self.dir, 'nh_%s_%s.o' % (name, t.replace('/', '_')))
            self.obj(os.path.join(ROOT, 'harness', t), o, NATFLAGS)
            objs.append(o)
        exe = os.path.join(self.dir, 'nat_' + name)
        run(['clang++-18'] + NATFLAGS + ['-rdynamic'] + objs + list(extra) + [self.runtime.result(), self.native_lib(),
            '-Wl,--allow-multiple-definition', '-ldl', '-lbrotlienc', '-lbrotlidec', '-lbrotlicommon', '-lm', '-lpthread', '-o', exe])
        return exe
