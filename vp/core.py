"""Builds bitcode from /repo's current tree, runs the symbolic engine on harness entries, replays counterexamples."""
import os, sys, subprocess, hashlib, json, glob, time, shutil, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CORE = REPO + '/framework/core'
BUILD = os.environ.get('VP_BUILD', V + '/build')
ENGINE = V + '/build/engine/vpsym'
CLANG = 'clang++-18'
COMMON = ['-O1', '-DVP_SHIM=1', '-fno-vectorize', '-fno-slp-vectorize', '-gline-tables-only', '-w', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
          '-D_GNU_SOURCE', '-DPLAIN_BUILD_AS_DLL', '-DPLAIN_CREATE_SHARED_LIBRARY=1', '-DPLAIN_HAS_PTHREAD=1', '-fexceptions', '-fno-pic', '-DPLAIN_CORE', '-emit-llvm', '-c',
          # only for its side effect: no speculative loads that the source does not perform (they would look like data races)
          '-fsanitize=thread', '-mllvm', '-tsan-instrument-memory-accesses=0', '-mllvm', '-tsan-instrument-func-entry-exit=0',
          '-mllvm', '-tsan-instrument-atomics=0', '-mllvm', '-tsan-instrument-memintrinsics=0']
JOBS = int(os.environ.get('VP_JOBS', '8'))

class BuildError(Exception):
    pass

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def sh(cmd, what):
    r = run(cmd)
    if r.returncode:
        raise BuildError('%s failed: %s\n%s' % (what, ' '.join(cmd), (r.stderr + r.stdout)[-4000:]))
    return r

def sources():
    return sorted(f for f in glob.glob(CORE + '/src/**/*', recursive=True) if f.endswith(('.cc', '.cpp', '.cxx')))

def treehash(roots, extra=''):
    h = hashlib.sha256(extra.encode())
    for root in roots:
        fs = [root] if os.path.isfile(root) else sorted(p for p in glob.glob(root + '/**/*', recursive=True) if os.path.isfile(p))
        for p in fs:
            h.update(p.encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]

def shim():
    """libstdc++'s atomic_wait.h with one round of its (optional) spinning before it blocks, generated from the installed header."""
    d = BUILD + '/shim'; f = d + '/bits/atomic_wait.h'
    for src in sorted(glob.glob('/usr/include/c++/*/bits/atomic_wait.h'))[-1:]:
        t = open(src).read().replace('__atomic_spin_count = 16;', '__atomic_spin_count = 1;')
        t = t.replace('__detail::__thread_relax();', ';').replace('__detail::__thread_yield();', ';')
        if not os.path.exists(f) or open(f).read() != t:
            os.makedirs(d + '/bits', exist_ok=True); tmp = f + '.%d' % os.getpid(); open(tmp, 'w').write(t); os.rename(tmp, f)
    return '-I' + d

def ensure_engine():
    r = run(['make', '-s', '-j8', '-C', V + '/engine'])
    if r.returncode:
        raise BuildError('engine build failed\n' + r.stderr[-3000:])

def prune(d, keep=3):
    try:
        es = sorted((os.path.join(d, e) for e in os.listdir(d)), key=os.path.getmtime, reverse=True)
        for e in es[keep:]:
            shutil.rmtree(e, ignore_errors=True)
    except OSError:
        pass

def bc_repo():
    """Bitcode of every core source file, compiled from the current tree; cached by content only."""
    srcs = sources(); shimdir = shim()
    key = treehash([CORE + '/include', CORE + '/src'], ' '.join(COMMON))
    d = BUILD + '/bc/' + key
    out = d + '/repo.bc'
    if os.path.exists(out):
        os.utime(d); return out
    tmp = d + '.tmp%d' % os.getpid(); os.makedirs(tmp, exist_ok=True)
    def one(f):
        o = tmp + '/' + os.path.relpath(f, CORE).replace('/', '_') + '.bc'
        r = run([CLANG, '-std=gnu++23'] + COMMON + [shimdir, '-I' + CORE + '/include', f, '-o', o])
        if r.returncode:
            raise BuildError('does not compile: %s\n%s' % (f, r.stderr[-3000:]))
        return o
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(one, srcs))
    sh(['llvm-link-18'] + objs + ['-o', tmp + '/repo.bc'], 'llvm-link')
    for o in objs: os.unlink(o)
    if os.path.isdir(d): shutil.rmtree(tmp)
    else: os.rename(tmp, d)
    prune(BUILD + '/bc')
    return out

def bc_rt():
    srcs = sorted(glob.glob(V + '/rt/rt_*.cc'))
    key = treehash([V + '/rt'])
    d = BUILD + '/rt/' + key
    out = d + '/rt.bc'
    if os.path.exists(out): return out
    tmp = d + '.tmp%d' % os.getpid(); os.makedirs(tmp, exist_ok=True)
    objs = []
    for f in srcs:
        o = tmp + '/' + os.path.basename(f) + '.bc'
        sh([CLANG, '-std=gnu++20', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-builtin', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-gline-tables-only', '-w', '-emit-llvm', '-c', f, '-o', o], 'rt')
        objs.append(o)
    sh(['llvm-link-18'] + objs + ['-o', tmp + '/rt.bc'], 'llvm-link')
    if os.path.isdir(d): shutil.rmtree(tmp)
    else: os.rename(tmp, d)
    prune(BUILD + '/rt', 2)
    return out

def bc_module(harness):
    """harness (file name under /verif/harness) + repo + rt -> one module."""
    hf = V + '/harness/' + harness
    key = treehash([CORE + '/include', CORE + '/src', V + '/rt', hf] + sorted(glob.glob(V + '/harness/*.h')), harness + ' '.join(COMMON))
    d = BUILD + '/mod/' + key
    out = d + '/m.bc'
    if os.path.exists(out):
        os.utime(d); return out
    tmp = d + '.tmp%d' % os.getpid(); os.makedirs(tmp, exist_ok=True)
    r = run([CLANG, '-std=gnu++23'] + COMMON + [shim(), '-I' + V + '/rt', '-I' + V + '/harness', '-I' + CORE + '/include', hf, '-o', tmp + '/h.bc'])
    if r.returncode:
        raise BuildError('harness does not compile against the current tree: %s\n%s' % (harness, r.stderr[-3000:]))
    # the harness comes first; library models only fill in what nobody else defines
    sh(['llvm-link-18', tmp + '/h.bc', bc_repo(), '-o', tmp + '/a.bc'], 'llvm-link')
    sh(['llvm-link-18', '--only-needed', tmp + '/a.bc', bc_rt(), '-o', tmp + '/m.bc'], 'llvm-link')
    os.unlink(tmp + '/a.bc')
    if os.path.isdir(d): shutil.rmtree(tmp)
    else: os.rename(tmp, d)
    prune(BUILD + '/mod', 40)
    return out

def engine(mod, entry, opts, out, timeout):
    if os.path.exists(out): os.unlink(out)
    cmd = [ENGINE, mod, '--entry', 'vp_h_' + entry, '--out', out] + opts
    try:
        r = run(cmd, timeout=timeout)
    except subprocess.TimeoutExpired:
        return {'error': 'engine timeout'}
    if not os.path.exists(out):
        return {'error': 'engine failed rc=%s %s' % (r.returncode, r.stderr[-500:])}
    j = json.load(open(out)); j['stderr'] = r.stderr[-500:]
    return j

# ---------------------------------------------------------------- native replay
NATIVE = ['-std=gnu++23', '-O1', '-g', '-w', '-fno-omit-frame-pointer', '-fsanitize=address', '-D_GNU_SOURCE',
          '-DPLAIN_BUILD_AS_DLL', '-DPLAIN_CREATE_SHARED_LIBRARY=1', '-DPLAIN_HAS_PTHREAD=1', '-fexceptions', '-fno-pic', '-DPLAIN_CORE', '-I' + CORE + '/include']

def native_lib():
    key = treehash([CORE + '/include', CORE + '/src'], 'native' + ' '.join(NATIVE))
    d = BUILD + '/native/' + key
    out = d + '/libplain.a'
    if os.path.exists(out): return out
    tmp = d + '.tmp%d' % os.getpid(); os.makedirs(tmp, exist_ok=True)
    def one(f):
        o = tmp + '/' + os.path.relpath(f, CORE).replace('/', '_') + '.o'
        sh(['g++'] + NATIVE + ['-c', f, '-o', o], 'native compile'); return o
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(one, sources()))
    sh(['ar', 'rcs', tmp + '/libplain.a'] + objs, 'ar')
    for o in objs: os.unlink(o)
    if os.path.isdir(d): shutil.rmtree(tmp)
    else: os.rename(tmp, d)
    prune(BUILD + '/native', 2)
    return out

def native_exe(harness, entry):
    lib = native_lib()
    key = treehash([CORE + '/include', CORE + '/src', V + '/rt', V + '/harness/' + harness] + sorted(glob.glob(V + '/harness/*.h')), 'exe' + harness + entry)
    d = BUILD + '/nexe/' + key; out = d + '/replay'
    if os.path.exists(out): return out
    tmp = d + '.tmp%d' % os.getpid(); os.makedirs(tmp, exist_ok=True)
    def one(a):
        sh(a, 'native harness compile')
    with cf.ThreadPoolExecutor(2) as ex:
        list(ex.map(one, [['g++'] + NATIVE + ['-I' + V + '/rt', '-I' + V + '/harness', '-c', V + '/harness/' + harness, '-o', tmp + '/h.o'],
                          ['g++', '-std=gnu++20', '-O1', '-g', '-w', '-fsanitize=address', '-DVP_ENTRY=vp_h_' + entry, '-c', V + '/rt/vp_native.cc', '-o', tmp + '/n.o']]))
    sh(['g++', '-no-pie', '-fsanitize=address', tmp + '/n.o', tmp + '/h.o', '-Wl,--whole-archive', lib, '-Wl,--no-whole-archive', '-lpthread', '-ldl', '-o', tmp + '/replay'], 'native link')
    if os.path.isdir(d): shutil.rmtree(tmp)
    else: os.rename(tmp, d)
    prune(BUILD + '/nexe', 12)
    return out

def write_replay(path, v, params):
    with open(path, 'w') as f:
        f.write('# counterexample: %s: %s\n# at %s\n' % (v['kind'], v['msg'].replace('\n', ' '), v['loc']))
        for k, x in sorted(params.items()): f.write('P %s %d\n' % (k, x))
        for n, h in v['inputs']: f.write('I %s %s\n' % (n.replace(' ', '_'), h or '-'))
        if v.get('trace'): f.write('# schedule %s\n# kinds %s\n' % (v['trace'], v['trace_kinds']))

def native_replay(harness, entry, file, timeout=60):
    """-> (outcome, text); outcome in reproduced / passed / diverged / error"""
    exe = native_exe(harness, entry)
    wd = BUILD + '/scratch.%d' % os.getpid(); os.makedirs(wd + '/log', exist_ok=True)
    try:
        r = run([exe, file], cwd=wd, timeout=timeout, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:alloc_dealloc_mismatch=0:allocator_may_return_null=1'))
        txt = r.stderr[-3000:]
        if r.returncode == 0: return 'passed', txt
        if r.returncode in (102, 103): return 'diverged', txt
        return 'reproduced', txt
    except subprocess.TimeoutExpired:
        return 'reproduced', 'native run did not terminate'
    finally:
        shutil.rmtree(wd, ignore_errors=True)

ASSUMPTIONS = [
    'bounded: the claim covers exactly the operation counts, sizes and thread counts listed per harness; nothing is claimed outside them',
    'clang 18 -O1 bitcode of the sources, x86-64 little endian; GNU libstdc++ 13 headers executed as compiled; the compiled part of libstdc++ and libc is replaced by the models in /verif/rt',
    'interleavings are sequentially consistent; accesses unordered under the declared memory orders are reported as data races, not executed with weak-memory effects',
    'allocation succeeds up to the allocation limit and fails above it; log output is discarded']
