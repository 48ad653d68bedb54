#!/usr/bin/env python3
"""Builds the code under test from /repo's current working tree into simulation flavours.

Every .c file under /repo/src is compiled to assembly, the instructions that read the real
machine (cpuid, xgetbv, rdtsc, rdtscp) are replaced by calls into the simulator, and the
result is assembled and linked into a shared object.  Nothing in /repo is touched.
Flavours:
  gcc, clang : the release optimisation level (-O3), no instrumentation
  sched      : clang -O1 with a simulator callback at every basic block, load and store
  ref        : clang -O3, the frozen previous release in /verif/ref
  ocl        : clang -O1 with BUILD_WITH_OPENCL, OpenCL headers from 3rdParty
"""
import hashlib, os, re, subprocess, sys, shutil
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import isa
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SIM_REPO', '/repo')
OUT = os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build'))
COMMON = ['-m64', '-ffast-math', '-mxsave', '-D_CRT_SECURE_NO_WARNINGS', '-DSSE2', '-DNDEBUG', '-fPIC', '-w',
          '-mno-red-zone', '-fno-stack-protector', '-U_FORTIFY_SOURCE', '-Dmain=hsrlekit_main']
FLAVOURS = {
    'gcc':   (['gcc'], COMMON + ['-O3', '-fomit-frame-pointer']),
    'clang': (['clang'], COMMON + ['-O3']),
    'sched': (['clang'], COMMON + ['-O1', '-fno-omit-frame-pointer',
              '-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores']),
    'ref':   (['clang'], COMMON + ['-O3']),
    'ocl':   (['clang'], COMMON + ['-O1', '-DBUILD_WITH_OPENCL', '-I' + os.path.join(REPO, '3rdParty/OpenCL/include')]),
}
# libc entry points that go through the simulator (linker --wrap)
WRAP = ['malloc', 'calloc', 'realloc', 'free', 'aligned_alloc', 'posix_memalign', 'memalign',
        'fopen', 'fopen64', 'open', 'open64', 'fread', 'fwrite', 'fclose', 'fseek', 'ftell', 'fflush', 'clock_gettime', 'gettimeofday', 'time', 'clock',
        'usleep', 'nanosleep', 'sleep', 'clock_nanosleep', 'rand', 'random', 'getrandom', 'exit', '_exit', 'abort', 'atexit',
        'pthread_create', 'pthread_join', 'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock', 'pthread_once', 'call_once', 'mtx_lock', 'mtx_unlock', 'sched_yield',
        ]
WRAP_SCHED = ['memcpy', 'memmove', 'memset', 'memcmp']
INSN = re.compile(r'(^|;|\t)(\s*)(cpuid|xgetbv|rdtscp|rdtsc)(?=\s*($|;|#))')

def patch_asm(text):
    out = []
    for line in text.split('\n'):
        if 'cpuid' in line or 'xgetbv' in line or 'rdtsc' in line:
            if not line.lstrip().startswith('.') and not line.rstrip().endswith(':'):
                line = INSN.sub(lambda m: m.group(1) + m.group(2) + 'callq\tsim_insn_' + m.group(3) + '@PLT', line)
        out.append(line)
    return '\n'.join(out)

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        sys.stderr.write('BUILD FAILED: %s\n%s\n' % (' '.join(cmd), p.stdout[-4000:]))
        raise SystemExit(2)
    return p.stdout

def srcdir(flavour):
    # 'ref' is the frozen previous release kept in /verif, everything else is the tree under test
    return os.path.join(VERIF, 'ref', 'src') if flavour == 'ref' else os.path.join(REPO, 'src')

def sources(flavour):
    src = []
    for d, _, fs in os.walk(srcdir(flavour)):
        for f in fs:
            if f.endswith('.c'):
                src.append(os.path.join(d, f))
    return sorted(src)

def tree_hash(flavour):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(srcdir(flavour))):
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update(p.encode()); h.update(open(p, 'rb').read())
    h.update(open(os.path.abspath(__file__), 'rb').read())
    h.update(open(isa.__file__, 'rb').read())
    h.update(flavour.encode())
    return h.hexdigest()

def compile_one(flavour, src, odir):
    cc, flags = FLAVOURS[flavour]
    base = re.sub(r'[^A-Za-z0-9_]', '_', os.path.relpath(src, srcdir(flavour)))
    s, o = os.path.join(odir, base + '.s'), os.path.join(odir, base + '.o')
    run(cc + flags + ['-S', '-o', s, src])
    t = open(s, errors='surrogateescape').read()
    t2 = patch_asm(t)
    if t2 != t:
        open(s, 'w', errors='surrogateescape').write(t2)
    run(cc + ['-c', '-o', o, s])
    os.unlink(s)
    return o

CODEC_RE = re.compile(r'_(compress|decompress|encode|decode)(_greedy|_only_max_frequency)?$')

def codec_names():
    names = set()
    for l in open(os.path.join(VERIF, 'sim', 'codecs.inc')):
        m = re.match(r'X\("[^"]*", (\w+), (\w+),', l)
        if m:
            names.update(m.groups())
    return sorted(names)

def link(flavour, objs, so, wrap_codecs):
    cmd = ['clang', '-shared', '-Wl,-z,now', '-Wl,-Bsymbolic', '-o', so] + objs
    for w in WRAP + (WRAP_SCHED if flavour == 'sched' else ['printf', 'puts', 'putchar'] if flavour == 'ocl' else []):
        cmd.append('-Wl,--wrap=' + w)
    if wrap_codecs:
        for w in codec_names():
            cmd.append('-Wl,--wrap=' + w)
    run(cmd + ['-lm'])

def build(flavours, with_cli=False):
    os.makedirs(OUT, exist_ok=True)
    jobs, todo = [], []
    for f in flavours:
        h = tree_hash(f)
        stamp = os.path.join(OUT, f + '.hash')
        if os.path.exists(stamp) and open(stamp).read() == h and os.path.exists(os.path.join(OUT, 'lib_%s.so' % f)):
            continue
        odir = os.path.join(OUT, 'obj_' + f)
        shutil.rmtree(odir, ignore_errors=True)
        os.makedirs(odir)
        todo.append((f, h, stamp, odir))
        for s in sources(f):
            jobs.append((os.path.getsize(s), f, s, odir))
    # biggest expansions first
    big = {'rleX_Xsl_short.c': 3, 'rleX_Xsl.c': 2, 'rleX_extreme_cpu.c': 1}
    jobs.sort(key=lambda j: (-big.get(os.path.basename(j[2]), 0), -j[0]))
    objs = {f: [] for f, *_ in todo}
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        futs = [(j[1], ex.submit(compile_one, j[1], j[2], j[3])) for j in jobs]
        for f, fu in futs:
            objs[f].append(fu.result())
    for f, h, stamp, odir in todo:
        so = os.path.join(OUT, 'lib_%s.so' % f)
        link(f, sorted(objs[f]), so, False)
        if f in ('clang', 'sched'):
            link(f, sorted(objs[f]), os.path.join(OUT, 'lib_%s_cli.so' % f), True)
        if f in ('gcc', 'clang'):
            isa.table(so, os.path.join(OUT, 'lib_%s.isa' % f))
        shutil.rmtree(odir, ignore_errors=True)
        open(stamp, 'w').write(h)
    build_harness()

def build_harness():
    sd = os.path.join(VERIF, 'sim')
    h = hashlib.sha256()
    srcs = []
    for f in sorted(os.listdir(sd)):
        h.update(f.encode()); h.update(open(os.path.join(sd, f), 'rb').read())
        if f.endswith(('.c', '.S')):
            srcs.append(os.path.join(sd, f))
    exe, stamp = os.path.join(OUT, 'sim'), os.path.join(OUT, 'sim.hash')
    if os.path.exists(stamp) and open(stamp).read() == h.hexdigest() and os.path.exists(exe):
        return
    run(['clang', '-O2', '-g', '-Wall', '-Wextra', '-Wno-unused-parameter', '-fno-strict-aliasing', '-rdynamic', '-o', exe] + srcs + ['-ldl', '-lpthread', '-lm'])
    open(stamp, 'w').write(h.hexdigest())

if __name__ == '__main__':
    build(sys.argv[1:] or ['gcc', 'clang', 'sched'])
