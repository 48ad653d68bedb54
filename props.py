"""What each check runs: simulator, builds, number of runs and time limit per tier, and what the evidence says."""
CORE_ASSUME = [
    'the input buffer is followed by 128 readable bytes of arbitrary content (encoders and decoders load whole vectors; the API gives no bound for reads)',
    'decompression output buffers are followed by the advertised extra space (rle_decompress_additional_size) or 128 bytes where a codec has none',
    'blocks up to 20 MiB (runs and gaps of up to 16 MiB); most are below 70 kB',
    'CPU levels above what this machine has are not simulated (levels are executed natively)',
]
FLEET_REAL = ['every codec of the library (110 RLE codec pairs, transforms, low entropy, multi-section), compiled from /repo/src with gcc -O3 and clang -O3', 'one-time CPU feature detection']
FLEET_STUB = ['CPUID/XGETBV (simulated CPU feature levels)', 'process memory around the buffers (arenas with guard pages, seeded stale content)', 'process restart (pristine library data segments)', 'allocator, files, clock (refusing environment)']

def fleet(quick, thorough, rule, must, extra=None):
    d = dict(sim='fleet', flavours=['gcc', 'clang'], quick=quick, thorough=thorough, block=400000, rule=rule, must_fire=must,
             state_rule='distinct (codec, producing CPU level, consuming CPU level, compilers, size class) combinations reached',
             real=FLEET_REAL, stub=FLEET_STUB, assumptions=CORE_ASSUME)
    d.update(extra or {})
    return d

OPS = 'One run: 1-4 simulated machines (compiler x CPU level) with restarts perform 3-12 seeded operations on seeded blocks. '
CHECKS = {
    'C02': fleet((900000, 240), (60000000, 3000), OPS + 'Non-trivial: a stream that was decoded; distinct by (codec, block class, stream content, decoding CPU level and compiler).', ['node-restart', 'ops:decompress']),
    'C03': fleet((900000, 240), (60000000, 3000), OPS + 'Non-trivial: a decode of a torn or padded stream; distinct by (codec, block class, cut position, kind of stale bytes).', ['torn-transfer', 'torn-inside-header', 'trailing-bytes-after-stream']),
    'C04': fleet((900000, 240), (60000000, 3000), OPS + 'Non-trivial: a call with too little space; distinct by (codec, block content, available space).', ['output-too-small(decompress)', 'output-too-small(compress)', 'missing-buffer-or-empty']),
    'C05': fleet((900000, 240), (60000000, 3000), OPS + 'Buffers lie against guard pages, canaries surround them, inputs are mapped read-only. Distinct by (codec, block class, stream content, CPU level, compiler).', ['ops:compress', 'ops:decompress']),
    'C12': fleet((900000, 240), (60000000, 3000), OPS + 'In most calls every allocation, file and clock request is refused. Distinct by (codec, block class, stream content, CPU level, compiler).', ['environment-refuses-everything']),
    'C13': fleet((900000, 240), (60000000, 3000), OPS + 'Non-trivial: a block compressed again elsewhere in memory / after other work / after a restart; distinct by (codec, block, CPU level, position in the run).', ['node-restart', 'ops:recompress']),
    'C15': fleet((700000, 240), (60000000, 3000), OPS + 'Every second machine runs the frozen previous release. Non-trivial: a decode across the release boundary; distinct by (codec, block class, stream content, CPU level).', ['node-restart', 'ops:old-stream-on-new-release', 'ops:new-stream-on-old-release'],
                 dict(flavours=['gcc', 'clang', 'ref'], real=FLEET_REAL + ['previous release: the same codecs from the frozen sources in /verif/ref, clang -O3'])),
}

TH_REAL = ['every codec and the one-time CPU feature detection, compiled from /repo/src with clang -O1 plus a callback at every basic block, load and store', 'real threads']
TH_STUB = ['thread scheduler (a baton: one thread runs at a time, the seeded scheduler decides at every callback)', 'CPUID/XGETBV', 'process start (pristine library data segments)', 'mutexes / once (cooperative versions of the same API)']
TH_ASSUME = CORE_ASSUME[:2] + ['interleavings are sequentially consistent at the granularity of basic blocks and of single loads and stores of up to 16 bytes; reordering by weaker memory models is not simulated', 'blocks up to 400 kB, mostly below 20 kB']
def threads(quick, thorough, rule, must, extra=None):
    d = dict(sim='threads', flavours=['sched'], quick=quick, thorough=thorough, block=100000, rule=rule, must_fire=must,
             state_rule='distinct (code position of the preempted or cut-off thread, thread, next thread) combinations reached', real=TH_REAL, stub=TH_STUB, assumptions=TH_ASSUME)
    d.update(extra or {})
    return d
CHECKS['C01'] = threads((240000, 300), (20000000, 3000), 'One run: 2-4 (sometimes up to 20) threads make 1-3 calls each (one third of the runs all in one codec, sharing inputs), two thirds of the runs as the very first calls of the process. Distinct: hash of the complete switch sequence (who was preempted where, who continued).', ['preemption', 'preemption-at-shared-access', 'ops:first-calls-in-process'])
CHECKS['C06'] = threads((240000, 300), (20000000, 3000), 'One run: 1-3 threads make 1-4 calls each; at least one call is cut off at a seeded point (a step number or the k-th access to process-wide data), then repeated or given up; afterwards every call is made once more. Distinct: hash of switch sequence and cut-off points.', ['call-cut-off', 'call-cut-off-at-shared-access', 'preemption'],
  dict(assumptions=TH_ASSUME + ['a call is not cut off while it holds a lock of the threading library (none is used today)']))

CHECKS['C18'] = threads((240000, 300), (20000000, 3000), 'One run: 1-3 threads make 1-3 calls each; up to three signals per thread arrive at seeded points (a step number or the k-th access to process-wide data), also inside a signal handler, and each handler makes a call of its own; afterwards every call is made once more. Distinct: hash of switch sequence and interruption points.', ['call-interrupted-by-signal', 'signal-handler-interrupted', 'preemption'],
  dict(stub=TH_STUB + ['signal delivery (the handler\'s calls are made on the interrupted thread at an instrumented point)']))

CLI_REAL = ['the command-line tool (main.c, rle_fuzz.c), compiled from /repo/src with clang -O3', 'in half of the test-mode runs: all codecs']
CLI_STUB = ['files (simulated disk)', 'heap (every allocation between guard pages, seeded stale content, failing allocations)', 'clock and sleep', 'CPUID/XGETBV/RDTSC', 'exit/abort/trap (end of the simulated process)', 'codecs as seen by the tool (pass-through, stored-block stand-in, or misbehaving on command)']
def cli(quick, thorough, rule, must, extra=None):
    d = dict(sim='cli', flavours=['clang'], quick=quick, thorough=thorough, block=100000, rule=rule, must_fire=must,
             state_rule='distinct (selection arguments, fault, codec it hits, CPU level) combinations reached', real=CLI_REAL, stub=CLI_STUB,
             assumptions=['files up to 6 MiB, mostly below 20 kB', 'faults of a codec hit calls of that codec from a seeded call on'])
    d.update(extra or {})
    return d
CHECKS['C07'] = cli((160000, 200), (10000000, 3000), 'One run: the tool runs once in test mode on a seeded file with seeded arguments and at most one injected fault. Distinct by (arguments, fault, codec it hits, file size, number of codec calls).',
  ['open-fails', 'empty-file', 'seek-error', 'read-error', 'file-shrank-short-read', 'partial-read', 'allocation-fails', 'codec-refuses-to-compress', 'codec-truncates-stream', 'codec-refuses-to-decompress', 'codec-reports-too-small-size', 'codec-reports-too-large-size', 'codec-restores-wrong-bit', 'codec-writes-nothing', 'codec-misses-last-bytes', 'codec-claims-too-small-stream', 'codec-fails-only-once'])
CHECKS['C08'] = cli((120000, 200), (10000000, 3000), 'One run: the tool benchmarks a small seeded file with seeded arguments while the clock jumps, stalls, crawls and races. Distinct by (arguments, fault, file size, number of codec calls).',
  ['clock-jumps-forward', 'clock-jumps-backward', 'clock-stalls', 'clock-slow', 'clock-fast'])
CHECKS['C09'] = cli((40000, 200), (5000000, 3000), 'One run: the tool fuzzes iteratively or randomly; one codec misbehaves in a seeded way at a seeded input, or memory runs out, or nothing goes wrong. Distinct by (arguments, misbehaviour, codec, input, byte, bit).',
  ['codec-refuses-to-compress', 'codec-refuses-to-decompress', 'codec-reports-too-small-size', 'codec-reports-too-large-size', 'codec-restores-wrong-bit', 'codec-writes-nothing', 'codec-misses-last-bytes', 'codec-claims-too-small-stream', 'allocation-fails', 'cannot-create-file', 'disk-full', 'clock-stands-still'],
  dict(assumptions=['the fuzzer is stopped by the simulator after up to 320 generated inputs', 'the simulated machine has AVX2 and AES (the fuzzer documents that it assumes them)']))
CHECKS['C17'] = cli((16000, 200), (500000, 3000), 'One run: the tool analyses one seeded file twice, on two simulated machines with different stale heap content, CPU level, clock and read sizes. Distinct by file content.', ['stale-heap-content', 'partial-read'],
  dict(assumptions=['files up to 1.2 MB, mostly below 6 kB'], state_rule='distinct classes of file content'))

CHECKS['C14'] = dict(sim='cpu', flavours=['gcc', 'clang'], quick=(300000, 200), thorough=(20000000, 3000), block=100000,
  rule='One run: one simulated machine (compiler, CPU generation, which optional extensions it has and reports, which register state the OS enabled, whether a hypervisor or firmware hides something) performs 2-9 codec round trips, restarts and self-tests of the tool with seeded instruction-set limits. Distinct by (stream content, executable extensions, codec or limit).',
  must_fire=['os-without-xsave', 'os-without-avx-state', 'os-without-sse-and-avx-state-in-xsave', 'hypervisor-hides-avx', 'firmware-limits-cpuid', 'instruction-set-limit', 'node-restart'],
  state_rule='distinct (simulated machine, compiler, codec or limit) combinations reached',
  real=['every codec, the feature detection and the tool (main.c), compiled from /repo/src with gcc -O3 and clang -O3'],
  stub=['CPUID/XGETBV', 'missing instructions (every instruction of the library that needs an extension the simulated machine lacks is replaced by a trap)', 'files, heap, clock of the tool'],
  assumptions=['extensions above what this machine has are not simulated', 'instructions are classified by mnemonic and registers from the disassembly; tzcnt is taken for bsf where it executes as such', 'fuzz mode is excluded (it documents that it assumes AVX2 and AES)'])

OCL_REAL = ['the OpenCL host code (rle8_ocl.c) compiled from /repo/src with clang -O1 and BUILD_WITH_OPENCL', 'the OpenCL kernels, compiled with clang\'s OpenCL C front end from the source text the host code hands to the runtime', 'CPU encoder and decoder of multi-section streams']
OCL_STUB = ['OpenCL runtime (handles, reference counts, command queues with delayed execution, errors)', 'device (work items as coroutines in seeded order, device memory between guard pages)', 'heap', 'clock', 'printf']
def ocl(quick, thorough, rule, must, extra=None):
    d = dict(sim='ocl', flavours=['ocl'], quick=quick, thorough=thorough, block=100000, rule=rule, must_fire=must, state_rule='distinct execution orders of work items', real=OCL_REAL, stub=OCL_STUB,
             assumptions=['blocks up to 16 kB, up to 300 sections', 'releasing an object never fails', 'commands behind a failed command of the same queue are not executed', 'a failing clFinish leaves nothing queued'])
    d.update(extra or {})
    return d
CHECKS['C10'] = ocl((160000, 200), (20000000, 3000), 'One run: 1-4 seeded steps (initialise, decode, shut down; two thirds with an armed fault), then the runtime heals and decoding must work; finally shutdown and a leak check. Distinct by (stream, history of the run).',
  ['runtime-call-fails', 'runtime-outage', 'allocation-fails', 'queued-command-fails', 'device-lost', 'no-platform', 'no-device', 'kernel-build-fails', 'queued-commands-delayed'])
CHECKS['C11'] = ocl((160000, 200), (20000000, 3000), 'One run: 1-6 seeded steps (initialise with seeded sizes, decode one of up to three streams completely, torn, padded or into too small a buffer, shut down) with seeded delays of queued commands and seeded order of work items. Distinct by (stream, history of the run).',
  ['queued-commands-delayed', 'work-items-interleaved', 'work-items-reordered', 'torn-transfer', 'trailing-bytes-after-stream', 'output-too-small'])
