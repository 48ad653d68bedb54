#!/usr/bin/env python3
"""writes properties.jsonl (kept as a script so that the texts stay readable)"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None, hook=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism])
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why, anchors=a))

CODECS = ['src/rle8_extreme_cpu.h', 'src/rleX_extreme_cpu.h', 'src/rleX_Xsl.h', 'src/rleX_Xsl_short.h', 'src/rle24_extreme_cpu.h', 'src/rle48_extreme_cpu.h', 'src/rle128_extreme_cpu.h',
          'src/rle8_low_entropy_cpu.c', 'src/rle8_low_entropy_short_cpu.c', 'src/rle8_mmtf.c', 'src/mmtf.c', 'src/bit_mmtf.c', 'src/rle_sh.c']
TESTS = 'The tests run single-threaded, fault-free, on one machine: eight small files and 16384 generated inputs, with every buffer freshly allocated and the same binary encoding and decoding. '

prop('C01', 'Concurrent callers never disturb each other',
  'Any number of threads may call any compression, decompression or transform function at the same time, including as the very first calls made in the process and with several threads reading the same input. Each call returns exactly the result and output bytes it would have produced had it run alone, under every interleaving. No call fails, crashes or hangs because of what other threads are doing.',
  ['schedules', 'inputs', 'configurations'], 'for every interleaving of every set of concurrent calls, starting from a freshly loaded or an already used library, on every CPU feature level',
  TESTS + 'They never have two calls in flight, so no interleaving of the one-time CPU feature detection or of any other shared state is ever exercised.',
  CODECS + ['src/simd_platform.c', 'src/simd_platform.h'],
  [('one-time CPU feature detection that may run concurrently', 'src/simd_platform.c'), ('codecs keep all working state on the stack', 'src/*.h decode/encode templates')],
  [('CPU feature flags', 'process-wide, written lazily by the first call', 'src/simd_platform.c')], ['return value and output bytes of every call'])

prop('C02', 'What one machine compresses, every other machine restores',
  'Compressing any non-empty block with any codec into an output buffer of the advertised size always succeeds, stays inside that buffer, and the matching decompressor returns exactly the original bytes (where a format offers a function to query the size beforehand, it says the size of the block). This holds whichever CPU feature level and compiler the compressing and the decompressing side have, wherever the buffers lie in memory, whatever unrelated bytes are in or around them, and whatever either process did before or how often it was restarted.',
  ['inputs', 'configurations', 'histories'], 'for every block, codec, pair of CPU feature levels and compilers, buffer placement, stale memory content, and sequence of preceding operations and restarts',
  TESTS + 'Encoder and decoder always run at the same feature level, AVX-512 levels are never selected, sections (multi-section streams) are never tested, and the output buffer is always larger than the codec\'s own bound.',
  CODECS, [('per-feature-level encoder and decoder variants of one format', 'src/*_encode.h, src/*_decode.h'), ('size bounds', 'rle_compress_bounds and the per-codec bounds functions')],
  None, ['compress/decompress return values and buffers'])

prop('C03', 'An incomplete stream is never taken for a complete one',
  'If only part of a compressed stream arrived, of whatever length and whatever older bytes follow it in the receive buffer, decompressing that part reports failure and does not crash; decompressing the complete stream afterwards works. Extra bytes behind a complete stream are ignored: the block is restored exactly as without them.',
  ['fault_sequences', 'inputs', 'histories'], 'for every codec with a stream header, every cut position, every content of the memory behind the cut or behind the stream, and every CPU feature level of the receiver',
  TESTS + 'The tests only ever decompress exactly the bytes that were just produced; a truncated, torn or padded stream never occurs.',
  CODECS, [('stored stream and block sizes checked against the sizes given by the caller', 'all *_decompress entry points')], None, ['decompress return value and output'])

prop('C04', 'Too little space or a missing buffer is refused, not overrun',
  'If the output buffer is too small for the block, or a buffer is missing or empty, decompression and transforms report failure; compression either reports failure or returns a complete stream that fits and restores exactly. In no case is anything written outside the given output buffer (for decompression: plus the advertised extra space), and nothing crashes.',
  ['fault_sequences', 'inputs', 'configurations'], 'for every codec, every output size below the required one, every kind of missing or empty buffer, on every CPU feature level and buffer placement',
  TESTS + 'The tests always provide ample space and valid pointers.',
  CODECS, [('argument checks at every entry point', 'all *_compress / *_decompress / *_encode / *_decode entry points')], None, ['return values, guard pages and canaries around the output buffer'])

prop('C05', 'Calls write only their own output and never their input',
  'A compression call modifies only bytes inside its output buffer and a decompression or transform call only bytes inside its output buffer plus the advertised extra space, no more than the reported size counts as result, and the input is never modified. This holds for every block, buffer placement and CPU feature level, also when input and output memory border directly on memory the caller does not own.',
  ['inputs', 'configurations', 'histories'], 'for every block, codec, placement of input and output against unmapped, read-only or foreign memory, and CPU feature level',
  TESTS + 'A write a few bytes outside a heap block, or to the input, does not fail a test.',
  CODECS, [('wide stores bounded by the advertised extra output space', 'decoders and rle_decompress_additional_size'), ('encoders write at most the advertised bound', 'compress bounds functions')], None, ['guard pages, canaries, read-only mapping of the input'])

prop('C06', 'A call that is cut off leaves no trace behind',
  'If a compression, decompression or transform call is cut off at any point in the middle (its thread is killed or it is abandoned by a fault handler), every later or concurrent call in the same process behaves exactly as if the cut-off call had never been made. No later call fails, hangs or returns different bytes because of it, and repeating the cut-off call with the same buffers gives the normal result.',
  ['crash_points', 'schedules', 'histories'], 'for every codec, every cut-off point in the call including inside first-use initialisation, and every following or concurrent sequence of calls',
  TESTS + 'No test ever interrupts a call.',
  CODECS + ['src/simd_platform.c'], [('no state outlives a call except the CPU feature flags, which are published only when complete', 'src/simd_platform.c')],
  [('CPU feature flags', 'may be half-written when the detecting call is cut off', 'src/simd_platform.c')], ['results of all later calls'])

prop('C07', 'The self-test of the tool never reports success by accident',
  'Run in test mode, the command-line tool ends with status 0 only if it read the whole file and every codec selected by the arguments (apart from those it reports as not supported by the processor) compressed it and restored it byte for byte from no more than the bytes it reported; if the file cannot be opened or read completely or is empty, memory runs out, or any selected codec fails or returns a wrong size or wrong data, the status is non-zero. If nothing goes wrong the status is 0. No such fault makes it crash, hang or access memory it does not own.',
  ['fault_sequences', 'inputs', 'configurations'], 'for every input file, set of selecting arguments, file-system error or short read, allocation failure, and misbehaviour of any codec at any byte',
  TESTS + 'The tool itself is the test driver: with correct codecs and a healthy system its failure handling never runs, so a self-test that cannot fail looks the same as one that passes.',
  ['src/main.c', 'src/codec_funcs.h'], [('validation and exit status', 'src/main.c: main, Validate'), ('codec selection', 'src/main.c: CodecMatchesArgs')], None, ['exit status, calls of codecs, memory accesses'])

prop('C08', 'Benchmarking finishes and does the requested work whatever the clock does',
  'Whatever the clock does (jumps forwards or backwards, stalls, advances unevenly), the benchmark runs every selected codec at least the requested number of times in each direction (and, unless the clock jumps, for at least the requested minimum time), never sleeps longer than two seconds at once, and ends once the clock has advanced past the requested minimum time. The results of validation and the exit status do not depend on the clock.',
  ['fault_sequences', 'schedules', 'configurations'], 'for every sequence of clock values, sleep durations and every combination of run count, minimum time, test mode and deviation reporting',
  TESTS + 'They use the real clock, which neither jumps nor stalls, and never set a run count or minimum time.',
  ['src/main.c'], [('run loop conditions and thermal sleeps', 'src/main.c: main'), ('clock access', 'src/main.c: GetCurrentTimeTicks, SleepNs')], None, ['number of codec calls, sleeps, simulated time, exit status'])

prop('C09', 'The built-in fuzzer notices every misbehaving codec',
  'When any codec fails on, or fails to restore even a single bit of, any input the fuzzer generates (or needs more bytes for that than it reported), the fuzzer stops with an abnormal end at that input and never reports success; if the restored data is wrong, the offending input has been written completely to the failure file. As long as all codecs behave, it does not stop with a failure. If memory cannot be allocated it reports failure, and if the failure file cannot be created it still works. Whatever the clock does, it keeps generating inputs of new lengths.',
  ['fault_sequences', 'inputs'], 'for every codec, generated input, kind and position of misbehaviour (failure, wrong size, any wrong bit), and allocation or file failure',
  TESTS + 'Fuzzing a correct codec never executes the failure paths; a comparison that cannot fail would pass all tests.',
  ['src/rle_fuzz.c', 'src/main.c'], [('comparison of original and restored data', 'src/rle_fuzz.c: MemoryEquals'), ('failure dump', 'src/rle_fuzz.c: fuzz')], None, ['process end, content of the failure file'])

prop('C10', 'GPU decoding survives every failure of the OpenCL runtime',
  'If any OpenCL call (other than releasing an object) or memory allocation fails, at any point of initialisation or decoding, the call that met it reports failure (never success with wrong data), nothing crashes, every OpenCL object and allocation is released exactly once, and no memory is left in use by the runtime after its owner returned. A later initialisation and decode on a healthy runtime works normally.',
  ['fault_sequences', 'histories'], 'for every point at which a runtime call or allocation can fail, synchronously or while executing queued work, in every sequence of initialise, decode and shutdown calls',
  'The OpenCL part is not even built by the tests, so none of its error paths is ever executed.',
  ['src/rle8_ocl.c'], [('single cleanup path', 'src/rle8_ocl.c: epilogue and rle8m_opencl_destroy')], [('cached runtime objects', 'kept between calls and grown on demand', 'src/rle8_ocl.c')], ['return values, handle table of the simulated runtime, allocations'])

prop('C11', 'GPU decoding gives the same bytes as CPU decoding',
  'For every multi-section stream, complete, torn or followed by other bytes, decoding through OpenCL returns the same size and bytes as decoding on the CPU and writes nothing outside the output buffer, whatever order the runtime executes sections in, however long it delays queued transfers, and whichever streams of other sizes and section counts were decoded or initialised for before.',
  ['schedules', 'inputs', 'histories'], 'for every stream, section count, execution order of work items, delay of queued commands up to the next synchronisation, and history of earlier initialisations and decodes',
  'The OpenCL part is not built or run by the tests.',
  ['src/rle8_ocl.c', 'src/rle8_ocl_kernel.h', 'src/rle8_low_entropy_cpu.c'], [('kernels decode sections independently', 'src/rle8_ocl_kernel.h'), ('buffers reused if large enough', 'src/rle8_ocl.c: rle8m_opencl_init')], None, ['decoded bytes compared with the CPU decoder and the original'])

prop('C12', 'Codec calls need nothing from their environment',
  'Compression, decompression and transform calls succeed and give the same result even if every memory allocation, file access and clock query is refused or returns nonsense during the call, as in a real-time thread, signal handler or exhausted process.',
  ['fault_sequences', 'inputs'], 'for every codec and block, with every environment request failing from the start or from any point of a sequence of calls',
  TESTS + 'Allocations never fail while the tests run.',
  CODECS, [('all working memory is on the stack or given by the caller', 'all codecs')], None, ['return values and bytes with the environment failing'])

prop('C13', 'Compressing the same block again gives the same bytes',
  'On machines with the same CPU features, compressing or transforming the same bytes with the same codec always produces the identical stream: whatever the addresses and alignment of the buffers, the unused bytes around the input, the previous content and size of the output buffer (if large enough), whatever is left in memory or registers, whatever the process did before, after a restart, and with either compiler.',
  ['histories', 'configurations', 'inputs'], 'for every block and codec, over all buffer placements, stale memory contents, sizes of the output buffer, preceding operations and restarts',
  TESTS + 'No test compares two outputs of the compressor.',
  CODECS, [('encoders depend only on the input bytes', 'all encoders')], None, ['compressed bytes of repeated calls'])

prop('C14', 'Only instructions that CPU and operating system offer are executed',
  'Whatever features the processor reports and whatever register state the operating system has enabled, no codec call and no test or benchmark run of the command-line tool (including with a requested instruction-set limit) executes an instruction from an extension that is missing or not enabled. Results stay correct on every such machine.',
  ['configurations', 'inputs', 'histories'], 'for every combination of reported CPU features and OS-enabled register state, requested instruction-set limits, and sequence of codec calls from first use on',
  TESTS + 'They run on one machine that has every extension up to AVX2 or better enabled, where nothing that is executed can be missing.',
  ['src/simd_platform.c', 'src/main.c'] + CODECS[:2], [('feature detection', 'src/simd_platform.c: _DetectCPUFeatures'), ('dispatch on feature flags', 'all codecs with several variants'), ('instruction-set limit', 'src/main.c: --max-simd')],
  [('CPU feature flags', 'decide which variant runs', 'src/simd_platform.c')], ['executed instructions classified by extension'])

prop('C15', 'Streams survive a rolling upgrade',
  'Streams written by the previous release are restored exactly by the current one and streams written by the current one are restored exactly by the previous one, for every codec, block, and combination of CPU feature levels. Upgrading or downgrading any part of a fleet in any order never makes stored data unreadable.',
  ['configurations', 'inputs', 'histories'], 'for every block and codec, every pair of releases (frozen previous, current), CPU feature levels on both sides and order of upgrades, downgrades and restarts',
  TESTS + 'Encoder and decoder of a test always come from the same build, so a change of the format in both goes unnoticed.',
  CODECS, [('the stream format is fixed by the encoder and decoder templates', 'src/*_encode.h, src/*_decode.h')], None, ['decompress results across releases'])

prop('C16', 'Specialised variants compress as well as they promise',
  'The greedy, packed, short and lookup-table variants reach compression ratios at least as good as the plain variant on the data they are meant for.',
  ['inputs'], 'for every block from the data classes named in the documentation', TESTS + 'Compression ratios are printed but not judged.', ['README.md', 'src/rleX_Xsl.h'], [('variant heuristics', 'encoders')])

prop('C17', 'The analysis report depends on nothing but the file',
  'Analysing the same file twice prints exactly the same report, whatever the memory of the process contained before, however the operating system splits the reads, whatever CPU features are reported and whatever the clock does. No byte that is not part of the file is counted, and no memory outside the buffers of the tool is accessed.',
  ['inputs', 'fault_sequences', 'configurations'], 'for every input file, stale heap content, partition of the file into partial reads, CPU feature level and clock behaviour',
  'The tests never use the analysis mode, and on a fresh heap (all zeros) a report that counts bytes behind the file looks plausible and is reproducible.', ['src/main.c'], [('statistics', 'src/main.c: AnalyzeData')], None, ['printed report of two simulated runs of the tool'])

prop('C18', 'Calls made from signal handlers disturb nothing',
  'A signal handler may make any compression, decompression or transform call, whatever codec call, at whatever point, the signal interrupted on that thread, including other signal handlers and the very first call of the process. The call in the handler and the interrupted call both return exactly the results and bytes they would have produced alone, and neither waits for the other.',
  ['schedules', 'inputs', 'configurations'], 'for every point of interruption, nesting of handlers and combination of interrupted and interrupting calls, also with other threads running, on every CPU feature level',
  TESTS + 'No call is ever interrupted by another one on the same thread; thread-local scratch memory, locks and once-guards that are fine with several threads fail only there.',
  CODECS + ['src/simd_platform.c'], [('codecs keep all working state on the stack', 'src/*.h decode/encode templates'), ('one-time CPU feature detection without locks', 'src/simd_platform.c')],
  [('CPU feature flags', 'process-wide, written lazily by the first call', 'src/simd_platform.c')], ['return value and output bytes of every call'])

if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
