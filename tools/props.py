#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json. Run after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), claim=True, reason=None,
         technique=None, level='model_checking', note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, observe=observe, claim=claim, reason=reason, technique=technique, level=level, note=note))

MCNOTE = ('Exhaustive over every schedule of the listed drivers within the stated deviation bound (iterated from 0), on the real core '
          'sources compiled with scheduling points at every lock, condition variable, thread operation and shared atomic; assumes sequentially '
          'consistent atomics and the bounds recorded in the evidence file.')
SEQNOTE = ('Exhaustive over every operation sequence / input shape in the bounded alphabet recorded in the evidence file, executed on the '
           'real code and compared step by step with a reference model; says nothing beyond those bounds.')

prop('C01', 'Every frame request completes exactly once with the right result',
     'Every frame request made with getFrame or getFrameAsync, on any graph and from any thread (including from inside a completion callback), completes exactly once: with the frame the graph defines for that number, or with an error, and a request outside the clip always completes with an error. '
     'Completion callbacks never run concurrently with each other, and the library never deadlocks or loses a wakeup, whatever the thread count and even if it is changed while requests are in flight.',
     ['schedules', 'configurations'], 'all interleavings of client threads, worker threads and callbacks; all thread counts; all spurious condition-variable wakeups',
     'The tests run free on the OS scheduler and sample a handful of interleavings; a lost wakeup or double completion needs one specific preemption.',
     ['src/core/vsthreadpool.cpp', 'src/core/vsapi.cpp', 'src/core/vscore.cpp'],
     [('task queue, allContexts deduplication, notify lists', 'VSThreadPool::runTasks'), ('wakeThread/idle accounting', 'VSThreadPool'), ('synchronous waiter', 'vsapi.cpp getFrame/frameWaiterCallback')],
     [('tasks/altTasks/allContexts', 'pending work', 'VSThreadPool'), ('activeThreads/idleThreads', 'worker accounting', 'VSThreadPool')],
     ['getFrame return', 'VSFrameDoneCallback'],
     technique='stateless schedule exploration of the real core (deviation-bounded, happens-before state pruning)', note=MCNOTE)
prop('C02', 'Filters are only ever called as their filter mode and protocol allow',
     'A filter\'s getframe function is called with arInitial at most once per request (exactly once for a frame number within the clip) and then, only if it requested frames, once all of them have completed: with arAllFramesReady and every requested frame retrievable and right, or with arError. '
     'A fmUnordered filter is never entered by two threads at once, a fmParallelRequests filter never processes two ready frames at once, and a fmFrameState filter never has two frames in progress; all memory accesses of such calls are ordered.',
     ['schedules'], 'all interleavings; graphs with fan-in/fan-out, re-requests, several batches, errors',
     'No test checks entry exclusivity; violating it needs two workers inside the same node at the same time.',
     ['src/core/vsthreadpool.cpp', 'src/core/vscore.h'],
     [('serialMutex try_lock, serialFrame/serialOwner', 'VSThreadPool::runTasks'), ('numFrameRequests countdown', 'VSThreadPool::runTasks')],
     technique='stateless schedule exploration with contract monitors inside test filters', note=MCNOTE)
prop('C03', 'A failing frame fails exactly its dependents, with its message',
     'When a filter reports an error for a frame, every request that depends on that frame fails with that error message and every other request still succeeds with the right frame; later requests, including for the same frame, are processed normally. '
     'No frame, node or context leaks and no filter is activated as ready on a failed request.',
     ['schedules', 'fault_sequences'], 'every choice of failing (node, frame, stage) in small graphs, all interleavings',
     'Tests trigger one error on a linear graph; propagation through shared dependencies and concurrent requests is not sampled.',
     ['src/core/vsthreadpool.cpp', 'src/core/vscore.cpp'],
     [('VSFrameContext::setError and notify propagation', 'VSThreadPool::runTasks')],
     technique='exhaustive fault placement x stateless schedule exploration', note=MCNOTE)
prop('C04', 'Memory pressure never changes results or stops progress',
     'For every memory limit, however small, every request still completes with the same frame as without a limit, and once a request sequence is finished no frame memory remains allocated other than what caches and callers hold. '
     'Cache sweeps, pipeline flushes and admission control triggered by the limit or by the passage of time never deadlock, drop or duplicate a request.',
     ['schedules', 'configurations', 'histories'], 'all interleavings and all placements of clock jumps across sweep/flush thresholds for tiny limits',
     'Needs the limit to be crossed at a particular moment (flush with requests parked, sweep while a node dies); the tests never exceed the default limit.',
     ['src/core/vsthreadpool.cpp', 'src/core/memoryuse.cpp', 'src/core/vscore.cpp'],
     [('is_over_limit, flushCaches/altTasks, admission control', 'VSThreadPool'), ('notifyCaches sweep', 'VSCore')],
     technique='stateless schedule exploration with a virtual clock and tiny limits', note=MCNOTE)
prop('C05', 'Caching is invisible in results and honours its settings',
     'Whatever the cache mode, size, history, request order or request pattern declared by consumers, a node returns the same frames; caching can only change how often a filter is asked. '
     'A disabled cache stores nothing, a cache with a fixed maximum never holds more than that many frames, a cached frame is served without calling the filter again, and clearing releases every cached frame.',
     ['histories', 'configurations'], 'all sequences of requests, mode/option changes, clears and sweeps to a bounded depth',
     'Cache bookkeeping (weak/strong lists, history, resizing) has a state space no fixed script covers.',
     ['src/core/vscore.cpp', 'src/core/vscore.h'],
     [('VSCache', 'vscore.h/vscore.cpp'), ('updateCacheState', 'VSNode')],
     technique='breadth-first exploration of operation sequences on the real cache against a reference model', note=SEQNOTE)
prop('C06', 'The thread-safe API is free of data races',
     'Concurrent use of the API operations documented as thread-safe (frame requests, reference counting, node creation and release, cache control, property copies, format queries, plugin lookup and invocation, logging, thread and memory configuration) is free of data races, use after free and deadlock, under every schedule.',
     ['schedules'], 'all interleavings of small multi-threaded API drivers',
     'A race shows only when two specific accesses overlap; functional tests usually pass anyway.',
     ['src/core/vscore.cpp', 'src/core/vscore.h', 'src/core/vsapi.cpp', 'src/core/memoryuse.cpp', 'src/core/vsthreadpool.cpp'],
     [('mutexes and atomics of core, node, map, plugin, log', 'vscore.h')],
     technique='stateless schedule exploration with a vector-clock race detector and poisoned frees', note=MCNOTE)
prop('C07', 'Objects are freed exactly once, exactly when the last reference goes',
     'Nodes, frames, maps, functions and the core live exactly as long as something refers to them: filter and function free callbacks run exactly once, after the last reference (including those held by dependent nodes, maps and frame properties) is released and never before, in any release order, also when references outlive freeCore. '
     'Nothing is leaked and nothing is used after it is freed.',
     ['histories', 'schedules'], 'all acquire/release sequences to a bounded depth over small object graphs; all interleavings of concurrent releases',
     'Depends on the order of releases across objects; tests release in one order.',
     ['src/core/vscore.cpp', 'src/core/vscore.h', 'src/core/vsapi.cpp', 'src/core/intrusive_ptr.h'],
     [('intrusive reference counts', 'intrusive_ptr.h'), ('destroyFilterInstance free list', 'VSCore'), ('numFilterInstances keeps the core alive', 'VSCore')],
     technique='exhaustive operation sequences under a leak- and use-after-free-checking allocator, plus schedule exploration', note=SEQNOTE)
prop('C08', 'Writing to a frame never changes any other frame',
     'A frame made from others (copyFrame, plane-sharing construction, property source) reads exactly like its sources at that moment, and afterwards a write through the write pointer or the properties of one frame is visible in that frame only, for every history of copies, writes and releases. '
     'Read pointers, strides and dimensions stay consistent with the format.',
     ['histories'], 'all sequences of create/copy/write/release to a bounded depth over shared planes and property maps',
     'Copy-on-write bugs need a particular sharing history.',
     ['src/core/vscore.cpp', 'src/core/vscore.h'],
     [('VSPlaneData reference count and copy in getWritePtr', 'VSFrame'), ('VSMapStorage detach', 'VSMap')],
     technique='exhaustive operation sequences against a value-semantics reference model', note=SEQNOTE)
prop('C09', 'Property maps behave as typed multimaps with value semantics',
     'Every sequence of map operations (set with replace or append, array set/get, get with index, delete, clear, copy, error, key enumeration) has the results, error codes, types, sizes and key set of a simple typed-multimap model, including error state, invalid keys, index and type mismatches and saturating getters. '
     'Maps never affect each other after a copy.',
     ['histories', 'inputs'], 'all operation sequences to a bounded depth over a small key/value alphabet',
     'The operation sequences that mix types, modes and error states are combinatorial.',
     ['src/core/vsapi.cpp', 'src/core/vscore.h', 'src/core/vscore.cpp'],
     [('VSMap/VSArray', 'vscore.h'), ('map* functions', 'vsapi.cpp')],
     technique='exhaustive operation sequences against a reference model', note=SEQNOTE)
prop('C10', 'Function signatures are parsed and enforced exactly',
     'A function signature is accepted if and only if it follows the documented grammar, and an invocation reaches the function if and only if its arguments satisfy the signature (names, types, required/optional, single/array, empty, any, media type); otherwise it fails with an error and the function is not called. '
     'Registration, lookup and enumeration of plugins and functions agree with what was registered, and locked plugins or duplicate names are refused.',
     ['inputs', 'histories'], 'all argument strings over a token alphabet to a bounded length; all argument maps over a small alphabet for each signature',
     'Tests call functions with mostly valid arguments.',
     ['src/core/vscore.cpp', 'src/core/vsapi.cpp'],
     [('parseArgString', 'vscore.cpp'), ('VSPluginFunction::invoke', 'vscore.cpp')],
     technique='bounded-exhaustive enumeration of signatures and argument maps against a reference matcher', note=SEQNOTE)
prop('C11', 'Formats, ids, names and clip descriptions are validated consistently',
     'A video or audio format query succeeds if and only if the combination is documented as valid, the resulting structure is self-consistent, and format, id and name convert into each other without loss. '
     'Filter creation accepts exactly valid media descriptions.',
     ['inputs'], 'the full grid of family, sample type, bit depth, subsampling, channel layout around the valid ranges',
     'Tests query a few formats.',
     ['src/core/vscore.cpp', 'src/core/vsapi.cpp', 'include/VSHelper4.h'],
     [('isValidVideoFormat/isValidAudioFormat/queryVideoFormat', 'VSCore')],
     technique='exhaustive enumeration of the parameter grid against a reference', note=SEQNOTE)
prop('C12', 'Log messages reach handlers exactly once, in order',
     'Every logged message is delivered to every handler registered at that moment exactly once and in order; messages logged while no handler exists are kept (up to the documented limit) and delivered once, in order, to the first handler added. '
     'A removed handler is never called again and its free function runs exactly once, also when the core is freed.',
     ['histories', 'schedules'], 'all sequences of add/remove/log/free to a bounded depth; all interleavings of concurrent logging and handler changes',
     'Order and exactly-once depend on interleaving and history.',
     ['src/core/vscore.cpp', 'src/core/vslog.cpp'],
     [('messageHandlers/storedMessages under logMutex', 'VSCore')],
     technique='exhaustive operation sequences against a reference model, plus schedule exploration', note=SEQNOTE)
prop('C13', 'The frame buffer pool never double-hands memory and accounts exactly',
     'Live frame buffers never overlap, are aligned as documented, keep their content until released, and the reported memory use equals what live buffers occupy, returning to zero when all are released, for every sequence of allocations, releases and limit changes, on any thread. '
     'When a buffer is returned for reuse or the limit is changed, memory kept for reuse is given back until the total is within the limit.',
     ['histories', 'schedules'], 'all allocate/release/set-limit sequences over sizes around every threshold, to a bounded depth; all interleavings of two threads',
     'Reuse paths (free list, good fit, trimming) depend on the history of sizes.',
     ['src/core/memoryuse.cpp', 'src/core/memoryuse.h', 'src/core/vscore.cpp'],
     [('free list and counters', 'vs::MemoryUse')],
     technique='exhaustive operation sequences on the real allocator against a reference model, plus schedule exploration', note=SEQNOTE)
prop('C14', 'Video editing filters put every frame where the definition says',
     'Trim, Reverse, Loop, Interleave, SelectEvery, Splice, DuplicateFrames, DeleteFrames, FreezeFrames, SeparateFields, DoubleWeave and AssumeFPS produce exactly the frame sequence, length, frame rate and frame durations their definitions give, for all arguments and input lengths, and reject exactly the invalid ones.',
     ['inputs'], 'all argument values around the boundaries for all input lengths up to a bound, and compositions of two filters',
     'Tests try a few arguments; off-by-one errors live at the boundaries.',
     ['src/core/reorderfilters.cpp', 'src/core/simplefilters.cpp'],
     [('frame number mapping in each getframe', 'reorderfilters.cpp')],
     technique='bounded-exhaustive enumeration of arguments and compositions against list semantics', note=SEQNOTE)
prop('C15', 'Geometry and plane filters move pixels exactly',
     'Crop, CropAbs, AddBorders, FlipVertical, FlipHorizontal, Turn90/180/270, Transpose, StackVertical/Horizontal, ShufflePlanes, SplitPlanes, SeparateFields, DoubleWeave and BlankClip produce exactly the pixels, dimensions, formats and field properties their definitions give, for every plane, sample size, subsampling and small size, and reject exactly the invalid arguments.',
     ['inputs', 'configurations'], 'all formats by sample size and subsampling, all sizes in a range crossing vector widths, all argument values in range, all cpu levels',
     'Vector-width tails and subsampled planes are only hit by particular sizes.',
     ['src/core/simplefilters.cpp', 'src/core/kernel/transpose.cpp', 'src/core/kernel/x86/transpose_sse2.cpp'],
     [('per-plane copies', 'simplefilters.cpp'), ('block transpose kernels', 'kernel')],
     technique='bounded-exhaustive enumeration of shapes and arguments against a per-pixel reference', note=SEQNOTE)
prop('C16', 'Spatial and temporal filters compute their definition on every cpu path',
     'Minimum, Maximum, Median, Deflate, Inflate, Convolution, Prewitt, Sobel, BoxBlur, AverageFrames and PlaneStats compute what their documentation defines at every pixel (edges included), with identical results for integer clips whichever instruction set is used, and leave unselected planes untouched.',
     ['inputs', 'configurations'], 'all widths and heights in a range crossing vector widths, formats, parameters, cpu levels, image patterns',
     'Tests use one size; tails, edges and each instruction set path need their own sizes.',
     ['src/core/genericfilters.cpp', 'src/core/kernel', 'src/core/boxblurfilter.cpp', 'src/core/averageframesfilter.cpp'],
     [('kernel dispatch', 'genericfilters.cpp'), ('scalar and vector kernels', 'kernel/')],
     technique='bounded-exhaustive enumeration of shapes, parameters and cpu levels against a scalar reference', note=SEQNOTE)
prop('C17', 'Expr evaluates every expression as defined',
     'For every expression string, Expr either rejects it (and then never crashes) or computes, for every pixel of every plane, the value the documented stack semantics give, with integer output rounded and clamped to the format, independently of optimisation, position in the row, frame size and input sample type.',
     ['programs', 'inputs'], 'all token sequences over the operator alphabet to a bounded length, all formats, values from a boundary alphabet',
     'The optimizer and JIT rewrite programs; tests sample a few expressions.',
     ['src/core/exprfilter.cpp', 'src/core/expr/expr.cpp', 'src/core/expr/jitcompiler_x86.cpp', 'src/core/expr/jitcompiler.cpp'],
     [('parser, optimizer, JIT, interpreter', 'src/core/expr')],
     technique='bounded-exhaustive enumeration of programs, JIT against a reference evaluator', note=SEQNOTE)
prop('C18', 'Per-pixel arithmetic filters follow their formula for every sample value',
     'Merge, MaskedMerge, PreMultiply, MakeDiff, MergeDiff, MakeFullDiff, MergeFullDiff, Lut, Lut2, Levels, Limiter, Binarize, BinarizeMask, Invert and InvertMask compute their documented formula for every sample value and format, with identical results whichever instruction set is used, leaving unselected planes untouched, and unusable combinations of arguments are rejected with an error.',
     ['inputs', 'configurations'], 'all 8-bit value pairs, boundary values for other depths, widths crossing vector widths, cpu levels',
     'Rounding and clamping errors appear for single values only.',
     ['src/core/mergefilters.cpp', 'src/core/lutfilters.cpp', 'src/core/genericfilters.cpp', 'src/core/kernel/merge.cpp'],
     [('merge kernels', 'kernel/merge.cpp'), ('lut filters', 'lutfilters.cpp')],
     technique='exhaustive enumeration of sample values and shapes against the formula', note=SEQNOTE)
prop('C19', 'Audio editing filters place every sample exactly',
     'AudioTrim, AudioSplice, AudioLoop, AudioReverse, AudioGain, AudioMix, ShuffleChannels, SplitChannels, AssumeSampleRate and BlankAudio produce exactly the samples, length, channel layout and rate their definitions give, at every position relative to internal frame boundaries, and reject exactly the invalid arguments.',
     ['inputs'], 'all lengths and offsets around multiples of the audio frame size, all sample formats, channel subsets',
     'Errors appear at frame-boundary offsets that tests do not use.',
     ['src/core/audiofilters.cpp'],
     [('frame/offset arithmetic', 'audiofilters.cpp')],
     technique='bounded-exhaustive enumeration of boundary lengths and arguments against list semantics', note=SEQNOTE)
prop('C20', 'Property and scripting filters deliver exactly the frames and properties defined',
     'SetFrameProp(s), RemoveFrameProps, CopyFrameProps, SetFieldBased, ClipToProp, PropToClip, FrameEval and ModifyFrame return frames with exactly the properties and content their definitions give for every argument combination, without changing their inputs, and fail with an error when the supplied function misbehaves.',
     ['inputs', 'histories'], 'all small property maps and argument combinations; all result kinds of user functions',
     'Combinations of property types, modes and callback results are not enumerated by tests.',
     ['src/core/simplefilters.cpp'],
     [('property handling', 'simplefilters.cpp'), ('frameEval/modifyFrame', 'simplefilters.cpp')],
     technique='bounded-exhaustive enumeration against a reference', note=SEQNOTE)
prop('C21', 'vspipe writes exactly the requested frames, complete and in order',
     'vspipe writes every requested frame once, in order, with the header, plane order and alpha output its format defines, and exits successfully only if every byte was accepted by the output (the same goes for its timecodes and JSON files, which describe exactly the written frames); on a frame or write error it stops, reports failure and writes nothing after the failing frame. An invalid range, format or script is reported as a failure and everything the script created is released. This holds for every completion order of the requested frames.',
     ['schedules', 'fault_sequences', 'configurations'], 'all completion orders and interleavings of worker and main thread, every failing frame or write, every output mode',
     'Completion order depends on the scheduler and write errors do not occur in tests.',
     ['src/vspipe/vspipe.cpp'],
     [('reorder map and condition', 'vspipe.cpp frameDoneCallback'), ('outputNode wait', 'vspipe.cpp')],
     technique='stateless schedule exploration of the real program against stubbed output and script layers', note=MCNOTE)
prop('C22', 'Built-in filters give the same frames in parallel as one at a time',
     'Every built-in filter produces, for every interleaving of concurrent frame requests, the same frames as when its frames are requested one at a time, and its frame function performs no conflicting unsynchronised memory accesses.',
     ['schedules'], 'all interleavings of concurrent requests on each filter',
     'Shared scratch state in a filter shows only when two frames overlap.',
     ['src/core/simplefilters.cpp', 'src/core/reorderfilters.cpp', 'src/core/genericfilters.cpp', 'src/core/audiofilters.cpp', 'src/core/boxblurfilter.cpp', 'src/core/averageframesfilter.cpp', 'src/core/lutfilters.cpp', 'src/core/mergefilters.cpp', 'src/core/exprfilter.cpp'],
     [('filter modes passed to create*Filter', 'each filter'), ('no mutable instance data in getframe', 'each filter')],
     technique='stateless schedule exploration with race detection over instrumented filters', note=MCNOTE)
prop('C25', 'AudioResample converts format, rate and layout exactly as defined',
     'AudioResample converts between all sample formats with the documented scaling, rounding and clamping, folds and extends channel layouts with the documented weights, resamples so that every output sample depends only on the clip and its position (whichever frames are requested and in whatever order), produces a clip of the defined length, rate and layout, passes unchanged clips through, and rejects invalid arguments with an error.',
     ['inputs', 'histories', 'configurations'], 'all pairs of sample formats x boundary values, layout pairs, rate ratios, lengths around the internal frame size and filter length, request orders, invalid arguments',
     'Errors show only at frame boundaries, after seeks and for particular layout and rate pairs.',
     ['src/core/audioresampling.cpp', 'src/core/audiofilters.cpp'],
     [('format conversion, channel matrix and polyphase resampler', 'audioresampling.cpp')],
     technique='bounded-exhaustive enumeration of formats, layouts, rates, lengths and request orders against a reference', note=SEQNOTE)
prop('C26', 'No argument value crashes or corrupts a built-in function',
     'Calling any built-in function with any combination of argument values of the declared types either returns an error message or a clip of valid size and length whose frames can be requested (each returning a frame or an error message). It never crashes, reads or writes out of bounds, overflows into a wrong size or position, hangs, or keeps references to clips, frames or functions after everything is released.',
     ['inputs', 'configurations'], 'every registered function x every argument x boundary values and array lengths, all pairs of arguments x boundary values, on all kinds of clips',
     'Tests pass sensible arguments; the failing values are single extreme ones or pairs of them.',
     ['src/core/simplefilters.cpp', 'src/core/reorderfilters.cpp', 'src/core/genericfilters.cpp', 'src/core/audiofilters.cpp', 'src/core/audioresampling.cpp', 'src/core/boxblurfilter.cpp', 'src/core/averageframesfilter.cpp', 'src/core/lutfilters.cpp', 'src/core/mergefilters.cpp', 'src/core/exprfilter.cpp', 'src/core/textfilter.cpp', 'src/core/internalfilters.cpp', 'src/core/vscore.cpp'],
     [('argument validation', 'every *Create function'), ('arithmetic on sizes and positions', 'every frame function')],
     technique='bounded-exhaustive enumeration of argument values over the registered signatures, executed with address and undefined-behaviour sanitizers as monitors', note=SEQNOTE)
prop('C27', 'Exactly the right plugins are loaded',
     'LoadPlugin, LoadAllPlugins and autoloading load exactly the plugins the rules define: every loadable library of the scanned directories (recursively), or the ones listed in a directory\'s valid manifest and nothing else from it; processor specific variants only when the processor supports them and the best of them first; never two plugins with the same id or namespace, nor one that asks for an unsupported API version, has no entry point or is no library. What fails to load leaves nothing behind and does not keep others from loading, a loaded plugin can be found by its id and namespace with the path it came from and can be called, and every library is unloaded when the core is freed.',
     ['inputs', 'histories', 'configurations'], 'all sequences of loads, directory contents and manifests up to a size',
     'Tests load no external plugins; which files conflict depends on the combination of files, manifests and what was loaded before.',
     ['src/core/vscore.cpp', 'src/core/simplefilters.cpp'],
     [('VSPlugin::VSPlugin', 'src/core/vscore.cpp'), ('VSCore::loadPlugin, loadAllPluginsInPath', 'src/core/vscore.cpp'), ('LoadPlugin, LoadAllPlugins', 'src/core/vscore.cpp')],
     technique='bounded-exhaustive enumeration of load sequences, directory contents, manifests and variants, executed with real libraries in scratch directories against a model of the rules', note=SEQNOTE)
prop('C23', 'Python frame iteration is ordered, complete and bounded',
     'Iterating a clip in Python (frames()) yields every frame exactly once and in order, for every completion order and thread timing, with at most prefetch requests outstanding and at most backlog requested but unconsumed frames, and always terminates; a failing frame raises its error at its position, with close=True every frame is closed when the next one is requested, and ending early or late leaves no unreturned frame referenced.',
     ['schedules', 'histories'], 'all completion orders and prefetch/backlog settings of small clips',
     'Completion order is decided by the scheduler.',
     ['src/cython/vapoursynth.pyx'],
     [('RawNode.frames, HandleFuture', 'src/cython/vapoursynth.pyx'), ('frameDoneCallback', 'src/cython/vapoursynth.pyx')],
     technique='stateless schedule exploration of the real Python module: Future and lock replaced by controlled ones, all delivery orders and thread switches at the points where CPython can switch, preemption-bounded',
     note='Exhaustive over every order of completions and every switch between the consuming and the completing thread (within the preemption bound) for small clips and all small prefetch/backlog settings; thread switches are explored where the interpreter can switch (calls into Python code, waiting for locks, sleeping).')
prop('C28', 'Values, properties and frame memory are faithful in Python',
     'Values passed between Python and the core (arguments, results, frame properties, values given to and returned by Python functions) arrive with the same type, order and content, including embedded NUL characters and the limits of every type, or are refused with an exception; a closed frame is never accepted as a value. FrameProps behaves as a mutable mapping over exactly the properties of that frame, and a refused assignment leaves no part of the new value. Frames from clips and closed frames refuse every modification; views show exactly the samples of the planes and stay valid after the frame is closed; what is written to a frame through views, pointers or properties shows up in that frame and in no copy of it, in whatever order copies, views and writes are made.',
     ['inputs', 'histories'], 'all sequences of mapping operations, copies, views and writes up to a depth, all values and formats of the alphabets',
     'Tests write to one frame once; aliasing and left-over values need a particular order of copies, views, writes and failing assignments.',
     ['src/cython/vapoursynth.pyx'],
     [('FrameProps', 'src/cython/vapoursynth.pyx'), ('RawFrame, VideoFrame, AudioFrame and their views', 'src/cython/vapoursynth.pyx'), ('mapToDict, dictToMap, typedDictToMap, Function.__call__, Func, FuncData', 'src/cython/vapoursynth.pyx')],
     technique='bounded-exhaustive exploration of operation sequences on the real Python module against a reference model', note=SEQNOTE)
prop('C29', 'Clips in Python are sequences and are written out completely',
     'Slicing, indexing, adding and repeating clips gives exactly the frames (or samples) that the same operation on a list gives, an empty selection and wrong operands raise, for every start, stop, step and length and every combination of operations. output() writes exactly the header, the frames in order with their planes packed and the alpha frames that belong to them, whatever prefetch and backlog are; what cannot be written that way is refused, a failing frame, write or progress function ends it with that error after exactly the frames before it, and no clip, property or size makes it write outside its buffers or crash.',
     ['inputs', 'histories', 'configurations', 'faults'], 'all slices of short clips and around audio frame boundaries, all operation sequences up to a depth, all formats and widths up to a size, failures at every write and frame',
     'Tests check a few slices and one output; boundaries, strides that need packing, odd alpha frames and failures in the middle need particular combinations.',
     ['src/cython/vapoursynth.pyx', 'src/common/wave.cpp'],
     [('VideoNode/AudioNode.__getitem__, __add__, __mul__', 'src/cython/vapoursynth.pyx'), ('VideoNode.output, AudioNode.output', 'src/cython/vapoursynth.pyx'), ('CreateWaveHeader, PackChannels*', 'src/common/wave.cpp')],
     technique='bounded-exhaustive enumeration of operation sequences, formats, sizes and fault positions on the real Python module against list semantics and an independent writer', note=SEQNOTE)
prop('C30', 'Environments of the Python module are isolated and end cleanly',
     'Every environment of the Python module has its own core, outputs, Local variables and destroy callbacks; entering and leaving environments, nested or by an exception, always restores the one that was current. Destroying an environment runs its callbacks once in order inside of it, waits for the requests made before, and invalidates everything made by its core, wherever it was made; using any of that afterwards, from any environment or none, raises an error (or keeps working where it only needs memory of its own) and never crashes, hangs or affects another environment. A request that completes at any point of the destruction is answered exactly once.',
     ['histories', 'schedules', 'faults'], 'all sequences of environment operations up to a depth on two environments, every operation on every kind of object after every way an environment can end, and all completion points of outstanding requests relative to the steps of a destruction',
     'Tests end environments in one order with nothing outstanding; the failures need an object kept past the end, made under another environment, or a request that finishes in a particular phase.',
     ['src/cython/vapoursynth.pyx'],
     [('EnvironmentPolicyAPI, destroy_environment', 'src/cython/vapoursynth.pyx'), ('_FastManager, Environment.use, Local, outputs', 'src/cython/vapoursynth.pyx'), ('RawNode.get_frame_async, frameDoneCallback', 'src/cython/vapoursynth.pyx')],
     technique='bounded-exhaustive exploration of environment operation sequences, object uses and request completion points on the real Python module against a reference model', note=SEQNOTE)
prop('C31', 'The VSScript API evaluates scripts as documented',
     'Every script handle of the VSScript API has its own variables, outputs, core and error state, whichever threads make the calls. Evaluating a buffer or a file runs all of it with __name__, __file__ and the working directory as documented, keeps variables and outputs for the next evaluation, and returns the code, error message and exit code that belong to how the script ended. Variables of every storable type pass both ways unchanged, outputs, alpha clips, modes and the list of outputs are what the script set, the working directory is restored, and freeing a handle runs its destroy callbacks once while the variables and core of the script still exist and frees its core and everything made by it, without affecting another handle.',
     ['histories', 'inputs', 'configurations'], 'all sequences of evaluations of a set of scripts on two handles up to a depth, every way a script can end, every kind of file, all orders of setting variables and evaluating',
     'Tests evaluate one script per process; mixed handles, repeated evaluations after each other and the ways a script can end and leave things behind are not tried.',
     ['src/vsscript/vsscript.cpp', 'src/cython/vapoursynth.pyx'],
     [('VSSCRIPTAPI functions', 'src/vsscript/vsscript.cpp'), ('vpy4_* functions, _vpy_evaluate', 'src/cython/vapoursynth.pyx'), ('VSScriptEnvironmentPolicy', 'src/cython/vapoursynth.pyx')],
     technique='bounded-exhaustive enumeration of sequences of API calls on the real VSScript library in a process of its own, compared with a reference model after every call', note=SEQNOTE)
prop('C32', 'Errors and messages reach the Python caller they belong to',
     'Whatever ends a call or a frame request with an error - a filter or function of a plugin with any text, a Python function with any exception - whoever asked, in whichever way, gets an exception with that text: no error is lost, turned into a success or into an exception of another kind, no request stays unanswered because of it, and the same clip works again once the reason is gone. KeyboardInterrupt, SystemExit, cancellations and other non-errors raised in a Python function arrive as the very object that was raised, whatever lies between, whatever else is outstanding and whichever environment asks. Every log message reaches every handler of its core once with its level and text.',
     ['inputs', 'histories', 'schedules'], 'all texts of an alphabet of lengths, characters and invalid encodings, all kinds of exceptions, all ways of asking, nestings up to a depth and completion orders of outstanding requests, all environments to ask from',
     'Tests raise a ValueError with an ASCII text; texts that are not UTF-8, that end at a buffer boundary or that cannot be encoded, and exceptions that cross environments take another path.',
     ['src/cython/vapoursynth.pyx'],
     [('publicFunction, _retrieve_exception', 'src/cython/vapoursynth.pyx'), ('Function.__call__, Func.__call__, get_frame, frameDoneCallback', 'src/cython/vapoursynth.pyx'), ('log_handler_wrapper', 'src/cython/vapoursynth.pyx')],
     technique='bounded-exhaustive enumeration of errors, ways of asking, nestings and completion orders on the real Python module', note=SEQNOTE)
prop('C24', 'Resizing and colour conversion', 'Resizing and format conversion give the result of the equivalent zimg graph for every format pair.',
     ['inputs'], 'all format pairs', 'The grid of formats is large.', ['src/core/vsresize.cpp'], [('zimg graph builder', 'vsresize.cpp')],
     claim=False, reason='vsresize.cpp is not compiled in this sandbox (installed zimg is too old, the build replaces it by a stub), so there is no implementation to explore here.')

def main():
    with open(V + '/properties.jsonl', 'w') as f:
        for p in P:
            o = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
                     why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                                  state=[dict(name=a, meaning=b, where=c) for a, b, c in p['state']], observe_at=list(p['observe']), hook_needed=None))
            f.write(json.dumps(o) + '\n')
    checks, na = [], []
    import sys
    sys.path.insert(0, V + '/tools')
    from checks import CHECKS
    for p in P:
        if p['claim'] and p['id'] in CHECKS:
            checks.append(dict(property=p['id'], quick_cmd='python3 tools/check.py %s' % p['id'], thorough_cmd='python3 tools/check.py %s --thorough' % p['id'],
                               technique=p['technique'], level=p['level'], level_note=p['note']))
        else:
            na.append(dict(property=p['id'], reason=p['reason'] or 'no check yet'))
    m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na,
             notes='No hooks in /repo: scheduling points come from link-time interposition and compiler instrumentation.')
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

if __name__ == '__main__':
    main()
