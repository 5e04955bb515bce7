import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or [],hook_needed=None)))

p("C01","Concurrent use of distinct objects and buffers gives the serial results",
 "Calls made at the same time from different threads on distinct objects and distinct buffers - any stateless function (algorithms, statistics, windows, converters, features, spectral transforms, filter designers, strings, C API) and any stateful object (filters, oscillators, envelopes, ring buffers, resamplers, encoders, decoders, FFT engines) - return exactly what the same calls return when run one after the other, whatever the interleaving and whatever was called before. The process-wide planner of the FFT library underneath, which is not thread-safe, is never entered by two threads at once.",
 ["schedules","programs","histories"],"every interleaving, at the granularity of single memory accesses, of every set of threads each running any sequence of library calls on its own data",
 "The tests call one function at a time from one thread; no test runs two calls concurrently, and a hidden static buffer, shared cache or unguarded planner call is invisible to them.",
 ["include/edsp/spectral/internal/libfftw_impl.hpp","include/edsp/algorithm.hpp","include/edsp/statistics.hpp","include/edsp/windowing.hpp","include/edsp/filter.hpp","include/edsp/oscillator.hpp","include/edsp/core/system.hpp","include/edsp/core/logger.hpp","bindings/c/src/spectral.c","bindings/c/src/algorithm.c","bindings/c/src/statistics.c","bindings/c/src/windowing.c"],
 [("no mutable static state in the algorithms; per-object state only","include/edsp/**"),("FFT plans are created and destroyed inside the engine","include/edsp/spectral/internal/libfftw_impl.hpp")],
 [("FFT planner","process-global tables of the FFT library","libfftw3 / libfftw3f")],["return values and output buffers of every call"])
p("C02","A failed allocation is reported, leaks nothing and corrupts nothing",
 "When any single memory allocation or FFT-plan creation made inside a library call fails, the call either still produces its correct result or lets std::bad_alloc (or another exception) reach the caller, or returns the error value it documents; the process is never terminated and no memory or plan is leaked. After the failure, other objects are unaffected, the object involved can be destroyed or reused safely, and the same call on fresh objects gives its correct result.",
 ["fault_sequences","programs","histories"],"every allocating operation of the library, every position of the failing allocation inside it, and every sequence of such failures",
 "Tests never make an allocation fail, so no error path of any container, spectral routine, logger or environment call is ever executed by them.",
 ["include/edsp/types/ring_buffer.hpp","include/edsp/spectral/cepstrum.hpp","include/edsp/spectral/convolution.hpp","include/edsp/spectral/correlation.hpp","include/edsp/spectral/hilbert.hpp","include/edsp/spectral/spectrum.hpp","include/edsp/spectral/internal/libfftw_impl.hpp","include/edsp/filter/moving_average_filter.hpp","include/edsp/filter/moving_rms_filter.hpp","include/edsp/filter/moving_median_filter.hpp","include/edsp/core/logger.hpp","include/edsp/core/system.hpp","include/edsp/string/split.hpp","include/edsp/string/join.hpp"],
 [("standard containers with RAII own all memory","include/edsp/**"),("engine destructor releases the plans","include/edsp/spectral/internal/libfftw_impl.hpp")],
 None,["exceptions, results and the live-allocation and live-plan counts after each call"])
p("C03","Samples the encoder acknowledged are in the file after close",
 "Whatever the sample type, channel count, sample rate and sizes of the blocks written, after the encoder is closed or destroyed the file holds exactly the concatenation of the samples whose writes were acknowledged, in order, with the encoder's channel count and sample rate, and nothing from an earlier recording through the same encoder. When the disk fails or fills up, a write acknowledges fewer samples than given and never more than the file retains: the file still decodes to a prefix of the samples offered or cannot be opened, never to wrong samples, and writing through a closed or never opened encoder acknowledges nothing.",
 ["fault_sequences","inputs","histories"],"all block-size sequences, formats, open/write/close/reopen histories and disk-fault sequences (short, interrupted and failed writes, full disk, failed open, failed close)",
 "The encoder test writes one file in one block on a healthy disk (and aborts on a double free in the baseline); no block sequence, reopen or failing disk is exercised.",
 ["include/edsp/io/encoder.hpp","include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp"],
 [("returned count of write","include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp"),("close flushes and finalises the header","include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp")],
 [("file handle","open recording","encoder"),("format info","rate, channels, format of the file","encoder")],["file bytes on the simulated disk","encoder::write return value"])
p("C04","The decoder delivers the file's samples in order or stops short",
 "A read delivers exactly the next samples of the file, in order, and returns how many it delivered; it never writes past the requested range or leaves samples it did not read in the part it reports, for every request size relative to its internal buffer and for every length of the file. Under short and interrupted reads the samples are still all delivered; under read errors or a truncated file it returns fewer samples, never wrong ones, and reading from a closed or never opened decoder delivers none.",
 ["fault_sequences","inputs","histories"],"all request-size sequences, internal buffer sizes, sample types, channel counts, file lengths, and sequences of short reads, EINTR, EIO and truncation",
 "The decoder test reads one healthy file with fixed block sizes; block boundaries, short reads, errors and truncation are never exercised.",
 ["include/edsp/io/decoder.hpp","include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp"],
 [("loop that refills the internal buffer until the request is met or the file ends","include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp")],
 [("internal buffer","block between the codec and the caller's range","decoder")],["decoder::read return value and output range"])
p("C05","Decoder position, seek and attributes follow the file through any history",
 "In any sequence of open, seek, read, position query and close, the position equals the last successful seek plus the frames read since, a read after a seek to frame k starts at frame k, and a seek outside the file or on a closed decoder fails without moving the position. While a file is open the frames, samples, channels, rate and seekable attributes are those of that file; after a failed open or a close the decoder reports it is not open and never reports a previous file as open.",
 ["histories","fault_sequences","inputs"],"all histories of open/seek/read/current/close over files of different shapes, with faults on open, seek and read",
 "Tests open one file once and seek to at most one place.",
 ["include/edsp/io/decoder.hpp","include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp"],
 [("delegation of seek/current to the codec and attributes from the file info","include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp")],
 [("file info","attributes of the open file","decoder"),("file handle","whether a file is open","decoder")],["decoder accessors"])
p("C06","Every file, plan and converter handle is released exactly once",
 "Each audio file handle, OS file descriptor, sample-rate converter and FFT plan acquired by an encoder, decoder, resampler, FFT engine or metadata reader is released exactly once, no later than the owner's destruction, under every history of open, reopen, close, repeated close, failed open, move (where the type allows it), failure and destruction. No handle is used after it was released, and closing or reopening one object never affects another.",
 ["histories","fault_sequences"],"all lifecycles of any number of coexisting objects, with failures at every acquisition and release",
 "Tests open and close once (the encoder test aborts with a double free on the baseline); reopening, double closing, failed opens and destruction orders are not exercised, and leaks are not observed.",
 ["include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp","include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp","include/edsp/io/internal/resampler/libsamplerate_impl.hpp","include/edsp/io/internal/metadata/libtag_impl.hpp","include/edsp/spectral/internal/libfftw_impl.hpp"],
 [("destructors and close()","the *_impl.hpp owners")],
 [("live handles","acquired and not yet released","simulated libraries' boundary")],["acquire/release calls at the codec, converter, plan and descriptor boundary"])
p("C07","A crash while recording loses no acknowledged sample and forges none",
 "If the process is killed at any instant during a recording, opening the file afterwards either fails - only possible before the first write was acknowledged - or decodes, with the recording's channels and rate, to all samples acknowledged before the crash followed by at most the samples of the write in flight. Finished recordings on the same disk are unaffected.",
 ["crash_points","histories","fault_sequences"],"every system call at which the process can be killed, every block-size sequence, with the operating system's file content surviving",
 "No test kills the process; that needs control of the instant of the crash between any two disk operations.",
 ["include/edsp/io/encoder.hpp","include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp","include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp"],
 [("write passes samples straight to the codec, which passes them to the OS before returning","include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp")],
 None,["bytes on the simulated disk at the crash, decoded by the library"])
p("C08","Streaming resampling conserves samples and is independent of other streams",
 "For every converter quality, channel count, ratio and split of the stream into blocks, each call reports at most the frames it was given as consumed and at most ratio times that many as produced, writes exactly the frames it reports and nothing beyond, and the concatenated output is exactly that of the underlying converter fed the same blocks, so the total produced stays within the converter's latency of ratio times the total consumed. Reset returns the stream to its initial behaviour, streams do not influence each other, and a call the converter rejects reports an error, and neither consumed nor produced frames.",
 ["histories","schedules","fault_sequences"],"all block-size sequences (including empty and sub-frame blocks), interleavings of several streams, resets, failing conversions and failing creations",
 "The resampler test pushes one signal in one fixed block size through one converter; error returns and resets are not exercised.",
 ["include/edsp/io/resampler.hpp","include/edsp/io/internal/resampler/libsamplerate_impl.hpp"],
 [("frame arithmetic around the converter call and its returned counts","include/edsp/io/internal/resampler/libsamplerate_impl.hpp")],
 [("converter state","history of the stream","resampler")],["process return value, output buffer, error()"])
p("C09","Reading metadata never crashes and returns the stored tags or nothing",
 "For every file - tagged, untagged, truncated, corrupted, missing or failing while it is read - constructing a metadata reader and asking for title, artist, album, genre, track and year never crashes; on an intact file each field is exactly the stored one, and with no readable tag text fields are empty and numbers zero. Later changes to or removal of the file do not change what an existing reader reports.",
 ["fault_sequences","inputs","histories"],"all files, tag contents and read-fault sequences (missing file, EIO, short reads, truncation at every offset, flipped bytes)",
 "Tests read tags of a few healthy fixture files; missing, truncated and failing files are not exercised.",
 ["include/edsp/io/metadata.hpp","include/edsp/io/internal/metadata/libtag_impl.hpp"],
 [("access through the tag library's file reference","include/edsp/io/internal/metadata/libtag_impl.hpp")],
 None,["field accessors"])
p("C10","Environment access is linearizable and reports absence and errors faithfully",
 "Concurrent get, set and exists calls, through the C++ and the C interface, behave as if executed one at a time on a name-to-value map: a get returns exactly the value of the latest set of that exact name, exists is true exactly for names that are set (also to the empty string), a set without overwrite changes nothing when the name exists, and names and values passed as pieces of larger strings are used with exactly their own length. Empty names are reported as empty, missing names as not found, and a failing system call as an error that changes nothing.",
 ["schedules","histories","fault_sequences"],"all interleavings of concurrent callers and all histories, with failures of the underlying calls",
 "Tests set and read one variable from one thread with literal strings.",
 ["include/edsp/core/system.hpp","bindings/c/src/core.c"],
 [("one mutex around every access","include/edsp/core/system.hpp"),("mapping of results to error codes","include/edsp/core/system.hpp")],
 [("process environment","name to value","libc")],["return values of get_env, set_env, exist and the C functions"])
p("C11","Each log message reaches the stream once, whole and in order",
 "A logger object writes to standard output, when it is destroyed, exactly the items streamed into it, in order, each followed by one space (manipulators excepted), once and as one contiguous piece, whatever other threads log meanwhile; text given as a view is written with exactly its own length. If the output stream fails or throws or memory is exhausted, messages are lost whole at worst, the process survives, and messages logged after the stream recovers are complete.",
 ["schedules","histories","fault_sequences"],"all interleavings of logging threads and all sequences of items, with failures of the output stream",
 "No test looks at the log output, logs from several threads or makes the stream fail.",
 ["include/edsp/core/logger.hpp","include/edsp/meta/expects.hpp","include/edsp/meta/ensure.hpp"],
 [("per-object string stream flushed once in the destructor","include/edsp/core/logger.hpp")],
 [("message buffer","pending text","logger")],["bytes arriving at the standard output stream buffer"])
p("C12","An FFT engine's results do not depend on its history",
 "Each transform of an FFT engine (complex and real forward and inverse DFT, Hartley, DCT, inverse DCT, and the scalings) computes that transform of its input, for float and double and every size, no matter which other transforms the engine ran before, which buffers or alignments they used, whether it runs in place, or which planning attempt failed in between. Inputs of out-of-place transforms are left unchanged and nothing outside the output range is written.",
 ["histories","fault_sequences","inputs"],"all sequences of transforms on one engine, sizes, buffer placements and planner failures",
 "Tests use a fresh engine for each single transform with freshly allocated arrays.",
 ["include/edsp/spectral/fft_engine.hpp","include/edsp/spectral/internal/libfftw_impl.hpp","include/edsp/spectral/dft.hpp","include/edsp/spectral/dct.hpp","include/edsp/spectral/hartley.hpp"],
 [("lazily created plan cached in the engine","include/edsp/spectral/internal/libfftw_impl.hpp")],
 [("plan","compiled transform cached by the engine","fftw_impl")],["output buffers of each transform"])
p("C13","Ring buffers behave as a bounded queue that overwrites its oldest element",
 "In every history of pushes, pops at both ends, emplacements, clears, resizes, moves, copies and interleaved producers and consumers, a ring buffer's contents, order, iteration (forward and reverse), front, back, size, empty, full and capacity equal those of a bounded double-ended queue in which pushing into a full buffer discards the element at the opposite end. Clear and resize leave the buffer empty, resize with the new capacity. No element appears that was not pushed, none is delivered twice, buffers do not influence each other, and a failed allocation leaves the buffer usable.",
 ["histories","schedules","fault_sequences"],"all operation histories, capacities, wrap-around positions, task interleavings and allocation failures",
 "There is no unit test of the ring buffers; filters use only push_back and front.",
 ["include/edsp/types/ring_buffer.hpp","include/edsp/types/fixed_ring_buffer.hpp","include/edsp/types/ring_span.hpp","include/edsp/thirdparty/nonstd/ring_span.hpp"],
 [("ring span over an owned array","include/edsp/types/ring_buffer.hpp")],
 [("ring span","front index and size over the storage","ring_buffer")],["public container interface"])
p("C14","Moving filters compute the statistic of the last N samples",
 "After any history of finite samples, the output of a moving average, moving RMS or moving median filter of size N (one or more) is, up to rounding at the scale of the largest of these samples, the mean, root mean square or median of the last N samples received since construction, reset or resize, samples before that counting as zero. It does not depend on how the stream was cut into blocks, on in-place use, or on what other filters do; copies carry their own state; a reset or resize fully forgets the past even in the middle of a stream, and a resize that fails or is refused (size 0) changes nothing.",
 ["histories","schedules","fault_sequences"],"all block splits, control events (reset, resize) at every instant of the stream, interleavings of several filters, and allocation failures during resize",
 "Tests filter one signal in one call and never reset, resize or split it.",
 ["include/edsp/filter/moving_average_filter.hpp","include/edsp/filter/moving_rms_filter.hpp","include/edsp/filter/moving_median_filter.hpp","include/edsp/statistics/median.hpp"],
 [("ring buffer window plus running accumulator","include/edsp/filter/moving_average_filter.hpp")],
 [("window","last N samples","filter"),("accumulator","running sum","filter")],["filter outputs"])
p("C15","Biquads and cascades are causal, resettable and independent of block splits",
 "The output of a biquad is that of its difference equation, and of a cascade that of its stages in series in the order they were added, for every split of the stream into blocks and single ticks, in place or not; a reset, or changing a coefficient, gives exactly the behaviour of a fresh filter with the same coefficients. Copies carry their own state, several filters run interleaved never influence each other, and designed filters (RBJ, Zoelzer, Butterworth, Chebyshev I and II) are fresh on every creation whatever was designed or filtered before.",
 ["histories","schedules"],"all block splits, control events (reset, coefficient change, stage added, cleared, copied) at every instant, and interleavings of several filters",
 "Tests filter one signal in one call per design; no test splits, resets, copies or interleaves.",
 ["include/edsp/filter/biquad.hpp","include/edsp/filter/biquad_cascade.hpp","include/edsp/filter.hpp","include/edsp/filter/internal/rbj_designer.hpp","include/edsp/filter/internal/butterworth_designer.hpp","include/edsp/filter/internal/chebyshev_I_designer.hpp","include/edsp/filter/internal/chebyshev_II_designer.hpp"],
 [("two delay elements per biquad","include/edsp/filter/biquad.hpp"),("array of stages and a count","include/edsp/filter/biquad_cascade.hpp")],
 [("w0,w1","delay line","biquad"),("num_stage","stages in use","biquad_cascade")],["filter outputs and accessors"])
p("C16","Oscillators follow their waveform through any sequence of control events",
 "At every sample an oscillator (sinusoidal, square, sawtooth, triangular) outputs its waveform evaluated at its current timestamp with the amplitude, frequency, phase, duty or width and sample rate in force at that moment, and then advances the timestamp by one sampling period: the sinusoid of its phase, +amplitude during the duty fraction of each period and -amplitude after it, a sawtooth and a triangle of the given width, all of them periodic before time zero too (the phase control moves sinusoids only). Control changes at any instant of the stream take effect on the next sample and on nothing else, reset and timestamp changes move only the time, accessors return what was set, and oscillators run interleaved do not influence each other.",
 ["histories","schedules"],"all sequences of samples and control events (set frequency, amplitude, phase, duty, width, sample rate, timestamp, reset) and interleavings of several oscillators",
 "Tests generate one block from each oscillator with parameters fixed at construction.",
 ["include/edsp/oscillator.hpp","include/edsp/oscillators/sinusoidal.hpp","include/edsp/oscillators/square.hpp","include/edsp/oscillators/sawtooth.hpp","include/edsp/oscillators/triangular.hpp"],
 [("timestamp accumulated by the sampling period","include/edsp/oscillators/sinusoidal.hpp")],
 [("timestamp","simulated stream time","oscillator")],["samples and accessors"])
p("C17","Envelopes follow their stages, stay bounded and always come to rest",
 "Under any schedule of key-on, key-off and parameter events an ADSR envelope rises by the attack rate to its target, moves by the decay rate to the sustain level and holds it, and falls by the release rate to exactly zero, within the number of samples its rates imply, with its level never negative nor above the larger of its targets, and stays idle at zero until the next key-on or new target. An attack-release follower moves towards its (optionally rectified) input with the attack coefficient when rising and the release coefficient when falling, derived from its times (in milliseconds) and sample rate, never overshoots the input range, and after a reset behaves as a fresh one.",
 ["histories","schedules"],"all event schedules (including re-trigger during release and release during attack), rates, rate changes and input streams",
 "No test exercises the envelopes at all.",
 ["include/edsp/experimental/envelope/adsr.hpp","include/edsp/experimental/envelope/ar.hpp"],
 [("state machine stepped once per sample","include/edsp/experimental/envelope/adsr.hpp"),("one-pole follower","include/edsp/experimental/envelope/ar.hpp")],
 [("state,value,target","stage and level","adsr"),("last","level","ar")],["samples and accessors"])
p("C18","Generators draw only on the clock reading at construction and stay in range",
 "The sequence of a random or noise generator is completely determined by its parameters and the clock reading at its construction: two generators built at the same reading with the same parameters agree sample by sample, and clock jumps, stalls or other generators running in between never change a sequence; copies continue alike, generators built a second or more apart differ, and values follow the distribution asked for. Binary, uniform, white, pink, brown, perlin and constant generators never leave the range their parameters imply, whatever the clock returns (zero, negative, maximal or backwards).",
 ["histories","schedules","fault_sequences"],"all clock histories (jumps, stalls, extremes) and interleavings of generators",
 "No test touches the generators; they depend on the wall clock, which tests do not control.",
 ["include/edsp/random/random_generator.hpp","include/edsp/random/binary_generator.hpp","include/edsp/random/constant_generator.hpp","include/edsp/random/noise/white_noise_generator.hpp","include/edsp/random/noise/pink_noise_generator.hpp","include/edsp/random/noise/brown_noise_generator.hpp","include/edsp/random/noise/perlin_noise_generator.hpp"],
 [("engine seeded from the clock in the constructor, owned by the object","include/edsp/random/noise/white_noise_generator.hpp")],
 [("engine","generator state","each generator")],["generated values"])
p("C19","Python sessions keep the core guarantees and never corrupt the interpreter",
 "Any session of Python calls on encoder, decoder, resampler, metadata reader, oscillators, filters, environment functions and the functions on arrays and strings - any order of open, write, read, seek, close, re-open, any array lengths and channel counts, on a healthy or failing disk - returns arrays that hold exactly the samples and shape the core delivered and never crashes the interpreter or reads or writes outside the arrays involved. A decoder read returns exactly the samples actually read (interleaved, whole frames), a resampler call returns every frame produced (interleaved) and the frames consumed; the functions on arrays (algorithm, statistics, spectral, converter, feature, windowing, auditory spaces) and on strings return what the core computes from the values their arguments hold and leave the arguments alone. Arrays of other element types, strides or shapes are converted or rejected with a Python exception, as are arrays of sizes that do not fit together, negative sizes and arguments of other types; a failed allocation or FFT plan reaches Python as an exception.",
 ["histories","fault_sequences","inputs"],"all call sequences with all array sizes and channel counts, with short reads, failed reads and writes and missing files",
 "The Python tests call each wrapper with mono or well-sized arrays on healthy fixture files.",
 ["bindings/python/src/io.cpp","bindings/python/src/oscillator.cpp","bindings/python/src/filter.cpp","bindings/python/src/core.cpp","bindings/python/src/algorithm.cpp","bindings/python/src/statistics.cpp","bindings/python/src/spectral.cpp","bindings/python/src/converter.cpp","bindings/python/src/windowing.cpp","bindings/python/src/auditory.cpp","bindings/python/src/feature_temporal.cpp","bindings/python/src/feature_spectral.cpp","bindings/python/src/feature_statistics.cpp","bindings/python/src/string.cpp"],
 [("array allocation and reshaping around the core calls","bindings/python/src/io.cpp")],
 None,["numpy arrays returned to Python"])

NA={}
def na(id,title,statement,text,why,files,mech,reason):
    p(id,title,statement,["inputs"],text,why,files,mech)
    NA[id]=reason
pure="A pure function of its arguments: no thread, clock, I/O, stream state or fault can change its value, so there is no schedule or fault sequence for a simulator to search; running it on generated inputs would be input fuzzing, not simulation. (That concurrent callers and failing allocations do not disturb these functions is claimed separately in C01 and C02.)"
na("C20","Spectral transforms satisfy their defining identities",
 "For every input length and content, forward followed by inverse DFT, DCT and Hartley transforms reproduces the input, Parseval's relation holds, convolution, correlation, cepstrum and Hilbert results equal their time-domain definitions.",
 "all signals of every length","Tests compare a few random arrays of a few sizes with scipy.",["include/edsp/spectral/dft.hpp","include/edsp/spectral/convolution.hpp","include/edsp/spectral/correlation.hpp","include/edsp/spectral/cepstrum.hpp","include/edsp/spectral/hilbert.hpp"],[("FFT engine and scaling","include/edsp/spectral")],pure)
na("C21","Statistics equal their definitions",
 "For every non-empty input, mean, variance, moments, norms, skewness, kurtosis, maxima, minima, peaks, histogram and generalised means equal their mathematical definitions up to rounding and respect their bounds.",
 "all numeric sequences","Tests sample random arrays.",["include/edsp/statistics.hpp"],[("iterator algorithms","include/edsp/statistics")],pure)
na("C22","Windows equal their formulas and are symmetric",
 "For every size each window function equals its published formula, is symmetric and stays in its range.",
 "all sizes and parameters","Tests check a few sizes against scipy.",["include/edsp/windowing.hpp"],[("closed-form loops","include/edsp/windowing")],pure)
na("C23","Unit, decibel and auditory-scale conversions invert each other and are monotone",
 "Each conversion pair (dB-magnitude, dB-power, degrees-radians, hertz to and from bark, mel, erb, cent) inverts the other on its domain and preserves order.",
 "all real arguments","Tests sample points.",["include/edsp/converter.hpp","include/edsp/auditory/converter/hertz2mel.hpp"],[("closed-form formulas","include/edsp/converter")],pure)
na("C24","Designed filters meet their specification and are stable",
 "For every admissible order, cut-off, rate and ripple the designed filters are stable and their response meets the pass and stop bands asked for.",
 "all design parameters","Tests check a few designs.",["include/edsp/filter/internal/rbj_designer.hpp","include/edsp/filter/internal/butterworth_designer.hpp","include/edsp/filter/internal/chebyshev_I_designer.hpp"],[("pole and zero placement and bilinear transform","include/edsp/filter/internal")],pure)
na("C25","Spectral, temporal and statistical features equal their definitions",
 "For every non-degenerate input each feature (centroid, spread, crest, flatness, flux, rolloff, zero-crossing rate, energy, loudness and the others) equals its definition.",
 "all signals and spectra","Tests sample random arrays.",["include/edsp/feature/spectral/spectral_centroid.hpp","include/edsp/feature/temporal/azcr.hpp"],[("iterator algorithms","include/edsp/feature")],pure)
na("C26","Array algorithms and string helpers equal their definitions",
 "For every input, amplifying, clipping, normalising, padding, rounding, ramps, searches, splitting, joining, trimming and case changes equal their definitions and write exactly their output range.",
 "all arrays, ranges and strings","Tests sample arrays and strings.",["include/edsp/algorithm.hpp","include/edsp/string/split.hpp"],[("iterator algorithms","include/edsp/algorithm")],pure)
na("C27","Number-theoretic and numeric helpers are exact",
 "For every integer, primality, power-of-two, parity, next power and similar helpers give the exact answer.",
 "all integers","Tests sample small integers.",["include/edsp/math/numeric.hpp"],[("closed-form loops","include/edsp/math/numeric.hpp")],pure)
p("C28","Random numbers depend on the entropy read for them and report its failure",
 "A call of math::rand, for a range or for the whole range of a type, draws its randomness from the system's entropy source during the call: equal entropy readings give equal numbers, whatever was drawn before, at whatever time and by however many threads at once. The number lies in the range asked for, and numbers drawn from good entropy are spread evenly over it, ends included. A call whose entropy source cannot be opened or read ends with an exception and no number, leaves nothing open, and later calls work.",
 ["schedules","fault_sequences","inputs"],"all interleavings of calls, all entropy readings including constant and failing ones, all types and ranges",
 "No test controls the entropy source or draws from several threads.",
 ["include/edsp/math/numeric.hpp"],
 [("an engine seeded from std::random_device in every call","include/edsp/math/numeric.hpp")],
 None,["the number returned"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
json.dump(NA,open('/tmp/na.json','w'))
for x in P:
    assert len(x['title'])<=80,x['title']
