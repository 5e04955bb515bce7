"""What each check builds, runs and claims."""
IO_CORE = ["alloc", "disk", "handles", "seam_snd", "clock"]
FAULTS = {}
DISK_ASSUME = [
    "the audio codec library's own code is trusted; it runs for real on the simulated disk",
    "single simulated client thread: concurrent use is C01's subject",
]
C_SOURCES = ["algorithm.c", "windowing.c", "statistics.c", "spectral.c", "core.c", "converter.cpp"]
CATALOG = dict(
    core=["alloc", "disk", "handles", "seam_snd", "seam_src", "seam_fftw", "clock", "seam_env", "sched"],
    libs=["sndfile", "samplerate", "fftw3", "fftw3f", "tag"], flags=["-I$REPO/bindings/c/include"])
PROPS = {
    "C01": dict(
        index=1, src=["C01.cpp+cov"] + ["$REPO/bindings/c/src/%s+cov" % n for n in C_SOURCES],
        quick=(20000, 90), thorough=(4000000, 1500),
        rule="one seed = 2-4 threads with up to 6 programs each out of a catalogue of over a hundred public operations and "
             "objects, under a drawn schedule with switch points at every instrumented memory access, branch, lock, planner and "
             "system call; non-trivial = at least one switch",
        measure="pairs of operations in progress at the same time",
        real=["the algorithms, statistics, windows, converters, features, spectral functions, filters, oscillators, envelopes, "
              "generators, ring buffers, strings, environment, logger, encoder, decoder, resampler and metadata reader of include/edsp",
              "bindings/c/src", "libfftw3, libfftw3f, libsndfile, libsamplerate, libtag"],
        stub=["thread scheduler, mutexes, once", "file system (in-memory simulated disk)", "wall clock", "environment table"],
        assumptions=["code of the libraries underneath is not preempted except inside the FFT planner and at system calls",
                     "interleavings are sequentially consistent"], **CATALOG),
    "C02": dict(
        index=2, src=["C02.cpp"] + ["$REPO/bindings/c/src/%s" % n for n in C_SOURCES],
        quick=(20000, 60), thorough=(4000000, 1500),
        rule="one seed = 1-3 threads with up to 12 programs each of the catalogue C01 uses, switching between library calls; in a "
             "drawn part of them a drawn allocation (single or a burst), FFT plan, converter or file handle fails, on first or "
             "later uses, and the objects involved are used again or destroyed; non-trivial = at least one failure delivered",
        measure="(operation, kind of failure, position of the failure) tuples",
        real=["the algorithms, statistics, windows, converters, features, spectral functions, filters, oscillators, envelopes, "
              "generators, ring buffers, strings, environment, logger, encoder, decoder and resampler of include/edsp",
              "bindings/c/src", "libfftw3, libfftw3f, libsndfile, libsamplerate"],
        stub=["operator new (fails on demand)", "failing fftw_plan_*, src_new and sf_open calls", "thread scheduler",
              "file system (in-memory simulated disk)", "wall clock", "environment table"],
        assumptions=["allocations made with malloc inside the libraries underneath fail only as the failing plan, converter or file they cause",
                     "tag reading is not part of it (the tag library itself leaks and aborts when memory runs out)"], **CATALOG),
    "C03": dict(
        index=3, src=["C03.cpp"], core=IO_CORE, libs=["sndfile"], quick=(6000, 45), thorough=(400000, 1500),
        rule="one seed = one session of 1-2 encoders: type, channels, rate, block sizes, open/reopen/close/destroy order "
             "and disk faults all drawn from the seed; every run performs I/O, so non-trivial = distinct event history",
        measure="(channels, block-size class, sample type, after-fault) tuples written",
        real=["include/edsp/io/encoder.hpp and libsndfile_encoder_impl.hpp", "libsndfile"],
        stub=["file system and its system calls (in-memory simulated disk)", "wall clock"],
        assumptions=DISK_ASSUME),
    "C04": dict(
        index=4, src=["C04.cpp"], core=IO_CORE, libs=["sndfile"], quick=(6000, 45), thorough=(400000, 1500),
        rule="one seed = one session of 1-2 decoders over 1-3 files (intact, truncated, corrupt, no audio, missing; five "
             "containers, pipes, recordings of billions of frames): request sizes, seeks, reopens, disk faults and truncation or removal of the file under the "
             "decoder all drawn from the seed; non-trivial = distinct event history",
        measure="(channels, request size in internal buffers, buffer size, complete) tuples read",
        real=["include/edsp/io/decoder.hpp and libsndfile_decoder_impl.hpp", "libsndfile"],
        stub=["file system and its system calls (in-memory simulated disk)", "wall clock"],
        assumptions=DISK_ASSUME + ["the samples of a file are what the codec delivers when it reads the file at once "
                                   "without faults"]),
    "C05": dict(
        index=5, src=["C05.cpp"], core=IO_CORE, libs=["sndfile"], quick=(6000, 45), thorough=(400000, 1500),
        rule="as C04 with the mix moved to open, close, seek and queries; non-trivial = distinct event history",
        measure="(channels, request size in internal buffers, buffer size, complete) tuples read",
        real=["include/edsp/io/decoder.hpp and libsndfile_decoder_impl.hpp", "libsndfile"],
        stub=["file system and its system calls (in-memory simulated disk)", "wall clock"],
        assumptions=DISK_ASSUME + ["after a failed operation the position is unknown until the next successful seek"]),
    "C07": dict(
        index=7, src=["C07.cpp"], core=IO_CORE, libs=["sndfile"], quick=(400, 45), thorough=(100000, 1500),
        rule="one seed = one recording session of 1-2 encoders; the disk after every mutating system call and at every page "
             "boundary inside large writes is a crash point (up to 80 evaluated per run), each decoded and compared with "
             "what was acknowledged then; one of them is restarted with new recordings; non-trivial = distinct history",
        measure="per crash point: (decoded beyond acknowledged, finished, anything acknowledged) of every recording",
        real=["include/edsp/io/encoder.hpp, decoder.hpp and their libsndfile implementations", "libsndfile"],
        stub=["file system and its system calls (in-memory simulated disk)", "wall clock", "process kill (disk snapshot)"],
        assumptions=["the crash is a killed process: completed system calls survive, a write is cut only between pages, "
                     "power loss is out of scope (the encoder promises no fsync)",
                     "the audio codec library's own code is trusted; it runs for real on the simulated disk"]),
    "C06": dict(
        index=6, src=["C06.cpp"], core=IO_CORE + ["seam_src", "seam_fftw"], libs=["sndfile", "samplerate", "tag", "fftw3", "fftw3f"],
        quick=(1200, 45), thorough=(400000, 1500),
        rule="one seed = one session over up to 8 live encoders, decoders, resamplers, FFT engines and metadata readers: "
             "creation, operations, moves and destruction in a drawn order with failing opens, creations, plans, system "
             "calls and allocations; non-trivial = distinct event history",
        measure="multiset of (object type, handles it holds)",
        real=["encoder, decoder, resampler, metadata and FFT engine headers of include/edsp", "libsndfile", "libsamplerate",
              "libtag", "libfftw3, libfftw3f"],
        stub=["file system and its system calls (in-memory simulated disk)", "wall clock",
              "failing sf_open, src_new and fftw_plan_* calls"],
        assumptions=["handles are observed where the library calls libsndfile, libsamplerate, FFTW and the system",
                     "allocation failures inside libtag are not injected (its own leaks are not eDSP's)"]),
    "C08": dict(
        index=8, src=["C08.cpp"], core=IO_CORE + ["seam_src"], libs=["sndfile", "samplerate"],
        quick=(1200, 45), thorough=(400000, 1500),
        rule="one seed = up to 4 interleaved streams: quality, channels, ratio, block sizes, resubmission of unconsumed "
             "input, resets, rejected calls, overlapping buffers and failing converters drawn from the seed, each mirrored "
             "by a bare converter; non-trivial = distinct event history",
        measure="(quality, channels, all consumed, up/down, output full) tuples",
        real=["include/edsp/io/resampler.hpp and libsamplerate_impl.hpp", "libsamplerate"],
        stub=["failing src_new and src_process calls"],
        assumptions=["the underlying converter library is trusted and deterministic", "the output capacity of a call is "
                     "the ratio times the frames given, rounded down, as documented"]),
    "C09": dict(
        index=9, src=["C09.cpp"], core=IO_CORE, libs=["sndfile", "tag"], quick=(4000, 40), thorough=(800000, 1500),
        rule="one seed = up to 5 files (seven tagged kinds assembled by the harness, untagged, not audio; intact, truncated, "
             "corrupted, noise, empty, missing), up to 7 live readers, copies, files changed or replaced under their "
             "readers and failing reads, all drawn from the seed; non-trivial = distinct event history",
        measure="(file kind, damage) pairs read",
        real=["include/edsp/io/metadata.hpp and libtag_impl.hpp", "libtag"],
        stub=["file system and its system calls (in-memory simulated disk)"],
        assumptions=["what a damaged file's tags are is what the tag library reads from it without faults",
                     "allocation failures inside libtag are not injected"]),
    "C10": dict(
        index=10, src=["C10.cpp+cov", "$REPO/bindings/c/src/core.c+cov"], core=["alloc", "sched", "seam_env"], libs=[],
        flags=["-I$REPO/bindings/c/include"],
        quick=(12000, 40), thorough=(3000000, 1500),
        rule="one seed = 1-4 threads with up to 12 get/set/exists calls each (C++ and C interface, names and values that are "
             "pieces of larger texts, empty values and names, failing setenv, failing allocations) under a drawn schedule with "
             "switch points at every lock, environment call and instrumented memory access; non-trivial = at least one switch",
        measure="(operations on a name, threads, finally set) tuples; schedules are counted by distinct event history",
        real=["include/edsp/core/system.hpp", "bindings/c/src/core.c"],
        stub=["getenv/setenv (a two-step table that reports overlapping access)", "thread scheduler, mutexes"],
        assumptions=["values returned earlier stay readable after a later set, as with glibc",
                     "code outside the library does not touch the environment meanwhile"]),
    "C11": dict(
        index=11, src=["C11.cpp+cov"], core=["alloc", "sched"], libs=[],
        quick=(8000, 40), thorough=(3000000, 1500),
        rule="one seed = 1-4 threads with up to 12 messages of mixed items each (macros, named loggers, two loggers alive at "
             "once, loggers destroyed by a passing exception, meta::expects) under a drawn schedule with a failing, throwing, "
             "tearing or unflushable stream and failing allocations; non-trivial = distinct event history",
        measure="(threads, messages, lost messages, fault mode) tuples; schedules are counted by distinct event history",
        real=["include/edsp/core/logger.hpp", "include/edsp/meta/expects.hpp and ensure.hpp", "thirdparty/termcolor", "std::ostream"],
        stub=["stream buffer of std::cout (the device)", "thread scheduler, mutexes", "failing operator new"],
        assumptions=["one write to the stream buffer is atomic, as one write to stdout is",
                     "colour sequences are not part of the text"]),
    "C12": dict(
        index=12, src=["C12.cpp"], core=["alloc", "handles", "seam_fftw"], libs=["fftw3", "fftw3f"],
        quick=(1500, 40), thorough=(400000, 1500),
        rule="one seed = up to 5 engines of drawn sizes and precisions; transforms of every kind, in place or not, at drawn "
             "alignments, with failing plans and engines destroyed in between; each result compared with the definition in "
             "extended precision; non-trivial = distinct event history",
        measure="(previous transform, transform, size, in place, alignments) tuples",
        real=["include/edsp/spectral/fft_engine.hpp and libfftw_impl.hpp", "dft, dct and hartley functions", "libfftw3, libfftw3f"],
        stub=["failing fftw_plan_* calls"],
        assumptions=["buffers that overlap only partly are not used"]),
    "C13": dict(
        index=13, src=["C13.cpp"], core=["alloc"], libs=[],
        quick=(20000, 40), thorough=(4000000, 1500),
        rule="one seed = up to 6 live ring_buffer, fixed_ring_buffer and ring_span objects of one element type (int, double, "
             "string) used in turn by producers and consumers, copied, moved, swapped, resized and destroyed, with failing "
             "allocations; all of them compared with bounded deques after every step; non-trivial = distinct event history",
        measure="(buffer type, fill, capacity) tuples",
        real=["include/edsp/types/ring_buffer.hpp, fixed_ring_buffer.hpp, ring_span.hpp", "thirdparty/nonstd/ring_span.hpp"],
        stub=["failing operator new"],
        assumptions=["no pop from an empty buffer and no out-of-range operator[] (documented as unchecked)",
                     "the buffers promise no internal locking: producers and consumers take turns"]),
    "C14": dict(
        index=14, src=["C14.cpp"], core=["alloc"], libs=[],
        quick=(20000, 40), thorough=(4000000, 1500),
        rule="one seed = up to 6 live moving filters (average, rms, median; float, double) fed in turn in drawn block sizes, "
             "single samples, in place, through lists and growing vectors, with resets, resizes (some failing, some refused), "
             "copies, moves and assignments at drawn instants; every output judged; non-trivial = distinct event history",
        measure="(filter, precision, window, full, position in window) tuples",
        real=["include/edsp/filter/moving_average_filter.hpp, moving_rms_filter.hpp, moving_median_filter.hpp",
              "include/edsp/types/ring_buffer.hpp", "include/edsp/statistics/median.hpp"],
        stub=["failing operator new"],
        assumptions=["finite samples", "rounding is bounded by the number of samples received times the precision, at the "
                     "scale of the largest sample since the last reset"]),
    "C15": dict(
        index=15, src=["C15.cpp"], core=["alloc"], libs=[],
        quick=(20000, 40), thorough=(4000000, 1500),
        rule="one seed = up to 6 live biquads and cascades (from coefficients, poles and zeros, stages, or one of 32 designs in "
             "3 variants, float and double) fed in turn in drawn block sizes and ways, with resets, coefficient changes, stages "
             "added, changed and cleared, copies and assignments at drawn instants; non-trivial = distinct event history",
        measure="(kind, precision, samples since reset, stability or stages in use) tuples",
        real=["include/edsp/filter/biquad.hpp, biquad_cascade.hpp", "include/edsp/filter.hpp and filter/internal"],
        stub=[],
        assumptions=["no stage is added to a full cascade (documented precondition)",
                     "what a designer should answer is what the same call answers in a process that designed nothing before",
                     "a filter is not judged after its output overflowed, until it is reset"]),
    "C16": dict(
        index=16, src=["C16.cpp"], core=["alloc"], libs=[],
        quick=(20000, 40), thorough=(4000000, 1500),
        rule="one seed = up to 6 live oscillators (sinusoidal, square, sawtooth, triangular; float, double) generating blocks "
             "and single samples in turn, with frequency, amplitude, phase, duty, width, rate and timestamp changes, resets, "
             "copies and assignments at drawn instants; every sample and time step judged; non-trivial = distinct event history",
        measure="(oscillator, precision, before time zero, extreme duty or width, above Nyquist) tuples",
        real=["include/edsp/oscillator.hpp, oscillators/*.hpp"],
        stub=[],
        assumptions=["frequencies, rates above zero; duty and width between 0 and 1 (documented preconditions)",
                     "the phase control moves sinusoids only", "samples are judged to the precision the timestamp has"]),
    "C17": dict(
        index=17, src=["C17.cpp"], core=["alloc"], libs=[],
        quick=(20000, 40), thorough=(4000000, 1500),
        rule="one seed = up to 6 live envelopes (ADSR, attack-release; float, double) under a drawn schedule of key-on, key-off, "
             "parameter, rate and target events, resets, copies and input blocks; every sample judged, and once events stop every "
             "envelope must hold or rest within the samples its rates imply; non-trivial = distinct event history",
        measure="(envelope, precision, stage, level above sustain or at zero, release by time) tuples",
        real=["include/edsp/experimental/envelope/adsr.hpp, ar.hpp"],
        stub=[],
        assumptions=["levels, rates and times within their documented preconditions",
                     "a progress bound is only demanded of rates that move the level by more than its rounding"]),
    "C18": dict(
        index=18, src=["C18.cpp"], core=["alloc", "clock"], libs=[],
        quick=(20000, 40), thorough=(4000000, 1500),
        rule="one seed = up to 8 live generators (18 distributions, white, pink, brown, perlin, binary, constant; float, double, "
             "int; three engines) built at drawn clock readings (ordinary, zero, negative, extreme, stalled, backwards), drawn "
             "from in turn under clock jumps, copied, and rebuilt at the same and other readings; non-trivial = distinct history",
        measure="(generator, reading negative or zero, values drawn) tuples",
        real=["include/edsp/random.hpp, random/*.hpp, random/noise/*.hpp", "libstdc++ <random>"],
        stub=["wall and monotonic clock"],
        assumptions=["a generator's clock reading is one reading of the simulated clock",
                     "a distribution is judged by its empirical distribution function at five points, at 8 standard deviations"]),
    "C19": dict(
        index=19, src=["C19.cpp", "C19_ref.cpp"] + ["$REPO/bindings/python/src/%s.cpp" % n for n in (
            "package", "algorithm", "windowing", "statistics", "spectral", "converter", "core", "string", "oscillator",
            "auditory", "feature_temporal", "feature_spectral", "feature_statistics", "filter", "io")] +
        ["$REPO/bindings/c/src/%s" % n for n in ("algorithm.c", "windowing.c", "statistics.c", "spectral.c", "core.c", "converter.cpp")],
        core=["alloc", "disk", "handles", "seam_snd", "seam_src", "seam_fftw", "clock", "seam_env", "sched"],
        libs=["python3.12", "boost_python312", "boost_numpy312", "sndfile", "samplerate", "tag", "fftw3", "fftw3f"],
        flags=["-I/usr/include/python3.12", "-I$REPO/bindings/python/include", "-I$REPO/bindings/c/include", "-DMODULE_NAME=pedsp",
               "-DVERIF_PYTHON=\"/opt/vp/venv/bin/python3\""],
        repo_flags=["-std=c++14"],
        quick=(30000, 75), thorough=(4000000, 1500),
        rule="one seed = one Python session in an embedded interpreter: up to 6 live encoders, decoders, resamplers, metadata "
             "readers, oscillators and filters, environment calls and the functions on arrays and strings, with arrays of every element type and layout, calls that "
             "cannot be served, disk faults, failing codec opens and converters and failing allocations; non-trivial = distinct history",
        measure="(object kind, channels or kind, size class) tuples",
        real=["bindings/python/src/*.cpp and bindings/c/src/*", "the eDSP headers underneath", "CPython 3.12, Boost.Python, numpy",
              "libsndfile, libsamplerate, libtag, FFTW"],
        stub=["file system and its system calls (in-memory simulated disk)", "wall clock", "environment table",
              "failing sf_open, src_new, src_process, FFTW plans and operator new"],
        assumptions=["CPython, numpy and Boost.Python are trusted", "the session's expectations come from bare C++ objects fed the "
                     "same calls (C08, C14, C16 judge those), from the core functions fed the converted values, from the codec and from models"]),
    "C28": dict(
        index=28, src=["C28.cpp+cov"], cov_opt="-O1", core=["alloc", "clock", "sched", "seam_entropy"], libs=[],
        quick=(20000, 30), thorough=(3000000, 1500),
        rule="one seed = 1-4 threads with up to 16 calls each of math::rand over up to four ranges and types, under a drawn schedule "
             "with switch points at every reading of the entropy source and instrumented memory access, with good, constant, repeated and "
             "failing entropy, a moving clock and failing allocations; each call is repeated alone with the same readings; "
             "non-trivial = at least one switch",
        measure="(integral, whole range, entropy quality, failed) tuples; schedules are counted by distinct event history",
        real=["include/edsp/math/numeric.hpp (rand)", "libstdc++ <random> engines and distributions"],
        stub=["the entropy source (std::random_device's opening, reading and closing)", "wall clock", "thread scheduler", "failing operator new"],
        assumptions=["std::random_device is how the library reaches the entropy source",
                     "a spread is judged at 8 standard deviations"]),
}
