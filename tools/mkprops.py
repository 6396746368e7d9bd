#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))

p("C01", "Complex DFT equals the DFT definition for every size and calling mode",
  "For every transform length (powers of two, smooth, prime and lengths with large prime factors), both precisions and both directions, executing a plan yields the unscaled discrete Fourier sum of its input, within rounding error. The result is the same in place and out of place, with a caller-supplied scratch buffer or none, the input of an out-of-place call is left untouched, and nothing outside the output and the declared scratch size is written. Forward followed by inverse multiplies by the length.",
  ["inputs", "configurations"],
  "every length up to a bound plus selected larger ones x precision x direction x in/out of place x scratch supplied or not x every basis impulse (the operator is linear, so the basis decides it)",
  "The DFT tests sample random inputs on selected sizes through one calling mode, with scratch always supplied and nothing watching the bytes around the buffers.",
  ["include/kfr/dft/fft.hpp", "src/dft/dft-fft.hpp", "src/dft/dft-impl.hpp", "src/dft/fft-impl.hpp", "src/dft/ft.hpp", "src/dft/bitrev.hpp", "src/dft/dft.cpp"],
  [("plan construction: stage selection and twiddle tables", "src/dft/dft-fft.hpp"), ("mixed radix, Bluestein and Cooley-Tukey stages", "src/dft/dft-impl.hpp"), ("power-of-two passes and reordering", "src/dft/fft-impl.hpp"), ("in-place disposition of stages and scratch layout", "src/dft/dft-fft.hpp")],
  [("stage data", "twiddles per stage", "src/dft/dft-impl.hpp")])

p("C02", "Real DFT agrees with the complex DFT in both packed layouts",
  "For every even length, the real-input transform equals the first half of the complex spectrum of the same samples, laid out exactly as the documented packed formats prescribe, and the real-output inverse of such a spectrum returns the samples multiplied by the length. This holds in place and out of place, with or without caller scratch, touching only the documented number of elements.",
  ["inputs", "configurations"],
  "every even length up to a bound x both layouts x precision x direction x in/out of place x scratch mode x every basis impulse",
  "Tests use random vectors at selected sizes and the one-shot helpers; the packed layout is barely sampled.",
  ["include/kfr/dft/fft.hpp", "src/dft/dft-fft.hpp", "src/dft/fft-impl.hpp", "docs/docs/dft_format.md"],
  [("real-transform recombination stage", "src/dft/fft-impl.hpp"), ("real plan initialisation", "src/dft/dft-fft.hpp")])

p("C03", "Multidimensional DFT is the separable transform along every axis",
  "For every shape, a multidimensional complex plan computes the unscaled DFT along each axis in turn, the real variant computes the same transform of real data truncated to half plus one bins on the last axis, and the inverses undo them up to the element count. Neither writes outside the output and scratch it asks for, whether axes have length one, are prime, or are far from square.",
  ["inputs", "configurations"],
  "all shapes of 1..4 dimensions with small sides x real/complex x direction x in/out of place x scratch mode x basis impulses",
  "Three or four fixed shapes are tested.",
  ["include/kfr/dft/fft.hpp", "include/kfr/base/transpose.hpp", "src/dft/dft-fft.hpp"],
  [("axis rotation by repeated matrix transposition", "include/kfr/dft/fft.hpp"), ("expand/contract of the last axis in the real case", "include/kfr/dft/fft.hpp")])

p("C04", "Cosine transforms match their definition at every length",
  "For every length, even or odd, the forward cosine transform equals the unscaled type-II sum, and the inverse the matching type-III sum, so that the pair composes to a constant multiple of the input; a missing scratch buffer is supplied by the library and nothing else is written.",
  ["inputs", "configurations"],
  "every length up to a bound x precision x direction x scratch mode x basis impulses",
  "The unit test checks a handful of lengths with fixed data and always passes scratch.",
  ["include/kfr/dft/fft.hpp"], [("even/odd mirroring around a complex DFT", "include/kfr/dft/fft.hpp")])

p("C05", "Block convolution equals direct convolution for any chopping of the stream",
  "Feeding a stream through the partitioned convolution engine gives the causal linear convolution with the impulse response, for every impulse length, block size and way of chopping the stream into calls, including in-place calls and empty chunks. Resetting it makes the next stream independent of everything before, and installing a new response takes effect completely.",
  ["histories", "inputs"],
  "impulse lengths x block sizes x all call-size sequences up to a bound, mixed with reset and response replacement",
  "The test convolves whole signals in one call or in one fixed chunking.",
  ["include/kfr/dft/convolution.hpp", "src/dft/convolution-impl.cpp"],
  [("segment ring and overlap-add cursor", "src/dft/convolution-impl.cpp")],
  [("segment ring position and input cursor", "how much of the current block has been fed", "include/kfr/dft/convolution.hpp")])

p("C06", "One-shot convolution and correlation match the definition",
  "Convolving, correlating and autocorrelating two finite sequences of any lengths, real or complex, gives exactly the sums of the definition with the documented output length and lag order, up to rounding.",
  ["inputs"], "all pairs of lengths up to a bound x real/complex x all basis pairs",
  "One fixed example each is tested.",
  ["include/kfr/dft/convolution.hpp", "src/dft/convolution-impl.cpp"],
  [("zero padding to a transform size, spectrum product, crop", "src/dft/convolution-impl.cpp")])

p("C07", "FIR filtering depends only on the sample stream, not on how it is delivered",
  "A finite impulse response filter outputs, for each sample, the weighted sum of the current and previous samples with silence before the start, for every tap count including odd ones and one. The stream may be cut into calls of any sizes, in place or not, through the filter object, the expression form or an external state; resetting returns to silence; the caller's taps are never modified.",
  ["histories", "inputs"],
  "tap counts x all call-size sequences up to a bound x in-place choice x reset points x sample types",
  "Tests process one long buffer with one tap set, always in one pass from a fresh state.",
  ["include/kfr/dsp/fir.hpp", "src/dsp/fir.cpp", "include/kfr/base/filter.hpp", "include/kfr/base/state_holder.hpp"],
  [("circular delay line and reversed taps", "include/kfr/dsp/fir.hpp"), ("filter application", "include/kfr/base/filter.hpp")],
  [("delay line and its cursor", "last taps-1 samples", "include/kfr/dsp/fir.hpp")])

p("C08", "IIR cascades equal the serial difference equations for any chopping",
  "A cascade of second-order sections outputs what running each section's difference equation in order over the whole stream would, for every number of sections, every call-size sequence (including calls shorter than the cascade), in place or not. Resetting returns the filter to silence.",
  ["histories", "inputs"],
  "section counts x all call-size sequences up to a bound x in place/out of place x reset points x sample types x expression or object form",
  "Tests run one filter in one call over a long buffer.",
  ["include/kfr/dsp/biquad.hpp", "src/dsp/biquad.cpp", "include/kfr/base/filter.hpp"],
  [("software-pipelined cascade: latency of one sample per section with saved state", "include/kfr/dsp/biquad.hpp")],
  [("per-section state and its saved copy", "state after the last real sample rather than after the pipeline flush", "include/kfr/dsp/biquad.hpp")])

p("C09", "Rate conversion is a function of the sample stream, not of call boundaries",
  "For every ratio and quality, the sample-rate converter produces the same output stream whatever output block sizes are requested, provided the caller feeds the amount of input it asks for; the output is the band-limited interpolation of the input at the exact rational positions, with unit gain at DC. The sizes and positions it reports (input needed for a given output, output available for a given input, delay) are mutually consistent.",
  ["histories", "inputs", "configurations"],
  "all small ratios x qualities x all request-size sequences up to a bound",
  "Tests compare whole-buffer conversions for three ratios.",
  ["include/kfr/dsp/sample_rate_conversion.hpp", "src/dsp/sample_rate_conversion.cpp"],
  [("polyphase tap table and integer position arithmetic", "include/kfr/dsp/sample_rate_conversion.hpp")],
  [("input/output position and history", "include stream alignment", "include/kfr/dsp/sample_rate_conversion.hpp")])

p("C10", "Delays, moving sums and ring buffers keep FIFO order across any call pattern",
  "A delay of d returns exactly the sample d positions earlier (zeros before the start), a moving sum the sum of the last n samples, and reading or writing a circular buffer in pieces of any sizes, larger than the buffer included, leaves the same contents and cursor as doing it one element at a time.",
  ["histories", "inputs"],
  "all delays/lengths/capacities up to a bound x all call-size sequences up to a bound",
  "Tests use one delay and one pass.",
  ["include/kfr/dsp/delay.hpp", "include/kfr/base/univector.hpp"],
  [("delay line cursor with wrap-around copy", "include/kfr/dsp/delay.hpp"), ("ring buffer step/read/write", "include/kfr/base/univector.hpp")],
  [("cursor", "next slot of the circular buffer", "include/kfr/base/univector.hpp")])

p("C11", "The lock-free queue delivers each item once, in order, in every interleaving",
  "With one producer and one consumer running concurrently, items come out of the lock-free queue exactly once, in order and with the contents that were put in, under every interleaving and every reordering the memory model allows. An enqueue takes only what fits and a dequeue only what is present, and both report exactly the number they moved, whichever side runs while the indices wrap.",
  ["schedules", "histories"],
  "all interleavings (and all relaxed-memory read choices) of a producer and a consumer with 1-3 operations each over tiny capacities, plus all sequential histories",
  "No test runs it at all concurrently; x86 hardware hides ordering bugs.",
  ["include/kfr/base/univector.hpp"],
  [("relaxed index accesses ordered by fences around the copies", "include/kfr/base/univector.hpp")],
  [("head and tail", "free-running counters owned by the consumer and producer", "include/kfr/base/univector.hpp")])

p("C12", "Transform plans can be shared and cached by many threads",
  "A constructed plan is immutable: any number of threads may execute it at once with separate buffers and each obtains the result it would alone, with no data race. The plan cache hands every caller a plan of the requested size, layout and precision, stays consistent under concurrent use, and a plan stays valid for its holder after the cache is cleared.",
  ["schedules", "histories"],
  "two threads x sizes of every algorithm class x every preemption point of one execution; cache operation interleavings of 2-3 threads; all cache histories up to a bound",
  "All tests are single-threaded.",
  ["include/kfr/dft/cache.hpp", "include/kfr/dft/fft.hpp", "src/dft/dft-impl.hpp"],
  [("const execution with scratch from the caller", "include/kfr/dft/fft.hpp"), ("mutex-protected map of shared plans", "include/kfr/dft/cache.hpp")],
  [("cache map", "plans by size", "include/kfr/dft/cache.hpp")])

p("C13", "Aligned and reference-counted memory is valid while owned and freed exactly once",
  "Every block handed out by the aligned allocator, directly or through the C interface, has the requested alignment, holds its full size, keeps its contents across reallocation, and reports its size and owner count correctly. It is released exactly when its last owner lets go, for every order of retain, release and reallocate and every interleaving of owners in different threads, and impossible requests return null instead of corrupting memory.",
  ["histories", "schedules", "inputs"],
  "all operation sequences up to a bound over several blocks; all interleavings of retain/release in 2-3 threads; all sizes x alignments in a grid; allocation failure injected at each call",
  "The C API test makes three allocations in one order.",
  ["include/kfr/cometa/memory.hpp", "src/capi/capi.cpp"],
  [("block header with offset, size and atomic count", "include/kfr/cometa/memory.hpp")],
  [("reference count", "number of owners", "include/kfr/cometa/memory.hpp")])

p("C14", "Tensor views address exactly the selected elements and share lifetime safely",
  "Indexing, slicing with any start/stop/step (negative ones included), transposing, reshaping and flattening a tensor select exactly the elements the array-slicing rules prescribe, in order; writes through a view reach those elements of the original and no others. Copying, assigning (to itself too) and destroying tensors and views in any order keeps the storage alive while anyone refers to it and then releases it once.",
  ["inputs", "histories"],
  "all shapes up to a bound x all start/stop/step combinations (absent, in range, out of range, negative) x chained views; all histories of create/view/assign/destroy up to a bound",
  "Fixed slices of one array are tested.",
  ["include/kfr/base/tensor.hpp", "include/kfr/base/shape.hpp"],
  [("range resolution", "include/kfr/base/tensor.hpp"), ("strides and shared finalizer", "include/kfr/base/tensor.hpp")])

p("C15", "An expression has the same values for every vector width and sub-range",
  "An expression denotes one value per index: evaluating all of it, any sub-range of it, or with any vector width, assigns exactly the denoted values to the requested elements of the destination and touches no others. In particular slices, truncations, padding, concatenation, reversal, reshaping, sequences, packing and element-wise functions denote what the corresponding scalar loop computes, also when operands were temporaries.",
  ["inputs", "programs", "configurations"],
  "all one- and two-level compositions of the combinators over small sizes x vector widths 1..16 x all (start, size) sub-ranges",
  "Tests evaluate each combinator on one size from index zero with increasing widths.",
  ["include/kfr/base/expression.hpp", "include/kfr/base/basic_expressions.hpp", "include/kfr/base/simd_expressions.hpp", "include/kfr/base/univector.hpp", "include/kfr/base/handle.hpp"],
  [("vector body plus scalar tail loop", "include/kfr/base/expression.hpp"), ("per-combinator element readers", "include/kfr/base/basic_expressions.hpp")])

p("C16", "Broadcasting follows the array rules for every pair of shapes",
  "Combining arrays of any two shapes pairs elements by the usual trailing-axis broadcasting rules (missing or unit axes repeat), incompatible shapes are rejected rather than read out of bounds, and the result of assigning or evaluating over any axis order is element-for-element the scalar computation.",
  ["inputs", "configurations"],
  "all pairs of shapes of 0..4 dimensions with small sides x vectorisation axis x width",
  "A few shapes are tested.",
  ["include/kfr/base/shape.hpp", "include/kfr/base/expression.hpp", "include/kfr/base/tensor.hpp"],
  [("common shape and index clamping", "include/kfr/base/shape.hpp"), ("n-dimensional loop", "include/kfr/base/expression.hpp")])

p("C17", "Transposition and channel interleaving are exact permutations for every shape",
  "Transposing a matrix of any size and element type, in place or not, and interleaving or deinterleaving any number of channels of any length, moves every element to its defined place bit for bit, loses none, and writes nothing else; applying the inverse restores the original.",
  ["inputs", "configurations"],
  "all row and column counts up to a bound x element types (1 to 16 bytes) x in/out of place; all channel counts and lengths up to a bound",
  "Tests cover a few shapes and mostly square blocks.",
  ["include/kfr/base/transpose.hpp", "include/kfr/base/conversion.hpp"],
  [("blocked and cycle-following transposition", "include/kfr/base/transpose.hpp"), ("interleave/deinterleave", "include/kfr/base/conversion.hpp")])

p("C18", "Reductions equal the sequential fold for every length",
  "Sum, mean, product, minimum, maximum, absolute extrema, dot product, sum of squares, RMS and histograms over any sized sequence equal the sequential fold over exactly its elements (exactly so for integers and order-insensitive operations), independent of length, position of the extreme value and vector width.",
  ["inputs"], "every length up to a bound x element type x every position of a distinguished element",
  "A few lengths are sampled.",
  ["include/kfr/base/reduce.hpp", "include/kfr/simd/horizontal.hpp"],
  [("vector accumulator with partial tail combination", "include/kfr/base/reduce.hpp")])

p("C19", "Integer vector arithmetic is lane-wise and exact for every operand",
  "Every element-wise operation on integer vectors (arithmetic, comparison, selection, minimum/maximum, absolute value, clamping, saturating addition and subtraction, bit operations, shifts, conversions) gives in every lane what the scalar operation gives for that lane's operands, for every operand value and every lane count, and lanes never influence each other.",
  ["inputs", "configurations"],
  "all pairs of 8-bit operands (boundary grids for wider types) x lane counts x instruction sets",
  "Tests sample a small list of values per operation.",
  ["include/kfr/simd/vec.hpp", "include/kfr/simd/impl/backend_generic.hpp", "include/kfr/simd/impl/saturation.hpp", "include/kfr/simd/impl/min_max.hpp", "include/kfr/simd/impl/abs.hpp", "include/kfr/simd/impl/select.hpp", "include/kfr/simd/impl/logical.hpp", "include/kfr/simd/operators.hpp"],
  [("per-instruction-set specialisations with split/merge for long vectors", "include/kfr/simd/impl")])

p("C20", "Lane permutations and partial loads and stores move exactly the named elements",
  "Every shuffling operation (rotate, shift, reverse, split, join, interleave, permute, blend, duplicate, broadcast, transpose) returns each named source lane unchanged, for every lane count, and loading, storing, gathering, scattering or masked stores access exactly the addressed elements, reading or writing no byte outside them.",
  ["inputs", "configurations"],
  "lane counts 1..64 x element types x every parameter of each operation x every misalignment x instruction sets",
  "Tests check one or two parameters on a few widths; accesses past the end are invisible to them.",
  ["include/kfr/simd/shuffle.hpp", "include/kfr/simd/read_write.hpp", "include/kfr/simd/impl/read_write.hpp", "include/kfr/simd/digitreverse.hpp", "include/kfr/simd/vec.hpp"],
  [("compile-time index sequences", "include/kfr/simd/shuffle.hpp"), ("partial reads and writes", "include/kfr/simd/impl/read_write.hpp")])

p("C21", "Vector sorting sorts every input",
  "Sorting a vector ascending or descending returns the same multiset of elements in order, for every supported lane count and element type and every input, duplicates and extreme values included.",
  ["inputs"], "all 0/1 inputs of each lane count (which decides a comparison network) plus all permutations and small-alphabet inputs for short vectors",
  "Tests sort two fixed vectors.",
  ["include/kfr/simd/sort.hpp"], [("odd-even transposition network", "include/kfr/simd/sort.hpp")])

p("C22", "Sample format conversion is exact, saturating and invertible",
  "Converting audio samples between integer and floating-point formats maps full scale to full scale, rounds to nearest, saturates instead of wrapping, and converting an integer sample to a floating-point format that can hold it and back returns the same sample; buffers of any length and channel count convert every sample and nothing else.",
  ["inputs", "configurations"],
  "all 8-, 16- and 24-bit sample values, boundary grids for 32-bit and floating point x every format pair x every length up to a bound x in-type/out-type runtime dispatch",
  "Tests convert a few values between some formats.",
  ["include/kfr/base/conversion.hpp"], [("scaling, rounding and clamping per format pair", "include/kfr/base/conversion.hpp")])

p("C23", "Array files round-trip and damaged ones are reported, never mis-loaded",
  "Saving any non-empty array in the NPY format and loading it returns the same shape, type and elements, and the bytes follow the published format, Fortran order and either byte order included. Loading a file that is truncated at any byte, has a malformed or inconsistent header, the wrong type or the wrong dimensionality reports an error, without reading outside memory, hanging, or returning a tensor filled with other data.",
  ["inputs", "fault_sequences", "crash_points"],
  "all small shapes x element types x orders; every truncation length and every single-byte corruption of the header of several files",
  "Tests load six well-formed files and save two.",
  ["include/kfr/base/npy.hpp"],
  [("header parser", "include/kfr/base/npy.hpp"), ("payload reader", "include/kfr/base/npy.hpp")])

p("C24", "WAV files written in pieces read back as the samples that were written",
  "Writing any number of channels and samples to a WAV file in calls of any sizes, from any supported sample type and into any supported sample format, and reading it in calls of any sizes, returns exactly the written samples converted to the requested type, with the header stating the true sample rate, channels, format and length.",
  ["histories", "inputs", "configurations"],
  "formats x channel counts x lengths x all write-call and read-call size sequences up to a bound",
  "One stereo file is written in one call and read in one call.",
  ["include/kfr/io/audiofile.hpp", "src/io/audiofile-impl.cpp", "include/kfr/io/file.hpp"],
  [("frame/sample accounting in the reader and writer", "include/kfr/io/audiofile.hpp")],
  [("position", "samples delivered so far", "include/kfr/io/audiofile.hpp")])

p("C25", "Audio and file streams keep position across seeks and survive damaged input",
  "After any sequence of reads and seeks, the position of a file stream equals the number of bytes, and that of an audio reader the number of frames, from the start; the next read returns what is at that position, and reads at the end return only what remains. A file that is empty, truncated at any byte, not of the expected format, or whose underlying reads come up short is reported as an error or a shorter stream, without crashing, hanging or returning data that is not in the file.",
  ["histories", "fault_sequences", "crash_points"],
  "all read/seek sequences up to a bound; every truncation point and every single short read or failed seek of a session",
  "Tests read intact files front to back, never seeking.",
  ["include/kfr/io/audiofile.hpp", "src/io/audiofile-impl.cpp", "include/kfr/io/file.hpp"],
  [("position bookkeeping", "include/kfr/io/audiofile.hpp"), ("open-failure handling", "include/kfr/io/audiofile.hpp")])

p("C26", "Random sequences are reproducible and stay in their range",
  "A generator started from the same seed yields the same numbers, for draws of the same sizes, on every instruction set and in every copy, copying or referring to a state forks or shares the sequence as documented, uniform numbers lie in the half-open unit interval, range-limited numbers lie in the half-open range asked for (integers included) with every integer reachable, and normal numbers are finite.",
  ["inputs", "histories", "configurations"],
  "small seeds and draws enumerated; all 2^16 and boundary raw values through the mapping functions; all small integer ranges",
  "Tests compare one seed's first numbers.",
  ["include/kfr/base/random.hpp", "include/kfr/base/random_bits.hpp", "include/kfr/base/state_holder.hpp"],
  [("bit mapping to ranges", "include/kfr/base/random.hpp"), ("state holder by value or reference", "include/kfr/base/state_holder.hpp")])

p("C27", "The C interface does what the C++ library does and fails cleanly",
  "Every C entry point declared in the header exists and gives the same result as the corresponding C++ object: transforms of every kind, size, layout and direction (with reported sizes and scratch requirements that are sufficient, and a null scratch accepted), and filters for any chopping of the stream, in place or not, with reset returning to silence. Requests that cannot be satisfied return null (or are ignored) and set a non-empty error text instead of crashing, and deleting every object returns all memory.",
  ["inputs", "histories", "fault_sequences"],
  "all plan kinds x sizes x layouts x directions x modes; all filter histories up to a bound; all out-of-range arguments; allocation failure at each allocation of each call",
  "The C tests create one plan of each kind and process one block.",
  ["include/kfr/capi.h", "src/capi/capi.cpp"],
  [("exception-to-error translation and null checks", "src/capi/capi.cpp")])

p("C29", "Tone and loudness measurements match their definitions for any signal chopping",
  "The single-frequency analyser returns the Fourier sum of the fed samples at its frequency (up to its documented phase reference) whatever the vector width and number of parallel frequencies. The loudness meter's momentary, short-term, integrated and range values after any number of packets equal the ITU/EBU formulas over the packets seen since start or reset, per channel weights included, and do not depend on when values are queried or metering is stopped and started.",
  ["histories", "inputs"],
  "all lengths and frequencies up to a bound; all packet-level sequences (packet, query, stop, start, reset) up to a bound over a small alphabet of packets",
  "One recording and one tone are measured in one pass.",
  ["include/kfr/dsp/goertzel.hpp", "include/kfr/dsp/ebu.hpp", "include/kfr/dsp/mixdown.hpp"],
  [("ring of packet energies and gated lists", "include/kfr/dsp/ebu.hpp"), ("Goertzel recurrence", "include/kfr/dsp/goertzel.hpp")])

p("C30", "Windows and windowed-sinc filters follow their formulas at every length",
  "Every window function, for every length of at least two values, parameter and precision, equals its formula at every position within rounding; its periodic form is the symmetric form of one more value without the last; and it has the same values rendered whole, applied to a signal piece by piece, read in any vector width or through a handle. Low-pass, high-pass, band-pass and band-stop designs of every length (odd lengths for high-pass and band-stop) equal the ideal impulse response times the window, normalising scales all taps by one factor, and normalised low-pass and band-stop filters have unit gain at zero frequency.",
  ["inputs", "configurations"], "all windows x symmetries x precisions x lengths up to a bound x parameter grid; all designs x lengths x bands x windows",
  "Tests compare each window at two lengths in single precision; filter design is not tested.",
  ["include/kfr/dsp/window.hpp", "include/kfr/dsp/fir_design.hpp", "include/kfr/math/impl/modzerobessel.hpp"],
  [("abscissa of each symmetry", "include/kfr/dsp/window.hpp"), ("centre tap and normalisation", "include/kfr/dsp/fir_design.hpp")])

p("C31", "Generators continue their waveform seamlessly however they are read",
  "Sequence and waveform generators (linear, exponential, complex exponential, sine/cosine recurrences, phasors, oscillators, segments, jaehne/sweeps, counters and linspaces) return for index n the value of their formula at n, whatever vector widths and block sizes are used to read them and however far the reading has progressed, within an error that does not depend on the block pattern.",
  ["histories", "inputs", "configurations"],
  "all generators x parameter grid x all block-size sequences up to a bound",
  "Tests read ten or so values in one pass.",
  ["include/kfr/base/generators.hpp", "include/kfr/dsp/oscillators.hpp", "include/kfr/base/basic_expressions.hpp"],
  [("vector state advanced by a whole vector step", "include/kfr/base/generators.hpp")],
  [("current vector value", "next N values", "include/kfr/base/generators.hpp")])

p("C32", "Containers and type-erased wrappers behave like their reference models",
  "Dynamic and fixed vectors, small inline vectors and small buffers, owning pointers, type-erased callables and expression handles behave, for every sequence of construction, copy, move, assignment (to itself too), growth, shrinkage and destruction, like the corresponding standard objects: values are preserved, every held object is destroyed exactly once, and a handle evaluates to the same values as the expression it holds.",
  ["histories"],
  "all operation sequences up to a bound over two or three objects with instrumented element types",
  "Tests construct and read a few instances.",
  ["include/kfr/base/small_buffer.hpp", "include/kfr/base/inline_vector.hpp", "include/kfr/cometa/function.hpp", "include/kfr/base/handle.hpp", "include/kfr/base/univector.hpp", "include/kfr/cometa/memory.hpp"],
  [("capacity switch between inline and heap storage", "include/kfr/base/small_buffer.hpp"), ("type-erased storage", "include/kfr/cometa/function.hpp")])

p("C33", "Rational arithmetic is exact",
  "Fractions of every pair of terms with a non-zero denominator are kept in lowest terms with a positive denominator, compare and combine (plain and compound operators) exactly like the mathematical rationals whenever the unreduced terms of the operation fit 64 bits, and convert to integers, floating-point numbers and text without loss where representable.",
  ["inputs"], "all numerators and denominators up to a bound x all operations x pairs",
  "Tests try a dozen pairs.",
  ["include/kfr/base/fraction.hpp"], [("normalisation by greatest common divisor", "include/kfr/base/fraction.hpp")])

p("C34", "Elementary functions are accurate for every single-precision argument",
  "The vectorised elementary functions (trigonometric, inverse trigonometric, exponential, logarithmic, roots, rounding, powers of two) return, in every lane, a value within their accuracy of the mathematical function for every finite argument of their domain and the defined special values at zeros, infinities and domain limits.",
  ["inputs", "configurations"],
  "all 2^32 single-precision arguments (quick: every exponent x a full grid of leading mantissa bits) per function",
  "Tests evaluate a list of sampled arguments.",
  ["include/kfr/math/impl/sin_cos.hpp", "include/kfr/math/impl/log_exp.hpp", "include/kfr/math/impl/atan.hpp", "include/kfr/math/impl/asin_acos.hpp", "include/kfr/math/impl/tan.hpp", "include/kfr/math/impl/hyperbolic.hpp", "include/kfr/math/impl/sqrt.hpp", "include/kfr/simd/impl/round.hpp"],
  [("range reduction and polynomial", "include/kfr/math/impl")])

p("C35", "Designed recursive filters are stable and have the response of their prototype",
  "Every designed second-order section (all-pass, low-, high-, band-pass, notch, peak, shelves), for every normalised frequency between 0 and 0.5, Q and gain, is a normalised stable section whose response at every frequency is that of its analogue prototype under the bilinear transform. Every Butterworth, Chebyshev I, Chebyshev II and Bessel filter of every supported order, as low-, high-, band-pass or band-stop in either precision, converts to stable sections whose combined gain at every frequency is the prototype's; converting any set of conjugate-closed poles and zeros into sections preserves its response.",
  ["inputs", "configurations"], "all sections x frequency, Q and gain grids; all prototypes x orders x bands x ripples; all subsets of a set of poles and zeros",
  "No test designs an IIR filter from poles and zeros or evaluates a response.",
  ["include/kfr/dsp/biquad_design.hpp", "include/kfr/dsp/iir_design.hpp"],
  [("pairing of poles and zeros", "include/kfr/dsp/iir_design.hpp"), ("bilinear transform with frequency warping", "include/kfr/dsp/iir_design.hpp")])

p("C36", "Channel mixing is the given matrix, unit conversions invert each other, weighting curves follow the standard",
  "Mixing down any number of channels sums them, stereo mixing applies exactly the given 2 x 2 matrix to every frame of every length (sum/difference followed by half-sum/half-difference is the identity), conversions between decibels, amplitude, power, notes and hertz follow their formulas for scalars, vectors and expressions alike, are mutual inverses over their range and defined at its ends (zero is minus infinity decibels and back), and the A, B and C weighting curves follow their formulas with unit gain at 1 kHz.",
  ["inputs"], "channel counts, matrices and lengths up to a bound; value grids",
  "One matrix and a few values are tested.",
  ["include/kfr/dsp/mixdown.hpp", "include/kfr/dsp/units.hpp", "include/kfr/dsp/weighting.hpp"],
  [("matrix of frame vectors", "include/kfr/dsp/mixdown.hpp")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
