#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one call per property). Run: python3 tools/properties_src.py"""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    d["anchors"]["observe_at"] = observe or []
    d["anchors"]["hook_needed"] = None
    P.append(d)

MS = "src/memory/memory_slice.rs"
# ---------------------------------------------------------------- memory
p("M01", "Checked slice access is exact and confined to the slice",
  "A checked read or write at index i of a memory slice succeeds exactly when i is below the slice's length. A successful read returns element i; a successful write changes element i and nothing else, inside or outside the slice; a refused access changes nothing and reports an index-out-of-bounds error.",
  ["inputs", "histories"], "every slice length (0 included), every index up to the largest integer, every sequence of checked writes and reads",
  "tests use one 24-element slice, two in-range indices and index len+1; never index len, the largest index, an empty slice or a write history",
  [MS], [("bounds comparison", MS + " get/assign"), ("raw pointer access", MS + " get_unchecked/assign_unchecked")],
  observe=["Result of get/assign", "contents of the backing array and of the memory around it"])
p("M02", "A sub-slice is granted only inside its parent and is a live view of it",
  "For every offset and length, however large, a sub-slice is granted exactly when the offset lies inside the parent and offset+length does not exceed the parent's length; otherwise the error says whether the offset (index) or the length is out of bounds. Element k of a granted sub-slice is element offset+k of the parent for reads and writes through either of them, and this holds for sub-slices of sub-slices.",
  ["inputs", "histories"], "all (parent length, offset, length) triples including ones whose sum overflows, nested to any depth",
  "no test calls it at all",
  [MS], [("range test and pointer offset", MS + " get_sub_slice")], observe=["Result of get_sub_slice", "reads/writes through parent and child"])
p("M03", "Wrapped reads are the periodic extension of the slice",
  "On a non-empty slice a wrapped read at any signed position returns the element at that position modulo the length. A wrapped window of four at a position returns the elements at the four consecutive positions of the same periodic extension that start there. No position, up to the integer extremes, touches memory outside the slice or fails.",
  ["inputs"], "all slice lengths >= 1 and all signed positions",
  "tests read positions -72..71 of a 24-element slice; windows of four, short slices and integer extremes are untested",
  [MS], [("Euclidean remainder", MS + " get_wrapped_unchecked"), ("in-range fast path", MS + " get_wrapped, get_slice_of_four_wrapped")], observe=["returned samples"])
p("M04", "Linearly interpolated slice reads",
  "A checked interpolated read at position p returns the linear interpolation of the two elements around p whenever 0 <= p <= length-1 (exactly the element when p is an integer), and reports index-out-of-bounds for every other p, NaN and empty slices included. On a non-empty slice the wrapped interpolated read returns, for every position p below 2^31 in magnitude, the linear interpolation of the periodic extension of the slice at p; at larger positions and infinity it returns some value between the smallest and the largest sample, for NaN it returns NaN. Neither reads memory outside the slice.",
  ["inputs"], "all slice lengths and all 32-bit float positions",
  "tests use one linear ramp (on which wrong neighbours can give the right value) and a dozen positions",
  [MS, "src/float/interpolation.rs"], [("index split into integer and fraction", MS + " lerp/lerp_wrapped"), ("end-of-slice special case", MS + " lerp")], observe=["returned samples / errors"])
p("M05", "Lagrange interpolated slice reads pass through the stored samples",
  "A wrapped Lagrange read with window w (2 to 100; larger windows act as 100) at position p (|p| below 2^31) returns the value at p of the polynomial through the 2*floor(w/2) consecutive samples of the periodic extension centred on p (from floor(p)-floor(w/2)+1 to floor(p)+floor(w/2)); the four-point variant uses the samples at floor(p) to floor(p)+3. In particular both return the stored sample at every integer position (at positions of 2^31 and more, some stored sample; for NaN, NaN), and reproduce data that is locally a polynomial of low enough degree.",
  ["inputs"], "all slice lengths, window sizes and positions (negative, fractional, beyond the end)",
  "the only test checks that the result is finite, for one 4-element slice at integer positions",
  [MS, "src/float/interpolation.rs"], [("window gathering and local coordinate", MS + " lagrange_wrapped"), ("four point variant", MS + " lagrange_four_points_wrapped")], observe=["returned samples"])
p("M06", "Handles to the same memory stay coherent; rebinding affects one handle only",
  "However reads and writes through several handles to the same memory (copies, sub-slices, the mutable and the read-only kind) are interleaved, every read returns the last value written to that element through any handle. Rebinding a handle to another buffer makes exactly that handle refer to exactly the new buffer and length; every other handle and all stored samples are unaffected, and a null handle has length 0 and refuses all checked access.",
  ["histories", "schedules"], "all interleavings, at operation granularity, of operations by several holders of handles",
  "tests use one handle at a time; one doc example rebinds once and compares raw pointers",
  [MS, "src/memory/mod.rs"], [("Copy handle of pointer and length", MS + " MemorySlice"), ("volatile access", MS), ("change_slice_unchecked / change_mut_slice_unchecked", MS)], observe=["reads through every handle", "len, as_slice pointers"])
p("M07", "Concurrent sample access from several threads is tear-free",
  "When threads share a slice (through handles, sub-slices or delay lines on it), every concurrent read of a sample returns a complete value that some thread stored there (or the initial one), never a mixture, and never one older than a write that was complete before the read began. Concurrent writes to different elements do not disturb each other.",
  ["schedules"], "all interleavings of concurrent sample reads and writes",
  "no test starts a second thread",
  [MS, "src/memory/mod.rs", "src/delay_line.rs"], [("32-bit volatile reads/writes, unsafe impl Sync/Send", MS + " / src/memory/mod.rs")], observe=["values read by each thread", "memory afterwards"])
# ---------------------------------------------------------------- delay
DL = "src/delay_line.rs"
p("D01", "A delay line is a ring buffer under any history of calls",
  "For any non-empty buffer and any history of push (write and advance) and advance calls, the delay line's plain read returns what the buffer holds at the cursor, i.e. the sample pushed exactly one buffer length earlier if no advance intervened; each push overwrites just that cell and each push or advance moves the cursor one cell forward, wrapping at the end. A read at signed offset k (up to 2^40 in magnitude) returns the cell k places from the cursor, modulo the length; reads change nothing.",
  ["histories", "inputs"], "all buffer lengths >= 1, all call histories, all integer offsets",
  "tests push once around a 24-element buffer and poke the private cursor; no wrap-around, advance, offset read or length-1 buffer is tested",
  [DL], [("cursor advance with wrap", DL + " write_and_advance, advance"), ("offset read", DL + " read_wrapped_at")],
  [("cursor", "next cell to read/overwrite", DL + " index")], ["return values", "buffer contents"])
p("D02", "Delay effects never touch memory outside their current buffer",
  "No history of pushes, advances, ticks, plain or interpolated reads and buffer replacements (by larger, smaller or one-cell buffers) makes a delay line, comb or all-pass read or write outside the non-empty buffer it is currently bound to. After a replacement it goes on as an ordinary ring over the new buffer and leaves the old buffer alone.",
  ["histories"], "all call histories mixing buffer replacements with the other calls, all buffer length combinations",
  "no test replaces a buffer",
  [DL, "src/comb.rs", "src/all_pass.rs"], [("buffer replacement", DL + " change_buffer"), ("unchecked access at the cursor", DL + " read, write_and_advance")],
  [("cursor", "must stay below the length of the bound buffer", DL + " index")], ["guard zones around every buffer", "return values"])
p("D03", "Interpolated delay reads are taken relative to the moving cursor",
  "At any point of any history, a linearly (or Lagrange) interpolated delay-line read at fractional offset f returns the linear (or four-sample Lagrange, over the two cells on each side) interpolation of the circular buffer contents at cursor+f, for positive and negative f. At an integer offset both equal the plain read at that offset (up to rounding of cursor+f to a float: from 2^25 on some cell's value). For NaN both return NaN.",
  ["histories", "inputs"], "all histories, buffer lengths and fractional offsets",
  "never called by any test",
  [DL, MS], [("cursor plus offset", DL + " read_lerp_wrapped_at, read_lagrange_wrapped_at")], observe=["return values"])
p("D04", "The comb filter obeys its recurrence for every input and setting history",
  "With N cells, every tick of the comb outputs the value stored N ticks earlier, updates its low-pass state s to output*(1-d)+s*d and stores input+s*f (up to rounding), where f and d are the feedback and dampening in force at that tick (0.5 each initially). Changing feedback (magnitude at most 1) or dampening (0 to 1) takes effect from the next tick and disturbs nothing else.",
  ["histories"], "all input sequences, buffer lengths and interleaved setter calls",
  "one impulse into a 2-cell comb with default settings; setters are never called",
  ["src/comb.rs", DL], [("recurrence", "src/comb.rs tick"), ("coefficient pair", "src/comb.rs set_dampening")],
  [("filter_state", "one-pole low-pass memory", "src/comb.rs")], ["return values", "buffer contents"])
p("D05", "The all-pass delay obeys its recurrence for every input history",
  "With N cells, every tick of the all-pass outputs (value stored N ticks earlier) minus input, and stores input plus half that earlier value (up to rounding). The result for a sum of input signals is the sum of the results.",
  ["histories"], "all input sequences and buffer lengths",
  "one impulse into a 2-cell buffer",
  ["src/all_pass.rs", DL], [("recurrence", "src/all_pass.rs tick")], observe=["return values", "buffer contents"])
p("D06", "Comb and all-pass are stable: bounded input gives bounded, decaying output",
  "For inputs in [-1,1], dampening in [0,1] and feedback f with |f|<1, no comb output ever exceeds 1/(1-|f|) in magnitude, and no all-pass output exceeds 3. Once the input is silent the outputs decay towards zero (for dampening below 1).",
  ["histories", "inputs"], "all input histories and settings in range",
  "tests run 7 ticks of one impulse",
  ["src/comb.rs", "src/all_pass.rs"], [("feedback path", "tick")], observe=["return values"])
p("D07", "Effects on parts of one buffer are independent; copies share the cells",
  "A delay line, comb and all-pass working on disjoint sub-slices of one buffer never disturb each other: each push or tick changes exactly the one cell at that effect's own cursor, each other call none. A copy of a delay line starts at the same cursor, then moves its cursor on its own, and both read the same cells, so what one pushes the other sees. A clone of any of them goes on exactly as the original would have.",
  ["histories"], "all call histories, all ways to divide a buffer",
  "every test gives each effect a buffer of its own and copies none",
  ["src/delay_line.rs", "src/comb.rs", "src/all_pass.rs", "src/memory/memory_slice.rs"], [("raw handles to shared memory", "src/delay_line.rs"), ("derived Copy", "src/delay_line.rs, src/comb.rs, src/all_pass.rs")],
  observe=["every cell of the shared buffer", "reads of both delay lines"])
# ---------------------------------------------------------------- biquad
BQ = "src/biquad/mod.rs"; BW = "src/biquad/butterworth.rs"
p("B01", "A biquad realises its difference equation for every signal",
  "With fixed coefficients a biquad started at rest outputs y[n] = b0 x[n] + b1 x[n-1] + b2 x[n-2] - a1 y[n-1] - a2 y[n-2] for every input sequence. When coefficients are changed between samples nothing is reset: contributions of earlier samples keep the coefficients that were in force when those samples were processed (transposed form), and the new coefficients apply from the next sample on.",
  ["histories"], "all input sequences, coefficient sets and coefficient changes between samples",
  "one doc example calls process once and checks nothing",
  [BQ], [("transposed direct form II update", BQ + " process")], [("z1, z2", "filter memory", BQ)], ["return values"])
p("B02", "Every designed filter is stable",
  "For every sample rate, every frequency from 1/4096 of the sample rate to just below half of it, every q from 0.1 to 20 and every gain magnitude from 1/16 to 16 (boost or cut), each design (low-pass, high-pass, all-pass, notch, bell, low shelf) yields finite coefficients whose poles lie strictly inside the unit circle. Its impulse response therefore stays bounded and dies out.",
  ["inputs", "configurations"], "all design parameters in range, all filter types",
  "no test computes coefficients and looks at them",
  [BW], [("coefficient formulas", BW)], observe=["public coefficients", "impulse response"])
p("B03", "Designed filters have their nominal response",
  "For frequency fc between 1/256 and 1/4 of the sample rate and q from 0.1 to 20, up to 1 percent: a low-pass passes DC at 1, blocks half the sample rate and has gain q at fc; a high-pass does the reverse; a notch has gain 1 at DC and half the sample rate and leaves at most 1+q/4 percent at fc; an all-pass has gain 1 at every frequency; a bell has gain 1 at DC and half the sample rate and its gain (reciprocal magnitude when the gain is negative) at fc; a low shelf has its gain (reciprocal magnitude when negative) at DC and 1 at half the sample rate.",
  ["inputs", "configurations"], "all design parameters in range, all filter types",
  "no test evaluates a response",
  [BW, "src/float/math.rs"], [("coefficient formulas", BW), ("tangent prewarp", "src/float/math.rs fast_tan")], observe=["public coefficients"])
p("B04", "Boost and cut are exact inverses; redesign is history-free",
  "For bell and low shelf for fc from 1/256 of the sample rate up the response with gain -g is the reciprocal of the response with gain +g at every frequency, up to the rounding of the coefficients to 32 bits, so a boost followed by the matching cut restores the signal. Designing a filter depends only on the arguments: whatever designs were computed before on the same object, the resulting coefficients are the same.",
  ["inputs", "histories"], "all parameters and all sequences of design calls",
  "no test calls a design with a gain, or two designs in a row",
  [BW], [("boost/cut pair", BW + " bell, low_shelf")], observe=["public coefficients"])
# ---------------------------------------------------------------- envelope
EN = "src/envelope.rs"
p("E01", "The envelope output always lies in [0,1] and is never NaN",
  "For any finite sample rate of at least 1 Hz, any non-negative attack, decay and release times, any sustain and any slope (none of them NaN), and for any history of gate on/off, reset, ticks and parameter changes, every envelope output is a number between 0 and 1.",
  ["histories", "inputs"], "all parameter values (zero and extreme times and slopes included) and all call histories",
  "tests follow one fixed-parameter note-on/note-off with outputs from the standard library's powf, which embedded builds do not use",
  [EN], [("phase increment and power curve", EN + " next_attack, next_decay, next_release"), ("parameter clamps", EN + " set_time_parameter, set_slope, new")],
  [("t", "phase within the segment", EN), ("state", "segment", EN)], ["tick return value"])
p("E02", "The envelope's states follow the gate",
  "Gate on leads to attack from every state; gate off leads from attack, decay or sustain to release and is ignored in idle and release; reset leads to idle; parameter changes and state queries change no state. A tick only moves attack to decay (with output exactly 1), decay to sustain (with output exactly the sustain level), release to idle (with output 0), or stays; in idle the output is 0 and in sustain it is the current sustain level.",
  ["histories"], "all histories of gate, reset, tick and parameter calls",
  "tests follow two histories; retrigger, reset, repeated gate calls and parameter changes are never exercised",
  [EN], [("state machine", EN + " tick, trigger_on, trigger_off, reset")], [("state", "segment", EN)], ["get_state", "tick return value"])
p("E03", "Envelope segments take the configured time and always end",
  "At sample rates up to 192 kHz, started from idle with times of at least one sample and at most two seconds, the attack ends within one sample or 2 percent (whichever is larger) of the attack time; for slopes in 0.2..5 and sustain up to 0.9 the decay, and a release from 0.1 or more, do so too with their times. Times count at the sample rate in force when they are set. Longer times behave as two seconds and zero as one sample; whatever the parameters, with the gate held the envelope settles in sustain, and after gate off it reaches idle, within the configured times.",
  ["inputs", "histories"], "all sample rates, times, slopes and sustain levels; gate off at any moment",
  "one parameter set (3 ms at 48 kHz, slope 0.5), with the standard library's powf",
  [EN], [("increment per sample", EN + " set_time_parameter"), ("end-of-segment tests", EN)], observe=["number of ticks per state"])
p("E04", "Segments are monotone, and release starts from the last level",
  "While no parameter changes, outputs never fall during one attack, never rise during one decay and never rise during one release. From gate off on, no output exceeds the last output before it, whatever happened earlier.",
  ["histories", "inputs"], "all histories and parameters",
  "tests check only bounds, on two histories",
  [EN], [("power curve", EN), ("release start level", EN + " trigger_off")], [("release_val", "level at gate off", EN)], ["tick return value"])
p("E05", "The slope parameter shapes the segments",
  "At a fraction u of the attack the output is u^(1/slope); at a fraction u of the decay or release it is the start level minus u^slope of the way to the end level. The power of exponent e is approximated from below: never more than 0.003 too high, and too low by at most 0.06 for e up to 0.5, 0.1 up to 1, 0.17 up to 2 and 0.25 above. Slopes outside 1/20..20 act like the nearest of these bounds, whether given at construction or later.",
  ["inputs"], "all slopes, times and sustain levels",
  "one slope value is used and no shape is checked",
  [EN], [("power curve", EN), ("slope clamp", EN + " set_slope, new")], observe=["tick return value"])
p("E06", "An idle envelope has no memory of its past",
  "Whenever the envelope is idle (newly built, after a reset at any point, after a finished release) its future depends only on the parameters in force: under any further calls it gives exactly the outputs and states of an envelope newly built with these parameters.",
  ["histories"], "all call histories before and after idling",
  "tests play one note on a new envelope",
  [EN], [("reset", EN + " reset"), ("entry to attack", EN + " trigger_on"), ("end of release", EN + " next_release")],
  state=[("phase and levels", "t, envelope_value, release_val must not survive idling observably", EN)], observe=["tick return value", "get_state"])
# ---------------------------------------------------------------- oscillator
PA = "src/oscillator/phase_accumulator.rs"; OF = "src/oscillator/osc_functional.rs"; OW = "src/oscillator/osc_wavetable.rs"
p("O01", "The phase accumulator advances by the same exact step every sample",
  "For frequency 0 < f < sr every call advances the 32-bit phase by one fixed step, wrapping modulo 2^32, with the step equal to f/sr * 2^32 up to 1 plus one part in 2 million; phase never drifts, however long it runs. Both forms of the read-out (integer and normalised) advance it by the same step.",
  ["histories", "inputs"], "all frequencies, sample rates and run lengths",
  "no test looks at the accumulator",
  [PA], [("wrapping add of the step", PA + " tick"), ("step size", PA + " new, set_sr_unchecked")], [("counter", "phase", PA)], ["next_value", "next_value_normalized"])
p("O02", "Changing frequency, sample rate or phase shift keeps the phase continuous",
  "Changing frequency, sample rate or waveform never makes the phase jump: it only changes the step of the following samples, to the same value a fresh accumulator with these settings would use. A phase shift is a pure offset added to the output (modulo 2^32): it does not disturb the running phase, a later shift replaces it, and setting it back to zero restores the unshifted sequence.",
  ["histories"], "all interleavings of reads and setter calls",
  "no test calls a setter on a running oscillator",
  [PA, OF, OW], [("setters", PA)], [("counter, shift", "phase and offset", PA)], ["next_value"])
p("O03", "The normalised phase is the phase divided by 2^32 and stays below 1",
  "The normalised phase equals the 32-bit phase divided by 2^32 to within 2^-24, is never negative and is strictly less than 1 for every phase value.",
  ["inputs"], "all 2^32 phase values, reached with any step and shift",
  "tests read 96 samples at one frequency that never come near the wrap",
  [PA], [("conversion to float", PA + " next_value_normalized")], observe=["next_value_normalized"])
p("O04", "Waveforms have the right shape at every phase and stay in range",
  "For every normalised phase p in [0,1) the sawtooth is 2p-1, the rectangle is -1 for p below one half and +1 from there on, the triangle is 1-2|2p-1|, and the sine is sin(2 pi p) within 0.0002; outputs never leave [-1,1] (sine: by more than 0.0001). This holds over the built-in accumulator with any frequency and shift and over any user-supplied one.",
  ["inputs", "histories"], "all phases in [0,1), all waveforms, any accumulator",
  "tests check 96 samples per waveform for bounds only (sine with 1 percent slack), at one frequency",
  [OF, "src/float/math.rs"], [("waveform functions", OF)], observe=["next"])
p("O05", "The checked frequency setter takes effect or refuses",
  "Setting a frequency through the checked setter succeeds exactly for frequencies above zero and at most half the sample rate (to within one part in a million; NaN aside), and then the accumulator runs at that frequency. Zero, negative and above-half-sample-rate frequencies are refused with the matching error and leave the running frequency and phase as they were.",
  ["inputs", "histories"], "all frequencies and sample rates, at any point of a run",
  "never called by any test",
  [PA], [("checked setter", PA + " set_freq")], observe=["Result", "following next_value"])
p("O06", "A wavetable oscillator reads only its table and interpolates it periodically",
  "For every table of at least one sample and every normalised phase p in [0,1], the wavetable oscillator returns the linear interpolation of the periodically continued table at p times its length, without reading memory outside the table.",
  ["inputs", "histories"], "all table lengths and phases",
  "no test uses it",
  [OW, MS], [("table lookup", OW + " next")], observe=["next", "guard zones around the table"])
p("O07", "Oscillators drive any phase accumulator the same way",
  "A functional or wavetable oscillator works on any user-supplied phase accumulator (a hardware timer, say): each sample draws exactly one normalised phase from it, and no integer phase, and is the value of the selected waveform or of the table at just that phase; no other call draws a phase. A frequency or sample rate set on the oscillator is in force in its accumulator, bit for bit, when the next sample is drawn, a phase shift s in [0,1) as s*2^32 (to within 300); setting one, or the waveform, changes none of the others.",
  ["histories", "inputs"], "all call histories, all accumulators, all floats",
  "tests use the built-in accumulator only",
  [OF, OW], [("generic over the accumulator", OF), ("setters forwarded", OF + ", " + OW)], observe=["calls the accumulator receives", "next"])
# ---------------------------------------------------------------- float
FC = "src/float/conversion.rs"; FB = "src/float/bit_manipulation.rs"; FI = "src/float/interpolation.rs"; FM = "src/float/math.rs"
p("F01", "Float decomposition and recomposition are lossless",
  "Every 32-bit float (zeros, subnormals, infinities and NaNs included) converted to its raw word or to sign, exponent and mantissa and back has the same bits, the components are the IEEE-754 fields, and the same holds starting from any 32-bit word.",
  ["inputs"], "all 2^32 bit patterns",
  "tests convert pi",
  [FC], [("field extraction", FC)], observe=["bit patterns"])
p("F02", "Linear bit reduction truncates to its grid and refuses bad arguments",
  "For every x in [-1,1] and depth d from 0 to 30 the checked linear bit reduction returns a value of the same sign, no larger in magnitude, that is a whole multiple of 2^(d-31) and less than 2^(d-31) away from x (x itself for d=0); repeating it changes nothing. It refuses every d above 30 and every x outside [-1,1] (NaN aside), with the matching error.",
  ["inputs"], "all floats and all depths",
  "no test calls it",
  [FB], [("scale, shift, scale back", FB + " bit_reduce_unchecked")], observe=["return values"])
p("F03", "Exponential bit reduction clears exactly the low mantissa bits",
  "For every float and every depth d from 0 to 23 the checked exponential bit reduction returns the float whose bits are those of the input with the d lowest mantissa bits cleared (sign and exponent untouched); every larger d is refused.",
  ["inputs"], "all 2^32 bit patterns and all depths",
  "tests reduce pi by 0 and by 4 bits",
  [FB, FC], [("mantissa shift", FB + " bit_reduce_exp_unchecked")], observe=["bit patterns"])
p("F04", "Checked linear interpolation stays between its endpoints or reports why not",
  "For finite a and b and t in [0,1] the checked interpolation returns a*(1-t)+b*t: exactly a at t=0 and b at t=1, and otherwise within [min(a,b), max(a,b)] and equal to the ideal value, both up to float rounding. A NaN among a, b and t, an infinite endpoint, or t outside [0,1] is refused, with the error naming the cause (NaN, infinite, range).",
  ["inputs"], "all float triples",
  "seven hand-picked triples",
  [FI], [("guards", FI + " lerp"), ("weighted sum", FI + " lerp_unchecked")], observe=["return values"])
p("F05", "Lagrange interpolation is the polynomial through the points",
  "For n points (at abscissae 0,1,..,n-1) the Lagrange interpolation returns each point's value at its abscissa and, for every x between 0 and n-1, the value of the unique polynomial of degree below n through the points, up to rounding. The four-point form agrees with the general form on four points.",
  ["inputs"], "all point counts, values and abscissae",
  "only exercised for finiteness through a slice",
  [FI], [("basis products", FI + " lagrange, lagrange_only_4_elements")], observe=["return values"])
p("F06", "Decibel conversion reports impossible levels and never yields NaN",
  "The checked conversions of a voltage ratio to decibels refuse negative ratios and NaN as not-a-number; for zero the first yields minus infinity and the stricter one refuses it as infinite; every other ratio gives a level that is not NaN, finite for finite ratios. The unchecked conversion yields minus infinity for zero (of either sign), plus infinity for plus infinity, and NaN for negative ratios.",
  ["inputs"], "all 2^32 floats",
  "tests check 0 and -1, in a build where the standard library replaces the approximations that embedded builds use",
  ["src/decibels.rs"], [("guards", "src/decibels.rs to_decibels, to_decibels_checked")], observe=["return values"])
p("F07", "Decibel conversions are accurate, monotone and mutually inverse",
  "Over positive normal ratios the level is within 1.1 dB of 20*log10(ratio) below unity and within 0.01 dB from unity up, and never falls (beyond float rounding) as the ratio grows. Over levels from -750 to 770 dB the ratio is within 0.3 percent of 10^(dB/20) and never falls by more than 0.01 percent as the level grows; every level beyond gives a number, below 1e-37 or above 3e38 (or infinity), and 0 dB is exactly 1. Converting there and back restores the value to the same accuracy.",
  ["inputs"], "all floats",
  "four exact points, in a build with the standard library's functions",
  ["src/decibels.rs"], [("log10/powf approximations", "src/decibels.rs")], observe=["return values"])
p("F08", "Fixed-point sine is accurate for every phase and degree",
  "For every 16-bit phase the fixed-point sine of degree d (0 to 4; larger degrees act as 4) is within 8 units of the d+1-term Taylor polynomial of sin(phase/32768*pi/2) in 16-bit fixed point, saturated to the 16-bit range; for degree 4 it is within 6 units of the true sine. It is odd up to 3 units and never overflows or wraps around.",
  ["inputs"], "all 65536 phases x 256 degrees",
  "no test calls it directly",
  ["src/fixed_point/math.rs"], [("Horner evaluation in i32", "src/fixed_point/math.rs")], observe=["return values"])
p("F09", "Fast sine and cosine are accurate and bounded for every input",
  "For |x| up to 1000 the fast sine and cosine are within 0.0002 of the true values. For every finite x whatsoever they return a value in [-1.0001, 1.0001], and for no float do they fail.",
  ["inputs"], "all 2^32 floats",
  "five doc examples at 0, pi/2 and pi",
  [FM, "src/fixed_point/math.rs"], [("range reduction and quadrant fold", FM + " fixed_point_sin")], observe=["return values"])
p("F10", "Table-lookup sine never leaves its table and stays near the sine",
  "For every float the table-lookup sine succeeds and returns a value in [-1.0001, 1.0001]; for |x| up to 1000 it is within 0.13 of the true sine and has no jump larger than 0.002 between arguments 0.0001 apart, including across the ends of the table.",
  ["inputs"], "all 2^32 floats",
  "no test calls it",
  [FM, "src/oscillator/lookup_tables/mod.rs"], [("table index", FM + " lookup_sin"), ("compile-time table", "src/oscillator/lookup_tables/mod.rs sine_table")], observe=["return values"])
p("F11", "Band-limited rectangle lookup: in-table, symmetric, smooth, zero outside (0,1)",
  "For every float the lookup reads only inside its table and is 0 at and outside 0 and 1. Inside (a millionth away from 0, 1/2 and 1) it is positive on the first half period and negative on the second, f(1-x) = -f(x) and f(1/2-x) = f(x) up to rounding, its magnitude stays below 1, and it is continuous (no jump beyond what its steepest edge of 340 per unit allows).",
  ["inputs"], "all 2^32 floats",
  "no test calls it",
  [FM, "src/oscillator/lookup_tables/bl_rect.rs"], [("quarter-wave folding", FM + " lookup_bl_rect"), ("unchecked interpolation", MS + " lerp_unchecked")], observe=["return values", "address sanitizer around the table"])
p("F12", "Sinc and sine integral are accurate",
  "For |x| up to 1000 sinc(x) is within 0.0012 of sin(x)/x, with value 1 at 0 and near it; sinc is even up to 0.0012. For |x| up to 20 the sine integral is within 0.01 of the integral of sin(t)/t from 0 to x, and it is odd up to 0.0025.",
  ["inputs"], "all floats in range",
  "no test calls them",
  [FM, "src/float/integral.rs"], [("quotient", FM + " __sinc_f32"), ("Simpson sum", "src/float/integral.rs")], observe=["return values"])
p("F13", "Hyperbolic functions and fast tangent are accurate where documented",
  "For |x| up to 88, cosh(x) is within 0.1 percent of the true value, at least 1 and even; sinh(x) is within 0.2 percent (plus 0.0001 absolute) and odd; for larger |x| both are within 1 percent, infinite where the true value exceeds the biggest float, and never NaN. For 0 <= x <= 1 the fast tangent is within 0.07 percent of tan(x) (one part in a million up to 0.5), odd, and strictly positive and non-decreasing (beyond float rounding) up to pi/2.",
  ["inputs"], "all floats in range",
  "three doc examples at 0, 0.5 and 1, with the standard library's exp",
  [FM], [("exp combination", FM + " sinh, cosh"), ("Taylor polynomial", FM + " fast_tan")], observe=["return values"])
p("F14", "Hyperbolic tangent is a saturating odd curve",
  "For every finite x the approximate tanh is odd, has the sign of x, is at most 1 in magnitude, is within 0.1 of the true value for |x| up to 1, never decreases (beyond float rounding) as x grows, and is never NaN.",
  ["inputs"], "all 2^32 floats",
  "no test calls it",
  [FM], [("quadratic exp approximation", FM + " tanh")], observe=["return values"])
p("F15", "Sample/time conversions are exact inverses up to rounding",
  "For every positive sample rate from 0.1 Hz to 1 MHz and every number of samples, seconds or milliseconds between 1e-28 and 1e28 in magnitude, conversion gives samples/sr, 1000*samples/sr, seconds*sr and millis*sr/1000 up to float rounding, and converting there and back restores the value up to rounding.",
  ["inputs"], "all floats and sample rates",
  "one doc example each at 48 kHz",
  ["src/float/dsp_util.rs"], [("scaling", "src/float/dsp_util.rs")], observe=["return values"])
# ---------------------------------------------------------------- across the library
p("X01", "Unchecked operations agree with their checked counterparts",
  "Wherever a checked operation succeeds, its unchecked counterpart gives the same result (up to float rounding): slice element reads and writes, wrapped and interpolated slice reads, linear interpolation, linear and exponential bit reduction, decibel conversion, mono and stereo panning, setting an oscillator's frequency, and the fixed-point sine.",
  ["inputs"], "every argument the checked forms accept",
  "tests call one form or the other on a few arguments, never both on the same",
  ["src/memory/memory_slice.rs", "src/float/interpolation.rs", "src/float/bit_manipulation.rs", "src/decibels.rs", "src/stereo.rs", "src/oscillator/phase_accumulator.rs", "src/fixed_point/math.rs"],
  [("pairs f / f_unchecked", "src")], observe=["return values", "slice contents", "phase"])
p("X02", "No float makes a numeric function panic",
  "For every float argument, infinities, NaN, subnormals and huge values included, the float mathematics (hyperbolic and trigonometric functions, sinc, sine integral, lookups), decibel and time conversions, bit reduction (checked, any depth), interpolation (of numbers checked, of slices and delay lines checked or wrapped), decomposition, checked panning, crossfade, hard clip and the phase accumulator with its checked setter return normally, also in builds with overflow checks and assertions.",
  ["inputs"], "all 2^32 floats, with zero, one, huge and NaN companions",
  "tests use ordinary finite values only",
  ["src/float/math.rs", "src/decibels.rs", "src/float/bit_manipulation.rs", "src/oscillator/phase_accumulator.rs", "src/stereo.rs"],
  [("float functions", "src/float/math.rs")], observe=["return or panic"])
p("X03", "Objects do not influence each other",
  "Any two objects of the library (filters, coefficient sets, envelopes, phase accumulators, oscillators, delay lines, combs, all-passes, of the same or of different kinds, on separate memory) used in any interleaving give exactly the outputs they give when each is used alone; so do the plain functions.",
  ["histories", "schedules"], "all pairs of kinds of objects, all call histories, all interleavings",
  "every test uses one object at a time",
  ["src/lib.rs"], [("no shared mutable state", "src")], observe=["outputs of both objects"])
p("X04", "Every call may be interrupted by other calls",
  "A call on one object, or of a plain function, gives the same result and leaves the object in the same state when other calls on other objects, or of plain functions, are executed in the middle of it, at whatever point (from an interrupt handler or another thread); so do those other calls.",
  ["schedules"], "all points of interruption, all pairs of calls",
  "tests make one call at a time",
  ["src/lib.rs"], [("no shared mutable state, no scratch memory", "src")], observe=["results of both calls", "later results of both objects"])
p("X05", "Every call takes a bounded amount of work",
  "No call (constructor, setter, tick, read, write, buffer replacement, filter design, conversion, numeric function) executes more than 60000 machine instructions in an optimised build, whatever its arguments (any float, index, position, length or phase, infinities and NaN included), however long the slices and buffers and however long or unusual the history of the object. Nothing loops per sample, per cell, per turn of phase or per unit of position. Exceptions: the sine integral, which sums a thousand points, may take 3 million; Lagrange interpolation over n points may grow with n^2 (up to 8 points it stays within the bound).",
  ["inputs", "histories"], "all arguments, lengths and histories",
  "tests do not measure work, and use small arguments and short buffers",
  ["src/lib.rs"], [("closed forms instead of loops", "src"), ("wrapping by remainder", "src/memory/memory_slice.rs"), ("range reduction", "src/float/math.rs")], observe=["number of machine instructions of a call"])
# ---------------------------------------------------------------- stereo & clipping
ST = "src/stereo.rs"
p("S01", "Panning outside [-1,1] is refused and leaves are exact",
  "The checked pans refuse every amount below -1 as too far left and every amount above 1 as too far right, and accept every amount in between (NaN aside). A mono pan gives exactly sample*(1-amount)/2 and sample*(1+amount)/2 up to rounding (so both sides sum to the sample), and the correlated crossfade gives the same weighting of its two inputs, hence exactly one input at each end.",
  ["inputs"], "all floats as amount, all sample values",
  "four out-of-range values and the three positions -1, 0, 1 of private helpers",
  [ST], [("range guard", ST + " check_pan_error"), ("equal-amplitude law", ST)], observe=["return values"])
p("S02", "Stereo pan is equal-power within half a decibel and monotone",
  "For amounts in [-1,1] the stereo pan multiplies left and right by gains whose squares sum to between 0.9999 and 1.13; each gain is within 6.2 percent above the square root of its linear share ((1-amount)/2 and (1+amount)/2), never below it; the left gain never rises and the right gain never falls as the amount grows, and mirroring the amount swaps the gains.",
  ["inputs"], "all floats in [-1,1] and all sample pairs",
  "three positions, with the standard library's square root, which embedded builds do not use",
  [ST], [("square-root law", ST + " equal_power_pan_unchecked")], observe=["return values"])
p("C01", "Clippers limit every sample to [-1,1] and never fail",
  "Every clipping function returns, for every sample that is not NaN, a value in [-1,1] with the sign of the sample; samples beyond +-1 map to exactly +-1, and the hard clipper leaves samples within [-1,1] unchanged. No clipper panics for any sample.",
  ["inputs"], "all 2^32 floats, all shape parameters",
  "no test calls any clipper",
  ["src/clipping.rs"], [("range branches", "src/clipping.rs")], observe=["return values"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
