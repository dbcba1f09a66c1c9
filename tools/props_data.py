prop("C01", "A parameter's stored value is always normalized",
 "Whatever is written to a parameter - a normalized value, a plain value, parsed text, or the default given when it is built - the value and the default it then reports lie in [0, 1]; a normalized value is stored exactly and an out-of-range one is clamped to the nearer end. NaN and infinities never become observable parameter values.",
 ["inputs"], "for every float64 (all bit patterns, NaN and infinities included), every range, every order of builder calls",
 "Tests write a handful of ordinary values; NaN, infinities, empty and inverted ranges and the order of builder calls are not sampled.",
 ["pkg/framework/param/parameter.go", "pkg/framework/param/builder.go"],
 [("clamping store of the normalized value", "pkg/framework/param/parameter.go SetValue"), ("plain to normalized conversion", "pkg/framework/param/parameter.go Normalize"), ("builder defaults", "pkg/framework/param/builder.go")],
 "Proved for all float64 inputs. Text parsing is proved for the built-in parser and for any custom parser result; strconv and time are modelled as arbitrary results.")
prop("C02", "Plain and normalized values map onto each other monotonically",
 "Converting between the plain and the normalized value of a parameter maps the range's ends onto 0 and 1 exactly, never reverses the order of two values, and a round trip returns the value up to rounding. An empty range maps everything to 0.",
 ["inputs"], "for every parameter range within +-1e6 and every value",
 "Tests check a few points of a few ranges; order and round trip have to hold between every pair of values under float64 rounding.",
 ["pkg/framework/param/parameter.go"],
 [("linear conversions", "pkg/framework/param/parameter.go Normalize, Denormalize")],
 "Float rounding is over-approximated by relative and absolute error bounds.")
prop("C03", "The parameter registry stays consistent, ordered and free of duplicates",
 "A registered parameter can be looked up by its identifier and stands at exactly one index, in registration order; listing, counting, index lookup and identifier lookup always agree. Registering an identifier again changes nothing that is already registered; unknown identifiers and indices outside the count yield nothing.",
 ["inputs", "histories"], "for every reachable registry, every batch of parameters (duplicates included), every identifier and index",
 "Tests register a few distinct parameters; the guarantee is an invariant over every history of registrations and every duplicate.",
 ["pkg/framework/param/registry.go"],
 [("map and order slice kept in step", "pkg/framework/param/registry.go Add")],
 "The representation invariant is proved to be established and preserved; parameters in one batch are distinct objects.")
prop("C04", "Automatic parameter identifiers: no identifier is ever taken over",
 "With automatic identifiers, every registered parameter is found under its identifier and under its name, no identifier is shared or taken over by another parameter, and names keep the identifier they were first given. A refused registration leaves the registry and the refused parameter unchanged, and reserved identifiers are never handed out automatically.",
 ["inputs", "histories"], "for every reachable registry, every batch of parameters with any mix of explicit and automatic identifiers and equal names",
 "Tests use fresh registries and short fixed batches; collisions between explicit, automatic, reserved and repeated identifiers form an unbounded set of histories.",
 ["pkg/framework/param/registry_auto.go"],
 [("next-identifier counter and name index", "pkg/framework/param/registry_auto.go Register, RegisterWithID, ReserveIDs")],
 "The identifier counter is assumed not to wrap around 2^32.")
prop("C05", "Parameter smoothing never overshoots and lands exactly on its target",
 "A smoothed value always stays between its previous value and its target, lands on the target exactly when smoothing ends, and then stays put. Setting a new target never moves the current value by itself; resetting jumps to the value and ends smoothing. A smoothed parameter follows its parameter when smoothing is off, starts smoothing from the present value when it is switched on, and the smoother of one parameter never touches another.",
 ["inputs", "histories"], "for every smoothing type, rate, current value and target up to 1e6 in magnitude, and every step",
 "Tests follow a few trajectories for a few hundred samples; overshoot comes from particular step sizes and rounding.",
 ["pkg/framework/param/smoother.go"],
 [("linear, exponential and logarithmic steps", "pkg/framework/param/smoother.go Next, SetTarget")],
 "exp and log are modelled as monotone with rounding error. Eventual settling is shown per step (progress toward the target), not as a liveness statement.")
prop("C08", "MIDI event queue: exact range queries, stable order, nothing lost",
 "The MIDI event queue delivers pending events in sample-offset order, keeping insertion order among events at the same offset. A range query returns exactly the pending events with start <= offset < end; removal up to a position drops exactly the events at or before it; nothing else is lost, duplicated or reordered.",
 ["inputs", "histories"], "for every queue state, every event, every offset (int32 limits included) and every range",
 "Tests sample a few event lists; the guarantee is about every sequence of adds, reads, removals and shifts, every duplicate offset and every boundary of the range.",
 ["pkg/midi/queue.go", "pkg/midi/events.go"],
 [("sorted event list with stable sort and binary search", "pkg/midi/queue.go")],
 "sort.SliceStable and sort.Search are used through their contracts.")
prop("C10", "Block routing: pass-through, silence and channel callbacks touch only theirs",
 "Passing through copies every input channel to the output channel of the same number, for as many samples and channels as both sides have, and leaves everything else as it was; clearing makes every output sample zero; the per-channel helpers hand each callback exactly the buffers of its channel and stay within the channels both sides have. Bus lookup returns the first bus of the wanted kind, and indices outside the count yield nothing. None of it panics, whatever the channel counts and lengths.",
 ["inputs", "configurations"], "for every number of channels on each side, every buffer length (different lengths included), every sample value and every arrangement of buses",
 "Tests use a fixed stereo block; missing channels, unequal lengths and empty buffers are not combined.",
 ["pkg/framework/process/context.go", "pkg/framework/process/helpers.go", "pkg/framework/process/multibus.go"],
 [("channel loops", "pkg/framework/process/context.go PassThrough, Clear"), ("callbacks per channel", "pkg/framework/process/helpers.go"), ("bus lookup", "pkg/framework/process/multibus.go")],
 "Output buffers are assumed not to overlap each other or the inputs; the block is assumed not to exceed the size the context was made for. The results of ProcessSamples, ProcessChannelsSeparately and PassThroughAll are checked by bounded concrete execution only.")
prop("C11", "Sample-accurate parameter changes: kept in order, none lost, capacity respected",
 "Parameter changes of a block are kept as given and in the order they came until the list is full, further ones are refused without disturbing it. Sorting orders them by sample offset and keeps changes at one offset in the order they came, losing none; resetting empties the list. Applying a change gives the parameter the normalized value.",
 ["inputs", "histories"], "for every list of changes up to its capacity, every offset and value",
 "Tests sort two or three changes with distinct offsets; the order among equal offsets only shows with longer lists.",
 ["pkg/framework/process/context.go"],
 [("pre-allocated change list", "pkg/framework/process/context.go AddParameterChange, SortParameterChanges")],
 "sort.SliceStable is used through its contract.")
prop("C15", "Buffer operations: element-wise exact, within bounds, nothing else touched",
 "Whole-buffer operations (copy, add, scale, mix, clip, gain, fade, dry/wet, crossfade, sum, pan, balance, width, smoothing) give for every sample exactly what the operation on a single sample gives, for as many samples as all buffers involved have; samples beyond that, and the sources, are untouched. They never panic, whatever the buffer lengths.",
 ["inputs"], "for every buffer content and every combination of buffer lengths, empty and unequal ones included",
 "Tests use equal short lengths and a few values; an error at the last sample, at unequal lengths or for particular values passes them.",
 ["pkg/dsp/buffer.go", "pkg/dsp/gain/gain.go", "pkg/dsp/mix/mix.go", "pkg/dsp/pan/pan.go", "pkg/dsp/interpolation/interpolation.go"],
 [("sample loops", "pkg/dsp/buffer.go, pkg/dsp/gain/gain.go, pkg/dsp/mix/mix.go, pkg/dsp/pan/pan.go")],
 "Buffers that are read and written are assumed not to overlap unless they are the same buffer. Peak and RMS are proved only to stay within bounds and to be non-negative.")
prop("C12", "Voice allocation: every key owns at most one voice, nothing else is touched",
 "In poly mode a note is played by exactly one voice, a free one if there is any, otherwise the one the stealing mode names (oldest, quietest, highest, lowest; none when stealing is off); no other voice changes. Releasing a key releases its voice and no other one; with the pedal down it is held until the pedal is let go, unless the key is pressed again. Mono and legato use the first voice only, and overlapping legato notes do not retrigger; unison plays and releases every voice up to the limit. Reset and mode changes silence everything.",
 ["inputs", "histories"], "for every number of voices, every allocator state reachable or satisfying its invariant, every note, velocity, mode and pedal state",
 "Tests play a few notes on three or four voices; ownership goes wrong only after particular histories of stealing, voices ending by themselves, pedal and repeated keys.",
 ["pkg/framework/voice/allocator.go"],
 [("note-to-voice map kept in step with the voices", "pkg/framework/voice/allocator.go noteOnPoly, noteOffPoly, forgetVoice"), ("stealing choice", "pkg/framework/voice/allocator.go stealVoice"), ("pedal-held notes", "pkg/framework/voice/allocator.go SetSustainPedal")],
 "Voices are seen through the Voice interface; the proof uses one recording implementation of it, so voices that misreport their state are outside the claim. At most 2^20 voices.")
prop("C17", "Delay lines: exact whole-sample delay, reads stay inside the line",
 "A delay line returns, for a delay of k whole samples, exactly the sample written k samples ago, for every k up to its length and at every position of the wrap-around; writing makes the new sample the latest and every other one sample older. Reading changes nothing, never indexes outside the line for any requested delay (negative, too long, NaN, just off a whole number), and yields nothing louder than what the line holds. The allpass, comb, multi-tap and modulated lines feed exactly what their structure says into the line, and a reset silences it.",
 ["inputs", "histories"], "for every line length, write position, line content and requested delay",
 "Tests use a few delays on a line that has not wrapped; an index error needs a delay at the line's length, or one that rounds up at a particular write position.",
 ["pkg/dsp/delay/delay.go"],
 [("circular buffer with linear interpolation", "pkg/dsp/delay/delay.go Line.Read, Line.Write"), ("feedback structures over the line", "pkg/dsp/delay/delay.go AllpassDelay, CombDelay, MultiTapDelay, ModulatedDelay")],
 "That a fractional delay interpolates between its two neighbours within 1e-5 is checked by bounded concrete execution only; lines are at most 2^40 samples long.")
prop("C20", "Envelopes: level always within 0 and 1, stages in order, no jumps",
 "An ADSR or AR envelope never leaves the range 0 to 1, whatever the times, levels and gate events. Attack does not fall and ends at full level, decay ends at the sustain level now set, sustain holds it, release does not rise and ends in silence; triggering, releasing and changing settings continue from the present level. Followers and detectors are never negative or NaN, move toward the signal without passing it, and hold peaks while the hold lasts.",
 ["inputs", "histories"], "for every setting, every reachable or invariant-satisfying state, every sample up to 1e6 in magnitude, every detector mode and type",
 "Tests run a few envelopes at one sample rate with typical times; extreme times, setting changes mid-stage and rounding in long RMS runs are not reached.",
 ["pkg/dsp/envelope/envelope.go", "pkg/dsp/envelope/detector.go"],
 [("stage machine with one-pole segments", "pkg/dsp/envelope/envelope.go Next"), ("peak, RMS and peak-hold detection", "pkg/dsp/envelope/detector.go Detect")],
 "exp is modelled as a function into [0,1] for non-positive arguments. The RMS running sum is assumed to stay within 1e15 (its rounding drift is not bounded inductively). That a stage is eventually left is shown per step only.")
prop("C22", "Dynamics: gain never above one, reduction never negative, ceiling held",
 "A compressor reports a gain reduction that is never negative and, without makeup gain, never makes the signal louder; an expander and a gate never make it louder and an expander never attenuates below its range; a limiter keeps its output below the ceiling, sample by sample, and passes what needs no reduction unchanged. A gate opens only above its threshold, stays open down to the closing threshold and then through the whole hold time. Lookahead delays the signal by exactly its length. Settings stay in range, stereo forms give both channels the gain the louder one calls for, blocks equal samples in turn, and a reset ends the reduction.",
 ["inputs", "histories"], "for every detector and processor state, every setting in range and every sample up to 1e6 in magnitude",
 "Tests feed a few constant levels; knees, rising envelopes, hysteresis and hold depend on the exact history and level.",
 ["pkg/dsp/dynamics/compressor.go", "pkg/dsp/dynamics/expander.go", "pkg/dsp/dynamics/limiter.go", "pkg/dsp/dynamics/gate.go"],
 [("compressor curve and lookahead", "pkg/dsp/dynamics/compressor.go Process"), ("expander curve", "pkg/dsp/dynamics/expander.go Process"), ("ceiling", "pkg/dsp/dynamics/limiter.go Process"), ("gate state machine", "pkg/dsp/dynamics/gate.go Process")],
 "Log10 and Pow are axiomatised (monotone, inverse of each other, bounds). The limiter's ceiling is checked by bounded concrete execution only; knee widths are assumed to be 0 or at least 0.01 dB; the gate's state machine is proved without its side-chain filter.")
prop("C16", "Gain, mix and pan laws: monotone, bounded, exact at their ends",
 "Decibel conversions are monotone, inverse to each other, give silence at and below the minimum level and unity at 0 dB. Clippers keep every sample within the threshold and leave quieter ones alone (hard clip). Dry/wet mixes and crossfades stay between their two signals, give exactly one of them at either end, and an equal-power crossfade keeps the power. Pan gains stay between 0 and 1, are equal in the centre, silence the far channel at the ends, and move monotonically with the pan position under every pan law.",
 ["inputs"], "for every level, position, mix amount and pan law in range, and every sample up to 1e6 in magnitude",
 "Tests check a handful of points on each curve with loose tolerances; monotonicity and range are statements about all points.",
 ["pkg/dsp/gain/gain.go", "pkg/dsp/mix/mix.go", "pkg/dsp/pan/pan.go"],
 [("dB conversion", "pkg/dsp/gain/gain.go DbToLinear, LinearToDb"), ("crossfades", "pkg/dsp/mix/mix.go"), ("pan laws", "pkg/dsp/pan/pan.go MonoToStereo")],
 "Pow, Log10, Sin, Cos and Sqrt are axiomatised (monotone, inverse pairs, sin^2+cos^2=1, bounds on grids). The soft clipper is claimed to stay in range, not to be continuous.")
prop("C23", "Distortion: curves bounded, monotone and odd; channels do not leak",
 "Every waveshaping curve keeps a sample within full scale whatever the drive, keeps the order of samples (except foldback), keeps signs and, except the asymmetric one, treats both signs alike; foldback ends and mirrors at the threshold for every input. The bit crusher stays within full scale, holds each sample for exactly the reduction factor, and its filter never overshoots. Quantizing keeps the order. In stereo, each channel is processed as if alone. Without mix the signal passes, and settings stay in range.",
 ["inputs", "histories"], "for every curve, drive, setting, filter and hold state, and every sample up to 1e6 in magnitude",
 "Tests sample a few points per curve and one channel; overload, extreme reduction factors, and a channel leaking into the other are not sampled.",
 ["pkg/dsp/distortion/waveshaper.go", "pkg/dsp/distortion/bitcrusher.go", "pkg/dsp/distortion/tube.go"],
 [("waveshaping curves", "pkg/dsp/distortion/waveshaper.go applyCurve"), ("bit depth and rate reduction", "pkg/dsp/distortion/bitcrusher.go processChannel"), ("tube states", "pkg/dsp/distortion/tube.go processChannel")],
 "Tanh, Atan, Sin, Exp and Mod are axiomatised (monotone, odd, bounds). The tube's output range and the tape saturation are not claimed. Step width of QuantizeToSteps is checked by bounded concrete execution only. Dither in the bit crusher can give NaN: recorded as a known finding, as the existing tests pin down the values its generator gives.")
prop("C24", "Oscillators and LFOs: phase within one period, output within full scale",
 "An oscillator or LFO keeps its phase within one period, advances it by exactly frequency over sample rate per sample (upward or downward), and never leaves full scale, for every waveform, phase, frequency (negative ones included), block and setting. Each waveform has its shape: saw rises, square and pulse switch at their width, triangle peaks in the middle, random values are held for their period. Frequency changes keep the phase, LFO settings stay in range.",
 ["inputs", "histories"], "for every phase, step, waveform, setting and block length",
 "Tests run a few waveforms for a second; phase drift, wrapping, negative frequencies and rarely used waveforms are not reached.",
 ["pkg/dsp/oscillator/oscillator.go", "pkg/dsp/modulation/lfo.go"],
 [("phase accumulators", "pkg/dsp/oscillator/oscillator.go updatePhase, pkg/dsp/modulation/lfo.go Process"), ("waveforms", "pkg/dsp/oscillator/oscillator.go Sine, Saw, Square, Triangle, Pulse")],
 "Sin, Floor and Exp are axiomatised. Band-limited impulse trains are proved to be finite with the right number of harmonics, not to be within full scale.")

prop("C30", "Tremolo, ring modulator and auto-pan: never louder, phase kept in its period",
 "A tremolo's gain stays between 1-depth and 1 (between 0 and 1 while smoothing), so it neither inverts nor amplifies a sample; ring modulation and auto-pan never make a sample louder. Their phases stay within one period and auto-pan advances by exactly rate over sample rate. Settings stay within their ranges. Without stereo operation both channels of a tremolo move together, both channels of a ring modulator share its carrier, and a reset restarts the period while keeping settings and stereo offset.",
 ["inputs", "histories"], "for every sample, phase, waveform, rate, depth, mode and block length",
 "Tests check that the output changes; the extremes of gain over all phases and settings are not reached by any sampled run.",
 ["pkg/dsp/modulation/tremolo.go", "pkg/dsp/modulation/ringmod.go", "pkg/dsp/modulation/lfo.go", "pkg/dsp/pan/pan.go"],
 [("gain laws of tremolo and ring modulator", "pkg/dsp/modulation/tremolo.go Process, pkg/dsp/modulation/ringmod.go Process"), ("auto-pan", "pkg/dsp/pan/pan.go AutoPan.Process")],
 "Sin and Cos are axiomatised; Ring modulator settings are limited to LFO depths up to 0.99.")
prop("C31", "Filters: every sample obeys the difference equation, across blocks",
 "A biquad's output obeys its difference equation for every sample, coefficient and state; it remembers its last two inputs and outputs, so splitting a stream into blocks changes nothing; channels are independent; a reset clears the samples and keeps the coefficients. The state-variable filter solves its delay-free loop, its notch and highpass are what its other outputs leave over, and every block form equals sample by sample processing. Every biquad design is stable and has the gain it promises at DC, Nyquist and its centre.",
 ["inputs", "histories"], "for every sample, coefficient, filter state and block length; designs for 44.1 to 192 kHz, 20 Hz to 20 kHz, Q 0.3 to 10, gain within 18 dB",
 "Tests run a few designs on a sine or an impulse and check that something changed; one wrong tap or a state mixed up between blocks or channels stays within their tolerance.",
 ["pkg/dsp/filter/biquad.go", "pkg/dsp/filter/svf.go"],
 [("difference equation and state", "pkg/dsp/filter/biquad.go Process"), ("design formulas", "pkg/dsp/filter/biquad.go SetLowpass to SetHighShelf"), ("state-variable filter", "pkg/dsp/filter/svf.go ProcessSample")],
 "Proved: biquad recurrence, state and reset; state-variable sample equations, reset, mode range; its block forms for blocks of two samples. Bounded (concrete executions): block forms for longer blocks, and all eight biquad designs, whose trigonometry is beyond the solvers.")

prop("C14", "Processor chains: every stage in order, exactly once per block",
 "A chain runs every processor it holds exactly once per block, in the order they were added, each on the previous one's output; a bypassed chain leaves the buffer alone and runs none. Adding a processor keeps the earlier ones in place, a builder refuses empty chains and nil processors, and a reset reaches every processor once. Stereo chains do so for both channels together. A parallel chain at zero processors or bypassed leaves the signal alone and otherwise gives the sum of its branches, each scaled by its own gain.",
 ["inputs", "histories"], "for every number of processors, every block and every builder sequence of up to two processors",
 "Tests run two or three processors that are told apart by their gain only; order, double processing and a stage skipped at a particular position do not show there.",
 ["pkg/framework/dsp/chain.go"],
 [("chain loops", "pkg/framework/dsp/chain.go Process, Reset, Add"), ("builder", "pkg/framework/dsp/chain.go Builder, StereoBuilder")],
 "Processors are seen through their interface; the proof uses one recording implementation of it. The sum of a parallel chain is bounded (concrete executions).")
prop("C09", "Shared objects: every operation is one critical section, without races",
 "Parameter values, parameter registries, event queues, meters, the spectrum analyzer and the phase scope may be used from audio, host and interface threads at once. Each of their operations reads and writes the shared state only while it holds the object's lock (parameter values only atomically), takes that lock once, so that it takes effect as a whole, never waits for a lock it already holds, and releases it at its end. Results handed out share no memory with the object. No concurrent operation loses or duplicates an event, an entry or a reserved id.",
 ["schedules", "histories"], "for every operation, argument and object state, whatever other threads do",
 "Tests run on one thread or hit one interleaving; a missing lock, a lock released between check and act, or a leaked internal slice shows on rare schedules only.",
 ["pkg/midi/queue.go", "pkg/framework/param/registry.go", "pkg/framework/param/registry_auto.go", "pkg/framework/param/parameter.go", "pkg/dsp/analysis"],
 [("event queue", "pkg/midi/queue.go mu"), ("registry lock", "pkg/framework/param/registry.go mu, registry_auto.go"), ("atomic parameter values", "pkg/framework/param/parameter.go GetValue, SetValue"), ("meter locks", "pkg/dsp/analysis/meters.go, correlation.go, spectrum.go, phasescope.go")],
 "Proved: the lock discipline, from which atomicity and race freedom follow by the usual argument (all accesses of guarded state under one lock, one critical section per operation). The blocks inside a LUFS meter are guarded through the meter's pointers to them. Panics inside an operation are left to the other properties. Concurrent executions under the race detector are bounded and supply the failing schedule. Only the listed types are shared; single processors and voices are not safe for concurrent use, by design.")
