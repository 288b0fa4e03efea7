#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=mech, observe_at=observe, hook_needed=hook)))
E="src/ebur128.rs"; F="src/filter.rs"; H="src/history.rs"; B="src/histogram_bins.rs"
I="src/interp.rs"; T="src/true_peak.rs"; U="src/utils.rs"; C="src/capi.rs"; HD="assets/ebur128.h"
m=lambda n,w: dict(name=n, where=w)

p("C01","No call history makes the analyzer panic, abort or misreport validity",
 "For every configuration and every sequence of API calls with arbitrary arguments and arbitrary sample values (NaN, infinities, denormals, integer extremes, empty or mis-shaped buffers), every call returns normally and never panics or aborts the process. Construction and reconfiguration succeed exactly for 1..=64 channels, rates 16..=2822400 and a mode that includes a loudness measurement, and every other argument outside its documented domain (channel index, channel-map length or placement of dual mono, buffer shape, unavailable query, unsatisfiable window) is answered with an error value. Every successful numeric result is a value a caller can interpret: peaks are never NaN or negative, loudness range is never negative, and loudness of finite audio (rates from 4 kHz, magnitudes below 1e100, spans of at least one frame) is never NaN.",
 ["inputs","histories","configurations"],"all channel counts, sample rates, mode bit sets, call sequences and sample values of all four sample types, interleaved and planar",
 "The unit tests construct a handful of valid stereo/mono instances at 16-224 kHz and call add_frames once; they never sequence reconfiguration, seeding, resets, windows and odd buffer shapes.",
 [E,F,H,I,T,U],[m("argument validation","src/ebur128.rs EbuR128::new/change_parameters/set_max_window/set_channel*"),m("ring buffer sizing","src/ebur128.rs allocate_audio_data"),m("buffer shape checks","src/utils.rs Interleaved::new/Planar::new")],["return values of every public method","process exit status"])
p("C02","Momentary, short-term and window loudness follow BS.1770",
 "At every point of every input, momentary, short-term and custom-window loudness equal the K-weighted, channel-weighted mean-square level of exactly the last 400 ms, 3 s or requested duration of audio, with audio before the start counted as silence. This holds for every supported sample rate, channel count, per-channel content, maximum window and position in the stream, and the result is negative infinity when that span is silent.",
 ["inputs","histories","configurations"],"all signals (independent per-channel content), rates from ordinary to 2.8 MHz, channel maps, max-window settings, and all query positions including mid-block and after the internal buffer has wrapped many times",
 "The C comparison tests feed identical data to all channels in one call, at most 5 s, and query once at the end with window=1ms only.",
 [E,F],[m("K-weighting filter","src/filter.rs filter_coefficients, Filter::process"),m("ring buffer and interval energy","src/ebur128.rs add_frames, energy_in_interval; src/filter.rs calc_gating_block")],["loudness_momentary","loudness_shortterm","loudness_window"],[dict(name="filtered ring buffer",meaning="most recent max-window of K-weighted audio",where="src/ebur128.rs audio_data/audio_data_index")])
p("C03","Integrated loudness applies the BS.1770-4 two-stage gating exactly",
 "Global loudness is the mean energy of all complete 400 ms blocks, taken every 100 ms (75% overlap), that are at or above -70 LUFS and not more than 10 LU below the mean of those blocks; the relative threshold and the gating block count and energy reported are those of the same computation. With no block above the absolute gate the results are negative infinity, -70 LUFS and none respectively, and an incomplete last block never contributes.",
 ["inputs","histories","configurations"],"all signals and durations (including level patterns around both gates and programmes of thousands of blocks), rates, channel maps, call splits",
 "Tests use stationary signals of at most 5 s (no block ever gated by the relative gate) and internal history tests feed energies up to 1200 almost never near the gates.",
 [E,F,H,U],[m("block scheduling","src/ebur128.rs add_frames needed_frames"),m("gating","src/history.rs gating_block_count_and_energy_multiple, relative_threshold")],["loudness_global","relative_threshold","gating_block_count_and_energy"])
p("C04","Loudness range follows EBU Tech 3342",
 "Loudness range is the difference between the 95th and 10th percentile of the short-term (3 s) loudness values taken once per second, after removing values below -70 LUFS and values more than 20 LU below their mean energy, in both the exact and the histogram variant (the latter to bin resolution). It is zero when no or only one value survives and is unaffected by audio that does not complete another second.",
 ["inputs","histories","configurations"],"all loudness trajectories from seconds to many minutes, both history representations, rates, channel maps, call splits",
 "Unit tests run at most 5 s (three short-term values of a stationary tone), so percentiles and both gates are never exercised; the reference files are not available.",
 [E,H,B],[m("short-term scheduling","src/ebur128.rs short_term_frame_counter"),m("percentiles","src/history.rs Queue::loudness_range, Histogram::loudness_range")],["loudness_range"])
p("C05","Sample peaks are the exact per-channel maxima",
 "After any history, the sample peak of each channel equals exactly the largest absolute sample value fed to that channel since creation, reset or a change of channel count (full scale = 1.0, the most negative integer counts as 1.0), and the previous-call peak equals exactly that maximum over the latest non-empty add call. Peaks cover every channel including unused ones, never mix channels, ignore NaN, ignore seeded audio and empty calls.",
 ["inputs","histories","configurations"],"all sample values, peak positions, channels, sample types, layouts and call sequences",
 "Tests feed the same tone to every channel in one call, so position, channel isolation, previous-vs-overall and accumulation across calls are not exercised.",
 [F,E,U],[m("per-channel maximum","src/filter.rs Filter::process"),m("accumulation","src/ebur128.rs add_frames")],["sample_peak","prev_sample_peak"])
p("C06","True peaks are the documented oversampled per-channel maxima",
 "For every input the true peak of each channel equals the maximum absolute value of that channel's signal oversampled 4x below 96 kHz, 2x below 192 kHz and not at all from 192 kHz by the documented windowed-sinc interpolator (continuing across calls), or its sample peak if that is larger; the previous-call value covers the latest non-empty add call only. The value for a channel depends on that channel's samples alone, whatever the channel count, channel role, sample layout or build-time precision option.",
 ["inputs","histories","configurations"],"all signals, rates on both sides of the 96/192 kHz limits, channel counts with and without a specialised implementation, call splits",
 "Tests feed identical data in all channels, channel counts up to 15, one call, and never the exact rate limits.",
 [T,I,F,E,U],[m("polyphase interpolation","src/interp.rs InterpF"),m("factor and layout selection","src/true_peak.rs UpsamplingScanner")],["true_peak","prev_true_peak"])
p("C07","Splitting the input into calls never changes a measurement",
 "For every stream and every way of splitting it into successive add calls (down to single frames and including empty calls), every cumulative or windowed measurement after the last call equals that of adding the stream in one call, and the previous-call peaks are those of the last non-empty piece, with the overall peaks the maximum over the pieces. Interleaving read-only queries between the calls changes nothing.",
 ["inputs","histories"],"all signals x all partitions into calls x all modes",
 "Every existing test adds its complete input in a single call (except two chunk tests with fixed 100 ms multiples).",
 [E,F,T],[m("block bookkeeping across calls","src/ebur128.rs add_frames"),m("filter and interpolator state","src/filter.rs, src/interp.rs")],["all queries"])
p("C08","Sample type and memory layout never change a measurement",
 "The same audio given as 16-bit, 32-bit, f32 or f64 samples (wherever the values are exactly representable), interleaved or planar, through the add or the seed functions, yields identical results for every query, for every channel count.",
 ["inputs","configurations","histories"],"all signals representable in several formats, all channel counts, splits that make planar views start in the middle",
 "Planar tests cover stereo identical-channel tones in one call; cross-format agreement is only checked against per-format constants.",
 [U,E,F,T],[m("sample conversion","src/utils.rs Sample"),m("layout views and splitting","src/utils.rs Interleaved, Planar")],["all queries after add_frames_*/add_frames_planar_*/seed_frames_*"])
p("C09","A measurement does not depend on which other modes are enabled",
 "For every mode set, a query is available exactly when the mode documented for it is enabled (otherwise it reports an invalid-mode error), the accessors report the configuration, and every available query returns the same value as in an instance with all modes enabled that was fed identically (histogram and exact storage compared with like).",
 ["configurations","inputs"],"all 128 mode bit sets x signals x channel counts x rates",
 "Tests use only all modes or all minus histogram.",
 [E,F,H],[m("mode checks","src/ebur128.rs query methods"),m("conditional processing","src/ebur128.rs add_frames; src/filter.rs")],["all queries","mode()"])
p("C10","Histogram storage stays within bin resolution of the exact result",
 "In histogram mode each block counts as the centre of its 0.1 LU wide bin between -70 and +30 LUFS (levels above count in the top bin), so for every programme within that span the global loudness, relative threshold and loudness range equal those computed from the binned levels, and differ from exact storage by at most half a bin (one bin for the range) whenever no block lies within half a bin of a gate. Every one of the 1000 bins obeys this.",
 ["inputs","configurations"],"all block levels from below -70 to above +30 LUFS including both sides of every bin boundary, all level distributions",
 "Tests visit a handful of bins with stationary tones and accept whatever the table says there.",
 [H,B,"examples/generate_histogram_bins.rs"],[m("bin tables and lookup","src/histogram_bins.rs, src/history.rs find_histogram_index"),m("binned gating","src/history.rs iter_gating_block_count_and_energy")],["gating_block_count_and_energy","loudness_global","relative_threshold","loudness_range"])
p("C11","Reset is equivalent to a fresh instance with the same settings",
 "After any history of calls, resetting the analyzer makes all queries report the empty-input values and makes every later history behave identically to a newly created instance that was given the same channels, rate, mode, channel map, maximum window and maximum history.",
 ["histories","inputs","configurations"],"all histories before the reset x all histories after it",
 "One test resets once and only checks the empty values; nothing is processed after a reset.",
 [E,F,T,I,H],[m("reset","src/ebur128.rs reset; src/filter.rs Filter::reset; src/interp.rs InterpF::reset; src/history.rs reset")],["all queries after reset()"])
p("C12","Reconfiguration keeps finished results and restarts only the current block",
 "Changing channel count, rate or maximum window to the values already in force changes nothing observable, while an effective change keeps all completed gating blocks and range values, discards buffered audio, and from then on behaves like a fresh instance with the new settings appended to that history (a window change keeps the filters warm; a channel-count change restores the default channel map and clears peaks; a rate-only change keeps the map and the overall peaks). The accessors always report the settings in force, with the maximum window never below what the mode needs.",
 ["histories","configurations","inputs"],"all sequences of add, change-parameters and set-window calls over all rates and channel counts",
 "No existing test calls these functions.",
 [E],[m("change_parameters","src/ebur128.rs change_parameters"),m("set_max_window","src/ebur128.rs set_max_window")],["all queries","channels()","rate()","channel_map()","max_window()","max_history()"])
p("C13","Maximum history keeps exactly the most recent blocks",
 "With a maximum history set at any time, in exact (non-histogram) storage, global loudness, relative threshold and block statistics are computed from exactly the most recent max_history/100 ms above-gate blocks and loudness range from the most recent max_history/3000 ms short-term values, never from more, fewer or invented ones. Raising the limit loses nothing that is stored, lowering it discards only the oldest, values are raised to the documented minimum (3000 ms when measuring range, otherwise 400 ms), and histogram storage is unaffected.",
 ["histories","inputs","configurations"],"all sequences of limits and audio, including limits set before, during and after audio and several times",
 "No existing test sets the history limit on an instance; internal tests only create a history and never resize it.",
 [E,H],[m("set_max_history","src/ebur128.rs set_max_history"),m("bounded queue","src/history.rs Queue::add, Queue::set_max_size")],["loudness_global","relative_threshold","loudness_range","gating_block_count_and_energy","max_history()"],[dict(name="block energy queue",meaning="above-gate block energies, oldest first",where="src/history.rs Queue")])
p("C14","Combining instances equals measuring their pooled blocks",
 "For every set of instances (any number, order, signal, rate, channel layout, possibly empty), the combined global loudness and combined loudness range equal the result of gating the pooled blocks (short-term values) of all instances together; a single instance combines to its own value, no instances give negative infinity and zero, order is irrelevant, and repeating every instance changes nothing. An instance lacking the needed mode, or for range a mix of storage kinds, is reported as an invalid-mode error.",
 ["inputs","configurations","histories"],"all multisets of instances with arbitrary histories, more and fewer than the inline capacity",
 "Two tests combine two equal-length tones.",
 [E,H],[m("multi-instance gating","src/history.rs gated_loudness_multiple, loudness_range_multiple")],["loudness_global_multiple","loudness_range_multiple"])
p("C15","Chunked analysis with seeding equals one sequential pass",
 "For every signal and every division into chunks on 100 ms boundaries with 400 ms overlap, where each later chunk is seeded with its first 100 ms and then fed the rest, the combined global loudness over the chunks (in parallel threads or not) equals that of a single pass and the maxima of the peaks agree. Seeding alone changes no measurement, count or peak; it only puts the filters in the state the audio would have left them in.",
 ["inputs","schedules","histories"],"all signals, chunk boundaries, channel counts, rates, sample types; interleavings of seeding with adding",
 "Two tests use one mono tone with fixed 10 s-style chunks, whose steady state hides wrong seeding.",
 [E,F,T],[m("seeding","src/ebur128.rs seed_frames_*; src/filter.rs Filter::seed; src/true_peak.rs TruePeak::seed")],["loudness_global_multiple","true_peak","all queries after seed"])
p("C16","Channel roles weight loudness exactly as documented",
 "For every channel count and channel map, loudness is the energy sum with weight 1.41 for the surround positions between 60 and 120 degrees at ear height, 2 for dual mono, 0 for unused channels and 1 for all others, independent of the order of channels; unused channels never influence loudness. The default map for each channel count, and rejection of wrong indices, lengths and misplaced dual mono without changing the map, are as documented.",
 ["configurations","inputs","histories"],"all channel counts 1..=64, all 32 roles in all positions, all map-setting sequences",
 "Tests only use default maps, with identical content in every channel.",
 [E,F],[m("weights","src/filter.rs calc_gating_block"),m("maps","src/ebur128.rs default_channel_map, set_channel, set_channel_map")],["loudness queries","channel_map()"])
p("C17","The C API is a faithful image of the analyzer and its C header",
 "For every history of C calls, each function returns the same values and the documented status codes as the equivalent analyzer calls, keeps the public state struct fields (mode, channels, sample rate) in step, reads exactly the frames and handles it is given, writes nothing but its output and that only on success, reports no-change when a setting stays as it is, and returns null for invalid construction. Enumerator values, argument widths and struct layout match the shipped header, and destroying clears the handle.",
 ["histories","inputs","configurations"],"all sequences of C calls, all 64-bit argument values in the documented parameter types, null pointers with zero frames, buffers that end where accessible memory ends, all header enumerators",
 "The single C test runs one tone through one stereo instance and checks success codes only.",
 [C,HD,E],[m("FFI wrappers","src/capi.rs"),m("header","assets/ebur128.h")],["every ebur128_* symbol","ebur128_state fields"])
p("C18","Instances are isolated and leave the calling thread untouched",
 "The result of a history depends only on that history: it is the same when operations on other instances are interleaved, when it runs on or moves between threads, when it is repeated, and when the caller's floating-point environment flushes denormals or not. Every call leaves the calling thread's floating-point control state as it found it.",
 ["schedules","histories","inputs"],"all interleavings of operations on several instances, threads, floating-point control settings, denormal-producing signals",
 "Tests run one instance per test and never look at the floating-point environment.",
 [F,E,I],[m("flush-to-zero guard","src/filter.rs ftz"),m("owned state","src/ebur128.rs EbuR128")],["all queries","floating-point control register"])
p("C19","Results equal those of the libebur128 C library for every history",
 "For every sequence of operations both libraries support (creation, channel roles, adding frames of any type, parameter and history changes, combining), all loudness, gating, range and peak results agree with the libebur128 C implementation up to floating-point rounding (true peaks to single precision).",
 ["histories","inputs","configurations"],"all operation sequences with independent per-channel audio, all modes, rates and channel counts",
 "The comparison tests feed one call of identical-channel audio to default-mapped instances in two mode sets; no sequences, no multi-instance, no other settings.",
 [E,F,H,I,T,B],[m("whole analysis pipeline","src/ebur128.rs")],["all queries"])
p("C20","Synthesised EBU Tech 3341/3342 material reads as the standard demands",
 "For 997-1000 Hz stereo or multichannel tone programmes of arbitrary level steps, lengths and pauses at any sample rate from 16 kHz to 384 kHz, momentary, short-term and integrated loudness read within 0.1 LU and loudness range within 1 LU of the values the EBU documents define for those levels (a stereo tone of X dBFS peak reads X LUFS). True peak of any smoothly faded tone up to a quarter of the sample rate (an eighth from 96 kHz) reads within +0.2/-0.4 dB of its actual amplitude at rates below 192 kHz, and across frequency the response follows the analogue K-weighting curve.",
 ["inputs","configurations"],"all level/duration sequences, tone frequencies and phases, sample rates and layouts",
 "The reference recordings are not in the repository, so reference_tests cannot run; unit tests use one 440 Hz tone level.",
 [F,E,H,T,I],[m("whole analysis pipeline","src/ebur128.rs"),m("rate-dependent filter design","src/filter.rs filter_coefficients")],["all queries"])
p("C21","Scaling, polarity and silence transform results predictably",
 "Scaling any signal by a gain of g dB shifts momentary, short-term, window loudness and (while no block crosses the absolute gate) integrated loudness and relative threshold by exactly g, leaves loudness range unchanged and multiplies peaks by the gain; inverting polarity changes nothing; leading or trailing digital silence changes no gated result beyond the blocks it overlaps. The public energy-to-loudness conversion is 10*log10(e)-0.691, strictly increasing, and consistent with the reported block energies.",
 ["inputs","configurations"],"all signals x all gains over the usable dynamic range x all energies",
 "Tests check fixed signals at one gain.",
 [U,F,E,H],[m("conversion","src/utils.rs energy_to_loudness"),m("linear filter and quadratic energy","src/filter.rs")],["all queries","energy_to_loudness"])
p("C22","Non-finite samples stay contained",
 "NaN samples never raise or hide a peak; an infinite sample makes the peak of its own channel infinite and no other; non-finite samples in an unused channel leave all loudness results unchanged, and in a used channel they make the affected loudness results non-finite rather than any plausible number (in histogram mode a not-a-number block counts in the lowest bin); finite samples so large that the energy overflows do the same, and in histogram mode such a block counts in the top bin. Blocks completed before the first non-finite sample stay counted, and after a reset the analyzer measures finite audio as if nothing had happened.",
 ["inputs","histories"],"all placements of NaN, infinities and overflow-prone magnitudes across channels, types, layouts and time",
 "Two tests feed all-NaN and all-infinite stereo for the whole signal only.",
 [F,H,E,T],[m("comparisons that skip NaN","src/filter.rs, src/true_peak.rs, src/utils.rs retain_max_samples"),m("NaN checks in histories","src/history.rs")],["all queries"])
p("C23","A rejected call leaves the analyzer unchanged",
 "Whenever a call reports an error (wrong channel index, map length, dual-mono placement, channel count, rate, buffer shape, unavailable query, unsatisfiable window), every observable result, setting and all later behaviour are the same as if the call had not been made.",
 ["histories","inputs","fault_sequences"],"all invalid calls inserted at all points of all histories",
 "No test makes an invalid call and continues.",
 [E,U],[m("validate before modify","src/ebur128.rs setters; src/utils.rs constructors")],["all queries and accessors after an Err"])
p("C24","Memory is bounded by the settings and released",
 "Whatever the history of calls, the memory an analyzer holds is bounded by its settings in force (channels, rate, maximum window) plus, in exact storage only, the values its maximum history lets it keep (lowering the limit releases the rest): in histogram mode and with a limited history it does not grow with the amount of audio, rejected calls and failed constructions keep nothing, and dropping an analyzer or destroying its C handle (which becomes null) releases everything it ever allocated.",
 ["histories","configurations"],"all call histories and lengths, through the Rust and the C API",
 "No test looks at memory; growth and leaks only show over long histories or many handles.",
 [E,H,"src/capi.rs"],[m("bounded queue and histogram","src/history.rs Queue, Histogram"),m("ring buffer","src/ebur128.rs allocate_audio_data"),m("handle ownership","src/capi.rs ebur128_init, ebur128_destroy")],["bytes held by the allocator"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for q in P:
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        f.write(json.dumps(q)+"\n")
print(len(P))
