TODO = "the specification and conformance harness for it are not built yet"

prop("P01", "Analysis results never go stale",
 "Spectrum, cross-spectral matrix, spectrogram and time axis of a signal are always those of a newly built signal with the same samples, sampling rate and analysis settings. This holds after any history of reads, sample edits, channel edits, settings changes, rejected settings and switches of result caching.",
 ["histories", "inputs", "configurations"],
 "every interleaving of edits, settings and reads on a signal (and signals derived from it by copying, channel selection or summing), with caching on or off",
 "the tests read each analysis once after construction; staleness needs an edit or a settings change between two reads in a particular order, and there are too many orders to enumerate by hand",
 ["classes/signal.py", "classes/impulse_response.py"],
 [("caches invalidated by every setter", "classes/signal.py: Signal.time_data, set_*_parameters, spectrum_*, __update_state"), ("read-through caches", "classes/signal.py: Signal.get_spectrum/get_csm/get_spectrogram")],
 [("analysis cache", "last computed results and whether they are valid", "classes/signal.py")],
 note="exhaustive over short histories of the abstract state (settings, samples, cache), plus long random histories validated by TLC; the reference answer of each abstract state is a freshly constructed signal")

prop("P02", "A signal is a faithful sequence of channels",
 "Appending, removing, selecting, swapping, summing, replacing and copying channels act on exactly the addressed channels and keep every other sample, its imaginary part, the sampling rate and the channel count consistent. With amplitude limiting on, no sample exceeds full scale and the reported scale factor recovers the original samples; with it off, samples are stored unchanged. An operation that is rejected leaves the signal as it was.",
 ["histories", "inputs"],
 "every sequence of channel operations on real and complex signals of any channel count, with valid, invalid, negative, repeated and unordered channel numbers",
 "the tests use two- or three-channel examples with one operation each; index arithmetic, complex data, rejected operations and combinations of operations are outside what they sample",
 ["classes/signal.py", "classes/_multichannel_data.py", "standard/appending.py"],
 [("channel operations", "classes/_multichannel_data.py"), ("sample setter with amplitude limiting", "classes/signal.py: Signal.time_data"), ("joining signals", "standard/appending.py")],
 [("samples", "real and imaginary sample matrices, scale factor", "classes/signal.py")],
 note="all two-step histories from several starts and random longer ones; rational samples with exact bookkeeping of the limiter, compared within 1/2048")

prop("P03", "Filtering a stream block by block equals filtering it at once",
 "Cutting a signal into consecutive blocks of any sizes and passing them with state keeping through a filter or a filter bank (parallel, summed, sequential, multiband, crossover networks, auditory banks) yields exactly the samples that one call on the whole signal yields, for each channel separately. Calls without state keeping, impulse responses and copies in between do not disturb the stream, and re-initializing starts it over.",
 ["histories", "inputs", "configurations"],
 "all filters (FIR, IIR, second-order sections), banks, channel counts, channel selections, partitions into blocks and interleavings with stateless calls",
 "the tests filter one or two equal blocks; per-channel state mix-ups, odd block sizes, zero-order sections and interleaved stateless calls need particular histories",
 ["classes/filter.py", "classes/filter_helpers.py", "classes/filterbank.py", "filterbanks/_filterbank.py"],
 [("filter state per channel", "classes/filter.py: initialize_zi, filter_signal"), ("state carried by filtering helpers", "classes/filter_helpers.py: _filter_on_signal, _filter_on_signal_ba"), ("crossover states", "filterbanks/_filterbank.py: LRFilterBank")],
 [("zi", "filter memories per channel", "classes/filter.py")],
 note="LTI recursion specified sample by sample in TLA+ over exact integers (FIR/IIR/SOS/banks/modes), TLC-generated behaviours replayed and random streams validated; real-coefficient banks against a whole-stream reference. Assumes integer coefficients exercise the same code as real ones")

prop("P04", "Real-time filter structures implement their transfer function",
 "Every sample- or block-wise filter structure (direct form, FIR, overlap-save and partitioned convolution, state space, lattice/ladder, state variable, warped, Kautz, parallel, averaging, chains) outputs the response of the filter it was built from, for any interleaving of channels and any block size. Channels have independent memory; resetting or re-dimensioning restarts from silence; whole-signal filtering agrees with sample-wise processing.",
 ["histories", "inputs", "configurations"],
 "all structures, coefficient lengths (including order zero and unequal lengths), block sizes, channel interleavings, resets and re-dimensionings",
 "the tests run each structure once on one channel with one coefficient set; shared memory between channels, odd transform lengths and degenerate orders are not reached",
 ["classes/iir_filter_realtime.py", "classes/fir_filter_realtime.py", "classes/state_space_filter.py", "classes/lattice_ladder_filter.py", "classes/sv_filter.py", "classes/warped_filters.py", "classes/kautz_filter.py", "classes/parallel_filter.py", "classes/exponential_average_filter.py", "classes/filter_chain.py"],
 [("sample recursion", "classes/*: process_sample"), ("block convolution", "classes/fir_filter_realtime.py: process_block"), ("reset and dimensioning", "classes/*: reset_state, set_n_channels, prepare")],
 [("state", "memory per channel", "classes/*_filter*.py")],
 note="recursions specified in TLA+ over exact (dyadic-scaled) integers; numeric variants against the library's whole-signal filter or an expanded transfer function")

prop("P05", "A filter bank is the composition of its filters",
 "A bank's parallel, summed and sequential outputs, impulse responses and transfer functions are the list, sum and product of those of its member filters in order, whatever sequence of adding, removing, swapping, merging and copying produced it. Signals, banks and filters handed in stay unchanged.",
 ["histories", "inputs", "configurations"],
 "all member sets (including one filter and none), container histories, modes and signals",
 "the tests filter with one fixed bank per mode and mostly check that calls do not fail",
 ["classes/filterbank.py", "classes/filter.py", "classes/filter_helpers.py"],
 [("container operations", "classes/filterbank.py: add_filter/remove_filter/swap_filters"), ("modes", "classes/filterbank.py: filter_signal/get_ir/get_transfer_function"), ("merging", "classes/filterbank.py, standard/other.py: merge_filters")],
 [("filters", "ordered member list", "classes/filterbank.py")],
 note="TLC-generated container histories replayed, random ones validated; exact integer composition and exact Gaussian-rational transfer functions, real-valued designs related to their members")

prop("P06", "A multiband signal is a faithful ordered set of bands",
 "Adding, removing, swapping, indexing and copying bands keep order and samples of every other band; collapsing is the sum of all bands and reading bands or all samples returns exactly what was stored. Neither reading nor collapsing changes any band, and inconsistent bands are rejected without effect.",
 ["histories", "inputs"],
 "all histories of band operations, real or complex, equal or differing sampling rates",
 "the tests use one fixed set of bands and check shapes",
 ["classes/multibandsignal.py", "standard/other.py", "standard/appending.py"],
 [("band container", "classes/multibandsignal.py"), ("merge of signals into bands", "standard/appending.py")],
 note="TLC-generated band histories replayed, random ones validated; exact integer complex samples, one rate or several")

prop("P07", "Operations leave their inputs alone and results are independent",
 "No processing, analysis, plotting-data or conversion function modifies the signals, filters, arrays, lists or dictionaries it is given, including their analysis settings. A result or copy shares no mutable data with its source: changing one never changes the other.",
 ["programs", "inputs", "configurations"],
 "every public operation applied in any order to a pool of objects, followed by edits of either side",
 "tests look at return values only; aliasing and in-place edits show up only when the argument is used again",
 ["standard/other.py", "standard/gain_and_level.py", "standard/resampling.py", "standard/pad_trim_methods.py", "standard/latency_delay.py", "standard/appending.py", "transfer_functions/transfer_functions.py", "room_acoustics/room_acoustics.py", "distances/distances.py", "effects/effects.py", "filterbanks/filterbanks.py", "classes/signal.py", "classes/spectrum.py", "classes/filter.py"],
 [("copying before processing", "standard/*.py, transfer_functions/transfer_functions.py"), ("copy of containers", "classes/*.py: copy, copy_with_new_time_data")],
 note="heap model in TLA+: calls and in-place edits of arguments and results; TLC-generated and random programs over ~200 public operations run on the code, version of every object observed after every step")

prop("P08", "Editing length and position moves samples and nothing else",
 "Padding, trimming (by length, level or time window), delaying, fading, appending signals and changing length place every retained sample at exactly the specified position, fill the rest with zeros, scale faded samples only inside the fade region, and act on the selected channels only, for real, complex and multiband signals. The latency between a signal and its delayed copy is the delay; the edited signal is independent of the original, which stays unchanged.",
 ["inputs", "configurations"],
 "all signal lengths, channel selections, positions, directions and edit lengths (including zero, one and longer than the signal)",
 "tests use one long noise signal and one setting; off-by-one errors appear at edges, other directions and odd lengths",
 ["standard/pad_trim_methods.py", "standard/latency_delay.py", "standard/appending.py", "standard/other.py", "standard/gain_and_level.py"],
 [("pad/trim", "standard/pad_trim_methods.py"), ("delay", "standard/latency_delay.py"), ("fade", "standard/gain_and_level.py"), ("append", "standard/appending.py")],
 note="TLC-generated edit histories replayed, random ones validated; exact integer samples, fades and fractional delays in fixed point")

prop("P09", "Framing and short-time transforms are exact and invertible",
 "Cutting a signal into overlapping frames gives exactly the specified slices (with zero extension only where requested) and adding frames back is exactly their weighted overlap-add; a signal cut and added back with the same window returns wherever the window sees it. A short-time spectrum is the transform of the windowed slices of the signal and its inverse returns the original samples for any window, overlap, transform length, padding and amplitude scaling. Nothing passed in is changed.",
 ["inputs", "configurations"],
 "all signal lengths, frame lengths, steps, overlaps, windows and paddings",
 "tests use one length that fits the frames evenly",
 ["standard/_framed_signal_representation.py", "standard/other.py", "transforms/transforms.py", "standard/_spectral_methods.py"],
 [("framing", "standard/_framed_signal_representation.py"), ("short-time transforms", "standard/_spectral_methods.py, transforms/transforms.py")],
 note="TLC enumerates cuts, windows and overlap-adds of small signals (invertibility checked in the model) and replays them; random ones validated; short-time transforms observed frame by frame")

prop("P10", "A spectrum object keeps frequencies, bins and channels aligned",
 "Every edit of a spectrum (channel selection, removal, order, sum, trimming, resampling, appending, gain, normalization, setting data or frequencies) keeps one frequency and one value per bin and channel and changes exactly what was addressed; coherence stays aligned with channels and bins. Trimming keeps exactly the bins in range, interpolation reproduces the bins, joins neighbouring ones in the chosen domain and fills outside the range as chosen. A rejected edit changes nothing; objects and arrays handed in or out stay independent.",
 ["histories", "inputs"],
 "all histories of spectrum operations, complex and magnitude spectra, with or without coherence",
 "tests touch each operation once on one spectrum",
 ["classes/spectrum.py", "classes/_multichannel_data.py", "standard/appending.py"],
 [("bins and data", "classes/spectrum.py"), ("channels", "classes/_multichannel_data.py")],
 note="TLC-generated histories replayed, random ones validated; integer bins and (complex) values as exact rationals, linear interpolation exact, monotone interpolation by its bounds, spline interpolation at bins and edges")

prop("P11", "Spectral estimates follow their definitions and scalings",
 "The spectrum of a signal is its discrete Fourier transform in the requested scaling (FFT norms, amplitude/power spectrum or density, one-sided), with or without padding and time window, for even and odd lengths; always one value per frequency and channel. Welch estimates (mean or median), cross-spectral matrices and spectrograms are the specified averages of windowed frames, for one or many frames and channels. Smoothing stays within the values it averages. Scalings convert into each other by their factors, the density sums to the mean square, and inputs are left alone.",
 ["inputs", "configurations"],
 "all samples, lengths, scalings, windows, overlaps, averaging methods and paddings",
 "tests compare a few settings against one reference implementation on one even-length signal",
 ["classes/signal.py", "standard/_spectral_methods.py", "helpers/spectrum_utilities.py", "standard/_standard_backend.py"],
 [("spectral estimation", "standard/_spectral_methods.py"), ("scaling", "helpers/spectrum_utilities.py"), ("signal front end", "classes/signal.py: get_spectrum/get_csm/get_spectrogram")],
 note="TLC-generated configurations replayed, random ones validated; transforms of small integer signals in fixed point, quadratic quantities compared to within half a percent")

prop("P12", "Sample format and unit conversions follow their definition and come back",
 "Samples converted between signed/unsigned integers of 8 to 32 bits, floats and byte strings are clipped to full scale and truncated exactly as specified; the reported equilibrium and span are those of the output format, and converting to double precision and back returns every code; shapes are kept. Decibels (with dynamic range or floor), phase wrapping, warped, logarithmic, ERB and fractional-octave frequencies, powers of two, linear interpolation in the requested domain, logarithmic means, exponential and octave smoothing follow their definition for every value. No input is modified.",
 ["inputs"], "all integer codes of every sample format, byte orders, shapes and values",
 "tests convert a handful of values",
 ["helpers/bytes_conversion.py", "helpers/gain_and_level.py", "helpers/frequency_conversion.py", "tools.py", "helpers/other.py"],
 [("bytes", "helpers/bytes_conversion.py"), ("dB", "helpers/gain_and_level.py"), ("frequency", "helpers/frequency_conversion.py")],
 note="TLC-generated chains of sample-format conversions (exact long-integer arithmetic) replayed, random chains and unit conversions validated")

prop("P13", "Gain, normalization, fades and level measurement agree with the samples",
 "A gain multiplies the addressed channels (real and imaginary part), filters or filter-bank bands by exactly that factor; normalizing brings peak or RMS to the target with one factor for all channels or one each; amplitude-constrained signals are only scaled as a whole to full scale. Fades multiply exactly the first and last samples by their ramp; detrending leaves the residual of the polynomial fit; RMS, peak, crest factor, envelopes, activity detection, loudness and dither follow from the samples, per band and channel. The input stays as it was.",
 ["inputs", "configurations", "histories"],
 "all samples, gains, channel counts and settings",
 "tests use one signal and one target",
 ["standard/gain_and_level.py", "helpers/gain_and_level.py", "standard/other.py", "classes/signal.py"],
 [("gain", "standard/gain_and_level.py")], note="TLC-generated chains of gains, normalizations, fades and measurements replayed, random ones validated; rational samples compared to 1e-3")

prop("P14", "Saved and copied objects come back identical and independent",
 "Copying an object (signal, impulse response, multi-band signal, spectrum, filter, filter bank, real-time filter) or saving and loading it gives an object with the content of the original at that moment: data, settings, caching, window, coherence, coefficients and the state of a running stream; what happens later to one is never seen by another, and saving or using an object changes nothing. A signal written to wav or flac comes back with its sampling rate, channels and samples to the precision of the bit depth, limited to full scale for PCM; unsupported formats and mismatching file endings are refused.",
 ["histories", "inputs"], "all object types and their states at the time of saving or copying, including filters in the middle of a stream",
 "tests save one fresh object and check that it loads",
 ["classes/signal.py", "classes/filter.py", "classes/filterbank.py", "classes/multibandsignal.py", "classes/spectrum.py", "standard/other.py"],
 [("persistence", "classes/*: save_*, standard/other.py: load_pkl_object"), ("copy", "classes/*: copy")], note="TLC-generated store histories (copy, save, load, change, feed) replayed on all object types, random ones validated; content of every object observed after every step")

prop("P15", "Calibration and audio input/output keep samples and channels straight",
 "Calibrating scales every channel (real and imaginary part, every band) by exactly the factor of its calibration channel - pressure of the calibrator level over the RMS of its recording, over time or at 1 kHz - or by the only one there is, also after calibration channels were added; what is played reaches exactly the requested output channels in the given order, with the requested length and sampling rate, normalised over all channels and the played part only when requested; what is recorded comes from the requested inputs with the requested length and rate; invalid channels, durations and levels are refused; devices are found by name or number; the played and calibrated signals stay as they were.",
 ["inputs", "configurations"], "all channel maps, paddings, durations, volumes and calibration recordings",
 "no audio device exists under test, so the tests never reach these paths",
 ["classes/calibration_data.py", "audio_io/audio_io.py"],
 [("calibration", "classes/calibration_data.py"), ("device calls", "audio_io/audio_io.py")], note="TLA+ model of calibration data (recordings, level, factors computed with first use / added channels / on demand) and of an audio device with four outputs and inputs; histories run against an in-memory stand-in of sounddevice")

prop("P16", "Impulse responses are convolved, inverted, windowed and converted exactly",
 "Convolving a signal with an impulse response is linear convolution for every channel, cut to length and scaled back to each channel's own peak only when requested; filters made from impulse responses filter by that same convolution and convert back unchanged; deconvolving undoes convolution exactly, per channel or against one input, with or without padding, and its regularised form attenuates only outside the requested (or detected) band of each channel; windowing places the impulse at the documented position with the requested flanks, offsets, length and start positions in every channel; trimming starts at the documented offset; averaging aligns impulses to the latest one; minimum-phase versions have the minimum-phase factors; latencies and (minimum, excess) group delays of impulse responses are those of their definition; transfer functions H1, H2, H3 and coherence are the ratios of averaged auto- and cross-spectra; responses built from magnitudes have those magnitudes and the requested delay; harmonics of a chirp response are cut at their documented times and combined into distortion by power; none of this depends on the spectrum settings a signal carries, nor changes the inputs.",
 ["inputs", "configurations"], "all impulse responses, signals, lengths, modes and channel pairings",
 "tests check one pair and mostly that nothing fails",
 ["transfer_functions/transfer_functions.py", "transfer_functions/_transfer_functions.py", "room_acoustics/room_acoustics.py", "classes/filter.py", "classes/impulse_response.py"],
 [("convolution", "room_acoustics/room_acoustics.py: convolve_rir_on_signal"), ("deconvolution", "transfer_functions/transfer_functions.py")], note="TLA+ model of impulse-response processing: convolution, regularised and plain deconvolution with exact transforms, window shapes and positions, minimum-phase factors, group delays, H1/H2/H3 estimates, harmonics; histories over changing spectrum settings")

prop("P17", "Band-splitting networks add back up",
 "Networks split signals into the specified bands, and the bands add back up, for every input, channel and length. A quadrature-mirror crossover made from any FIR or recursive lowpass gives exactly its bands (whole, decimated, or summed) and its synthesis joins them without aliasing. A complementary filter and its linear-phase prototype sum to a pure delay (half-sample for even lengths). Linkwitz-Riley crossovers, in any order of frequencies and orders, have the specified magnitude in every band, sum to an all-pass, and in zero phase exactly to the signal. Fractional-octave filters are 3 dB down at their cut-offs; reconstructing octave bands sum to one impulse at half their length; the gammatone bank resynthesizes impulses 4 ms late, with unit gain at the centre of every band and nothing before them. Inputs stay unchanged and invalid requests are refused.",
 ["inputs", "configurations"], "all prototypes, crossover frequencies, orders, bands and input signals",
 "tests listen to one impulse through one design",
 ["filterbanks/_filterbank.py", "filterbanks/filterbanks.py"],
 [("LR", "filterbanks/_filterbank.py: LRFilterBank"), ("QMF", "filterbanks/_filterbank.py: QMFCrossover"), ("complementary", "filterbanks/filterbanks.py")], note="TLA+ model of quadrature-mirror crossovers (FIR and recursive, with and without decimation; TLC also shows that splitting and joining leaves no alias), complementary filters, Linkwitz-Riley magnitudes for any crossovers and orders, and of the sums, cut-offs and resynthesis of fractional-octave and auditory banks")

prop("P18", "Audio effects give the samples of their definition under any settings",
 "Every audio effect gives the samples its definition and its current settings prescribe, whatever the order in which settings were changed (a setting not passed stays as it is): distortion (arctan, hard and soft clipping, several at once with level, mix, offset and post gain), compressor (downward and upward, any ratio, knee, threshold also relative to the peak, attack and release, gains, mix, make-up), tremolo and chorus with LFOs or arrays as modulators, delay with feedback and saturation, spectral subtraction (adaptive, with a given spectrum, or with noise estimated from the signal). Peaks of every channel are restored by the effects that promise it, silent channels stay silent, no sample is invalid, every channel and every band is processed on its own, and the input and the passed arrays are left untouched. LFOs give their wave form and musical rhythms their frequency and period. Unusable settings are refused.",
 ["histories", "inputs", "configurations"], "all settings, signals and histories of settings changes and applications",
 "tests only run each effect once",
 ["effects/effects.py", "effects/_effects.py"],
 [("effects", "effects/effects.py"), ("recursions", "effects/_effects.py")], note="TLA+ model of the settings of every effect (changed one by one, in any order) and of the samples it gives: tremolo, chorus, delay, distortion, compressor, spectral subtraction, LFO wave forms and musical rhythms")

prop("P19", "Room-acoustic calculations follow their formulas",
 "A room always keeps volume, surface, absorption, reverberation time, Schroeder frequency and critical distance in agreement, for any order of changes: given by absorption or by reverberation time, or with the absorption of each wall in each band (walls belong to their direction, missing bands repeat the last one). Point-in-room tests, modal density, mixing times, sorted modes, modal transfer functions (with the damping of the band of each mode) and image-source responses (every reflection, with the factors of the walls it hits, at its sample, in exactly the requested length) follow their formulas. From responses, the start, definition, clarity, centre time, reverberation times (also from a given start per channel and band), bass ratio and modes are those of each channel and band, whatever the other channels, with inputs left unchanged; convolving with a response keeps peak level and length when requested. Impossible rooms, positions and settings are refused.",
 ["inputs", "configurations"], "all rooms, positions, responses and channel arrangements",
 "tests check one room and one response",
 ["room_acoustics/room_acoustics.py", "room_acoustics/_room_acoustics.py"],
 [("descriptors", "room_acoustics/_room_acoustics.py"), ("room", "room_acoustics/room_acoustics.py")], note="TLA+ model of a shoebox room and its history (absorption, reverberation time, derived values, detailed absorption per wall and band), of modal density, mixing times, modes, modal transfer functions and image-source responses, and of starts, energy ratios, convolution, reverberation times, bass ratios and modes found in responses")

prop("P20", "Generated signals have the requested shape",
 "Every generated signal has exactly the requested length, channel count, sampling rate, level, 5 % fades at both ends and trailing silence, for lengths and paddings given in seconds with any rounding. Impulses are 1 at exactly the requested sample; tones contain exactly the harmonics of their wave form below the cutoff, with their amplitudes, also when channels are shifted randomly; linear, logarithmic and synchronized chirps have the phase of their formula at every sample (the synchronized one as long as the duration it returns); noises have the slope of their kind between octaves, no energy at 0 Hz and, unless white, below 15 Hz, different channels, and never invalid samples. Impossible requests are refused.",
 ["inputs", "configurations"], "all lengths, sampling rates, levels, delays, frequencies and paddings",
 "tests run each generator with one setting",
 ["generators/generators.py", "generators/_generators.py"],
 [("generators", "generators/generators.py")], note="TLA+ model of every tone (harmonics below the cutoff), of linear, logarithmic and synchronized chirps (phase formulas in fixed-point), of levels, fades and padding, of the spectral slope of every noise and of impulses")

prop("P21", "Resampling keeps exactly the samples it should",
 "Resampling with a filter gives exactly the samples of its definition for every length, factor, channel and kind of filter: decimation keeps every n-th sample of the filtered signal from the first one on, interpolation inserts zeros, scales and filters, a FIR filter being centred (its polyphase form changes nothing) and a recursive one causal; always with the current coefficients, with the exact new rate and length, leaving signal and filter unchanged, and refusing rates that need more or do not fit. resample keeps straight lines and, when interpolating, the samples, for every ratio of rates, gives the exact length and rate, rescales on request, and is a copy for the same rate. A resampled filter has the response of the original at the frequencies the bilinear transform maps to each other.",
 ["inputs", "configurations"], "all lengths, factors, filters and channel counts",
 "tests compare one signal and factor",
 ["standard/resampling.py", "classes/filter_helpers.py", "helpers/polyphase.py", "classes/filter.py"],
 [("decimation/interpolation", "classes/filter_helpers.py: _filter_and_downsample/_filter_and_upsample"), ("resampling", "standard/resampling.py")], note="TLA+ model of decimation, interpolation and filtering with the current filter (FIR centred, recursive, in sections), of resampled lines and kept samples, and of resampled filters; exhaustive over filter lengths, signal lengths and factors, random histories")

prop("P22", "Transforms follow their definition and invert",
 "Every transform gives the values of its definition for any channels, lengths and settings, keeps channels in order and inputs unchanged. Mid/side (and back), analytic signals (even and odd lengths, multi-band), Fourier sums at arbitrary frequencies, real and complex cepstra; Mel bands (with or without unit area) and the log-Mel spectrogram, Mel cepstrum and chroma/pitch features built on spectrograms; wavelet sums for selected channels and frequencies, tones at their own frequency (also synchrosqueezed); variable-Q bins with their frequencies; linear-prediction coefficients and variances of every frame (Yule-Walker normal equations, Burg's lattice). Warping moves samples, poles and zeros as specified; Laguerre transform, warping and cepstrum are undone by their inverse; filter-bank levels are the RMS of each band. Invalid requests are refused.",
 ["inputs", "configurations"], "all signals, channel counts and settings",
 "tests check shapes on one signal",
 ["transforms/transforms.py", "transforms/_transforms.py"],
 [("transforms", "transforms/transforms.py")], note="TLA+ model of the transforms: exact integer or fixed-point values of mid/side, analytic signal, Fourier sums, cepstra, Mel bands and features, chroma, wavelet sums, warping and Laguerre recursions, moved poles and zeros, Yule-Walker normal equations and Burg's lattice")

prop("P23", "Filters are what was designed, in every representation",
 "A designed filter has exactly the response of its definition for any frequency, gain, quality, order and sampling rate: biquads are the bilinear transforms of their analog prototypes (gain at the specified frequencies, all-passes keep the magnitude), Butterworth, Chebyshev and elliptic low-, high-, band-passes and band-stops have their magnitude at every frequency, window-method FIR filters their taps with unit gain in the pass band; matched biquads take the analog values at 0 Hz, their frequency and (shelves) half the rate; weighting filters the standard's decibels, pinking filters -3 dB per octave from their reference; fractional delays are Thiran all-passes of the requested delay, Gaussian kernels cascaded one-poles; FIR filters made from magnitudes and group delays (or to linearize a phase) are the inverse transform of exactly these, at the promised length; autoregressive models solve the normal equations. Coefficients, sections, poles and zeros, transfer function, order, kind and group delay of a filter agree. Invalid requests are refused.",
 ["inputs", "configurations"], "all designs, parameters and coefficient sets",
 "tests design one filter of each kind and mostly check that it runs",
 ["classes/filter.py", "classes/filter_helpers.py", "filterbanks/filterbanks.py", "filterbanks/_filterbank.py", "classes/group_delay_designer_phase_linearizer.py"],
 [("designs", "classes/filter.py: iir_filter/fir_filter/biquad"), ("biquads", "classes/filter_helpers.py: _biquad_coefficients"), ("special filters", "filterbanks/filterbanks.py"), ("FIR from magnitude and delay", "classes/group_delay_designer_phase_linearizer.py")], note="TLA+ model of analog prototypes on the bilinear frequency axis in fixed point (biquads, classic designs), of window-method taps, of rational transfer functions with integer coefficients in every representation and their group delay, of Thiran coefficients, one-pole cascades, synthesized FIR filters and normal equations; TLC enumerates parameter grids, random parameters are validated as traces")
