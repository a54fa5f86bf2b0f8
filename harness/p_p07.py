"""P07: operations leave their inputs alone, results are independent
(spec/Heap.tla)."""

import copy

import numpy as np
from common import Adapter, Check, MachineryError, dsp, same

FS = 8000


# ------------------------------------------------------------ fingerprints
def flat(o, out):
    """the observable content of an object as a list of arrays and scalars"""
    d = dsp()
    if isinstance(o, d.Signal):
        c = copy.deepcopy(o)
        out += [type(o).__name__, o.time_data.copy(), o.sampling_rate_hz, o.constrain_amplitude, o.calibrated_signal,
                o.activate_cache, o.spectrum_method.name, o.spectrum_scaling.name, float(o.spectrum_smoothing)]
        flat(o.time_data_imaginary, out)
        flat(getattr(o, "window", None), out)
        c.spectrum_smoothing = 0
        try:
            flat(c.get_spectrum(True), out)
        except Exception as ex:
            out.append(type(ex).__name__)
        try:
            f, t = c.get_spectrogram(True)[:2] if len(c) >= 16 else ([], [])
            out += [len(f), len(t)]
        except Exception as ex:
            out.append(type(ex).__name__)
    elif isinstance(o, d.MultiBandSignal):
        out += ["MB", len(o.bands), bool(o.same_sampling_rate)]
        for b in o.bands:
            flat(b, out)
        flat(o.info, out)
    elif isinstance(o, d.Filter):
        out += ["F", o.sampling_rate_hz, bool(o.is_fir)]
        flat([o.sos if o.has_sos else None, o.ba if not o.has_sos else None], out)
        flat(getattr(o, "zi", None), out)
    elif isinstance(o, d.FilterBank):
        out += [type(o).__name__, len(o.filters)]
        for f in o.filters:
            flat(f, out)
        flat(o.info, out)
    elif isinstance(o, d.Spectrum):
        out += ["SP", o.spectral_data.copy(), np.array(o.frequency_vector_hz), o.has_coherence]
        flat(getattr(o, "coherence", None), out)
        f = o.frequency_vector_hz
        if len(f) > 2:
            m = np.array([f[0] * 0.3 + f[1] * 0.7])
            flat(copy.deepcopy(o).get_interpolated_spectrum(m, d.SpectrumType.Magnitude), out)
    elif isinstance(o, np.ndarray):
        out += [o.shape, o.copy() if o.dtype != object else [flat(z, []) for z in o]]
    elif isinstance(o, (list, tuple)):
        out.append((type(o).__name__, len(o)))
        for z in o:
            flat(z, out)
    elif isinstance(o, dict):
        out.append(("dict", sorted(map(str, o))))
        for k in sorted(o, key=str):
            flat(o[k], out)
    elif o is None or isinstance(o, (str, bool, int, float, complex, bytes, np.generic)):
        out.append(o)
    elif type(o).__module__.startswith("matplotlib") or callable(o):
        out.append("opaque")
    elif type(o).__module__.startswith("dsptoolbox") and hasattr(o, "__dict__") and not hasattr(o, "name"):
        out.append(type(o).__name__)
        flat({k: v for k, v in vars(o).items()}, out)
    else:
        out.append(str(o))
    return out


def alike(a, b, rtol=0.0):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
            x, y = np.asarray(x), np.asarray(y)
            if x.shape != y.shape or x.dtype.kind != y.dtype.kind:
                return False
            if x.dtype.kind in "fc":
                if rtol == 0.0:
                    if not np.array_equal(x, y, equal_nan=True):
                        return False
                else:
                    m = np.nanmax(np.abs(x[np.isfinite(x)])) if np.isfinite(x).any() else 0.0
                    if not np.allclose(x, y, rtol=1e-7, atol=1e-9 * m + 1e-300, equal_nan=True):
                        return False
            elif not np.array_equal(x, y):
                return False
        elif isinstance(x, (float, complex, np.generic)) and not isinstance(x, (bool, str, np.bool_)):
            if x != y and not (x != x and y != y) and not (rtol and np.isclose(x, y, rtol=1e-7)):
                return False
        elif isinstance(x, list) and x and isinstance(x[0], list):
            if len(x) != len(y) or not all(alike(p, q, rtol) for p, q in zip(x, y)):
                return False
        elif type(x) is not type(y) or x != y:
            return False
    return True


# ------------------------------------------------------------------- edits
def edit_array(a):
    if a.size == 0 or not a.flags.writeable:
        return False
    if a.dtype.kind in "fc":
        a *= 0.5
        a.flat[0] = a.flat[0] + 0.0371 if np.isfinite(a.flat[0]) else 0.5
    elif a.dtype.kind in "iu":
        a += 1
    elif a.dtype.kind == "b":
        np.logical_not(a, out=a)
        return "flip"
    else:
        return False
    return True


def edit(o, how):
    """changes o in place; False if there is nothing to change"""
    d = dsp()
    if isinstance(o, d.Signal):
        if how == 1 and o.number_of_channels > 1:
            o.remove_channel(0)
            return True
        if how == 2:
            o.spectrum_smoothing = o.spectrum_smoothing + 1
            o.calibrated_signal = not o.calibrated_signal
            return True
        im, w = o.time_data_imaginary, getattr(o, "window", None)
        td = o.time_data
        edit_array(td)
        o.time_data = td
        if im is not None:
            edit_array(im)
            o.time_data_imaginary = im
        if w is not None:
            edit_array(w)
            o.set_window(w)
        return True
    if isinstance(o, d.MultiBandSignal):
        if how == 1 and len(o.bands) > 1:
            o.remove_band(0)
        elif how == 2:
            o.info["edits"] = o.info.get("edits", 0) + 1
        else:
            for b in o.bands:
                edit(b, how)
        return True
    if isinstance(o, d.Filter):
        if o.has_sos:
            s = o.sos
            s[0, :3] *= 0.5
            o.sos = s
        else:
            b, a = o.ba
            b *= 0.5
            o.ba = [b, a]
        if getattr(o, "zi", None) is not None:
            edit(o.zi, 0)
        return True
    if isinstance(o, d.FilterBank):
        if how == 1 and len(o.filters) > 1 and type(o) is d.FilterBank:
            o.remove_filter(0)
        elif how == 2 and isinstance(o.info, dict):
            o.info["edits"] = o.info.get("edits", 0) + 1
        else:
            for f in o.filters:
                edit(f, how)
        return True
    if isinstance(o, d.Spectrum):
        if how == 1 and o.number_of_channels > 1:
            o.remove_channel(0)
            return True
        if how == 2:
            f = o.frequency_vector_hz
            f *= 1.03125
            o.frequency_vector_hz = f
            return True
        s = o.spectral_data
        s *= 0.5
        s.flat[0] += 0.0371
        o.spectral_data = s
        if o.has_coherence:
            o.coherence *= 0.5
        return True
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return any([edit(z, how) for z in o.flat])
        return edit_array(o)
    if isinstance(o, (list, tuple)):
        r = any([edit(z, how) for z in o])
        if isinstance(o, list):
            o.append("edited")
            return True
        return r
    if isinstance(o, dict):
        for z in o.values():
            edit(z, how)
        o["edits"] = o.get("edits", 0) + 1
        return True
    if type(o).__module__.startswith("dsptoolbox") and hasattr(o, "__dict__") and not hasattr(o, "name"):
        return any([edit(z, how) for z in vars(o).values()])
    return False


# -------------------------------------------------------------------- pool
def rnd(seed, *shape):
    return np.random.RandomState(seed).uniform(-0.5, 0.5, shape)


def make(kind):
    d = dsp()
    if kind == "S":
        s = d.Signal(None, rnd(1, 600, 2), FS)
        s.set_spectrum_parameters(window_length_samples=256, window_type=d.Window.Hamming)
        s.set_spectrogram_parameters(window_length_samples=64)
        return s
    if kind == "S1":
        s = d.Signal(None, rnd(2, 500), FS, activate_cache=True)
        s.set_spectrum_parameters(window_length_samples=128)
        s.set_spectrogram_parameters(window_length_samples=128)
        return s
    if kind == "SM":
        s = d.Signal(None, rnd(15, 600, 2), FS, activate_cache=True)
        s.set_spectrum_parameters(window_length_samples=128)
        s.set_spectrogram_parameters(window_length_samples=64)
        return s
    if kind == "C":  # constrained and scaled at construction
        s = d.Signal(None, rnd(3, 600, 2) * 5, FS, True)
        s.set_spectrum_parameters(d.SpectrumMethod.FFT, scaling=d.SpectrumScaling.AmplitudeSpectrum)
        return s
    if kind == "Z":
        s = d.Signal(None, rnd(4, 600, 2) + 1j * rnd(5, 600, 2), FS)
        s.set_spectrum_parameters(window_length_samples=256)
        return s
    if kind == "IRW":  # response with other settings than the usual ones
        s = make("IR1")
        s.set_spectrum_parameters(d.SpectrumMethod.WelchPeriodogram, window_length_samples=128)
        return s
    if kind in ("IR", "IR1"):
        x = rnd(6, 512, 2) * 0.3 * np.exp(-np.arange(512) / 60)[:, None]
        x[20] = [1.0, 0.9]
        x[:20] *= 1e-3
        if kind == "IR1":
            x = x[:, :1]
        s = d.ImpulseResponse(None, x, FS)
        s.set_spectrum_parameters(d.SpectrumMethod.FFT)
        s.set_spectrogram_parameters(window_length_samples=64)
        if kind == "IR":
            s.set_window(np.hanning(1024)[512:, None] * np.ones((1, 2)))
        return s
    if kind == "MB":
        return d.MultiBandSignal([d.Signal(None, rnd(k, 400, 2), FS) for k in (7, 8)], True, {"a": [1, 2]})
    if kind == "MI":  # responses of several bands
        return d.MultiBandSignal([d.ImpulseResponse(None, make("IR").time_data * g, FS) for g in (1.0, 0.5)], True)
    if kind == "F":
        return d.Filter.fir_filter(10, 1000.0, d.FilterPassType.Lowpass, FS)
    if kind == "I":
        return d.Filter.iir_filter(3, 1500.0, d.FilterPassType.Lowpass, FS)
    if kind == "I2":
        return d.Filter.from_ba([1.0, 0.5, 0.2], [1.0, -0.3, 0.1], FS)
    if kind == "FB":
        return d.FilterBank([d.Filter.iir_filter(2, f, d.FilterPassType.Highpass, FS) for f in (300.0, 900.0)], True, {"a": [1]})
    if kind == "FF":
        return d.FilterBank([d.Filter.fir_filter(8, f, d.FilterPassType.Lowpass, FS) for f in (600.0, 900.0)])
    if kind == "SP":
        s = d.Spectrum(np.linspace(0, 4000, 129), np.abs(rnd(9, 129, 2)) + 0.1)
        s.set_coherence(np.abs(rnd(10, 129, 2)))
        return s
    if kind == "SC":
        return d.Spectrum(np.linspace(0, 4000, 129), 0.7 + rnd(11, 129, 2) + 1j * rnd(12, 129, 2))
    if kind == "A":
        return rnd(13, 64)
    if kind == "P":  # positive, ascending
        return np.linspace(50.0, 3000.0, 40)
    if kind == "B":
        return rnd(14, 64, 2)
    raise MachineryError(kind)


# -------------------------------------------------------------- operations
def table():
    d = dsp()
    tf, tr, ra, di, ge, fb, to = (d.transfer_functions, d.transforms, d.room_acoustics, d.distances, d.generators,
                                  d.filterbanks, d.tools)
    M, W, T = d.FilterBankMode, d.Window, d.SpectrumType
    n = lambda *v: (lambda: [list(v)])
    w = lambda *v: (lambda: [np.array(v, float)])
    t = {}

    def op(name, kinds, fn, extra=None, det=True):
        t[name] = (kinds.split(), fn, extra or (lambda: []), det)

    SIG = "S|S1|SM|C|IR|IRW"
    op("copy_new", SIG, lambda a, x: a[0].copy_with_new_time_data(a[0].time_data))
    op("latency", SIG, lambda a, x: d.latency(a[0], None if a[0].number_of_channels > 1 else a[0], 1))
    op("latency2", "S|C S|C", lambda a, x: d.latency(a[0], a[1]))
    op("pad_trim", SIG + "|MB", lambda a, x: d.pad_trim(a[0], 450))
    op("pad_trim_same", "S|C", lambda a, x: d.pad_trim(a[0], len(a[0])))
    op("pad_front", SIG + "|MB", lambda a, x: d.pad_trim(a[0], 700, False))
    op("trim_level", SIG, lambda a, x: d.trim_with_level_threshold(a[0], -8.0))
    op("trim_level0", SIG, lambda a, x: d.trim_with_level_threshold(a[0], -300.0))
    op("fade", SIG, lambda a, x: d.fade(a[0], d.FadeType.Linear, 0.01))
    op("fade0", SIG, lambda a, x: d.fade(a[0], d.FadeType.NoFade, 0.01))
    op("append", "S|C S|C", lambda a, x: d.append_signals(a))
    op("append_same", "S S", lambda a, x: d.append_signals(a, at_end=False))
    op("append_ir", "IR IR", lambda a, x: d.append_signals(a))
    op("append_mb", "MB MB", lambda a, x: d.append_signals(a))
    op("append_fb", "FB FB", lambda a, x: d.append_filterbanks(a))
    op("append_sp", "SP SP", lambda a, x: d.append_spectra(a))
    op("append_sc", "SC SP", lambda a, x: d.append_spectra(a, False))
    op("resample", SIG, lambda a, x: d.resample(a[0], 6000))
    op("resample_up", SIG, lambda a, x: d.resample(a[0], 12000, True))
    op("resample_same", SIG, lambda a, x: d.resample(a[0], FS))
    op("crest", SIG + "|MB", lambda a, x: d.crest_factor(a[0]))
    op("lufs", "S|C", lambda a, x: d.lufs_integrated(d.pad_trim(a[0], 8000)))
    op("activity", SIG, lambda a, x: d.activity_detector(a[0], -10))
    op("activity_f", "S F", lambda a, x: d.activity_detector(a[0], -10, 1, True, a[1]))
    op("normalize", SIG + "|MB", lambda a, x: d.normalize(a[0], -6.0))
    op("normalize_each", SIG + "|MB", lambda a, x: d.normalize(a[0], -6.0, False, True))
    op("frac_delay", SIG + "|MB", lambda a, x: d.fractional_delay(a[0], 0.00131))
    op("frac_delay_ch", "S|C", lambda a, x: d.fractional_delay(a[0], 0.00131, x[0], True), n(1))
    op("delay", SIG + "|MB", lambda a, x: d.delay(a[0], 5))
    op("delay_ch", "S|C", lambda a, x: d.delay(a[0], 5, x[0], True), n(1))
    op("delay0", SIG + "|MB", lambda a, x: d.delay(a[0], 0, None, True))
    op("true_peak", SIG + "|MB", lambda a, x: d.true_peak_level(a[0]))
    op("detrend", SIG + "|MB", lambda a, x: d.detrend(a[0], 1))
    op("rms", SIG + "|MB", lambda a, x: d.rms(a[0]))
    op("envelope", SIG + "|MB", lambda a, x: d.envelope(a[0]))
    op("envelope_w", SIG + "|MB", lambda a, x: d.envelope(a[0], False, 16))
    op("dither", SIG, lambda a, x: d.dither(a[0]), det=False)
    op("dither_fb", "S FB", lambda a, x: d.dither(a[0], noise_shaping_filterbank=a[1]), det=False)
    op("gain", SIG + "|MB|F|I|I2|FB", lambda a, x: d.apply_gain(a[0], -3.0))
    op("gain_ch", "S|C|MB", lambda a, x: d.apply_gain(a[0], x[0]), w(-1, -2))
    op("gain_fb", "FB|FF", lambda a, x: d.apply_gain(a[0], x[0]), w(-1, -2))
    op("resample_filter", "F|I|I2", lambda a, x: d.resample_filter(a[0], 16000))
    op("modify_length", SIG + "|MB", lambda a, x: d.modify_signal_length(a[0], 0.01, 0.04))
    op("modify_length0", SIG, lambda a, x: d.modify_signal_length(a[0], 0.0, a[0].length_seconds))
    op("modify_length_ext", SIG, lambda a, x: d.modify_signal_length(a[0], -0.01, 0.09))
    op("trim_time", SIG + "|MB", lambda a, x: d.trim_with_time_selection(a[0], 0.01, 0.04))
    op("trim_time0", SIG, lambda a, x: d.trim_with_time_selection(a[0], 0.0, a[0].length_seconds))
    op("merge", "F F", lambda a, x: d.merge_filters(a))
    op("merge_i", "I I2", lambda a, x: d.merge_filters(a))
    op("merge_fb", "FB|FF", lambda a, x: d.merge_filters(a[0]))
    op("difference", "SP SP", lambda a, x: d.spectral_difference(a[0], a[1], 3.0))
    op("difference_s", "S C", lambda a, x: d.spectral_difference(a[0], a[1]))
    op("difference_c", "SC SC", lambda a, x: d.spectral_difference(a[0], a[1], complex=True))
    # transfer functions
    op("deconvolve", "S S", lambda a, x: tf.spectral_deconvolve(a[0], a[1]))
    op("deconvolve_r", "C S1", lambda a, x: tf.spectral_deconvolve(d.pad_trim(a[0], 500), a[1], True, x[0], padding=True, keep_original_length=True), n(100, 3000))
    op("window_ir", "IR|IR1", lambda a, x: tf.window_ir(a[0], 300))
    op("window_ir_l", "IR|IR1", lambda a, x: tf.window_ir(a[0], 300, False, 0.5, x[0], True, 10, 0.5), lambda: [[W.Hann, W.Hamming]])
    op("window_c", "IR|IR1", lambda a, x: tf.window_centered_ir(a[0], 301))
    op("window_tukey", "IR|IR1", lambda a, x: tf.window_ir_tukey(a[0], 0.001, 0.01))
    op("window_tukey0", "IR|IR1", lambda a, x: tf.window_ir_tukey(a[0], None, 0.01))
    op("transfer", "S|C S1", lambda a, x: tf.compute_transfer_function(d.pad_trim(a[0], 500), a[1], 128, tf.TransferFunctionType.H1))
    op("average", "IR", lambda a, x: tf.average_irs(a[0]))
    op("average_s", "IR", lambda a, x: tf.average_irs(a[0], False, False))
    op("min_phase_mag", "SP|SC", lambda a, x: tf.min_phase_from_mag(a[0], FS))
    op("lin_phase_mag", "SP|SC", lambda a, x: tf.lin_phase_from_mag(a[0], FS, 20.0, False))
    op("min_phase_ir", "IR|IR1", lambda a, x: tf.min_phase_ir(a[0]))
    op("min_phase_ir_h", "IR|IR1", lambda a, x: tf.min_phase_ir(a[0], False))
    op("group_delay", SIG, lambda a, x: tf.group_delay(a[0]))
    op("group_delay_d", SIG, lambda a, x: tf.group_delay(a[0], False, 3))
    op("group_delay_l", "IR|IR1", lambda a, x: tf.group_delay(a[0], False, 0, True))
    op("min_gd", "IR|IR1", lambda a, x: tf.minimum_group_delay(a[0], 3))
    op("excess_gd", "IR|IR1", lambda a, x: tf.excess_group_delay(a[0], 3, True))
    op("excess_gd_a", "IR|IR1", lambda a, x: tf.excess_group_delay(a[0], 0, False, True))
    op("min_phase", "IR|IR1", lambda a, x: tf.minimum_phase(a[0]))
    op("fdw", "IR|IR1", lambda a, x: tf.window_frequency_dependent(a[0], 8))
    op("ir_to_filter", "IR|IR1", lambda a, x: tf.ir_to_filter(a[0], 0, "direct"))
    op("ir_to_filters", "IR", lambda a, x: tf.ir_to_filter(a[0], None, "min"))
    op("filter_to_ir", "F|FF", lambda a, x: tf.filter_to_ir(a[0]))
    op("dirac_low", "IR1", lambda a, x: tf.combine_ir_with_dirac(a[0], 800.0, True))
    op("dirac_high", "IR|IR1", lambda a, x: tf.combine_ir_with_dirac(a[0], 800.0, False, 4, "energy"))
    op("ir_latency", "IR|IR1", lambda a, x: tf.find_ir_latency(a[0]))
    op("ir_latency_p", "IR|IR1", lambda a, x: tf.find_ir_latency(a[0], False))
    op("harmonics", "IR1", lambda a, x: tf.harmonics_from_chirp_ir(a[0], x[0], 0.064, 3), n(50, 3900))
    op("distortion", "IR1", lambda a, x: tf.harmonic_distortion_analysis(a[0], x[0], 0.064, 3, generate_plot=False), n(50, 3900))
    op("distortion_l", "IR1 IR1 IR1", lambda a, x: tf.harmonic_distortion_analysis(list(a), generate_plot=False))
    op("distortion_x", "A", lambda a, x: tf.harmonic_distortion_analysis(x[0], generate_plot=False), lambda: [[make("IR1"), make("IR1"), make("IRW")]])
    op("trim_ir", "IR|IR1", lambda a, x: tf.trim_ir(a[0], None if a[0].number_of_channels == 1 else 0, 0.001))
    op("complex_smooth", "IR|IR1", lambda a, x: tf.complex_smoothing(a[0], 3.0, tf.SmoothingDomain.MagnitudePhase))
    op("complex_smooth_p", "IR", lambda a, x: tf.complex_smoothing(a[0], 3.0, tf.SmoothingDomain.Power))
    # transforms
    op("cepstrum", SIG, lambda a, x: tr.cepstrum(a[0], False))
    op("cepstrum_c", "IR|IR1", lambda a, x: tr.cepstrum(a[0]))
    op("from_cepstrum", "IR1", lambda a, x: tr.from_complex_cepstrum(x[0], FS), lambda: [rnd(21, 64, 2) + 0j])
    op("mel", SIG, lambda a, x: tr.log_mel_spectrogram(a[0], 0, x[0], 8, False, x[1]), lambda: [[100.0, 3000.0], dict(window_length_samples=128)])
    op("mel0", SIG, lambda a, x: tr.log_mel_spectrogram(a[0], 0, None, 8, False))
    op("mel_fb", "P", lambda a, x: tr.mel_filterbank(a[0], x[0], 5), n(100.0, 3000.0))
    op("waterfall", "S1", lambda a, x: tr.plot_waterfall(a[0], stft_parameters=x[0]), lambda: [dict(window_length_samples=64)])
    op("mfcc", SIG, lambda a, x: tr.mfcc(a[0], generate_plot=False, stft_parameters=x[0]), lambda: [dict(window_length_samples=256)])
    op("istft", SIG, lambda a, x: tr.istft(a[0].get_spectrogram()[2], original_signal=a[0]))
    op("istft_p", "S1", lambda a, x: tr.istft(a[0].get_spectrogram()[2], None, x[0], FS), lambda: [dict(window_length_samples=128, window_type=W.Hann, overlap_percent=50, fft_length_samples=None, padding=True, scaling=d.SpectrumScaling.FFTBackward)])
    op("cwt", SIG, lambda a, x: tr.cwt(a[0], x[0], tr.MorletWavelet(b=1.0, h=None), x[1]), lambda: [np.array([300.0, 600.0]), np.array([0])])
    op("cwt_sq", "S1", lambda a, x: tr.cwt(a[0], x[0], tr.MorletWavelet(b=1.0, h=None), None, True), w(300, 500, 900))
    op("chroma", "S1", lambda a, x: tr.chroma_stft(a[0]))
    op("hilbert", SIG + "|MB", lambda a, x: tr.hilbert(a[0]))
    op("vqt", "S1", lambda a, x: tr.vqt(a[0], x[0], octaves=x[1], bins_per_octave=3), lambda: [np.array([0]), [2, 3]])
    op("mid_side", "S|C|IR", lambda a, x: tr.stereo_mid_side(a[0], True))
    op("mid_side_b", "S|C|IR", lambda a, x: tr.stereo_mid_side(a[0], False))
    op("laguerre", "IR|IR1", lambda a, x: tr.laguerre(d.pad_trim(a[0], 64), -0.4))
    op("warp", "IR|IR1", lambda a, x: tr.warp(d.pad_trim(a[0], 64), -0.4, True, 80))
    op("warp_a", "IR|IR1", lambda a, x: tr.warp(d.pad_trim(a[0], 64), "bark", False))
    op("warp_filter", "F|I2", lambda a, x: tr.warp_filter(a[0], 0.3))
    op("lpc", SIG, lambda a, x: tr.lpc(a[0], 4, 128), det=False)
    op("lpc_s", "S|C", lambda a, x: tr.lpc(a[0], 4, 128, True, True), det=False)
    op("dft", SIG, lambda a, x: tr.dft(a[0], x[0]), w(100, 250, 700))
    op("sp_fb", SIG, lambda a, x: tr.spectrum_via_filterbank(a[0], x[0], 1.0), w(300, 600))
    # rooms
    op("rt", "IR|IR1|MI", lambda a, x: ra.reverb_time(a[0]))
    op("rt_start", "IR", lambda a, x: ra.reverb_time(a[0], ra.ReverbTime.T20, x[0]), lambda: [np.array([20, 20])])
    op("edt", "IR|IR1|MI", lambda a, x: ra.reverb_time(a[0], ra.ReverbTime.EDT, None, False))
    op("modes", "IR|IR1|IRW", lambda a, x: ra.find_modes(a[0], x[0], 20.0), n(50, 900))
    op("convolve_rir", "S|C|S1 IR1", lambda a, x: ra.convolve_rir_on_signal(a[0], d.pad_trim(a[1], 100)))
    op("convolve_rir_f", "S|C IR1", lambda a, x: ra.convolve_rir_on_signal(a[0], d.pad_trim(a[1], 100), False, False))
    op("ir_start", "IR|IR1", lambda a, x: ra.find_ir_start(a[0]))
    for q in ("D50", "C80", "Ts", "BassRatio"):
        op("desc_" + q, "IR|IR1|MI" if q != "BassRatio" else "IR|IR1", lambda a, x, q=q: ra.descriptors(a[0], getattr(ra.RoomAcousticsDescriptor, {"D50": "D50", "C80": "C80", "Ts": "CenterTime", "BassRatio": "BassRatio"}[q])))
    op("rir", "A", lambda a, x: ra.generate_synthetic_rir(ra.ShoeboxRoom(x[0], None, 0.4), x[1], x[2], FS, 0.02, max_order=2), lambda: [[3.0, 4.0, 2.5], np.array([1.0, 1, 1]), [2.0, 3.0, 1.5]])
    op("rir_d", "A", lambda a, x: ra.generate_synthetic_rir(x[3], x[1], x[2], FS, 0.02, max_order=1), lambda: [0, np.array([1.0, 1, 1]), [2.0, 3.0, 1.5], ra.ShoeboxRoom([3.0, 4.0, 2.5], None, 0.3)])
    def room(a, x):
        r = ra.ShoeboxRoom([3.0, 4.0, 2.5], None, 0.4)
        r.add_detailed_absorption(x[0])
        return r
    op("absorption", "A", room, lambda: [{k: np.full(8, 0.3) for k in ("north", "south", "east", "west", "floor", "ceiling")}])
    # distances
    op("log_spectral", "S C", lambda a, x: di.log_spectral(a[0], a[1], f_range_hz=x[0]), n(50, 3000))
    op("log_spectral_p", "S C", lambda a, x: di.log_spectral(a[0], a[1], f_range_hz=x[0], spectrum_parameters=x[1]), lambda: [[50, 3000], dict(window_length_samples=128)])
    op("itakura", "S C", lambda a, x: di.itakura_saito(a[0], a[1], f_range_hz=x[0]), n(50, 3000))
    op("itakura_f", "S C", lambda a, x: di.itakura_saito(a[0], a[1], d.SpectrumMethod.FFT, f_range_hz=x[0]), n(50, 3000))
    op("snr", "S C", lambda a, x: di.snr(a[0], a[1]))
    op("si_sdr", "S C", lambda a, x: di.si_sdr(a[0], a[1]))
    op("fw_snr", "S C", lambda a, x: di.fw_snr_seg(d.pad_trim(a[0], 1200), d.pad_trim(a[1], 1200), x[0], x[1]), lambda: [[300, 3000], [-10, 35]])
    # generators, filter designs
    op("dirac", "A", lambda a, x: ge.dirac(64, FS, 3, 2))
    op("chirp", "A", lambda a, x: ge.chirp(FS, range_hz=x[0], length_seconds=0.05, number_of_channels=2), n(50, 3000))
    op("oscillator", "A", lambda a, x: ge.oscillator(100.0, FS, 0.05, number_of_channels=2))
    op("crossovers", "A", lambda a, x: fb.linkwitz_riley_crossovers(x[0], x[1], FS), lambda: [[1500.0, 500.0], [4, 2]])
    op("lr_filter", "S", lambda a, x: fb.linkwitz_riley_crossovers(x[0], x[1], FS).filter_signal(a[0], M.Parallel), lambda: [np.array([500.0, 1500.0]), np.array([4, 2])])
    op("recon", "A", lambda a, x: fb.reconstructing_fractional_octave_bands(x[0], n_samples=128, sampling_rate_hz=FS), n(250.0, 1000.0))
    op("fw_snr_w", "S C", lambda a, x: di.fw_snr_seg(d.pad_trim(a[0], 1200), d.pad_trim(a[1], 1200), x[0], x[1]), lambda: [np.array([3000.0, 300.0]), np.array([35.0, -10.0])])
    op("octaves_w", "A", lambda a, x: fb.fractional_octave_bands(x[0], 1, 4, FS), w(1000.0, 250.0))
    op("gammatone_w", "A", lambda a, x: fb.auditory_filters_gammatone(x[0], 2.0, FS), w(1000.0, 250.0))
    op("recon_w", "A", lambda a, x: fb.reconstructing_fractional_octave_bands(x[0], n_samples=128, sampling_rate_hz=FS), w(250.0, 1000.0))
    op("octaves", "A", lambda a, x: fb.fractional_octave_bands(x[0], 1, 4, FS), n(1000.0, 250.0))
    op("gammatone", "A", lambda a, x: fb.auditory_filters_gammatone(x[0], 2.0, FS), n(1000.0, 250.0))
    op("gamma_filter", "S", lambda a, x: fb.auditory_filters_gammatone(x[0], 4.0, FS).filter_signal(a[0], M.Parallel), n(250.0, 1000.0))
    op("qmf", "F", lambda a, x: fb.qmf_crossover(a[0]))
    op("complementary", "F", lambda a, x: fb.complementary_fir_filter(a[0]))
    op("arma", "IR1", lambda a, x: fb.arma(a[0], 4, 2))
    op("fir_design", "A", lambda a, x: d.Filter.fir_filter(8, x[0], d.FilterPassType.Bandpass, FS), n(500.0, 1000.0))
    op("from_ba", "A", lambda a, x: d.Filter.from_ba(x[0], x[1], FS).get_ir(8), lambda: [np.array([1.0, 2, 3]), np.array([2.0, 1.0])])
    op("from_sos", "A", lambda a, x: d.Filter.from_sos(x[0], FS).get_ir(8), lambda: [np.array([[1.0, 2, 3, 1, 0.1, 0.2]])])
    op("from_zpk", "A", lambda a, x: d.Filter.from_zpk(x[0], x[1], 2.0, FS).get_ir(8), lambda: [np.array([0.5]), np.array([0.3])])
    # filters
    op("filter", f"F|I|I2 {SIG}", lambda a, x: a[0].filter_signal(a[1]))
    op("filter_zp", f"F|I|I2 {SIG}", lambda a, x: a[0].filter_signal(a[1], zero_phase=True))
    op("filter_ch", "F|I S|C", lambda a, x: a[0].filter_signal(a[1], x[0]), n(1))
    op("filter_down", "F|I S|C", lambda a, x: a[0].filter_and_resample_signal(a[1], FS // 2))
    op("filter_up", "F|I S|C", lambda a, x: d.resample_filter(a[0], 2 * FS).filter_and_resample_signal(a[1], FS * 2))
    op("filter_ir", "F|I|I2", lambda a, x: a[0].get_ir(50))
    op("filter_tf", "F|I|I2 P", lambda a, x: a[0].get_transfer_function(a[1]))
    op("filter_gd", "F|I|I2 P", lambda a, x: a[0].get_group_delay(a[1]))
    for c in ("Ba", "Sos", "Zpk"):
        op("coef_" + c, "F|I|I2", lambda a, x, c=c: a[0].get_coefficients(getattr(d.FilterCoefficientsType, c)))
    for m in ("Parallel", "Sequential", "Summed"):
        op("bank_" + m, f"FB|FF {SIG}", lambda a, x, m=m: a[0].filter_signal(a[1], getattr(M, m)))
        op("bank_ir_" + m, "FB|FF", lambda a, x, m=m: a[0].get_ir(60, getattr(M, m)))
        op("bank_tf_" + m, "FB|FF P", lambda a, x, m=m: a[0].get_transfer_function(a[1], getattr(M, m)))
    op("bank_mb", "FB MB", lambda a, x: a[0].filter_multiband_signal(a[1]))
    # streaming states belong to the filter, not to the signal
    for nm, k in (("F", "F"), ("I", "I|I2")):
        op("zi_" + nm, f"{k} {SIG}", lambda a, x: a[0].copy().filter_signal(a[1], activate_zi=True))
    for m in ("Parallel", "Sequential", "Summed"):
        op("zi_bank_" + m, f"FB|FF {SIG}", lambda a, x, m=m: a[0].copy().filter_signal(a[1], getattr(M, m), activate_zi=True))
    xb = dict(lr=lambda: fb.linkwitz_riley_crossovers([500.0, 1500.0], [4, 2], FS),
              qmf=lambda: fb.qmf_crossover(make("F")),
              qmfi=lambda: fb.qmf_crossover(make("I")),
              rec=lambda: fb.reconstructing_fractional_octave_bands([250.0, 1000.0], n_samples=128, sampling_rate_hz=FS),
              gam=lambda: fb.auditory_filters_gammatone([250.0, 1000.0], 2.0, FS))
    for nm, f in xb.items():
        for m in ("Parallel", "Sequential", "Summed") if nm != "gam" else ("Parallel",):
            op(f"xb_{nm}_{m}", SIG, lambda a, x, f=f, m=m: f().filter_signal(a[0], getattr(M, m)))
            if nm != "gam":
                op(f"xz_{nm}_{m}", SIG, lambda a, x, f=f, m=m: [z := f(), z.filter_signal(a[0], getattr(M, m), activate_zi=True), z.filter_signal(a[0], getattr(M, m), activate_zi=True)])
    op("xr_qmf", "S|C", lambda a, x: [z := fb.qmf_crossover(make("F")), z.reconstruct_signal(z.filter_signal(a[0], M.Parallel, downsample=True), True)])
    op("xr_gam", "S|C", lambda a, x: [z := xb["gam"](), z.reconstruct(z.filter_signal(a[0], M.Parallel))])
    op("xd_qmf", "S|C", lambda a, x: fb.qmf_crossover(make("F")).filter_signal(a[0], M.Parallel, downsample=True))
    op("svf", SIG, lambda a, x: fb.StateVariableFilter(800.0, 1.0, FS).filter_signal(a[0]))
    op("lattice", "I|I2 S1|C", lambda a, x: [z := fb.LatticeLadderFilter.from_filter(a[0]), z.filter_signal(a[1])])
    op("space", "I|I2", lambda a, x: fb.StateSpaceFilter.from_filter(a[0]))
    op("space_l", "I|I2", lambda a, x: fb.StateSpaceFilter.from_filter_as_sos_list(a[0]))
    op("warped_f", "F S1|C", lambda a, x: [z := fb.WarpedFIR.from_filter(a[0], 0.3), z.filter_signal(a[1])])
    op("warped_i", "I2 S1|C", lambda a, x: [z := fb.WarpedIIR.from_filter(a[0], 0.3), z.filter_signal(a[1])])
    op("kautz", "IR1 S1|C", lambda a, x: [z := fb.KautzFilter(np.array([0.5, 0.3 + 0.4j]), FS), z.fit_coefficients_to_ir(a[0]), z.filter_signal(a[1]), z.get_ir(20)])
    op("kautz_ir", "IR1", lambda a, x: fb.KautzFilter.from_ir(a[0], 4, 2))
    op("parallel", "IR1 S1|C", lambda a, x: [z := fb.ParallelFilter(np.array([0.5, 0.3 + 0.4j]), 3, FS), z.fit_to_ir(a[0]), z.filter_signal(a[1]), z.get_ir(20)])
    op("rt_fir", "F", lambda a, x: fb.FIRFilter.from_filter(a[0]))
    op("rt_iir", "I2", lambda a, x: fb.IIRFilter.from_filter(a[0]))

    def blocks(cls):
        def f(a, x):
            z = cls.from_filter(a[0])
            z.prepare(16, 1)
            return [z.process_block(x[0], 0), z.process_block(x[0], 0)]
        return f
    for cls in (fb.FIRFilterOverlapSave, fb.FIRUniformPartitioned):
        op(cls.__name__, "F", blocks(cls), lambda: [rnd(41, 16)])

    def multi(a, x):
        z = fb.FIRUniformPartitionedMultichannel(np.stack([a[0].ba[0], a[0].ba[0] * 2], axis=1))
        z.prepare(16)
        return [z.process_block(x[0]), z.process_block(x[0])]
    op("rt_multi", "F", multi, lambda: [rnd(42, 16, 2)])
    # designs
    op("weighting", "A", lambda a, x: fb.weighting_filter(True, 48000))
    op("biquad", "A", lambda a, x: d.Filter.biquad(d.BiquadEqType.Peaking, 500.0, 3.0, 0.7, FS))
    op("matched", "A", lambda a, x: fb.matched_biquad(d.BiquadEqType.Peaking, 500.0, 3.0, 0.7, FS))
    op("pinking", "A", lambda a, x: fb.pinking_filter(500.0, FS))
    op("kernel", "A", lambda a, x: fb.gaussian_kernel(0.01, sampling_rate_hz=FS))
    op("thiran", "A", lambda a, x: fb.fractional_delay(0.4, 3, FS))
    gd = lambda: [np.abs(np.hanning(65)) + 0.5, 0.002 + 0.001 * np.hanning(65)]
    op("fir_designer", "A", lambda a, x: [z := fb.FirDesigner(x[0].copy(), x[1].copy(), 128, FS).set_parameters(1.0, 4), z.get_filter(), z.get_filter_as_ir()][1:], gd)
    op("fir_designer_x", "A", lambda a, x: fb.FirDesigner(x[0], x[1], 128, FS).set_parameters(1.0, None).get_filter(), gd)
    op("gd_designer", "A", lambda a, x: fb.GroupDelayDesigner(x[1], 128, FS).set_parameters(1.0, 4).get_filter_as_ir(), gd)
    op("linearizer", "A", lambda a, x: fb.PhaseLinearizer(x[1] * 100, 128, FS).set_parameters(110.0, None).get_filter_as_ir(), gd)
    op("noise", "A", lambda a, x: ge.noise(0.05, FS, number_of_channels=2), det=False)
    # microphone arrays
    be = d.beamforming

    def points():
        return dict(x=np.array([0.0, 0.1]), y=np.array([0.0, 0.0]), z=np.array([0.0, 0.0]))

    def hush(f):
        def g(a, x):
            import contextlib
            import io
            with contextlib.redirect_stdout(io.StringIO()):
                return f(a, x)
        return g
    op("mic", "S1", lambda a, x: be.MonopoleSource(a[0], x[1]).get_signals_on_array(be.MicArray(x[0])), lambda: [points(), np.array([0.2, 0.3, 1.0])])

    def mix(a, x):
        m = be.MicArray(points())
        return be.mix_sources_on_array(x[0], m)
    op("mix", "A", mix, lambda: [[be.MonopoleSource(make(k), [0.2, 0.3, 1.0]) for k in ("S1", "IRW", "S1")]])
    op("mix_s", "S1|IR1 S1|IR1", lambda a, x: be.mix_sources_on_array([be.MonopoleSource(z, [0.2, 0.3, 1.0]) for z in a], be.MicArray(points())))
    op("grid", "A", lambda a, x: be.Grid(x[0]).get_distances_to_point(x[1]), lambda: [points(), np.array([0.1, 0.2, 0.3])])

    def beam(name, *arg):
        def f(a, x):
            g = be.Regular2DGrid(x[1], x[2], ["x", "y"], 0.5)
            z = getattr(be, name)(a[0], be.MicArray(x[0]), g, be.SteeringVector())
            return z.get_beamformer_map(1000.0, 1, *arg)
        return hush(f)
    line = lambda: [points(), np.linspace(-0.2, 0.2, 3), np.linspace(-0.1, 0.2, 4)]
    for nm, arg in (("DASFrequency", ()), ("Functional", ()), ("MVDR", ()), ("Orthogonal", ()), ("CleanSC", ())):
        op("beam_" + nm, "S|C|SM", beam("Beamformer" + nm, *arg), line)
    op("beam_time", "S|C|SM", hush(lambda a, x: be.BeamformerDASTime(a[0], be.MicArray(x[0]), be.LineGrid(x[1], "y", 0.5, 0.0)).get_beamformer_output()), line)
    # objects
    op("clear_window", "S|C|IR", lambda a, x: a[0].copy().clear_time_window())
    op("swap", "S|C|IR|SP|SC", lambda a, x: [z := a[0].copy(), z.swap_channels(x[0])][0], n(1, 0))
    op("swap_bands", "MB", lambda a, x: [z := a[0].copy(), z.swap_bands(x[0])][0], n(1, 0))
    op("swap_filters", "FB|FF", lambda a, x: [z := a[0].copy(), z.swap_filters(x[0])][0], n(1, 0))
    op("sp_smooth", "SP", lambda a, x: [z := a[0].copy(), z.apply_octave_smoothing(3)][0])
    op("from_td", "B", lambda a, x: d.Signal.from_time_data(a[0].copy(), FS))
    op("info", "S|IR|C|MB|F|I|FB", hush(lambda a, x: a[0].show_info() and 0))
    op("copy", "S|S1|C|Z|IR|MB|F|I|I2|FB|FF|SP|SC", lambda a, x: a[0].copy())
    op("spectrum", SIG, lambda a, x: a[0].get_spectrum())
    op("spectrum2", "S1", lambda a, x: [a[0].get_spectrum(), a[0].get_spectrum()][1])
    op("csm", "S|C|SM", lambda a, x: a[0].get_csm())
    op("csm2", "SM", lambda a, x: [a[0].get_csm(), a[0].get_csm()][1])
    op("spectrogram", SIG, lambda a, x: a[0].get_spectrogram())
    op("spectrogram2", "S1", lambda a, x: [a[0].get_spectrogram(), a[0].get_spectrogram()][1])
    op("get_channels", "S|C|IR|SP|SC", lambda a, x: a[0].get_channels(x[0]), n(1, 0))
    op("sum_channels", "S|C|IR", lambda a, x: a[0].sum_channels())
    op("ir_from", "S|S1|C|Z", lambda a, x: d.ImpulseResponse.from_signal(a[0]))
    op("collapse", "MB", lambda a, x: a[0].collapse())
    op("all_bands", "MB", lambda a, x: a[0].get_all_bands(1))
    op("all_data", "MB", lambda a, x: a[0].get_all_time_data())
    op("set_window", "IR", lambda a, x: a[0].copy().set_window(x[0]) and 0, lambda: [np.ones((512, 2))])
    op("add_channel", "S B", lambda a, x: a[0].copy().add_channel(None, a[1], FS))
    op("sp_signal", "S|S1|IR|C", lambda a, x: d.Spectrum.from_signal(a[0], False))
    op("sp_signal_c", "IR|IR1", lambda a, x: d.Spectrum.from_signal(a[0], True))
    op("sp_filter", "P F|I", lambda a, x: d.Spectrum.from_filter(a[0], a[1], True))
    op("sp_bank", "P FB|FF", lambda a, x: d.Spectrum.from_filterbank(a[0], a[1], M.Parallel))
    op("sp_new", "P", lambda a, x: d.Spectrum(x[0], x[1]).get_energy(), lambda: [np.linspace(0, 50, 6), np.ones((6, 2))])
    op("sp_to", "SC", lambda a, x: a[0].to_signal(FS))
    op("sp_interp", "SP|SC P", lambda a, x: a[0].get_interpolated_spectrum(a[1], T.Magnitude))
    op("sp_energy", "SP|SC", lambda a, x: a[0].get_energy(100.0, 2000.0))
    op("sp_resample", "SP P", lambda a, x: a[0].copy().resample(a[1]) and 0)
    op("sp_trim", "SP|SC", lambda a, x: a[0].copy().trim(100.0, 2000.0))
    op("sp_sum", "SP|SC", lambda a, x: a[0].sum_channels())
    op("cal", "S S1", lambda a, x: d.CalibrationData(a[1], high_snr=False, ) .calibrate_signal(a[0], True))
    op("cal_mb", "MB S1", lambda a, x: d.CalibrationData((a[1].time_data[:, 0], FS), high_snr=False).calibrate_signal(a[0], True))
    # tools
    op("smooth", "A|B", lambda a, x: to.fractional_octave_smoothing(a[0], 0.1, 3))
    op("smooth_w", "A|B", lambda a, x: to.fractional_octave_smoothing(a[0], None, 3, None, x[0]), lambda: [np.hanning(7)[1:6]])
    op("smooth_o", "A|B|P", lambda a, x: to.fractional_octave_smoothing(a[0], 1 / 12, 3, None, x[0]), lambda: [np.hanning(7)[1:6]])
    op("wrap", "A|B|P", lambda a, x: to.wrap_phase(a[0]))
    op("interp", "P", lambda a, x: to.interpolate_fr(x[0], x[1], a[0], "db2amplitude"), lambda: [np.linspace(0, 4000, 20), np.linspace(-10, 1, 20)])
    op("time_smooth", "A|B", lambda a, x: to.time_smoothing(a[0], FS, 0.001, 0.002))
    op("to_db", "A|B|P", lambda a, x: to.to_db(a[0], True, 40.0))
    op("from_db", "A|B", lambda a, x: to.from_db(a[0], True))
    op("exact", "P", lambda a, x: to.get_exact_value_at_frequency(a[0], x[0], 333.0), lambda: [np.arange(40.0)])
    op("log_mean", "A|B|P", lambda a, x: to.log_mean(a[0]))
    op("log_vec", "A", lambda a, x: to.log_frequency_vector(x[0], 12), n(50.0, 400.0))
    op("xover", "P", lambda a, x: to.frequency_crossover(x[0])(a[0]), n(100.0, 400.0))
    op("erb", "A", lambda a, x: to.erb_frequencies(x[0]), n(400.0, 100.0))
    op("frac_oct", "A", lambda a, x: to.fractional_octave_frequencies(3, x[0], True), n(100.0, 400.0))
    op("scale", "B", lambda a, x: to.scale_spectrum(a[0], d.SpectrumScaling.PowerSpectralDensity, 126, FS, x[0]), lambda: [np.hanning(126)])
    op("scale_back", "B", lambda a, x: to.scale_spectrum(a[0], d.SpectrumScaling.FFTBackward, 126, FS))
    op("framed", "B", lambda a, x: to.framed_signal(a[0], 16, 8))
    op("unframe", "A", lambda a, x: to.reconstruct_from_framed_signal(x[0], 8, x[1], 64), lambda: [rnd(22, 16, 9, 1), np.hanning(17)[:16] + 0.01])
    op("convert", "A", lambda a, x: to.convert_sample_representation(a[0], "f64", "i16"))
    op("convert_f", "A", lambda a, x: to.convert_sample_representation(a[0], "f64", "f32"))
    op("convert_i", "A", lambda a, x: to.convert_sample_representation(x[0], "i16", "f64"), lambda: [np.arange(-5, 5, dtype=np.int16)])
    op("warp_f", "P", lambda a, x: to.warp_frequency(a[0], FS, 0.3))
    # effects
    fx = d.effects
    op("distort", "S|C", lambda a, x: fx.Distortion(distortion_levels_db=x[0], post_gain_db=0.0).apply(a[0]) if False else fx.Distortion().apply(a[0]))
    op("compress", "S|C|MB", lambda a, x: fx.Compressor(-10, 0.5, 20.0, 3.0).apply(a[0]))
    op("tremolo", "S|C", lambda a, x: fx.Tremolo().apply(a[0]))
    op("chorus", "S|C", lambda a, x: fx.Chorus(modulators=x[0]).apply(a[0]), lambda: [[fx.LFO(5.0), fx.LFO(7.0)]], det=False)
    op("echo", "S|C", lambda a, x: fx.DigitalDelay(0.01).apply(a[0]))
    op("subtract", "S", lambda a, x: fx.SpectralSubtractor(False).apply(d.pad_trim(a[0], 3000)))
    # plots
    op("p_mag", "S|C|IR", lambda a, x: a[0].plot_magnitude(x[0], d.MagnitudeNormalization.Max, x[1], 3), lambda: [[30, 3000], [-20, 10]])
    op("p_time", "S|IR|Z", lambda a, x: a[0].plot_time())
    op("p_spl", "S|IR|C", lambda a, x: a[0].plot_spl(True, 40, 0.001))
    op("p_gd", "IR", lambda a, x: a[0].plot_group_delay(x[0], 3, "peak"), n(30, 3000))
    op("p_spec", "S|C", lambda a, x: a[0].plot_spectrogram())
    op("p_phase", "C|IR", lambda a, x: a[0].plot_phase(x[0], True, 3, x[1]), lambda: [[30, 3000], np.array([3.0, 4.0])])
    op("p_csm", "S|C|SM", lambda a, x: a[0].plot_csm(x[0]), n(30, 3000))
    op("p_bode", "IR", lambda a, x: a[0].plot_bode(x[0], d.MagnitudeNormalization.OneKhz, remove_ir_latency="min_phase"), n(30, 3000))
    op("p_filter", "F|I|I2", lambda a, x: a[0].plot_magnitude(64, x[0]), n(30, 3000))
    op("p_bank", "FB", lambda a, x: a[0].plot_magnitude(64, M.Parallel, x[0]), n(30, 3000))
    op("p_sp", "SP|SC", lambda a, x: a[0].plot_magnitude(True, d.MagnitudeNormalization.Max, 30.0))
    op("p_coh", "SP", lambda a, x: a[0].plot_coherence())
    op("p_dist", "IR1", lambda a, x: tf.harmonic_distortion_analysis(a[0], x[0], 0.064, 3), n(50, 3900))
    return t


_T = None


def ops():
    global _T
    if _T is None:
        _T = table()
    return _T


FAILED = {}


class Ad(Adapter):
    def __init__(self, init):
        super().__init__(init)
        self.pool = [make(k) for k in init["pool"]]
        self.seen = [[self.fp(o)] for o in self.pool]
        self.frozen = [0] * len(self.pool)
        self.results = []

    def fp(self, o):
        return flat(o, [])

    def versions(self):
        out = []
        for k, o in enumerate(self.pool):
            f = self.fp(o)
            for v, g in enumerate(self.seen[k]):
                if alike(f, g):
                    break
            else:
                v = len(self.seen[k])
                self.seen[k].append(f)
            out.append(v + self.frozen[k])
        return out

    def apply(self, ev):
        if ev["op"] == "edit":
            k = ev["i"] - 1
            if edit(self.pool[k], ev["how"]) in (False, "flip"):
                # nothing to edit, or an edit that can come back to an old value
                f = self.fp(self.pool[k])
                if alike(f, self.seen[k][-1]):
                    self.frozen[k] += 1
                else:
                    n = len(self.seen[k])
                    self.seen[k] = [None or ["gone"]] * n + [f]
            return dict(ver=self.versions(), like="any")
        kinds, fn, extra, det = ops()[ev["name"]]
        x = extra()
        err = None
        args = [self.pool[i - 1] for i in ev["args"]]
        xf = self.fp(x)
        try:
            res = fn(args, x)
        except MachineryError:
            raise
        except Exception as ex:
            res = "failed"
            err = repr(ex)
        import matplotlib.pyplot as plt

        plt.close("all")
        FAILED.setdefault(ev["name"], err)
        self.pool += [res, x]
        rf = self.fp(res)
        self.seen += [[rf], [xf]]
        self.frozen += [0, 0]
        self.results.append(rf)
        like = "any"
        if ev["like"] and det:
            like = "same" if alike(rf, self.results[ev["like"] - 1], 1e-9) else "different"
        elif ev["like"]:
            like = "same"
        return dict(ver=self.versions(), like=like)


def match(out, ob):
    return "ver" in ob and out["ver"] == ob["ver"] and (out["like"] != "same" or ob["like"] == "same")


def script(rng, name=None):
    t = ops()
    pool, evs, calls = [], [], []

    def arg(kinds):
        k = rng.choice(kinds.split("|"))
        old = [i for i, z in enumerate(pool) if z == k]
        if old and (base is not None or len(pool) > 7):
            return rng.choice(old) + 1
        if base is None:
            pool.append(k)
            return len(pool)
        cand = [i for i, z in enumerate(pool) if z in kinds.split("|")]
        return rng.choice(cand) + 1 if cand else None

    base = None
    names = [name or rng.choice(sorted(t))] + [rng.choice(sorted(t)) for _ in range(2)]
    plan = []
    for nm in names:
        plan.append((nm, [arg(k) for k in t[nm][0]]))
    base = len(pool)
    n = base
    count = 0
    for nm, args in plan:
        def call(nm, args, like):
            nonlocal n, count
            evs.append(dict(op="call", name=nm, args=args, like=like))
            n += 2
            count += 1
            calls.append((nm, args, count))
            return n - 1

        r = call(nm, args, 0)
        what = rng.random()
        if what < 0.3:  # edit the result, then a source
            evs.append(dict(op="edit", i=r, how=rng.choice([0, 0, 0, 1, 2])))
            evs.append(dict(op="edit", i=rng.choice(args), how=rng.choice([0, 0, 1, 2])))
        elif what < 0.6:
            evs.append(dict(op="edit", i=rng.choice(args), how=rng.choice([0, 0, 0, 2, 1])))
            evs.append(dict(op="edit", i=r, how=0))
        elif what < 0.85:
            if rng.random() < 0.5:
                evs.append(dict(op="edit", i=r, how=0))
            k = rng.choice(calls)
            call(k[0], k[1], k[2])
        else:
            evs.append(dict(op="edit", i=r + 1, how=0))
    return dict(n=base, pool=pool), evs


def repeated(rng, name):
    """the same call twice with the first result edited in between"""
    t = ops()
    pool = []
    args = []
    for kinds in t[name][0]:
        pool.append(rng.choice(kinds.split("|")))
        args.append(len(pool))
    n = len(pool)
    evs = [dict(op="call", name=name, args=args, like=0), dict(op="edit", i=n + 1, how=0), dict(op="edit", i=n + 2, how=0),
           dict(op="call", name=name, args=args, like=1)]
    if rng.random() < 0.5:
        evs = evs[:1] + evs[3:]
        evs += [dict(op="edit", i=n + 1, how=0), dict(op="edit", i=rng.choice(args), how=0)]
    else:
        evs += [dict(op="edit", i=rng.choice(args), how=rng.choice([0, 2])), dict(op="edit", i=n + 3, how=0)]
    return dict(n=n, pool=pool), evs


def run(c: Check):
    c.generate("HeapGen", Ad, match, limit=c.n(600, 6000))
    names = sorted(ops())
    plots = {n for n in names if n.startswith("p_")}
    scripts = [repeated(c.rng, n) for n in names for _ in range(c.n(6, 30) if n not in plots else c.n(1, 5))]
    scripts += [script(c.rng, n) for n in names for _ in range(c.n(3, 20)) if n not in plots]
    c.drive("HeapTrace", Ad, scripts)
