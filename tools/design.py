"""Regenerates the per-property part of DESIGN.md (convenience)."""
import json,glob,os
head=open('/verif/DESIGN.md').read()
head=head[:head.index('Checks: `check.py')] if 'Checks: `check.py' in head else head
P=[
("P01","AnalysisCache","The state holds the samples (symbolic sums of sources), the settings every analysis depends on, and per analysis the cached value with its validity. Spectrum, CSM, spectrogram and time axis read after any history must be those of a signal newly built from the abstract state (the reference object is built by the harness from the state TLC computed). Invariant: a valid cache entry equals the projection of the current settings. Exhaustive short histories (AnalysisCacheGen) plus long random ones.","Reference values come from the same library on a fresh object: a bug that changes both alike belongs to P11."),
("P02","Channels","Channels of exact rational samples with the limiter's common denominator and scale factor. All two-step histories from several starts, simulated longer ones (ChannelsSim), random ones.",""),
("P03","FilterStream, LTI, RefStream","The difference equations over exact integers, block by block, for FIR, recursive and cascaded filters, banks and modes; the abstract state is the memory per filter and channel. Real-coefficient banks (crossovers, gammatone, QMF) are checked as streams against whole-signal references (RefStream).","crossover downsampling and Sequential downsampling with state are unspecified"),
("P04","RealTime, LTI","Every real-time structure as its recursion over integers (dyadic scaling), interleaved channels, resets, resizing, block sizes; numeric variants (warped, Kautz, state variable) against expanded transfer functions.",""),
("P05","Bank, LTI","A bank is a list of cascades; edits, composition of outputs, exact Gaussian-rational transfer functions at multiples of a quarter of the rate.",""),
("P06","Bands","Ordered list of bands of complex integer samples.",""),
("P07","Heap","A heap of objects with versions: a call leaves every version alone and adds a result, an edit changes one version. About 200 public operations are the alphabet; content of every object is observed after each step, and repeated calls have to agree.","containers that take ownership and constructors that alias the user's array are excluded by definition"),
("P08","Edit","Edits of length and position over integer samples in bands and two rates; times in ms.","trim_with_level_threshold raising on silence unspecified"),
("P09","Framing","Cuts, weighted overlap-add, its inverse, and the short-time transform frame by frame; TLC checks invertibility in the model.","KNOWN-FINDING last-complete-frame (see below)"),
("P10","Spectra","A spectrum as frequencies, bins (exact rationals) and coherence.",""),
("P11","SpecEst, Trig","DFT of small integer signals from trigonometric tables (1e-4), scalings, windows, Welch averages, CSM, coherence.",""),
("P12","Convert","Sample formats with exact long-integer arithmetic; unit conversions with table values.",""),
("P13","Levels","Chains of gains, normalisations, fades, detrending and level measures over rationals.",""),
("P14","Store","Copy/save/load/change/feed histories over all object types; the content of each object is observed after every step. Files are written only in a scratch directory.",""),
("P15","Measure","Calibration data (first use, added channels, on demand) and an in-memory stand-in of the audio device with four outputs and inputs.","calibration attributes changed by hand take effect only with force_update or new channels; unsorted rec_channels unspecified"),
("P16","ImpResp","Impulse-response processing with exact transforms: sequences supported on multiples of m have period-4 Gaussian-integer transforms.","minimum_phase and excess_group_delay on lengths not fast for the FFT unspecified"),
("P17","Split","Exact QMF networks (the aliasing-free total transfer function is an invariant in TLC), complementary filters, Linkwitz-Riley magnitudes on a grid of the bilinear frequency axis, octave banks, gammatone resynthesis.","gammatone banks with no centre frequency in range fail (refused)"),
("P18","Effects","Settings changed one by one and the samples each effect gives.","refused Distortion settings may leave it half changed; overlap 0 with tapered windows not transparent"),
("P19","Rooms","A room and its history; modes, reflections, images, decay measures.","energy decay curve corner cases, see observations"),
("P20","Gener","Harmonics of tones, phase formulas of chirps in fixed point, spectral slopes of noises, levels, fades, padding.","grey noise shorter than about 1 ms and tones whose sampled peak is below 0.5 are excluded"),
("P21","Resample, LTI","Decimation, interpolation and resampling with the current filter.","FIR resampling follows scipy's resample_poly"),
("P22","Transf, Trig","Integer or fixed-point values of each transform; Yule-Walker as normal equations the observed coefficients must satisfy, Burg's lattice recursively; tones for vqt, cwt, filter-bank levels.","framing of LPC at the very end of the signal, start detection of warp(shift_ir) and Mel bins exactly between two bands are left open"),
("P23","Design, Trig","Analog prototypes evaluated on the bilinear frequency axis (tangents of table angles as homogeneous pairs), Chebyshev polynomials by recursion, windowed sincs, rational transfer functions with integer coefficients, products for Thiran coefficients, inverse transforms of given magnitude and group delay. TLC also checks that all-pass prototypes keep the magnitude.","Bessel designs, the sign of the Inverter biquad, matched BandpassSkirt (same as BandpassPeak), Simpson integration and integer-delay correction of FIR designers"),
]
man={c['property']:c for c in json.load(open('/verif/MANIFEST.json'))['checks']}
ev={}
for p,*_ in P:
    f='/verif/evidence/%s.json'%p
    if os.path.exists(f): ev[p]=json.load(open(f))
out=head.rstrip()+'''

Checks: `check.py <id> [--tier quick|thorough]`; see MANIFEST.json. Quick runs
take 10 to 60 s, thorough ones use 5 to 10 times the behaviours and longer
histories (minutes). No check writes outside /verif/evidence and its own
scratch directory; TLC works in a temporary directory.

## Why this reaches what tests cannot

The tests of the repository sample one signal and one configuration per
function. Here every check demands the observation after *every* event of
*any* history: TLC enumerates all behaviours of a small scope, and the same
`XStep` judges random long ones. Expected values come from the specification
(exact integers, rationals or fixed point with a stated tolerance), not from
the code. Bounds: small integers as samples, short signals, up to three
channels (most modules), histories up to the depth of the Gen configuration
exhaustively and up to a few dozen events at random. Assumption: integer data
exercise the same code as arbitrary floats.

## Properties

'''
for p,mod,txt,lim in P:
    out+='### %s (%s)\n\n%s %s\n%s\n' % (p,', '.join('spec/%s.tla'%m for m in mod.split(', ')),txt,man[p]['level_note'][0].upper()+man[p]['level_note'][1:]+'.','' if not lim else '\nLeft open: %s.\n'%lim)
out+='''None of the properties is listed as not applicable. Plots are outside the
properties: their output are pictures.

### Drafts, not claimed

spec/Distances.tla with harness/p_p24.py (log-spectral distance, Itakura-Saito
measure, SNR, SI-SDR, segmental SNR) and spec/Beams.tla with harness/p_p25.py
(points, grids, arrays, steering vectors, sources on an array, delay-and-sum,
orthogonal, functional, MVDR and CLEAN-SC maps of coherent fields) are complete
models with conformance checks (`check.py P24`, `check.py P25`), but no property
in properties.jsonl claims them: there was no time to plant bugs for them and to
run the test suite with the repairs they ask for. On the current tree they
report four defects, which drafts/distances_beamforming_fixes.patch repairs (in
a scratch copy with that patch both checks held for seeds 1, 7 and 11):

* `itakura_saito` takes the decimal instead of the natural logarithm, so the
  measure is negative for a ratio of 1/2 at every frequency;
* the distance of a point to itself can be NaN by rounding (the root of a
  negative number), so that a source cannot sit on a microphone;
* orthogonal beamforming overwrites the power of a stronger eigenvalue when a
  weaker one has its maximum at the same point;
* CLEAN-SC applies the correction for a removed diagonal although the diagonal
  is there (the default), so that cleaned maps have negative powers.

## Defects found

Every alarm on the original tree was traced to the code or to the model. Where
the code broke the property it was repaired with a `fix:` commit; the list is
in known_findings.txt (`fixed:` lines, %d of them). One defect is recorded
instead of repaired:

* `P09 last-complete-frame`: `framed_signal(keep_last_frames=False)` drops the
  last frame when it ends exactly at the end of the signal. The repair moves
  `lufs_integrated` beyond the tolerance of an existing test. The check probes
  exactly this input and prints KNOWN-FINDING; every other deviation is a
  violation.

Alarms that were the fault of the model led to corrections of the property,
not of the code; the resulting conventions (what is unspecified) are noted
with each property above. In general: time vectors are `linspace` based,
signals have at least as many samples as channels, a constrained windowed
impulse response may drop its window, and operations documented for real
signals may drop imaginary parts (normalize, fade, detrend, resample).

Observations that were neither specified nor changed: the energy decay curve
uses the coefficients of a line fit in swapped order (small effect);
`find_ir_start` answers the last sample below the threshold; `max_order` of
the image source model is the index per axis; the triangle LFO is normalized
to the peak of its block; silent frames give undefined prediction coefficients;
`Filter` in zpk form without zeros loses delays; warping factors have to be
Python floats.

## Planted bugs

Each folder of seeded/ has a patch that passes the stable tests, and a
demonstration. "caught by" is the check that reports it (all at the quick
tier).

| id | what breaks | needs | caught by |
|---|---|---|---|
''' % sum(l.startswith('fixed:') for l in open('/verif/known_findings.txt'))
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    out+='| %s | %s | %s | %s |\n' % (i,m['what_it_breaks'].replace('|','/'),m['needs'].replace('|','/'),m['property'])
out+='''
Bugs that the stable tests already find were discarded. While planting them
the checks were extended where a variation of a bug would have slipped through
(for example prediction orders above two and detuned pitches in P22, channels
with their own starts in P19, cached arrays handed out in P07).

## Quietness

The checks only use the public interface, never source text, and import the
package from /repo's working tree with byte-code caches bypassed. Tolerances
are those of the fixed-point arithmetic of the specification; random choices
depend on VERIF_SEED and were run with several seeds. No hooks were needed.
'''
open('/verif/DESIGN.md','w').write(out)
