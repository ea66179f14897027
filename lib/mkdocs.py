"""Writes properties.jsonl and MANIFEST.json."""
import json
F = 'src/filter/'; A = 'src/analysis/'; D = 'src/delay/'; W = 'src/window/'
flt = [F + x for x in ('one_pole.rs', 'one_zero.rs', 'two_pole.rs', 'two_zero.rs', 'biquad.rs')]
rbj = [F + 'rbj/' + x + '.rs' for x in ('allpass', 'bandpass', 'bandstop', 'highpass', 'highshelf', 'lowpass', 'lowshelf', 'peak')]
ana = [A + x for x in ('leaky_integrator.rs', 'peak_detector.rs', 'rms_detector.rs')]
dl = [D + 'mod.rs', D + 'linear_delay.rs']
win = [W + x for x in ('bartlett.rs', 'blackman.rs', 'blackman_harris.rs', 'hamming.rs', 'hann.rs', 'triangular.rs')]
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({'id': id, 'title': title, 'statement': statement,
      'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
      'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                  'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                  'observe_at': list(observe), 'hook_needed': None}})
p('C01', 'Filters compute their difference equation at every sample',
  'Every one-pole, one-zero, two-pole, two-zero and direct-form-I biquad filter returns, for each finite sample fed, exactly the weighted sum of the current input, the previous one or two inputs and the previous one or two outputs that its coefficients define (up to floating-point rounding), with zeros standing for everything before the first sample or the last reset. Setting coefficients changes only the weights: the remembered inputs and outputs are kept, so a change in mid-stream takes effect on the very next sample.',
  ['inputs', 'histories', 'configurations'], 'all finite coefficients, all input sequences of any length, coefficient changes at any point',
  'The unit tests run one coefficient set on a handful of samples; a wrong delay-register shift or sign can stay invisible for those values and lengths.',
  flt, [('process: the weighted sum and the shift of the delay registers', 'src/filter/*.rs impl Processor'), ('set_coefficients', 'src/filter/*.rs')],
  [('x_z1, x_z2, y_z1, y_z2', 'the last inputs and outputs', 'src/filter/biquad.rs')], ['return value of process'])
p('C02', 'The two biquad forms are the same filter',
  'A direct-form-I biquad and a transposed direct-form-II biquad with the same coefficients, both in their reset state, give the same output for every input sequence (up to floating-point rounding).',
  ['inputs', 'histories', 'configurations'], 'all finite coefficients and all input sequences of any length',
  'Equality of two recurrences over all inputs needs an induction; the tests compare neither form with the other.',
  [F + 'biquad.rs'], [('Biquad1::process and Biquad2::process', F + 'biquad.rs')],
  [('z1, z2', 'partial sums of the transposed form', F + 'biquad.rs')], ['return values of process'])
p('C03', 'A freshly constructed processor does not alter the signal',
  'Until a setting is changed, a newly constructed filter (including every cookbook filter) and a new leaky integrator return each finite input sample unchanged in value, and a new envelope detector returns its absolute value, for every input sequence.',
  ['inputs', 'histories'], 'every processor type, all input sequences of any length',
  'The tests check a few samples on some of the types.',
  flt + rbj + ana, [('new() of every processor', 'src/filter, src/filter/rbj, src/analysis')], [], ['return value of process'])
p('C04', 'Clear restores the start state and the last output is always current',
  'After a processor is cleared it behaves on every later input sequence exactly like one that has the same settings and has never processed a sample, and its settings are unchanged. Asking for the last output returns zero before the first sample and after a clear, and otherwise the value the latest processing call returned; asking changes nothing.',
  ['histories', 'inputs'], 'every processor type, every history before the clear, every input after it',
  'The tests clear once after a few samples and look at the next output only; a register left over shows up samples later.',
  flt + rbj + ana + dl, [('clear and last_out of every processor', 'impl Processor blocks')], [('output / y_z1 / envelope', 'value last_out reports', 'each processor')], ['last_out, process after clear'])
p('C05', 'Processing a block equals processing its samples one by one',
  'For every processor, state and non-empty block, processing the block in place leaves in it exactly the values that processing the samples one at a time in order would return, leaves the processor in the same state, and returns the last of these values.',
  ['inputs', 'histories'], 'every processor type and state, all blocks of any length at least one',
  'The equality must hold for all block lengths and states; tests use short fixed blocks on a few types.',
  ['src/traits.rs'], [('the provided block method (and any override of it)', 'src/traits.rs Processor::process_block')], [], ['block contents, return value, later outputs'])
p('C06', 'The delay line returns exactly the sample fed the set number of calls ago',
  'At every call the delay line returns, bit for bit, the sample fed exactly as many calls before the current one as the current delay says (the current one for delay zero), and zero if that lies before the first sample or the last clear. This holds through any interleaving of feeding, changing the delay, growing the maximum delay and clearing; samples the line was too short to keep read as zero after it grows.',
  ['histories', 'inputs', 'configurations'], 'all delays, maxima and interleavings of operations, any number of samples',
  'Errors sit at wrap-around of the ring, at delay 0 and at the maximum, and in particular operation orders; tests use one or two sizes.',
  [D + 'mod.rs'], [('ring buffer: write position, read position, wrap', 'src/delay/mod.rs Delay')],
  [('memory, write_ptr, read_ptr', 'ring of past samples and positions in it', D + 'mod.rs')], ['return value of process'])
p('C07', 'The interpolating delay blends the two samples around the fractional delay',
  'For a delay of D samples the interpolating delay line returns (1-f) times the sample fed floor(D) calls ago plus f times the one a call earlier, f being the fractional part of D (up to the single-precision rounding of the read position), with zeros before the start or the last clear. For whole-number delays the result is exactly the sample that many calls ago. This holds through any interleaving of feeding, changing the delay, growing the maximum and clearing.',
  ['histories', 'inputs', 'configurations'], 'all delays in [0, maximum], maxima below 2^24, all interleavings of operations on finite samples',
  'Wrap-around, fractions close to 0 or 1 and reads that straddle the write position occur for particular positions only.',
  [D + 'linear_delay.rs'], [('set_delay computes position and fraction; process/next_out interpolate', D + 'linear_delay.rs')],
  [('alpha, om_alpha', 'interpolation weights', D + 'linear_delay.rs'), ('do_next_out, next_out', 'cached interpolation', D + 'linear_delay.rs')], ['return value of process'])
p('C08', 'Delays are kept within limits and growing the line preserves it',
  'The delay read back is always the last requested one clipped to the range from zero to the maximum delay, at construction and at every change. Raising the maximum delay keeps the current delay and every stored sample at its age; asking for a maximum not above the current one changes nothing. The maximum read back is the largest one asked for so far.',
  ['inputs', 'histories', 'configurations'], 'all requested delays (including negative and infinite ones for the interpolating line), all sequences of changes',
  'Tests clip at one or two sizes; the boundary values and growth of a wrapped ring are not reached.',
  dl, [('new, set_delay, set_max_delay, get_delay, get_max_delay', 'src/delay')], [], ['get_delay, get_max_delay, later outputs'])
p('C09', 'Taps read and modify exactly the addressed sample',
  'Tapping out at k returns the sample fed k calls before the latest one, tapping in at k replaces exactly that stored sample, and adding at k adds to exactly that one and returns the sum. No other stored sample, the set delay or the last output is affected, for every k from zero to the maximum delay and every state of the line.',
  ['inputs', 'histories', 'configurations'], 'all tap positions 0..=maximum, all ring positions, both delay lines',
  'A tap that is off by one after wrap-around is right for the positions a test tries.',
  dl, [('tap_out, tap_in, add_to', 'src/delay impl TappableDelayLine')], [], ['tap_out, process'])
p('C10', 'Peeking predicts the next output and disturbs nothing',
  'With a delay of at least one sample, the peeked next output equals the value the next processing call returns, whatever sample that call feeds, in every state reachable by feeding, tapping, changing the delay, growing or clearing. Peeking any number of times changes no later output.',
  ['histories', 'inputs', 'configurations'], 'all histories of operations before the peek, all next samples',
  'The prediction is cached in the interpolating line, so only particular orders of operations expose a stale value.',
  dl, [('next_out', 'src/delay'), ('invalidation of the cached value in every mutating operation', D + 'linear_delay.rs')],
  [('do_next_out, next_out', 'cached prediction', D + 'linear_delay.rs')], ['next_out, process'])
p('C11', 'The leaky integrator is a bounded one-pole average',
  'Each output of the leaky integrator is the input plus the leak factor times (previous output minus input), so outputs always stay within the range spanned by zero and the inputs. The leak factor read back is the last value given that lies in [0, 1), every other value (including NaN) being ignored, and neither changing nor reading it touches the signal state.',
  ['inputs', 'histories', 'configurations'], 'all finite inputs, all values offered as leak factor, all histories',
  'Boundary values of the factor and NaN, and boundedness over unbounded histories, are outside a sample of tests.',
  [A + 'leaky_integrator.rs'], [('process, set_alpha', A + 'leaky_integrator.rs')], [('alpha', 'leak factor', A + 'leaky_integrator.rs')], ['process, get_alpha'])
p('C12', 'Envelope detectors follow the level with the attack and release gains',
  'Each envelope detector moves its level (absolute value for the peak detector, mean square reported as its root for the RMS detector) from the old level towards the new one by the factor exp(-1/time), using the attack time when the new level is above the old one and the release time otherwise, so the level is never negative and never exceeds the largest level fed. Attack and release times that are not positive and finite are ignored; changing one leaves the other and the current level alone.',
  ['inputs', 'histories', 'configurations'], 'all finite inputs, all attack and release times, all histories',
  'Which of the two gains applies depends on the running level; tests check new detectors with a few samples.',
  [A + 'peak_detector.rs', A + 'rms_detector.rs'], [('process, set_attack, set_release', 'src/analysis')], [('envelope, attack_gain, release_gain', 'level and gains', 'src/analysis')], ['process, get_attack_gain, get_release_gain'])
p('C13', 'Cookbook filters take exactly the cookbook coefficients and start clean',
  'For every sample rate, frequency below half of it, gain and positive quality (or shelf slope up to one), setting up a low-pass, high-pass, band-pass (both kinds), band-stop, all-pass, peak, low-shelf or high-shelf filter makes it process samples with the Audio EQ Cookbook coefficients of its kind, normalised, as a second-order filter. Setting it up also discards the memory of earlier samples.',
  ['inputs', 'configurations', 'histories'], 'all parameter values in the stated ranges, all later input sequences',
  'The formulas have to match as functions of the parameters; tests check one parameter set per filter at most.',
  rbj + [F + 'biquad.rs'], [('set_coefficients of each filter', 'src/filter/rbj')], [('biquad', 'the second-order section', 'src/filter/rbj')], ['process after set_coefficients'])
p('C14', 'Cookbook filters are stable and have their reference gains',
  'For every setting in range the cookbook filters are stable: both poles lie inside the unit circle. Their gains at zero frequency, at half the sample rate and at the set frequency are the defining ones (for example one, zero and the quality for the low-pass; the dB gain at the centre for the peak filter; the dB gain at zero for the low shelf), and the all-pass has gain one at every frequency.',
  ['inputs', 'configurations'], 'all sample rates, frequencies strictly between 0 and half the rate, gains, positive qualities, slopes in (0, 1]',
  'Stability and response are statements over the whole parameter space; no test looks at either.',
  rbj + [F + 'biquad.rs'], [('set_coefficients of each filter', 'src/filter/rbj')], [], ['impulse response after set_coefficients'])
p('C15', 'Window functions have their defining values',
  'The k-th value of a window of n samples is the textbook formula of its kind (triangular, Bartlett, Hann, Hamming, Blackman, Blackman-Harris), and 1 for n = 1. Hence all values lie between 0 and 1, every window is symmetric, and half-overlapping Hann and Bartlett (odd n), and triangular (even n) windows add up to one.',
  ['inputs', 'configurations'], 'all window lengths and all indices',
  'Tests compare a few values of one or two lengths; odd, even and tiny lengths behave differently.',
  win, [('next of each window iterator', 'src/window')], [('index, size', 'position and length', 'src/window')], ['values of the iterators'])
p('C16', 'Window iterators yield exactly n values and report what remains',
  'A window iterator for n samples yields exactly n values and then ends for good. At every point its length and both bounds of its size hint are exactly the number of values still to come, and asking for them consumes nothing.',
  ['inputs', 'histories'], 'all n including zero, every point of the iteration',
  'The remaining length has to be right after every number of steps; tests look at fresh iterators.',
  win, [('next, size_hint, len', 'src/window')], [('index, size', 'position and length', 'src/window')], ['next, len, size_hint'])
p('C17', 'Applying a window multiplies each sample by its window value',
  'Applying a window to a block multiplies the k-th sample by the k-th value of the window of that kind and of the length of the block, for every block length, and changes nothing else. The rectangular window leaves every block as it is.',
  ['inputs', 'configurations'], 'all window kinds, all block lengths including zero, all finite samples',
  'The correspondence of kind, length and index must hold for each; tests use a fixed block.',
  ['src/window/mod.rs'] + win, [('apply_window', 'src/window/mod.rs')], [], ['contents of the block'])
p('C18', 'Decibel conversions are inverse to each other above the floor',
  'Converting a sample level to decibels gives twenty times its base-ten logarithm, and exactly -120 for levels of one millionth or less; converting decibels to a level gives ten to the power of a twentieth, and exactly zero at -120 or below. The conversions therefore undo each other above the floor, and applying a gain multiplies the sample by it, which raises the level by the gain in decibels.',
  ['inputs'], 'all non-negative levels, all decibel values, all gains',
  'A continuous domain with a floor; tests check a few round values.',
  ['src/util/mod.rs'], [('to_db, to_sample, apply_gain', 'src/util/mod.rs')], [], ['return values'])
p('C19', 'No operation within its documented range panics or hangs',
  'No public operation panics, overflows, indexes out of bounds or fails to return, for any sample values (including NaN and infinities), any history and any arguments within the documented ranges: non-empty blocks, taps up to the maximum delay, delays that are not NaN, non-negative levels.',
  ['inputs', 'histories', 'configurations'], 'all public operations, sample values, histories and in-range arguments, in builds with overflow and debug checks on',
  'An out-of-range index or endless wrap loop appears at particular ring positions or values only.',
  flt + rbj + ana + dl + win + ['src/traits.rs', 'src/util/mod.rs', 'src/window/mod.rs'], [('index arithmetic of the delay lines, loops, casts', 'src/delay'), ('iterator loops', 'src/window, src/traits.rs')], [], ['normal return of every call'])
json_l = open('/verif/properties.jsonl', 'w')
for x in P: json_l.write(json.dumps(x) + '\n')
json_l.close()
NOTE = {
 'C01': 'All obligations discharged for any T whose finite arithmetic is real arithmetic; rounding and overflow of f32/f64 only sampled by the replay.',
 'C07': 'The f32 computation of the read position is modelled with rounding (axioms on rounding to f32); sample arithmetic over the reals. Memory below 2^24 samples.',
 'C14': 'Stability as the Jury conditions on the coefficients; gains as identities of numerator and denominator at the angle. Over the reals.',
 'C15': 'cos and pi are axiomatised (range, double and triple angle, reflection); values over the reals.',
 'C17': 'apply_window against the contracts of the window iterators, whose bodies C15 and C16 prove.',
 'C18': 'log10 and pow axiomatised as inverse, monotone; values over the reals.',
}
checks = []
for x in P:
    i = x['id']
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
      'evidence_file': 'evidence/%s.json' % i,
      'technique': 'deductive verification with Verus: contracts on functions extracted from /repo/src on every run; failing inputs searched on the real crate',
      'level': 'proof',
      'level_note': NOTE.get(i, 'Every obligation of the extracted functions discharged by Verus/Z3 over the reals; floating-point rounding is outside the proof and only sampled by the replay.')
        + ' Trusts Verus/Z3, the extractor and the assumed contracts of num/std in contracts/shim.rs. A function that leaves the verifier\'s reach after a change is checked by bounded replay instead and labelled so in the evidence.'})
json.dump({'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': [],
  'notes': 'No hooks in /repo: the checks read the source and use the public API only.'}, open('/verif/MANIFEST.json', 'w'), indent=1)
for x in P: assert len(x['title']) <= 80, x['title']
