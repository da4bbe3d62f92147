import extras
from props import prop, na, MEM, AI, PROOF_NOTE

# ---------------------------------------------------------------- memory views
prop('M01', 'Safe operations never touch memory outside the attached buffer',
     'No sequence of safe calls, on any buffer (also an empty or null one) and with any arguments including NaN and '
     'extreme offsets, reads or writes outside the attached buffer. Violations may neither come from a view, a delay '
     'line, a comb or all-pass filter, nor from an oscillator over a caller supplied table or one of the built-in lookup tables. '
     'A panic is an acceptable reaction to a bad argument, an out-of-bounds access never is.',
     ['inputs', 'histories'], 'all buffers and lengths, all arguments, all operation histories of the buffer-owning types',
     'The tests touch a handful of in-range indices of small fixed buffers; none passes an empty buffer, a negative or huge '
     'position, NaN, or exchanges a buffer against a shorter one.',
     [MEM, 'src/delay_line.rs', 'src/comb.rs', 'src/all_pass.rs', 'src/oscillator/osc_wavetable.rs', 'src/float/math.rs', 'src/float/interpolation.rs'],
     [('bounds comparisons in front of raw pointer access', MEM), ('position reset when the buffer is exchanged', 'src/delay_line.rs'),
      ('euclidean remainder by the length', MEM)],
     AI + ': every raw pointer access must provably lie inside its region (linear inequalities over symbolic lengths and indices, '
     'loop invariants for the operation histories).',
     'abstract interpretation of MIR (linear inequalities, loop invariants)',
     PROOF_NOTE + 'Fractional positions are analysed for buffers up to 2^24 samples; callers of unsafe functions and '
     'conflicting lifetimes of attached buffers are out of scope.', configs=['checked', 'release'])

prop('M02', 'Wrapped reads return the element at the index modulo the length',
     'For every non-empty buffer and every signed index a wrapped read returns the element whose position is the euclidean remainder of '
     'the index by the length. The four-element read returns the four elements at consecutive wrapped positions in order.',
     ['inputs'], 'all lengths >= 1 and all signed indices (four-element read: |index| <= 2^61)',
     'Tests use buffers of a few elements and a few indices near their ends; the identity quantifies over all lengths and indices.',
     [MEM], [('range test with fallback to the euclidean remainder', MEM)],
     AI + ': the address read must be equal to base + index.rem_euclid(len).',
     'abstract interpretation of MIR with congruence reasoning modulo the length', PROOF_NOTE)

prop('M03', 'Checked element access is exact: right element inside, an error outside',
     'A checked read or store succeeds if and only if the index is below the length; on success it reads or stores exactly that element, '
     'on failure it reports an index error and neither reads nor stores anything. All other elements keep their value.',
     ['inputs'], 'all lengths (including 0 and null views), all indices, all values',
     'Tests check single in-range and out-of-range indices of one buffer.',
     [MEM], [('index comparison', MEM)],
     AI + ': acceptance condition, value and store counts are compared with the definition on every path.',
     'abstract interpretation of MIR (value numbering, linear inequalities)', PROOF_NOTE)

prop('M04', 'A sub view stays inside its parent and aliases the requested range',
     'Every sub view that is handed out lies completely inside its parent, has the requested length, and element i of it is element '
     'offset+i of the parent for reads and stores. A range that does not fit is rejected with the error naming the offending part, for all '
     'offsets and lengths (also those whose sum overflows). Views of views compose.',
     ['inputs'], 'all parent lengths, offsets and lengths, also nested',
     'Tests use one parent of fixed size; overflow of offset+length and nesting are not reached.',
     [MEM], [('offset and remaining length comparison', MEM)],
     AI + ': the region of the new view must be included in the region of the parent.',
     'abstract interpretation of MIR (linear inequalities, pointer provenance)', PROOF_NOTE +
     'Ranges ending exactly at the end of the parent are rejected by the code today; the claim does not fix that either way.')

prop('M06', 'Linear reads interpolate between the right neighbours with the right weight',
     'A fractional read returns the left neighbour times one minus the fraction plus the right neighbour times the fraction, neighbours taken modulo '
     'the length for the wrapped variant, and whole positions return the sample itself. The checked variant succeeds exactly for positions between '
     'the first and the last element and reports an index error for everything else, including NaN.',
     ['inputs'], 'all lengths up to 2^24, all positions within +-2^24, all sample values up to 1e6 in magnitude',
     'Tests read two or three positions of one buffer.',
     [MEM, 'src/float/interpolation.rs'], [('floor, neighbour reads and lerp', MEM)],
     AI + ': result and definition are compared as real polynomials of the neighbours and the fraction.',
     'abstract interpretation of MIR (value numbering, polynomial identity)', PROOF_NOTE)

prop('M08', 'Attaching, rebinding, copying and converting views keep base and length',
     'A view made from a slice starts at its first sample and has its length, a null view is empty and null, and rebinding makes all later accesses '
     'go to the new slice only. Copies designate the same buffer, and conversion back to a slice returns the same base and length.',
     ['inputs', 'histories'], 'all slices, all earlier states of the view',
     'Tests compare one attached buffer with one rebound buffer.',
     [MEM, 'src/memory/mod.rs'], [('constructor and setter functions', MEM)],
     AI + ': pointer provenance and length of the results are compared symbolically.',
     'abstract interpretation of MIR (pointer provenance)', PROOF_NOTE)

# ---------------------------------------------------------------- delay based
DL = 'src/delay_line.rs'
prop('D01', 'A delay line returns every sample after exactly its length in steps',
     'From any reachable state, one write-and-advance step stores the sample at the position that was readable before the step and moves on by one position '
     'modulo the length, so each sample is returned exactly len steps after it was written. Nothing else is overwritten, advancing alone stores nothing, '
     'and an empty line is silent.',
     ['histories', 'inputs'], 'all lengths, all operation histories including buffer exchange, all samples',
     'The tests never let the position wrap around the end of the buffer or exchange the buffer.',
     [DL], [('position increment and wrap', DL)],
     AI + ': one step from an invariant covering every history, plus the complete input/output relation of lengths 1 to 4.',
     'abstract interpretation of MIR (inductive invariant over operation histories)', PROOF_NOTE)
prop('D02', 'Offset reads of a delay line are relative to its position modulo the length',
     'Reading at an offset returns the sample at position plus offset modulo the length, linear reads interpolate between the two and Lagrange reads through the five samples around that '
     'fractional position, and return the sample itself at whole offsets. Reading neither stores nor moves the position.',
     ['histories', 'inputs'], 'all lengths (fractional: up to 2^24, Lagrange 2^23), all positions, all offsets',
     'No test covers any offset read of the delay line.',
     [DL, MEM], [('position plus offset', DL)],
     AI + ': value read compared with the definition for every reachable position.',
     'abstract interpretation of MIR (congruences, polynomial identity)', PROOF_NOTE)
prop('D03', 'The comb filter follows its damped feedback recurrence',
     'Each output equals the sample stored len steps ago; each stored sample is the input plus feedback times a one-pole low-pass of the output whose weights are '
     'one minus damping and damping. Parameter changes take effect with the next sample, the defaults are one half each, and no other sample of the buffer changes.',
     ['histories', 'inputs'], 'all lengths, all histories of ticks, parameter changes and buffer exchange, all parameters and samples',
     'One test feeds an impulse through a two-sample comb with default parameters.',
     ['src/comb.rs', DL], [('tick', 'src/comb.rs')],
     AI + ': two steps from an invariant covering every history compared with the recurrence as real polynomials; full input/output relation for lengths 1 to 3.',
     'abstract interpretation of MIR (invariant, polynomial identity)', PROOF_NOTE)
prop('D04', 'The all-pass delay follows its recurrence',
     'Each output equals the sample stored len steps ago minus the input, and input plus half of the delayed sample is stored in its place. '
     'No other sample of the buffer changes.',
     ['histories', 'inputs'], 'all lengths, all histories, all samples',
     'One test feeds an impulse through a two-sample all-pass.',
     ['src/all_pass.rs', DL], [('tick', 'src/all_pass.rs')],
     AI + ': two steps from an invariant covering every history compared with the recurrence; full input/output relation for lengths 1 to 3.',
     'abstract interpretation of MIR (invariant, polynomial identity)', PROOF_NOTE)
prop('D05', 'Exchanging the buffer keeps position, settings and filter memory',
     'When a delay line, comb or all-pass filter is given another buffer, it goes on at its position if the new buffer has it and at the beginning otherwise, with the settings and the filter memory it had. '
     'The exchange itself stores nothing, later samples are read from and stored into the new buffer only.',
     ['histories', 'inputs'], 'all lengths of both buffers, all histories, all parameters and samples',
     'No test exchanges a buffer.',
     [DL, 'src/comb.rs', 'src/all_pass.rs'], [('change_buffer', DL)],
     AI + ': the step after an exchange is compared with the state before it, accesses of both buffers are counted.',
     'abstract interpretation of MIR (invariant, access counting, polynomial identity)', PROOF_NOTE)
prop('D06', 'Comb and all-pass filters stay bounded',
     'With an input within -1 to 1, a feedback below one in magnitude and a dampening between 0 and 1, set anew before each sample if wanted, a comb filter whose content and memory lie within 1/(1 - feedback) keeps them and its output there; an all-pass filter whose content lies within 2 keeps it there and its output within 3. '
     'So the filters never run away, however long they play.',
     ['histories', 'inputs'], 'all lengths, all inputs in range, feedback up to 0.99 of either sign, all dampings, changed every sample; real arithmetic (float rounding is not accumulated, see N05)',
     'Tests play eight samples.',
     ['src/comb.rs', 'src/all_pass.rs', DL], [('tick', 'src/comb.rs'), ('tick', 'src/all_pass.rs')],
     AI + ': the bound is an invariant: from any content and filter memory within it, stored values and outputs are bounded as multilinear polynomials over the box of inputs and settings.',
     'abstract interpretation of MIR (inductive bound, multilinear polynomials over a box)', PROOF_NOTE)

# ---------------------------------------------------------------- memory, continued
prop('M05', 'A read-only view can never be used to store',
     'No safe program can store through a view of a shared slice: the storing operations do not exist for it, it cannot be converted, copied, forged or passed '
     'where a mutable view is needed, and the operations that could break this need an unsafe block. No read operation of any view, nor a wavetable oscillator, ever stores into the buffer it reads.',
     ['programs', 'inputs', 'histories'], 'all programs of the families in /verif/witness; all arguments and lengths up to 2^24 for the read operations',
     'A test can only run programs that compile; that a program must not compile, or that no argument makes a read store, is not observable by one.',
     [MEM, 'src/memory/mod.rs', 'src/delay_line.rs', 'src/comb.rs', 'src/all_pass.rs'], [('marker types and the trait that only one of them implements', MEM)],
     'Compile-fail witnesses: 27 programs that the compiler must reject, each next to a twin that differs in the offending statement only and must be accepted. ' + AI +
     ': no path of a read operation reaches a store into the buffer.',
     'compile-fail witnesses with legal twins, and abstract interpretation of MIR (store effects)',
     'The witnesses are decided by the type checker on the current source. ' + PROOF_NOTE, extra=[extras.witness_m05])

prop('M07', 'Lagrange reads interpolate the samples around the position',
     'A Lagrange read with window W of a non-empty buffer is the value at the requested position of the polynomial through the W consecutive samples that start (W-1)/2 (rounded down) samples before the whole part of the position, all indices taken modulo the length, '
     'and returns the sample itself at whole positions. Windows below two samples act as two and above 100 as 100, the four point variant acts as window four, and '
     'no such read stores.',
     ['inputs'], 'lengths up to 2^24, windows 2 to 6 (whole positions also 8; single positions also 7 to 25; wider ones: which samples are read), positions within +-1e6 (fraction compared as a real number)',
     'Tests evaluate one position on one short buffer.',
     [MEM, 'src/float/interpolation.rs'], [('window gathering and evaluation', MEM)],
     AI + ': result and Lagrange formula are compared as polynomials of the samples and the fraction; the samples read are identified by their address modulo the length.',
     'abstract interpretation of MIR (congruences, polynomial identity)', PROOF_NOTE, limit=600)

prop('M09', 'Every sample access of a view or effect is volatile',
     'Every load and store of a sample made through a view, a delay line, a comb or all-pass filter or a wavetable oscillator is a volatile access, so a buffer that an interrupt or DMA changes is '
     'read and written exactly when the operation is called.',
     ['inputs', 'histories'], 'all operations, arguments, lengths and histories of the scenarios',
     'A plain and a volatile access of ordinary memory give the same value; a test cannot tell them apart.',
     [MEM], [('volatile reads and writes', MEM)],
     AI + ': every memory access of an attached buffer on every path is checked for volatility.',
     'effect analysis over MIR (access kinds on all paths)', PROOF_NOTE + 'Slices handed out by as_slice are plain slices and not covered.', limit=600)

# ---------------------------------------------------------------- biquad
BQ = 'src/biquad/mod.rs'
BW = 'src/biquad/butterworth.rs'
prop('B01', 'The biquad computes the second order difference equation',
     'Each output is b0*x[n] + b1*x[n-1] + b2*x[n-2] - a1*y[n-1] - a2*y[n-2], with zero history before the first sample, for all coefficients and any past. Processing changes no coefficient, and a filter '
     'without a design is silent.',
     ['histories', 'inputs'], 'all coefficients, all samples, all histories of processing and coefficient changes (real-number function)',
     'Tests compare coefficients of a few designs; process is never called with a checked result.',
     [BQ], [('transposed direct form', BQ)],
     AI + ': three steps from an invariant over every history, compared with the difference equation as polynomials in coefficients and samples.',
     'abstract interpretation of MIR (invariant, polynomial identity)', PROOF_NOTE)
prop('B02', 'Designed coefficients realise the requested response',
     'For every cutoff below half the rate, quality and gain, the designed coefficients have their poles at the tangent-prewarped cutoff with the requested quality and the gain of the named response: low pass one at DC and double zero at '
     'Nyquist, high pass the reverse, all-pass mirrored numerator, notch zero at the cutoff and one at both ends, bell and low shelf the requested linear boost or cut at the centre or DC and one elsewhere. '
     'The sign of the gain selects boost or cut.',
     ['inputs'], 'any previous design, fc from 1e-6 Hz to half the rate, rate 1 Hz to 100 MHz, Q 1e-6 to 1e6, linear gain +-1e-6 to +-1e6 (real-number function)',
     'Tests compare one parameter set per design with precomputed coefficients.',
     [BW, BQ], [('coefficient formulas', BW)],
     AI + ': the transfer function conditions at DC, Nyquist and the cutoff are checked as identities between rational functions of tan, Q, gain and its roots.',
     'abstract interpretation of MIR (rational function identities)', PROOF_NOTE + 'The tangent and square root themselves are the crate\'s approximations (B05).')
prop('B03', 'Every designed filter is stable',
     'For every cutoff below half the rate, quality and gain, both poles of each designed filter lie strictly inside the unit circle.',
     ['inputs'], 'fc from 1e-6 Hz to half the rate, rate 1 Hz to 100 MHz, Q 1e-6 to 1e6, linear gain +-1e-6 to +-1e6 (real-number function)',
     'Tests compare one parameter set per design with precomputed coefficients.',
     [BW], [('coefficient formulas', BW)],
     AI + ': the three Jury conditions are rational functions of positive quantities and proved positive coefficient by coefficient.',
     'abstract interpretation of MIR (positivity of rational functions)', PROOF_NOTE)
prop('B04', 'A redesign depends on the request only and keeps the signal memory',
     'The coefficients after a design call are the same whatever was designed or assigned before, and redesigning or assigning coefficients while running leaves the filter\'s signal memory as the samples processed '
     'so far made it.',
     ['histories', 'inputs'], 'all ten design calls, all earlier coefficients and histories, all arguments',
     'Tests design each filter once from a fresh coefficient set.',
     [BQ, BW], [('design functions', BW), ('process', BQ)],
     AI + ': two coefficient sets with unrelated pasts are designed alike and compared; the next output is compared with the memory the earlier samples left.',
     'abstract interpretation of MIR (two-run comparison, polynomial identity)', PROOF_NOTE)
prop('B05', 'The tangent used for prewarping is odd, increasing and positive',
     'The tangent approximation equals the Taylor series of the tangent up to x^15 on its working range, so it is odd, zero at zero, above its argument and strictly increasing for positive angles up to 2.',
     ['inputs'], 'angles within +-2 (real-number function)',
     'Tests evaluate a handful of angles.',
     ['src/float/math.rs'], [('polynomial', 'src/float/math.rs')],
     AI + ': identity of polynomials with the Taylor coefficients and positivity of the difference polynomial.',
     'abstract interpretation of MIR (polynomial identity and positivity)', PROOF_NOTE)

# ---------------------------------------------------------------- envelope
EN = 'src/envelope.rs'
prop('E01', 'The envelope output never leaves 0 to 1',
     'Whatever calls were made before, with whatever parameters except NaN, each output of the envelope lies between 0 and 1.',
     ['histories', 'inputs'], 'all call histories, all parameters but NaN, rates 1 mHz to 100 MHz',
     'Tests tick one envelope with one parameter set through one note.',
     [EN], [('tick', EN), ('clamped parameters', EN)],
     AI + ': the loop invariant over every call history bounds the output by intervals.',
     'abstract interpretation of MIR (inductive invariant, intervals)', PROOF_NOTE)
prop('E02', 'The envelope moves through its states in order only',
     'The envelope starts idle and silent; triggering always starts the attack, attack is followed by decay, decay by sustain, sustain lasts until released, releasing leads to release from any state but idle and release ends idle. '
     'Resetting returns to idle and silence at once, and setting parameters never changes the state.',
     ['histories', 'inputs'], 'all call histories, all parameters but NaN, rates 1 mHz to 100 MHz',
     'Tests follow one note through its states.',
     [EN], [('tick and trigger functions', EN)],
     AI + ': the transition relation of every call is enumerated from an invariant over all histories.',
     'abstract interpretation of MIR (typestate over inductive invariant)', PROOF_NOTE)
prop('E03', 'Envelope stages begin and end at the right level',
     'The attack ends at one, the decay stays above and ends at the sustain level, sustain gives the clamped sustain level as currently set, the release never rises above the level last heard before letting go (silence after a reset) and ends at zero, and idle gives zero.',
     ['histories', 'inputs'], 'all call histories, all parameters but NaN, rates 1 mHz to 100 MHz',
     'Tests check levels at a few sample numbers of one note with unchanged parameters.',
     [EN], [('tick', EN)],
     AI + ': the value returned by a tick is compared with the definition for every pair of states before and after it.',
     'abstract interpretation of MIR (inductive invariant, intervals)', PROOF_NOTE)
prop('E04', 'Envelope stages follow their power curves',
     'After n samples with n/(time*rate) = t the attack is at t^(1/slope), the decay at 1 - (1-sustain)*t^slope and the release at start*(1 - t^slope), the power computed by the math library. Letting go again while releasing changes nothing, and a new note always starts its attack from the beginning.',
     ['inputs', 'histories'], 'first eight samples of each stage, times 0.1 ms up to the limit of 2 s, slope 0.05 to 20, rate 1 Hz to 10 MHz, all sustain levels; restart, decay after a held attack and release after any history',
     'Tests use one slope and one time.',
     [EN], [('curve formulas', EN)],
     AI + ': outputs are compared with the formula as real expressions over the power function.',
     'abstract interpretation of MIR (value numbering, polynomial identity)', PROOF_NOTE)
prop('E05', 'Envelope stages last as long as set',
     'A stage whose time is a whole number of samples, up to the rounding of the time given, and at most two seconds is not over before that many samples and is over after at most one more.',
     ['inputs'], 'stage times of 1 to 5 and 8 samples at slopes 0.05 to 20, of 12 and 20 samples at slopes 0.5 to 2, of 2 to 4 samples off by up to a millionth; six rates from 1 kHz to 1 MHz; sustain 0.001 to 0.999',
     'Tests use one time.',
     [EN], [('increments', EN)],
     AI + ': unrolled to the end of each stage; the states on all paths are compared with the duration.',
     'abstract interpretation of MIR (path enumeration)', PROOF_NOTE)
prop('E06', 'Envelope setters equal construction with the same values',
     'An envelope whose parameters were set one by one after construction (rate first) behaves like one constructed with these values, for all values but NaN.',
     ['inputs'], 'all parameters but NaN including out of range ones, rates 1 mHz to 100 MHz, first samples of attack and release',
     'Tests use only the constructor.',
     [EN], [('constructor and setters', EN)],
     AI + ': outputs and states of both envelopes are compared.',
     'abstract interpretation of MIR (two-run comparison)', PROOF_NOTE)

prop('E07', 'Envelope parameters set during a stage act from the next sample on',
     'Setting the time of the running stage, the slope or, in the decay, the sustain level changes the curve from the next sample on without moving the position within the stage; setting any other parameter, or the same values again, leaves the running stage as it is.',
     ['inputs'], 'set after the second sample of each stage; times 0.1 ms up to 2 s, slope 0.05 to 20, rate 1 Hz to 10 MHz, all sustain levels, other parameters all but NaN',
     'Tests set parameters only while nothing is playing.',
     [EN], [('setters', EN), ('increments', EN)],
     AI + ': the third sample of each stage is compared with the formula for the changed parameters as a real expression over the power function.',
     'abstract interpretation of MIR (value numbering, polynomial identity)', PROOF_NOTE)

# ---------------------------------------------------------------- oscillators
PA = 'src/oscillator/phase_accumulator.rs'
OF = 'src/oscillator/osc_functional.rs'
OW = 'src/oscillator/osc_wavetable.rs'
prop('O01', 'The phase advances by frequency times 2^32 over the rate per sample',
     'Every phase step adds the same amount, frequency times 2^32 over the sample rate, modulo 2^32; the first phase is one step. New settings act from the next step on without a jump of the phase. A phase shift is added to the running phase without disturbing it.',
     ['histories', 'inputs'], 'all call histories, frequencies, rates and shifts (accuracy: 8 kHz to 400 kHz, up to 4 kHz)',
     'Tests read a few phases of one frequency; none lets the phase wrap after changes.',
     [PA], [('wrapping increment', PA)],
     AI + ': phases compared as 32 bit words after any history.',
     'abstract interpretation of MIR (value numbering modulo 2^32)', PROOF_NOTE)
prop('O02', 'The normalised phase lies in [0, 1)',
     'After any history the normalised phase is not negative and strictly below one, and equals the integer phase over 2^32 up to the precision of a float.',
     ['histories', 'inputs'], 'all call histories, frequencies, rates (also NaN and infinite) and shifts',
     'Only phases within 128 of the wrap round up to one; tests never get there.',
     [PA], [('conversion of the counter', PA)],
     AI + ': interval of the converted word including rounding.',
     'abstract interpretation of MIR (intervals with float rounding)', PROOF_NOTE)
prop('O03', 'Checked frequency setting accepts exactly positive playable frequencies',
     'Setting a frequency through the checked call succeeds exactly for positive frequencies up to half a period per sample and reports zero, negative and too high frequencies with their own error. An accepted frequency is used from the next sample on, a rejected one changes nothing.',
     ['histories', 'inputs'], 'all call histories, all frequencies, rates 1 Hz to 100 MHz',
     'Tests check the error of three frequencies and never whether the oscillator plays the accepted one.',
     [PA], [('set_freq', PA)],
     AI + ': acceptance condition on every path and phase difference afterwards.',
     'abstract interpretation of MIR (path conditions, value numbering)', PROOF_NOTE + 'The limit is compared up to the rounding of a float (0.02%).')
prop('O04', 'Oscillator outputs stay between -1 and 1',
     'Whatever was called before, rectangle, sawtooth and triangle outputs lie between -1 and 1; the sine output stays within 0.02 of the sine of the phase.',
     ['histories', 'inputs'], 'all call histories and parameters; sine: every phase in 256 parts of the period',
     'Tests check a handful of samples.',
     [OF], [('waveform formulas', OF)],
     AI + ': intervals from an invariant over every history; the sine is partitioned over the phase.',
     'abstract interpretation of MIR (inductive invariant, intervals, partitioning)', PROOF_NOTE)
prop('O05', 'Each waveform is its defined function of the phase',
     'Each sample takes exactly one phase step and returns: sawtooth 2p-1, rectangle -1 below half a period and 1 from there, triangle rising from -1 to 1 and back, sine the sine of 2 pi p. A new oscillator is a sine, and the waveform can be changed at any sample without moving the phase.',
     ['inputs', 'histories'], 'all call histories, all phases in [0, 1)',
     'Tests check a few phases and one waveform per oscillator.',
     [OF], [('waveform formulas', OF)],
     AI + ': output compared with the definition as a polynomial of the phase; calls of the phase source are counted.',
     'abstract interpretation of MIR (polynomial identity, call counting)', PROOF_NOTE)
prop('O06', 'The wavetable oscillator reads its table at the phase',
     'Each sample takes one phase step and is the table linearly interpolated at phase times length, the last element followed by the first. It lies between the smallest and largest table value after any history, and the table is never written.',
     ['inputs', 'histories'], 'all table lengths 1 to 2^20, contents and phases, all call histories',
     'Tests use one table and a few phases.',
     [OW], [('table read', OW)],
     AI + ': interpolation compared as a polynomial of neighbours and fraction; range by loop invariant.',
     'abstract interpretation of MIR (polynomial identity, inductive invariant)', PROOF_NOTE)
prop('O07', 'Oscillator setters reach the phase source and nothing else',
     'Frequency and rate given to either oscillator reach its phase source unchanged, a shift of s periods arrives as s times 2^32, and nothing else is touched. An oscillator is thus always at the phase its source would have if used directly.',
     ['inputs', 'histories'], 'all call histories, all frequencies and rates, shifts in [0, 1)',
     'Tests never call the setters of an oscillator.',
     [OF, OW], [('forwarding setters', OF)],
     AI + ': calls of the phase source are recorded and compared.',
     'abstract interpretation of MIR (value numbering, call counting)', PROOF_NOTE)

# ---------------------------------------------------------------- float helpers
FC = 'src/float/conversion.rs'
FM = 'src/float/math.rs'
FI = 'src/float/interpolation.rs'
prop('F01', 'Raw word conversion is the exact IEEE 754 bit pattern',
     'Converting a float to its raw word gives its IEEE 754 bits, and both round trips are exact for every value and every word.',
     ['inputs'], 'all floats and all 32 bit words',
     'Tests convert a few values.', [FC], [('transmute style conversion', FC)],
     AI + ': values compared as bit vectors with provenance.', 'abstract interpretation of MIR (bit provenance)', PROOF_NOTE)
prop('F02', 'Splitting a float into fields and joining them is exact',
     'Sign, exponent and mantissa are bit 31, bits 23 to 30 and bits 0 to 22 of the word, joining puts them back at these positions, and split and join are inverse in both directions, for words and for floats.',
     ['inputs'], 'all 32 bit words, all floats, all signs, exponents and mantissas below 2^23',
     'Tests split a few values.', [FC], [('register fields', FC)],
     AI + ': each bit of the result is traced to a bit of the input.', 'abstract interpretation of MIR (bit provenance)', PROOF_NOTE)
prop('F03', 'Bit depth reduction clears exactly the requested low bits',
     'Reduction by d bits is accepted exactly for d up to 30 and inputs within -1 to 1, with the matching error otherwise. It clears the lowest d bits of the magnitude in 31 bit fixed point, is odd, never increases the magnitude and is off by less than one step; d of zero changes nothing.',
     ['inputs'], 'all depths, all inputs but NaN', 'Tests use a few depths and values.',
     ['src/float/bit_manipulation.rs'], [('masking', 'src/float/bit_manipulation.rs')],
     AI + ': value compared with the definition, error by intervals for each depth.', 'abstract interpretation of MIR (bit provenance, intervals)', PROOF_NOTE)
prop('F04', 'Mantissa reduction clears mantissa bits only',
     'Mantissa reduction is accepted exactly for depths up to 23; sign and exponent stay and exactly the lowest d mantissa bits become zero.',
     ['inputs'], 'all depths, all inputs but NaN', 'Tests use a few depths and values.',
     ['src/float/bit_manipulation.rs'], [('masking', 'src/float/bit_manipulation.rs')],
     AI + ': each bit of the result is traced to a bit of the input.', 'abstract interpretation of MIR (bit provenance)', PROOF_NOTE)
prop('F05', 'Linear interpolation is linear, exact at its ends and guarded',
     'The checked interpolation accepts exactly finite ends and weights in 0 to 1 and reports NaN, infinity and range with their own error. The result is a + (b-a)*t: a at weight 0, b at weight 1, the common value for equal ends, and never outside the ends.',
     ['inputs'], 'all ends and weights including NaN and infinity', 'Tests use a few values.',
     [FI], [('checks and formula', FI)],
     AI + ': acceptance on every path, polynomial identity, intervals.', 'abstract interpretation of MIR (path conditions, polynomial identity)', PROOF_NOTE)
prop('F06', 'Sample, second and millisecond conversions are inverse',
     'Converting samples to seconds or milliseconds and back is the identity in both directions, a second is 1000 milliseconds and sample-rate many samples.',
     ['inputs'], 'all values, rates 1 mHz to 1 GHz (real-number function)', 'Tests convert a few values.',
     ['src/float/dsp_util.rs'], [('conversions', 'src/float/dsp_util.rs')],
     AI + ': rational function identities.', 'abstract interpretation of MIR (rational function identities)', PROOF_NOTE)
prop('F07', 'Scalar functions satisfy their defining identities',
     'sinh + cosh = exp, cosh - sinh = exp of the negative, their and tanh\'s parity hold, tanh is sinh over cosh with the exponential\'s series up to x^2, sinc is sin(x)/x with limit one at zero, the cosine is the sine shifted by a quarter period, fast tan is the Taylor series up to x^15. '
     'The sine stays within 0.01 of the true sine over two periods.',
     ['inputs'], 'arguments within +-80 (exponential), +-1e6 (tanh, sinc, cos), +-10 (tan), -1.5 to 2.5 half waves (sine accuracy)', 'Tests evaluate a few points.',
     [FM, 'src/fixed_point/math.rs'], [('functions', FM)],
     AI + ': identities between rational functions of the underlying exponential and sine; sine accuracy by intervals over a partition of the argument.',
     'abstract interpretation of MIR (rational function identities, intervals)', PROOF_NOTE + 'exp is the math library\'s approximation, used consistently.')
prop('F08', 'The sine integral is Simpson\'s rule over 1000 intervals',
     'The sine integral equals the composite Simpson rule with weights 1 4 2 4 ... 4 1 over 1000 intervals of sinc from zero to the argument, for either sign.',
     ['inputs'], 'zero and arguments with magnitude 1e-6 to 1e6 (real-number function over the crate\'s sine)', 'Tests accept a large tolerance at a few points.',
     ['src/float/integral.rs'], [('integration', 'src/float/integral.rs')],
     AI + ': the loop is unrolled over the 1001 nodes and each node\'s weight compared.', 'abstract interpretation of MIR (polynomial identity)', PROOF_NOTE, limit=600)
prop('F09', 'The fixed point sine never overflows and keeps its accuracy',
     'For every phase and degree the fixed point sine computes without overflow, degrees above four act as four, and its error against the sine stays below 0.4% of full scale for degrees 3 and 4, 1% for 2, 8.5% for 1 and 17% for 0. The unchecked variant gives the same values up to degree four.',
     ['inputs'], 'all 65536 phases (as 1024 intervals), all degrees', 'Tests evaluate a few phases.',
     ['src/fixed_point/math.rs'], [('polynomials', 'src/fixed_point/math.rs')],
     AI + ': intervals over a partition of the phase against the sine\'s values at the partition points; overflow checks are obligations.',
     'abstract interpretation of MIR (intervals, partitioning)', PROOF_NOTE)
prop('F10', 'Lagrange interpolation reproduces samples, lines and parabolas',
     'Interpolating at a whole position returns the sample there, samples on a straight line reproduce the line and three or more samples on a parabola reproduce the parabola at every position. A position behind the last sample is refused by a panic. The variant for four samples computes the same.',
     ['inputs'], '1 to 8 samples (lines 2 to 6), positions down to -1e6; up to 25 samples at single positions (real-number function)', 'Tests evaluate a few positions of one sample set.',
     [FI], [('Lagrange basis', FI)],
     AI + ': polynomial identities in samples and position.', 'abstract interpretation of MIR (polynomial identity)', PROOF_NOTE)
prop('F11', 'Table based waveforms are bounded, zero outside and symmetric',
     'The band limited rectangle lies within +-1.2, is zero outside the open period, not negative in the first and not positive in the second half, the second half is the negated first, each half is symmetric, and 2% of a period away from its edges it is a plateau between 0.75 and 0.9. The table sine lies between -1 and 1 and follows the sine within 0.13.',
     ['inputs'], 'all arguments (table sine: within +-1e6)', 'Tests evaluate a few arguments.',
     [FM, 'src/oscillator/lookup_tables'], [('table lookup', FM)],
     AI + ': the table entries reachable for each argument interval are bounded; symmetric arguments read the same entries.',
     'abstract interpretation of MIR (intervals over table contents)', PROOF_NOTE)

# ---------------------------------------------------------------- stereo, level, clipping
prop('S01', 'Checked panning accepts exactly amounts from -1 to 1',
     'Checked mono and stereo panning succeed exactly for amounts from -1 to 1, report amounts below as too far left and above as too far right, and compute the same as the unchecked functions.',
     ['inputs'], 'all amounts but NaN, all samples', 'Tests check one amount on each side.',
     ['src/stereo.rs'], [('range check', 'src/stereo.rs')],
     AI + ': acceptance on every path and equality of results.', 'abstract interpretation of MIR (path conditions, value numbering)', PROOF_NOTE)
prop('S02', 'Panning is symmetric, separate per channel and preserves level',
     'Mono panning distributes the input so that both channels add up to it and differ by amount times input; stereo panning scales each channel by the root of its linear gain and lets no channel leak into the other. Mirroring the amount swaps the channels, and gains lie between 0 and 1.',
     ['inputs'], 'amounts from -1 to 1, samples within +-1e30', 'Tests check the centre and the ends.',
     ['src/stereo.rs'], [('gain formulas', 'src/stereo.rs')],
     AI + ': polynomial identities and intervals.', 'abstract interpretation of MIR (polynomial identity, intervals)', PROOF_NOTE)
prop('S03', 'The crossfade mixes with linear weights that sum to one',
     'The crossfade is the first signal times (1-a)/2 plus the second times (1+a)/2: each end gives one signal alone, equal signals pass unchanged, and the result stays between the signals.',
     ['inputs'], 'amounts from -1 to 1, samples within +-1e30', 'Tests check three amounts.',
     ['src/stereo.rs'], [('weights', 'src/stereo.rs')],
     AI + ': polynomial identities and intervals.', 'abstract interpretation of MIR (polynomial identity, intervals)', PROOF_NOTE)
prop('G01', 'Decibel conversion classifies silence, NaN and infinity correctly',
     'Zero maps to minus infinity, positive finite ratios to a finite level, infinity to infinity, and negative ratios and NaN to NaN. The plain result call fails exactly where there is no level, the checked one also for silence, each with the matching category; in range levels are 20 log10 and the inverse is 10^(d/20).',
     ['inputs'], 'all floats (formulas: ratios from 1e-37, levels up to 760 dB)', 'Tests check a few finite ratios and specials.',
     ['src/decibels.rs'], [('classification', 'src/decibels.rs')],
     AI + ': every float class is followed through every path.', 'abstract interpretation of MIR (float classes, path conditions)', PROOF_NOTE + 'log10 and powf are the math library\'s approximations.')
prop('L01', 'Clipping limits to the range -1 to 1',
     'Every clipping function returns a value between -1 and 1 for every input but NaN, and the nearer bound outside that range. Hard clipping leaves the range itself alone.',
     ['inputs'], 'all inputs but NaN, all shape parameters', 'Tests check hard clipping at a few inputs.',
     ['src/clipping.rs'], [('limits', 'src/clipping.rs')],
     AI + ': intervals and path conditions.', 'abstract interpretation of MIR (intervals, path conditions)', PROOF_NOTE + 'The soft clippers are unfinished inside the range (known findings).')

# ---------------------------------------------------------------- cross-cutting
prop('R01', 'Audio processing never panics',
     'No per-sample or parameter call on a non-empty buffer panics after any history with any float argument including NaN: delay lines, comb and all-pass filters, biquads, envelopes (NaN excluded), oscillators, phase accumulators, views, scalar helpers. Delay lines and checked view reads tolerate even an empty buffer.',
     ['histories', 'inputs'], 'all histories and arguments; fractional reads up to 2^24 samples, Lagrange positions within +-1e6, integer offsets within +-2^61; design parameters and envelope rates as in B02 and E01',
     'A panic takes a rare argument or history; tests run ordinary ones, and in the checked build only.',
     ['src/delay_line.rs', 'src/comb.rs', 'src/all_pass.rs', BQ, EN, OF, OW, PA, MEM, 'src/stereo.rs', FM], [('overflow, bounds and unwrap sites', MEM)],
     AI + ': every assertion, overflow check, bounds check and panic call of the MIR is an obligation to be unreachable.',
     'abstract interpretation of MIR (panic reachability)', PROOF_NOTE, limit=600)
prop('R02', 'The library needs nothing but core: no heap, OS, recursion or globals',
     'The crate type checks for targets without an operating system on top of core alone. All code reachable from its interface lies in core and its two dependencies, no function is recursive, and there is no process wide mutable state.',
     ['programs', 'configurations'], 'bare metal ARM (thorough: also ARMv6-M, RISC-V and AArch64); every function reachable from the scenarios',
     'Tests run on a hosted target with a heap and an operating system.',
     ['src/lib.rs', 'Cargo.toml'], [('no_std', 'src/lib.rs')],
     'The crate is type checked for bare metal targets with core only; the call graph of the monomorphised MIR is searched for foreign crates and cycles, the items for statics with interior or plain mutability.',
     'target type check with core only, call graph analysis', 'Decided on the type-checked program and its complete call graph.', extra=[extras.bare_metal, extras.call_graph], release=False)
prop('R03', 'Types shared with C keep their declared layout',
     'The state types and enumerations that are declared C compatible stay so; waveform, filter type and envelope state keep their numbers, the five biquad coefficients stay at the front in the order b0 b1 b2 a1 a2, a view is a pointer and a length and its marker types are transparent.',
     ['programs', 'configurations'], 'all types named', 'A layout is fixed at compile time; no test inspects it.',
     ['src/oscillator/mod.rs', BW, BQ, EN, MEM, 'src/memory/mod.rs'], [('repr attributes and declaration order', MEM)],
     'Representation attributes, discriminants, sizes and field offsets that the compiler computed for the current source are compared with the table.',
     'query over the compiler\'s layout results', 'Decided by the layout the compiler computed.', extra=[extras.layout], release=False)
prop('R04', 'Checked functions compute what their unchecked siblings compute',
     'Whatever a checked operation accepts, it computes exactly as its unchecked sibling does: element access, stores, linear reads, four point Lagrange, scalar interpolation, bit reduction, panning, decibels and frequency setting. Inside the buffer wrapped and plain reads agree.',
     ['inputs'], 'all accepted arguments (Lagrange: lengths 4 to 2^20)', 'Tests compare neither on the same argument.',
     [MEM, FI, 'src/float/bit_manipulation.rs', 'src/stereo.rs', 'src/decibels.rs', PA], [('sibling functions', MEM)],
     AI + ': both results are compared symbolically.', 'abstract interpretation of MIR (two-run comparison)', PROOF_NOTE)
prop('R05', 'Instances do not influence each other',
     'An instance of a delay line, comb or all-pass filter, oscillator, biquad or envelope gives the outputs it would give alone, whatever other instances over other buffers do in between.',
     ['histories', 'inputs'], 'all lengths, samples and parameters; all histories of the other instance', 'Tests use one instance at a time.',
     ['src/delay_line.rs', 'src/comb.rs', 'src/all_pass.rs', OF, BQ, EN], [('state held in the instance only', 'src/comb.rs')],
     AI + ': stores into foreign buffers are counted, outputs compared with a twin that was left alone.', 'abstract interpretation of MIR (non-interference)', PROOF_NOTE)
prop('R06', 'Copies keep position and settings and share the buffer',
     'Delay lines, combs and all-pass filters can be copied, and a copy starts at the same position with the same settings and filter memory on the same buffer, and moves on its own from there.',
     ['histories', 'inputs'], 'all lengths, all histories before the copy', 'Tests never copy an instance.',
     ['src/delay_line.rs', 'src/comb.rs', 'src/all_pass.rs'], [('clone', 'src/delay_line.rs')],
     AI + ': the next step of copy and original are compared. A program that copies each type must type check.', 'abstract interpretation of MIR (two-run comparison)', PROOF_NOTE, extra=[extras.witness_r06])
prop('R07', 'Processors can be moved to the thread or interrupt that uses them',
     'Views, delay lines, comb and all-pass filters, biquads, envelopes, and oscillators are Send and can be put into statics guarded by a lock, and views and coefficients can be copied where documented so.',
     ['programs'], 'the accepted programs in /verif/witness', 'The existing tests never move an instance to another thread.',
     [MEM, 'src/delay_line.rs'], [('Send implementation', MEM)],
     'Programs that need the property must type check against the current source.', 'type-level witnesses', 'Decided by the type checker.', extra=[extras.witness_r07], release=False)

prop('R08', 'Every per-sample call does a bounded amount of work',
     'After any history and for all arguments, a call of a delay line, comb or all-pass filter, biquad (processing and designing), envelope, oscillator, phase accumulator, view or scalar helper returns after at most 128 rounds of every loop in it: no loop runs as often as the buffer is long, the position is far, the phase is large or the history was. Reading with a Lagrange window of 3, 5 or 100 positions counts as such a call; the sine integral, which sums 1000 points, does not.',
     ['inputs', 'histories', 'configurations'], 'all histories and arguments (Lagrange positions within 1e6, offsets within 2^61)', 'Tests finish whatever the cost: they use small buffers and near positions.',
     [MEM, 'src/delay_line.rs', 'src/comb.rs', BQ, EN, 'src/oscillator.rs', PA, FM], [('wrapped access', MEM), ('per-sample calls', 'src/delay_line.rs')],
     'In the abstract run of every scenario each arrival at a loop header of the library is counted per path; a path that can arrive more than 128 times in one call is the violation.', 'abstract interpretation with loop bounds', 'Paths are followed round by round under the relational facts; a loop whose exit depends on an unbounded quantity exceeds the bound.')

prop('R09', 'Asking a processor changes nothing',
     'Asking an envelope for its state, a delay line, comb or all-pass filter for its raw buffer or length, or a view for its base, length or a part of it stores no sample and, after any history, changes nothing that later calls return.',
     ['histories', 'inputs'], 'all histories before the question; buffers of two samples for delay line and filters, all lengths for views', 'Tests never ask between two samples.',
     ['src/delay_line.rs', 'src/comb.rs', 'src/all_pass.rs', EN, MEM], [('get_state', EN), ('get_ptr_slice_mut', 'src/delay_line.rs')],
     AI + ': a twin made just before the question goes on without it and both are compared.', 'abstract interpretation of MIR (two-run comparison)', PROOF_NOTE)

# ---------------------------------------------------------------- not applicable
na('N01', 'Data races on a shared buffer cannot occur',
   'Two views of the same buffer used from different threads or interrupts never race.',
   ['schedules'], 'all interleavings', 'Tests are single threaded.', [MEM], [('Send implementation', MEM)],
   'Not a property of this code: views are Copy and Send by design (interrupt and DMA sharing), so any program may alias a buffer across threads. No source-level argument inside the crate can exclude the race; R07 and M09 decide the parts the crate does promise.')
na('N02', 'An attached buffer outlives its view',
   'A view is never used after the slice it was made from is gone.',
   ['programs'], 'all client programs', 'Tests keep their buffers alive.', [MEM], [('raw pointer in the view', MEM)],
   'Not a property of this code: views carry no lifetime and the documentation restricts them to static memory, so safe clients can break it; there is no violation inside /repo a static check could point at.')
na('N03', 'Math library approximations stay close to the real functions',
   'Decibels, envelope powers, exponentials and square roots stay within a stated error of the real logarithm, power, exponential and root.',
   ['inputs'], 'all floats', 'Tests sample a few values.', ['src/decibels.rs', EN, FM], [('micromath calls', FM)],
   'The error comes from bit-level approximations in the external math crate (integer arithmetic on the float representation, table free inverse), whose relational error bounds need a solver or exhaustive evaluation; abstract interpretation only gives uselessly wide bounds. The crate\'s own formulas around these calls are decided in B02, E04, F07 and G01.')
na('N04', 'Envelope stages are strictly monotone',
   'Within a stage each output is strictly above (attack) or below (decay, release) the one before.',
   ['histories'], 'all parameters and sample counts', 'Tests check a few samples.', [EN], [('power curves', EN)],
   'Depends on strict monotonicity of the math library\'s power approximation, which is not monotone at float resolution; bounds and end points are decided in E01, E03 and E04.')
na('N05', 'Float rounding in recursive filters stays bounded over time',
   'Accumulated rounding of biquads, combs and all-pass filters stays below an audible level for every signal.',
   ['histories'], 'all signals of all lengths', 'Tests process a few samples.', [BQ, 'src/comb.rs'], [('recursions', BQ)],
   'Quantifies over unbounded signals and coefficient-dependent error gain near the unit circle; interval analysis of the recursion diverges for admissible coefficients. The real-number recurrences are decided in B01, D03 and D04.')
na('N06', 'Every call finishes within a fixed time',
   'Each per-sample call takes a bounded number of cycles on the target.',
   ['inputs', 'configurations'], 'all targets', 'Tests measure nothing.', ['src/lib.rs'], [('all per-sample functions', 'src/lib.rs')],
   'Cycle bounds depend on the target\'s instruction timing, memory and code generation, none of which the source determines; the number of rounds of every loop is decided in R08 and the absence of recursion in R02.')
