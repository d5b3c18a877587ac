#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)
    if state: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))
B='specula/'; D='specula/data_objects/'; L='specula/lib/'; O='specula/processing_objects/'

prop('C01','Simulation time conversion is exact to the nanosecond',
 'A duration given in seconds is converted to the simulator\'s integer nanosecond time as the nearest nanosecond, so every duration that is a whole number of nanoseconds converts to exactly that number. Converting a time back to seconds and forth again returns the same time. The same holds for every quantity built on it (time steps, exposure times, start times, delays expressed as times).',
 ['inputs'],'every duration of 0..10^13 ns (about 2.8 h) given as the closest double to k*1e-9',
 'Unit tests convert a handful of round values (1 ms, 2 ms); the conversions that go wrong depend on the rounding of individual doubles.',
 [B+'base_time_obj.py',B+'loop_control.py'],[('seconds_to_t / t_to_seconds','specula/base_time_obj.py: BaseTimeObj')],
 ['return values of the conversion','time stamps of outputs'])

prop('C02','The main loop visits exactly the time steps of the requested run',
 'A run of duration T with step dt starting at t0 executes one iteration at each time t0, t0+dt, t0+2dt, ... strictly below t0+T, and no other; every object of the loop is offered each of these times exactly once, in the order of its trigger group, and is set up once before and finalised once after. The iteration treated as the last one (in which values that nobody would receive any more are not sent to other processes) is the one actually last, for every T, dt and t0.',
 ['inputs','configurations'],'all T, dt, t0 in nanoseconds with at most 6 iterations, several objects in several trigger groups',
 'Tests use run times that are multiples of the step and start at zero.',
 [B+'loop_control.py'],[('niters, run, start, iter, finish','specula/loop_control.py: LoopControl')],
 ['sequence of check/trigger/post-trigger/finalise calls and their times','which iterations skip delayed sends'])

prop('C03','Execution order respects every data dependency and every delayed link',
 'For every set of objects and connections, an object executes in a later trigger group than every object supplying one of its undelayed inputs, and in an earlier group than the supplier of each of its delayed inputs; each object appears exactly once. When undelayed connections form a cycle the configuration is never silently given a wrong order: it is rejected or the objects involved are left out and reported.',
 ['configurations'],'every directed connection graph over up to 4 objects, each ordered pair unconnected, connected or connected with one step of delay, with scalar and list inputs',
 'Tests order two or three hand-written configurations; the graphs that break an ordering algorithm are combinations of delayed and undelayed links.',
 [B+'simul.py'],[('build_trigger_order, is_leaf, has_delayed_output, remove_inputs','specula/simul.py: Simul')],
 ['the computed order and group indices','raised errors'])

prop('C04','A step uses this step\'s values, and the previous step\'s on delayed links',
 'In every iteration an object reading another one\'s output through an ordinary connection works on the value produced in that same iteration, while an object reading it through a one-step-delayed connection works on the value the producer had at the end of the previous iteration (its initial value in the first one). This holds for every configuration the simulator accepts and for every value computed on the way.',
 ['configurations','histories'],'closed-loop configurations built from parameter dictionaries and executed through the real builder, connector and loop for up to 4 steps, with symbolic signals, gains and matrices',
 'End-to-end tests check that a run finishes or compare one final number.',
 [B+'simul.py',B+'loop_control.py',B+'connections.py',B+'base_processing_obj.py',O+'base_slicer.py'],
 [('trigger order + shared output references','specula/simul.py, specula/connections.py'),('slicing into own storage','specula/processing_objects/base_slicer.py')],
 ['values of outputs at each step'])

prop('C05','An object runs in a step exactly when one of its inputs was refreshed',
 'In each step an object executes (prepare, trigger, post-trigger, once each and in this order) if it has no inputs, if all its inputs are optional single values and unset, or if at least one connected input carries data generated at the current time or later; otherwise it does not execute and its outputs, including their generation time, keep their previous content. Calling trigger or post-trigger without such a refresh is refused.',
 ['histories','inputs'],'up to 3 inputs (single, list, optional, unset) with arbitrary generation times and up to 3 consecutive steps',
 'Tests exercise one refreshed and one stale input at fixed times.',
 [B+'base_processing_obj.py',B+'connections.py',B+'loop_control.py'],[('checkInputTimes, check_ready, trigger, post_trigger','specula/base_processing_obj.py')],
 ['executed callbacks','outputs and their generation times'])

prop('C06','Inputs are wired to exactly the outputs named in the configuration',
 'Every input of every object ends up connected to precisely the outputs its configuration names, in the listed order and with nested lists flattened; a name that does not exist, a value of the wrong type, a missing mandatory input or several values on a single-value input is an error and never a silent substitution.',
 ['configurations'],'up to 3 producers with single and list outputs and a consumer with single, list, optional and mandatory inputs; every assignment of inputs to producer outputs',
 'Tests wire a few fixed configurations.',
 [B+'simul.py',B+'connections.py'],[('split_output, connect, connect_objects, create_input_list_inputs','specula/simul.py'),('InputList, InputValue','specula/connections.py')],
 ['identity of the objects seen by a consumer','errors'])

prop('C07','Combining parameter files applies exactly the requested changes',
 'Combining a base configuration with further ones adds new objects, replaces only the fields named in an override, and removes an object together with every reference other objects\' inputs make to it; entries carrying a simulation index apply only to the run with that index. Everything not named stays as it was, and unknown names or duplicate definitions are rejected.',
 ['configurations'],'a base configuration of 3 objects with scalar and list inputs; every combination of added, overridden, removed and index-suffixed entries and every simulation index in range',
 'Tests cover one example of each operation, never their combinations.',
 [B+'simul.py'],[('combine_params, remove_inputs, apply_overrides','specula/simul.py')],['the resulting configuration','errors'])

prop('C08','A replay configuration serves every recorded output from the recording',
 'The replay configuration derived from a simulation keeps exactly the objects that must still be computed, and each of their inputs that was recorded is read from the recording under the name it was recorded with, while every other input is untouched. The original configuration is never altered, and requesting particular target objects brings in everything they depend on and nothing else.',
 ['configurations'],'configurations of up to 5 objects with scalar and list inputs, every subset of recorded outputs, every choice of targets',
 'Tests use two fixed parameter files.',
 [B+'simul.py'],[('build_replay, build_targeted_replay, data_store_to_data_source','specula/simul.py')],['the derived configuration','the original one'])

prop('C09','Recorded data is stored and replayed sample by sample, time by time',
 'Storing an output records one entry for each recorded step in which it was generated, with its value at that moment and its exact generation time, and only every n-th one when downsampling by n is requested; splitting the recording in files loses and duplicates nothing. Reading it back emits each recorded value at the step whose time equals the recorded one and leaves the output unrefreshed at every other step.',
 ['histories','inputs'],'up to 4 steps with an arbitrary pattern of refreshed steps, arbitrary values and step lengths, downsampling 1..3, both storage formats, file splitting on and off',
 'Tests record a constant at a few small times; losses appear for large time stamps, sparse histories and chunk boundaries.',
 [O+'data_store.py',O+'data_source.py',O+'data_buffer.py'],[('trigger_code, finalize, save_*','specula/processing_objects/data_store.py'),('loadFromFile, prepare_trigger','specula/processing_objects/data_source.py')],
 ['the content handed to the file writers','outputs of the replaying object'])

prop('C10','A digital filter produces the output of its difference equation',
 'A filter whose numerator and denominator coefficients are b and a produces, mode by mode and for every input history, the sequence y with sum(a_k y[n-k]) = sum(b_k x[n-k]) starting from rest, scaled by the gain modulation if there is one; modes never influence each other. Resetting it restores the at-rest state, and changing the gain affects only later steps.',
 ['histories','inputs'],'orders up to 3, 1-3 modes, 4-6 steps, arbitrary inputs, coefficients and gain modulation; integrators with forgetting factors, low-pass filters, dynamic variants',
 'Tests feed constants and steps to one or two filters.',
 [O+'base_filter.py',O+'iir_filter.py',O+'integrator.py',O+'dynamic_integrator.py',O+'dynamic_iir_filter.py',O+'low_pass_filter.py',D+'iir_filter_data.py'],
 [('trigger_code, reset_states','specula/processing_objects/iir_filter.py'),('set_num/set_den/set_gain','specula/data_objects/iir_filter_data.py')],
 ['output command at each step'],[('state','delay buffer of past inputs and outputs','iir_filter.py')])

prop('C11','A control delay of d steps shifts commands by exactly d steps',
 'The delayed output of a control filter at step n is its undelayed output at step n-d for a whole number d, and for a fractional delay the linear interpolation between the two neighbouring steps; before enough history exists it is zero. The undelayed output is unaffected by the delay.',
 ['histories','inputs'],'delays 0..3 including every fraction, up to 6 steps, arbitrary inputs, 1-2 modes, all filter families',
 'Tests use one delay and a constant input.',
 [O+'base_filter.py'],[('delay buffer update and interpolation','specula/processing_objects/base_filter.py')],['delayed and undelayed outputs'])

prop('C12','A state-space controller follows x\'=Ax+Bu, y=Cx+Du from rest',
 'For arbitrary matrices and input history a state-space filter produces the output of its state equations started from the zero state, independently for each mode when per-mode matrices are given and identically when they are assembled in block form; y may use the state before or after the update, as configured. A reset returns it to the zero state.',
 ['histories','inputs'],'1-2 states per mode, 1-2 modes, up to 5 steps, arbitrary matrices and inputs',
 'Tests compare against an integrator for a fixed gain.',
 [O+'ssr_filter.py',D+'ssr_filter_data.py'],[('trigger_code','specula/processing_objects/ssr_filter.py'),('block assembly','specula/data_objects/ssr_filter_data.py')],['outputs at each step'])

prop('C13','Filter construction yields the requested transfer function',
 'An integrator of gain g and forgetting factor f has transfer function g/(1-f/z) in every mode, a low-pass filter has unit gain at zero frequency (and, of even order, half power at the cut-off), a pure delay of d steps is z^-d, and expanding parameters over groups of modes gives each mode the parameters of its group. The closed-loop rejection and noise transfer functions are 1/(1+CP) and CP/(1+CP), hence sum to one.',
 ['inputs'],'arbitrary gains and forgetting factors, 1-3 modes with arbitrary grouping, complex frequency as a free variable on the unit circle, cut-off frequencies below Nyquist',
 'Tests check selected frequencies and magnitudes numerically.',
 [D+'iir_filter_data.py',D+'ssr_filter_data.py'],[('from_gain_and_ff, lpf_from_fc, discrete_delay_tf, RTF, NTF, frequency_response','specula/data_objects/iir_filter_data.py')],['coefficients','transfer function values'])

prop('C14','A detector integrates exactly the light of its exposure window',
 'With a given exposure (a multiple of the time step) and start time, a detector or averaging window emits an output exactly at the end of each exposure window and nowhere else, containing the sum (respectively the mean) of all samples that fell in the window, weighted by the step duration where flux is a rate; nothing is carried over to the next window.',
 ['histories','inputs'],'exposures of 1-3 steps, start times of 0-2 steps, up to 6 steps, arbitrary intensities',
 'Tests integrate constant frames over one window.',
 [O+'ccd.py',O+'windowed_integration.py'],[('trigger_code','specula/processing_objects/ccd.py, windowed_integration.py')],['outputs and generation times'])

prop('C15','Detector readout applies gain, excess noise and quantisation as configured',
 'Without noise the detector output is the incident light of each block of binned pixels, added up so that counts are conserved, times the quantum efficiency and the pixel gains; the background and the dark level are each added once, when their own noise is enabled, whatever the others. A quantised output is a whole number of ADU, not below zero before bias removal, converted back with the same gains; bias and dark current are subtracted exactly once. Every random generator starts from its configured seed.',
 ['inputs','configurations'],'2x2 to 4x4 frames of arbitrary non-negative light, binning 1-2, every combination of the readout options with arbitrary parameters',
 'Tests exercise a few combinations with one frame.',
 [O+'ccd.py'],[('apply_binning, apply_noise, apply_qe','specula/processing_objects/ccd.py')],['pixel values'])

prop('C16','Resampling between pixel grids conserves what it promises to conserve',
 'Resampling an image onto a detector grid conserves its total flux, block-averaging conserves the mean and sampling keeps values, for every image content; images and their transposes are treated alike, and resampling onto the same grid changes nothing.',
 ['inputs'],'arbitrary images up to 6x6 onto grids between 1x1 and 6x6',
 'Tests check totals on one or two images.',
 [L+'toccd.py',L+'rebin.py'],[('toccd','specula/lib/toccd.py'),('rebin2d','specula/lib/rebin.py')],['resampled arrays'])

prop('C17','Shack-Hartmann slopes are the normalised centroids of each subaperture',
 'For every frame, the slopes of a subaperture are the flux-weighted centroid of its pixels, with coordinates spanning [-1,1] across it, after thresholding and weighting as configured; they do not change when the frame is multiplied by a positive factor, do not depend on pixels of other subapertures, and are zero for a dark subaperture (less than a thousandth of the mean light). Total and per-subaperture counts equal the light in the valid pixels.',
 ['inputs','configurations'],'1-3 subapertures of 2x2 to 4x4 pixels at arbitrary positions, arbitrary frames including dark ones, threshold, weighting, quad-cell and window options',
 'Tests use flat or single-spot frames.',
 [O+'sh_slopec.py',O+'slopec.py',D+'subap_data.py'],[('trigger_code / calc_slopes','specula/processing_objects/sh_slopec.py')],['slopes','counts'])

prop('C18','Pupil-plane sensor slopes are the configured normalised intensity combinations',
 'For every frame, the x and y slopes at a pupil pixel are the signed combinations of the four corresponding pixel intensities divided by the configured normalisation (mean flux per pixel, total flux or a constant), and the direct-intensity mode returns the normalised intensities; double-roof, Zernike (intensity over its mean) and curvature sensors (normalised difference) follow their own combination; slopes are invariant to a positive scaling of the frame when no threshold is set, ignore pixels outside the pupils, and are zero on a dark frame. Reference slopes are subtracted exactly once.',
 ['inputs','configurations'],'1-3 pixels per pupil at arbitrary indices, arbitrary frames including dark ones, thresholds, normalisation and intensity options',
 'Tests use flat frames and a few random ones.',
 [O+'pyr_slopec.py',O+'slopec.py',D+'pupdata.py'],[('trigger_code','specula/processing_objects/pyr_slopec.py'),('post_trigger','specula/processing_objects/slopec.py')],['slopes','counts'])

prop('C19','Slope vectors keep x and y apart in every storage layout',
 'Writing x (or y) slopes and reading them back returns what was written and leaves the other axis untouched, in separate and interleaved layouts and at any length; subtracting reference slopes subtracts element by element, and mapping slopes to and from the two-dimensional display places every value at its own subaperture and loses none.',
 ['inputs','configurations'],'lengths 2-8 (odd when split), both layouts, arbitrary values, arbitrary subaperture maps, rotation by any angle',
 'Tests use one length and layout each.',
 [D+'slopes.py',D+'subap_data.py',D+'pupdata.py'],[('xslopes/yslopes/get2d/set_value/resize/interleave','specula/data_objects/slopes.py')],['slope arrays'])

prop('C20','Modal reconstruction is the configured linear combination of the slopes',
 'Reconstructed modes equal the reconstruction matrix times the slopes; with pseudo-open-loop control they equal the matrix applied to the slopes plus the interaction matrix times the applied commands, minus those commands in the explicit form, and the implicit form with the equivalent precomputed projection gives the same result. Combining or buffering several slope inputs keeps their order.',
 ['inputs','histories'],'2-4 slopes, 1-3 modes, arbitrary matrices, slopes and command histories, single and list inputs',
 'Tests check fixed matrices.',
 [O+'modalrec.py',O+'modalrec_implicit_polc.py',O+'modalrec_multirate.py',D+'recmat.py',D+'intmat.py'],[('trigger_code','specula/processing_objects/modalrec.py, modalrec_implicit_polc.py')],['output modes'])

prop('C21','Signal-routing objects apply exactly their declared element-wise operation',
 'The arithmetic, concatenation, slicing, insertion, linear-combination, matrix-multiplication and command-combination objects output, for every input vector, exactly the documented function of their inputs: selected elements at the right positions, constants and second operands applied in the right order, each command group at its own place. Inputs are never modified, and outputs are independent copies.',
 ['inputs','configurations'],'vectors of length 1-5 with arbitrary values, every operation and combination of constants, slices and index lists with arbitrary in-range bounds',
 'Tests check one vector per operation.',
 [O+'base_operation.py',O+'base_slicer.py',O+'base_inserter.py',O+'linear_combination.py',O+'mvm.py',O+'mirror_commands_combinator.py'],[('trigger_code of each','specula/processing_objects/')],['output values','input values after execution'])

prop('C22','A deformable mirror\'s shape is linear in its commands',
 'The phase a deformable mirror produces is its sign times the influence functions combined by the command vector (converted by the mode-to-command matrix if present) inside the mask and zero outside, so it is additive and homogeneous in the commands and zero for zero commands. Modes outside the configured range are ignored, and height, shift and rotation of the mirror do not alter it.',
 ['inputs','configurations'],'masks of up to 3x3 with arbitrary valid pixels, 1-3 modes or actuators, arbitrary influence functions, matrices and commands, modal sub-ranges',
 'Tests poke one mode.',
 [O+'dm.py',D+'ifunc.py',D+'m2c.py',D+'layer.py'],[('trigger_code','specula/processing_objects/dm.py')],['layer phase and amplitude'])

prop('C23','Combining fields adds phases and multiplies amplitudes',
 'Multiplying one electric field by another adds their phases and multiplies their amplitudes pixel by pixel; reflecting negates the phase, flattening removes exactly the mean over the lit pixels, and combining several fields applies them all. Converted to a wavelength, the field is A*exp(2*pi*i*phase/lambda), so its modulus is the amplitude and its energy is independent of the phase.',
 ['inputs'],'fields up to 3x3 with arbitrary phases and amplitudes (including dark pixels), 1-3 fields, any positive wavelength',
 'Tests use constants.',
 [D+'electric_field.py',D+'layer.py',O+'electric_field_combinator.py',O+'electric_field_reflection.py',O+'phase_flattening.py'],[('product, ef_at_lambda, phi_at_lambda','specula/data_objects/electric_field.py')],['phases, amplitudes, complex fields'])

prop('C24','Geometric propagation sums every layer along each line of sight',
 'Without diffraction the field reaching a source\'s pupil has as phase the sum of the phases of all layers seen along that line of sight, and as amplitude the product of their transmissions; layers are sampled at the position given by source direction, layer height, zenith angle and layer offset, converging for sources at finite height. The result is linear in the layer phases, independent of the order of the layers, and starts afresh every step.',
 ['inputs','configurations'],'1-3 layers of up to 6x6 pixels with arbitrary phases, pupils of 2x2 to 4x4, on- and off-axis sources, finite and infinite height, layer shifts',
 'Tests propagate fixed layers and compare a few pixels.',
 [O+'atmo_propagation.py',L+'interp2d.py',D+'source.py',D+'layer.py'],[('physical/geometric propagation, setup_interpolators','specula/processing_objects/atmo_propagation.py')],['output fields'])

prop('C25','Frozen-flow turbulence moves every layer with its own wind',
 'Each turbulent layer at time t shows its phase screen displaced by the accumulated wind speed times elapsed time along its own wind direction, interpolated linearly between pixels; a constant wind gives positions proportional to time whatever the step length, layers do not influence one another, layer strength scales with the seeing and with its share of the turbulence profile, and layers are large enough for the field of view at their height.',
 ['histories','inputs'],'screens of up to 4x12 pixels with arbitrary content, 1-2 layers, 1-4 steps with arbitrary wind speeds and directions, arbitrary seeing',
 'Tests check shapes or one displacement.',
 [O+'atmo_evolution.py',O+'atmo_infinite_evolution.py'],[('prepare_trigger, trigger_code','specula/processing_objects/atmo_evolution.py')],['layer phases'],[('last_position','displacement of each layer in pixels','atmo_evolution.py')])

prop('C26','Interpolation is exact on its grid and never amplifies its input',
 'Bilinear resampling returns the input itself when neither size, shift nor rotation changes, reproduces every constant and every linear ramp exactly inside the covered area, shifts by whole pixels of given coordinates without changing values, is linear in the input, and never produces a value outside the range of the input.',
 ['inputs'],'arrays of up to 5x5 with arbitrary values, arbitrary shifts, magnifications and a set of rotations',
 'Tests compare a few arrays with a reference routine.',
 [L+'interp2d.py',L+'extrapolation_2d.py'],[('Interp2D','specula/lib/interp2d.py')],['interpolated arrays'])

prop('C27','A point-spread function is the normalised, centred Fraunhofer image',
 'The point-spread function of a field is the squared modulus of the Fourier transform of its zero-padded complex amplitude with the origin at the centre pixel; normalised, it sums to one whatever the phase. The Strehl ratio equals one for a flat phase, never exceeds one, and is unchanged by adding a constant to the phase; time-averaged image, Strehl ratio and standard deviation are the averages over exactly the steps after the start time.',
 ['inputs','histories'],'pupils of 2x2 (padding 1-2) with arbitrary phases and amplitudes, 1-3 steps, arbitrary start times',
 'Tests use a flat wavefront and one aberrated one.',
 [O+'psf.py',L+'calc_psf.py'],[('calc_psf','specula/lib/calc_psf.py'),('trigger_code, post_trigger, finalize','specula/processing_objects/psf.py')],['PSF, Strehl ratio, integrated outputs'])

prop('C28','Push-pull calibration recovers the response of a linear system',
 'When slopes respond linearly to commands, calibrating by poking modes with any non-zero positive and negative amplitudes gives exactly that response as the interaction matrix, averaged over all pokes of a mode, each mode in its own row and no other; the command sequence pokes one mode at a time with the configured amplitudes and repetitions. Multi-sensor calibration gives the same per sensor, in order.',
 ['inputs','histories'],'1-3 modes, 1-3 slopes, 1-2 cycles, arbitrary response matrix and non-zero amplitudes, 1-2 sensors',
 'Tests calibrate one fixed response.',
 [O+'im_calibrator.py',O+'multi_im_calibrator.py',O+'push_pull_generator.py',L+'modal_pushpull_signal.py'],[('trigger_code, finalize','specula/processing_objects/im_calibrator.py'),('modal_pushpull_signal','specula/lib/modal_pushpull_signal.py')],['interaction matrix','command sequence'])

prop('C29','A reconstructor inverts its interaction matrix for the modes it keeps',
 'A reconstructor generated from a full-rank interaction matrix recovers any modal vector from the slopes it produces; restricting either to a range of modes keeps exactly those modes in order, and building full matrices from partial ones places each block at its own position. The minimum-variance reconstructor satisfies its normal equations for the given noise and turbulence covariances, with identity noise when none is given.',
 ['inputs'],'2-4 slopes, 1-3 modes, arbitrary full-rank matrices and positive covariances, every sub-range of modes',
 'Tests invert one matrix and check shapes.',
 [D+'intmat.py',D+'recmat.py',D+'ifunc.py',L+'mmse_reconstructor.py'],[('generate_rec, pseudo_invert, reduce_size, reduce_slopes','specula/data_objects/intmat.py'),('compute_mmse_reconstructor','specula/lib/mmse_reconstructor.py')],['reconstructor matrices'])

prop('C30','Saving and restoring a data object preserves everything it holds',
 'Restoring a saved data object gives one with the same arrays, shapes, scalar parameters and metadata, so that it behaves like the original in every later use; no field is dropped, moved to another field or altered in type, for any values and any combination of optional fields. (Time stamps, device, precision, verbosity and display masks are not part of the files.)',
 ['inputs','configurations'],'every savable data object with arbitrary small arrays and parameters, each optional field present or absent',
 'Tests round-trip one instance with most optional fields at their defaults.',
 [D+'intmat.py',D+'recmat.py',D+'slopes.py',D+'pixels.py',D+'intensity.py',D+'layer.py',D+'electric_field.py',D+'pupdata.py',D+'subap_data.py',D+'iir_filter_data.py',D+'time_history.py',B+'base_value.py'],[('save/restore/from_header','specula/data_objects/*.py')],['attributes of the restored object'])

prop('C31','Copies are faithful and independent of their source',
 'Transferring a data object into another of the same kind makes every array and the generation time equal without touching the source, and later changes of either do not show in the other; single values (not lists) delivered between processes are equal to those delivered locally. Setting a value in place copies it and keeps the receiver\'s own storage.',
 ['inputs','histories'],'every data object kind with arbitrary small arrays; one write after the copy at an arbitrary element; message exchanges of up to 3 steps with arbitrary refresh patterns and delays',
 'Tests cover a few kinds and check equality only.',
 [B+'base_data_obj.py',B+'base_value.py',B+'connections.py',B+'base_processing_obj.py'],[('transferDataTo, copyTo','specula/base_data_obj.py'),('send_outputs / receive_new_value','specula/base_processing_obj.py, specula/connections.py')],['arrays of both objects'])

prop('C32','Calibration and screen file names identify their parameters',
 'Two requests for phase screens or for laser guide star kernels that differ in any parameter the cached data depends on never share a cached file, and the same request finds its file again; a cached phase screen is used only if it was generated with the same size, outer scale, pixel pitch, seed and precision. Automatic interaction matrix tags differ whenever a quantity they mention differs (source position and height, sensor size, wavelength and field, pupil stop geometry, number of modes, tags). In the calibration tree every name of a kind is one file, inside the directory of that kind.',
 ['inputs','configurations'],'pairs of requests with arbitrary sizes, outer scales, pixel pitches, seeds, tags and classes',
 'Tests check individual paths.',
 [L+'phasescreen_manager.py',B+'calib_manager.py',O+'im_calibrator.py'],[('phasescreens_manager','specula/lib/phasescreen_manager.py'),('filename, root_subdir','specula/calib_manager.py')],['file names'])

prop('C33','Signal generators output the configured waveform at each time',
 'A waveform generator outputs amplitude, frequency, phase offset and slope evaluated at the current simulation time, a time-history generator the row of its table for the current step, a schedule the value of the interval the current time falls in, and a push-pull generator the next row of its sequence (while the sequence lasts); every generator marks its output as refreshed when it changes.',
 ['inputs','histories'],'tables of up to 4 rows, schedules of up to 3 intervals, arbitrary values, amplitudes, frequencies, offsets and times, up to 4 steps',
 'Tests evaluate a few instants.',
 [O+'base_generator.py',O+'schedule_generator.py',O+'time_history_generator.py',O+'wave_generator.py',O+'push_pull_generator.py'],[('trigger_code','specula/processing_objects/*_generator.py')],['output values and generation times'])

prop('C34','Demodulation returns the amplitude of the carrier it is tuned to',
 'Demodulating a constant plus a sinusoid at the carrier frequency, over a whole number of carrier periods, returns the amplitude of the sinusoid whatever the constant, to within the error of the demodulation window (about 20% over two or more periods and sixteen or more samples), and its phase to within a tenth of a radian; the output is exactly proportional to the signal and does not change when a constant is added to it, each mode is demodulated on its own, and output is produced exactly at the end of each demodulation interval from the samples of that interval only. The optical gain moves by the configured fraction of the measured mismatch and its published value never exceeds one.',
 ['inputs','histories'],'intervals of 4 and 8 samples, carriers at a quarter and an eighth of the sampling rate, arbitrary amplitudes, phases and offsets, up to 2 intervals; arbitrary gains',
 'Tests demodulate one sampled sinusoid.',
 [L+'demodulate_signal.py',O+'demodulator.py',O+'optical_gain_estimator.py'],[('demodulate_signal','specula/lib/demodulate_signal.py'),('trigger_code','specula/processing_objects/demodulator.py, optical_gain_estimator.py')],['output amplitudes'])

prop('C35','Wavefront sensors redistribute light without creating or losing it',
 'The total light on a wavefront sensor\'s detector plane equals the source flux density times the lit area, that is the sum of the pupil amplitudes times the pixel area (for a pyramid times the throughput it declares), for every wavefront; a polychromatic sensor delivers the whole flux of its input field, its image being the mixture of the single-wavelength images in the configured proportions. A uniform change of phase leaves the image unchanged.',
 ['inputs','configurations'],'pupils of up to 4x4 with arbitrary phases and amplitudes, 1x1 and 2x2 lenslets, modulation of 1-4 steps, arbitrary flux',
 'Tests check one flat wavefront.',
 [O+'sh.py',O+'modulated_pyramid.py',O+'poly_chrom_wfs.py'],[('flux normalisation','specula/processing_objects/sh.py, modulated_pyramid.py')],['output intensity'])

prop('C36','Pupil masks, coordinates and image statistics follow their definitions',
 'Masks mark exactly the pixels whose centre lies inside the outer and outside the inner radius, coordinates are pixel centres symmetric around the array centre, radial profiles average every pixel in exactly one ring, and the encircled energy of a non-negative profile rises to one without ever decreasing and is interpolated linearly between rings; the full width at half maximum is twice the radius where the profile first falls to half of its peak. Index helpers keep every element once and in order, and block averages are means over the lit pixels of each block.',
 ['inputs'],'arrays up to 6x6 with arbitrary values, arbitrary diameters, obstructions and centres',
 'Tests check a few diameters.',
 [L+'make_mask.py',L+'make_xy.py',L+'radial_profile.py',L+'utils.py'],[('make_mask, make_xy','specula/lib/'),('computeRadialProfile, encircled energy','specula/lib/radial_profile.py')],['masks, coordinates, profiles'])

prop('C37','Objects are built from exactly the parameters of their configuration section',
 'Each section of the configuration becomes exactly one object of its class, whatever the order of the sections, built with the values given, the constructor defaults for what is not given, and the very objects named by its references (single, list or dictionary); parameters naming stored data objects or data files hand over the content of those files. A section with an unknown parameter, an unknown reference, a missing class or file, or a malformed list is rejected instead of being ignored. With several processes each section is built by its own process, and every process knows where the others are.',
 ['configurations','inputs'],'3 sections in every order and every acyclic choice of references, arbitrary values; restored objects with arbitrary content; every placement on 2 processes; 15 kinds of invalid section',
 'Tests build a few valid configurations.',
 [B+'simul.py',L+'utils.py',B+'calib_manager.py',D+'simul_params.py'],[('build_objects, build_order','specula/simul.py'),('import_class, get_type_hints','specula/lib/utils.py')],['constructor arguments of each object'])

prop('C38','Photon budget, optical sampling and atmospheric dispersion follow their formulae',
 'The photons of a source are proportional to surface, time, bandwidth and zero point, fall by a factor of 100 every 5 magnitudes, and use the band that was named or whose centre is nearest to the wavelength. The FFT grid of a focal plane covers the requested field of view within the accepted error, with the least interpolation, the nearest even size and a mask that cuts out the requested field, or is refused. With the chromatic effect every atmospheric layer is seen displaced along the elevation axis by the dispersion between its height and the telescope, for sources on and off axis alike, and not at the zenith or at the reference wavelength. Wind and satellite slewing add up as vectors, and light times follow the distances travelled.',
 ['inputs'],'all bands, arbitrary magnitudes, wavelengths, surfaces and times; pupils of 4-16 pixels with arbitrary pitch and field of view; one layer at several heights and zenith angles; arbitrary wind speeds',
 'Tests check a handful of magnitudes and one geometry.',
 [L+'n_phot.py',D+'source.py',L+'calc_geometry.py',L+'air_refraction.py',L+'fsoc_lib.py',O+'atmo_propagation.py'],[('n_phot','specula/lib/n_phot.py'),('phot_density','specula/data_objects/source.py'),('calc_geometry','specula/lib/calc_geometry.py'),('compute_chromatic_shifts','specula/processing_objects/atmo_propagation.py'),('calc_effective_wind_speed','specula/lib/fsoc_lib.py')],['photon numbers','sampling parameters','displacement of the layers'])

prop('C39','Coronagraphs apply apodiser, focal plane mask and pupil stop to their input',
 'The field after a coronagraph is the input field propagated through its apodiser, its focal plane mask and its pupil stop: it is proportional to the field received, does not depend on earlier steps, and comes back unchanged when the masks remove nothing. Inner and outer working angles are distances from the axis in lambda/D for any sampling, quadrants and vortices are centred on the axis, pupil stops are fractions of the pupil, and the light of the output is that of the input times the transmitted fraction. A phase apodiser changes no amplitude. The perfect coronagraph removes exactly the coherent part of the field over the lit pixels, so that a flat wavefront leaves nothing, and its mean and deviation cover exactly the steps from the start time on.',
 ['inputs','configurations'],'pupils of 2x2 to 4x4, focal planes up to 12x12, arbitrary phases and amplitudes in up to 12 pixels, every kind of mask; 1-4 steps with an arbitrary start time',
 'Tests check one flat wavefront per coronagraph.',
 [O+x+'_coronagraph.py' for x in ('abstract','lyot','four_quadrant','vortex','apodizer','psf')],[('trigger_code, post_trigger','specula/processing_objects/abstract_coronagraph.py'),('make_focal_plane_mask','specula/processing_objects/lyot_coronagraph.py, four_quadrant_coronagraph.py, vortex_coronagraph.py'),('calc_coronagraph_psf','specula/processing_objects/psf_coronagraph.py')],['output field, flux, images'])

prop('C40','The images of wavefront sensors are those their optics form',
 'For every illuminated pupil the image of a sensor is, up to the normalisation to the light received, the one its optics form. Shack-Hartmann: behind each lenslet the squared modulus of the Fourier transform of its part of the pupil, centred on its detector pixels, cut by the field stop and binned to the requested pixels; a tilt moves the light along its gradient. Pyramid: for each position of the modulation the focal plane is split by the prism into four images of the pupil of the requested size and distance, and positions are added with their weights; the number of steps, positions and weights follow the requested amplitude and kind, and impossible ones are refused, as are detectors too small for the pupils. Double roof, Zernike sensor (core of the focal plane delayed) and curvature sensor (defocus added and removed) likewise. The focal plane outputs are the weighted means before and inside the field stop and the transmission is their ratio.',
 ['inputs','configurations'],'pupils of 2x2 to 4x4, FFTs up to 12x12, every pair of pixels with arbitrary phases or amplitudes, 1-5 modulation positions, every amplitude and pupil distance up to 40 px',
 'Tests check fluxes and a few shapes; the image itself is never computed independently.',
 [O+'sh.py',O+'modulated_pyramid.py',O+'modulated_double_roof.py',O+'zernike_sensor.py',O+'curvature_sensor.py'],[('trigger_code, _calc_geometry, _get_tlt_f','specula/processing_objects/sh.py'),('trigger_code, cache_ttexp, get_pyr_tlt, calc_pyr_geometry','specula/processing_objects/modulated_pyramid.py'),('get_pyr_tlt, _combine_roof_images','specula/processing_objects/modulated_double_roof.py'),('get_pyr_tlt','specula/processing_objects/zernike_sensor.py'),('setup, trigger_code','specula/processing_objects/curvature_sensor.py')],['sensor images, focal plane outputs, transmission, refused configurations'])

prop('C41','Calibration objects keep what the calibration data show',
 'Dark frames are the mean of exactly the frames that follow the last start, whatever starts, resets and changes of the number of frames come in between, and are subtracted from all later frames; a saved dark frame is used by whom loads it. Slope nulls are the mean of all refreshed slopes. Reconstructors of one or several sensors are saved under their own names and give back the modes asked for. Lenslets are selected if and only if their light is above the threshold, with their own pixels and position. Pyramid pupils are the discs of the pixels above both thresholds of the frames added up since the last calibration, with their centre and radius, either each its own or the same pixels moved by whole pixels; thresholds, integration time and tag can be changed during the run, and bad frames or values change nothing but the reported status. Existing files stop a calibration unless overwriting.',
 ['inputs','schedules','histories'],'2-9 lenslets of 1-4 pixels, every image and threshold; frames of 8x8-10x10 with arbitrary brightnesses and thresholds; every schedule of starts over 5 steps',
 'Tests run one nominal calibration; schedules of interactive inputs, thresholds and interrupted acquisitions are not covered.',
 [O+'dynamic_dark_calibrator.py',O+'sn_calibrator.py',O+'rec_calibrator.py',O+'multi_rec_calibrator.py',O+'sh_subap_calibrator.py',O+'pyr_pupdata_calibrator.py',O+'dynamic_pyr_pupdata_calibrator.py',D+'lenslet.py'],[('prepare_trigger, trigger_code','specula/processing_objects/dynamic_dark_calibrator.py'),('trigger_code, finalize','specula/processing_objects/sn_calibrator.py'),('finalize','specula/processing_objects/multi_rec_calibrator.py'),('_detect_subaps','specula/processing_objects/sh_subap_calibrator.py'),('trigger_code, _analyze_single_pupil, _generate_indices','specula/processing_objects/pyr_pupdata_calibrator.py'),('prepare_trigger, post_trigger','specula/processing_objects/dynamic_pyr_pupdata_calibrator.py')],['saved calibration files, output dark frames, subtracted pixels, pupil data, status'])

prop('C42','Interferometers and derivative sensors measure what their optics form',
 'The CiaoCiao sensor forms the interference of the field with its rotated, shifted and magnified copy: the squared modulus of the sum of both arms with their shares of the light and the requested tilt, binned to the requested pixels, and either normalised to the light of the pupil or not. Moving the common input moves both arms, and neither the input field nor other steps change by it. Its slope computer gives for each pixel inside both pupils (the mask and its copy rotated as the sensor does) the argument of the windowed sideband brought back to the centre, in units of the wavelength, for frames of even and odd size, and nothing outside. The ideal derivative sensor gives the mean derivative of the phase over the lit pixels of each subaperture, scaled to the field of view: a tilt gives the same slope in every subaperture that receives light whatever the edge of the pupil, and a dark subaperture gives none. Impossible parameters are refused.',
 ['inputs','configurations'],'pupils of 2x2 to 4x4 and interferograms of up to 5x5 pixels, arbitrary phases, amplitudes, pixel contents, tilts, shares of the light, wavelengths and fields of view; rotations, shifts and magnifications of either arm; 1-2 steps',
 'Tests check flat wavefronts and shapes; the slope computer has no test.',
 [O+'ciao_ciao_sensor.py',O+'ciao_ciao_slopec.py',O+'ideal_derivative_sensor.py'],[('setup, prepare_trigger, post_trigger','specula/processing_objects/ciao_ciao_sensor.py'),('setup, trigger_code','specula/processing_objects/ciao_ciao_slopec.py'),('trigger_code','specula/processing_objects/ideal_derivative_sensor.py')],['interferograms, phase maps, slopes, flux'])

with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False)+'\n')
print(len(P))
