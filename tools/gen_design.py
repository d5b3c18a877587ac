"""Write DESIGN.md from the texts below, the harness modules and the findings file."""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = '''# Solver-based checking of SPECULA

(Written by `tools/gen_design.py`: the texts are there, the bounds come from the
harness modules, the repairs and findings from `known_findings.json`.)

## Approach

SPECULA is pure Python over numpy.  The checks execute the *real* classes and
functions of `/repo/specula` symbolically: before any `specula` submodule is
imported, `specula.np` is replaced by a shim (`engine/shim.py`) whose arrays hold
symbolic reals / integers / booleans; every arithmetic operator the code applies
builds terms, every branch on a symbolic value forks the path, and z3 decides each
branch and each assertion.  Nothing is transcribed: the encoding is whatever the
current source does when it is run, regenerated at every run.

* `engine/sym.py`: symbolic scalars - rational functions over atoms, exact
  rational coefficients; non-polynomial functions (sqrt, sin, cos, exp, floor, ...)
  introduce atoms with their defining constraints (sign, range, addition theorems
  of sine and cosine, monotonicity); equal arguments share an atom, and angles that
  agree within 1e-12 (relative) are one angle.  Interval bounds are carried along;
  the bounds of square roots are widened by 1e-12 so that a rounded bound cannot
  close a feasible path.
* `engine/path.py`: depth-first path exploration by re-execution, path
  conditions, z3 queries, assertion checking, counterexample models.  An assertion
  is first simplified (equal rational functions need no solver), then decided by
  linear relaxation, then by the nonlinear solver.
* `engine/shim.py`: the numpy facade (arrays of symbolic values, reductions,
  fancy indexing, FFT by definition, small linear algebra, splines and grid
  interpolators of scipy that the code uses).
* `engine/symstr.py`, `engine/text.py`: strings with symbolic choices (names,
  configuration keys) and formatted numbers as tokens (file names of caches).
* `engine/stubs.py`: FITS files and pickles as in-memory stores that keep what is
  written, with the types they would give back; scratch folders.
* `engine/conc.py`: the *concrete* twin.  Each harness is a function of a
  context; with the concrete context it runs against unpatched numpy and the
  unmodified code.  Every counterexample is replayed there (in its own process)
  and only a reproducing one is printed as VIOLATION.  One model of every explored
  path (up to a limit) is also replayed (`traces_validated_against_impl`), which
  validates the shim against the real code.
* `engine/common.py`: runs the instances of a check in parallel processes with a
  budget each, writes the evidence (functions encoded, instances, paths, queries,
  solver time, what was left undecided) and the VIOLATION / KNOWN-FINDING lines.

A query the solver does not decide within its limit, a path that is cut, or a
symbolic value that had to be made concrete is reported in the evidence as
*incomplete*, never as a violation and never counted as decided.

Real numbers are exact in the encoding: rounding is outside except in C01, where
conversions are modelled with IEEE rounding errors.  Comparisons use a tolerance
of the order of single precision, relative to the scale of the values.

Randomness (photon noise, turbulence) is replaced by generators whose draws are
symbolic: any outcome within the support of the distribution.

Every check is `python check.py CNN [--tier quick|thorough]`; the thorough tier
uses larger shapes, more steps and longer limits where they exist.  Typical cost:
10 to 60 s per quick check on 8 cores (C03 and C32: 2 to 3 minutes).

## Per property

'''

# property -> (what is executed and symbolic, the oracle, why this reaches more)
HOW = {
 'C01': 'The conversions are executed on k*1e-9 with k a symbolic integer; the double nearest to it and each operation carry a symbolic rounding error within half an ulp. Oracle: the result is k. Loop, CCD and averaging windows are built with such durations and must start and stop at the right step.',
 'C02': 'LoopControl.run is executed with symbolic T, dt and t0; recording objects note the times they are given. Oracle: times t0 + i dt for all i with i dt < T, each object once per time, in group order; the last-iteration flag only then.',
 'C03': 'Simul.build_trigger_order is executed on parameter dictionaries whose connections are symbolic choices. Oracle: every consumer is in a later group than its supplier, for delayed links the other way round, and only graphs with a cycle of undelayed links are refused.',
 'C04': 'The order found by the code for a symbolic graph is executed with symbolic signals; each object must see the value of this step on plain links and of the previous one on delayed links. The same for every class of a zoo of real objects between a source and a delayed reader.',
 'C05': 'Input generation times and the current time are symbolic integers; the decision to run must be `some set input is as new as the current time`; runs of several steps with any refresh pattern, 18 real classes.',
 'C06': 'Every reference of a configuration is a symbolic choice among 14 names, present or not. Oracle: the input delivers the object of exactly that name, order of lists kept; anything else is refused.',
 'C07': 'Simul.combine_params is executed with every entry of the additional files a symbolic choice; oracle: a direct application of the documented directives. Overrides likewise.',
 'C08': 'build_replay and build_targeted_replay on symbolic configurations; oracle: walking the produced dictionary, every recorded output is read from the data source, every object that is still needed is there with its inputs unchanged, none else.',
 'C09': 'A DataStore is driven for several steps with symbolic refreshes, values, times and selections; the files it writes (in memory) are read by a DataSource. Oracle: one sample per selected refresh with its time, and the replay gives sample i exactly at time i. A complete simulation writes through the real loop.',
 'C10': 'Filters are driven from rest with symbolic coefficients, inputs, resets and gain changes; oracle: the difference equation evaluated by the harness.',
 'C11': 'The same with a symbolic delay; oracle: out(t) = (1-f) y(t-n) + f y(t-n-1) of the undelayed filter.',
 'C12': 'State-space filters with symbolic matrices; oracle: the recursion evaluated by the harness, assembly of block systems entry by entry.',
 'C13': 'Numerators and denominators built by the constructors are evaluated at a symbolic frequency (cos/sin atoms) and compared with the requested transfer function; conversions to and from the control library are exact.',
 'C14': 'CCD and averaging windows are driven with symbolic images for every exposure and start; oracle: weighted sums over the steps of each window, output marked at its end only.',
 'C15': 'Readout with symbolic levels and draws of the random generators; oracle: the readout formula step by step; the mean and variance requested from each draw are checked as arguments.',
 'C16': 'Resampling of symbolic images; oracle: totals, means, samples and constants that each routine promises.',
 'C17': 'Slope computer on symbolic frames; oracle: thresholded weighted centroid per subaperture; invariance to scale and to other subapertures.',
 'C18': 'The same for pupil-plane sensors.',
 'C19': 'Slopes objects with symbolic content in both layouts; oracle: element positions; maps put each slope at its subaperture; rotations are orthogonal.',
 'C20': 'Modal reconstruction with symbolic matrices, slopes, commands and refresh patterns; oracle: matrix products, pseudo open loop slopes included.',
 'C21': 'Every routing object with symbolic vectors and symbolic slices or index lists; oracle: plain element-wise definitions.',
 'C22': 'DM with symbolic influence functions and commands; oracle: the sum over modes at the pixels of the mask and zero elsewhere.',
 'C23': 'Combination, products, sub-rectangles with symbolic fields; oracle: pixel by pixel formulae.',
 'C24': 'Propagation with symbolic layers, sources at symbolic angles and heights; oracle: bilinear interpolation at the position of the line of sight written by the harness.',
 'C25': 'Turbulence evolution on symbolic screens with symbolic wind; oracle: displaced content scaled with seeing, time by time; endless screens shift by whole pixels and never change what is already visible.',
 'C26': 'Interpolators with symbolic arrays and positions; oracle: exact on samples and ramps, bounded by the four neighbours, constants kept.',
 'C27': 'PSF with symbolic phases; oracle: discrete Fourier transform written by the harness, sum 1, Strehl ratio at most 1 and equal for flat wavefronts.',
 'C28': 'Calibrators fed by a symbolic linear system with every order of pokes; oracle: the response matrix.',
 'C29': 'Reconstructors of symbolic matrices; oracle: product with the interaction matrix is the identity (least squares), the normal equations (minimum variance).',
 'C30': 'save() then restore() of every data object with symbolic content through the in-memory file; oracle: public state equal.',
 'C31': 'Copies, transfers and messages of symbolic objects; a write at a symbolic element after the copy must not reach the other side.',
 'C32': 'File names of caches for two symbolic requests, formatted numbers kept as tokens; oracle: equal names imply equal parameters, and the content read back is that computed for the request.',
 'C33': 'Generators over symbolic parameters and times; oracle: the waveform formula.',
 'C34': 'Demodulation of symbolic sinusoids and irregular signals; oracle: amplitude, linearity, independence of a constant.',
 'C35': 'Sensors over symbolic fields; oracle: total flux of the image equals flux times lit area; what one subaperture emits stays in its share.',
 'C36': 'Masks, coordinates and statistics over symbolic images and geometry; oracle: their definitions.',
 'C37': 'Simul builds user classes from sections with symbolic references and values; oracle: constructor arguments recorded; every class of the package has consistent descriptors.',
 'C38': 'Photometric and geometric formulae with symbolic arguments; oracle: the formula with constants of the literature.',
 'C39': 'Coronagraphs over symbolic fields; oracle: two discrete Fourier transforms and the masks written by the harness; energy never increases; perfect coronagraph removes the mean field.',
 'C40': 'Shack-Hartmann, pyramid, double roof, Zernike and curvature images of symbolic fields; oracle: Fourier optics of each sensor written by the harness on its own grid.',
 'C41': 'Calibration objects driven over symbolic schedules and images; oracle: averages of exactly the frames of an acquisition, thresholds, pupil positions.',
 'C42': 'The interferometer is run on symbolic fields with both arms rebuilt by independent interpolators; oracle: squared modulus of their sum. The slope computer is run on symbolic frames; oracle: the sideband written as a sum over pixels, compared through cosine and sine of the result. The ideal sensor: differences of neighbours written by the harness.',
}

TAIL = '''## False alarms met, and what was done

* C24/C26: positions exactly on the edge of an array fall on either side within
  rounding; the harnesses keep symbolic positions 1e-3 pixels away from edges.
* C25: angles such as 90 degrees are not exact in floating point; the four
  quarter turns are compared with a tolerance instead of requiring equality.
* C31: identity of array buffers was required where only independence is
  observable; now a write is made and looked for.
* C36, C41: pixels exactly on the threshold or on the edge of a mask are excluded
  by an assumption (rounding decides them in the real code).
* C40: kernels of sines and cosines computed by the code in single precision
  differ from the oracle; the harness asks the code for double precision.
* Counterexamples that the concrete replay does not reproduce are listed as
  unconfirmed in the evidence and never alarm.

## Genuine defects left as they are

Known findings (a check reproduces them and prints KNOWN-FINDING):

{findings}

Seen while reading or checking, outside of the checked bounds, and not repaired
because they need a design decision of the maintainers:

* CurvatureSensor with `fov_ovs_coeff` other than 1: the pixel scale of the two
  images is that of the enlarged frame but the propagation distance is not.
* AtmoPropagation clears dark pixels of the *input* layer when it is magnified.
* AtmoInfiniteEvolutionUpDown derives up layers from the state of the down screen.
* ModalAnalysis with a list of fields only reads the single field it does not have.
* MultiImCalibrator tags without `first_mode`; "None.fits" when no name is given.
* Recmat.set_modes2recLayer appends when called twice; not restored from files.
* Modalrec with `dmNumber` 0 and a list of projections.
* The polychromatic pyramid ignores the transmission of each wavelength.
* lists of objects sent between MPI processes: the receiver reads one object.
* dark pupils and a null outer stop in coronagraphs give nan / ZeroDivisionError.
* ShSubapCalibrator fails on images that are not a whole number of pixels per lenslet.

## Repairs made in /repo

One commit each, found by the property named ({nfix} in total):

{fixes}

## Planted changes

`seeded/<id>`: each breaks its property, passes the existing tests, and is
detected by the check of its property.

{seeds}

Beside these, several hundred one-line mutations of the covered files (comparison,
sign, constant, index, condition) were run against the checks while they were
written; survivors led to new instances unless they were equivalent or outside of
the stated bounds.

## Not addressed

Plotting and display objects, GPU kernels, the MPI library, astropy's file formats
and the numerical tables (Zernike and Karhunen-Loeve generation, turbulence
statistics by FFT filtering of random draws, the search of pupils by image
segmentation heuristics beyond C41) are not encoded: either they have no
observable guarantee beyond a library's, or need eigen decompositions of large
matrices that no solver decides.  No listed property is not-applicable.
'''


def texts(pid):
    res = {}
    tree = ast.parse(open(os.path.join(ROOT, 'harness', pid.lower() + '.py')).read())
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('BOUNDS', 'OUTSIDE', 'ASSUMPTIONS'):
            res[n.targets[0].id] = eval(compile(ast.Expression(n.value), '', 'eval'))
    return res


def main():
    out = [HEAD]
    for line in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(line)
        t = texts(p['id'])
        out.append(f"### {p['id']} {p['title']}\n\n")
        out.append(f"* How: {HOW[p['id']]}\n* Bounds: {t['BOUNDS']}.\n* Outside: {t['OUTSIDE']}.\n")
        if t.get('ASSUMPTIONS'):
            out.append(f"* Assumed: {'; '.join(t['ASSUMPTIONS'])}.\n")
        out.append(f"* Why tests do not settle it: {p['why_tests_cant']}\n\n")
    k = json.load(open(os.path.join(ROOT, 'known_findings.json')))
    finds = '\n'.join(f"* {f['id']} ({f['property']}): {f['what']}" for f in k['findings'])
    fixes = '\n'.join('* ' + f.replace('fixed: property=', '') for f in k['fixed'])
    seeds = ['| change | property | needs | breaks |', '|---|---|---|---|']
    for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
        m = json.load(open(f))
        seeds.append(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
    out.append(TAIL.format(findings=finds, fixes=fixes, nfix=len(k['fixed']), seeds='\n'.join(seeds)))
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write(''.join(out))


if __name__ == '__main__':
    main()
