#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
F = 'src/kcorrect/fitter.py'; K = 'src/kcorrect/kcorrect.py'; R = 'src/kcorrect/response.py'
T = 'src/kcorrect/template.py'; U = 'src/kcorrect/utils.py'


def p(id, title, statement, text, why, files, mech, over=('inputs',), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


p('C01', 'Caller-owned data is never modified',
  'No public call changes the contents of an array, list or other object passed to it by the caller, nor the default value '
  'of one of its own parameters. Calling the same method again with the same objects therefore sees the same data. '
  'The only caller objects that may change are a templates object while a design matrix is being built (it is returned at '
  'redshift 0) and a file the caller named as output.',
  'every public function and method, every argument aliasing (including arrays already of the working dtype, which casts do not copy), every flag combination',
  'The tests never compare their inputs before and after a call, and a cast that copies for float64 input aliases for float32 input.',
  [F, K, R, T, U], [('casts and copies of inputs', F + ':Fitter._process_inputs'), ('to_ab copies', K + ':KcorrectGST.to_ab')])
p('C02', 'Result shapes follow the documented contract',
  'A scalar redshift gives results without an object axis and a 1-D redshift (also of length 1) gives a leading object axis. '
  'The band axis has the number of input bands for fitted or reconstructed input fluxes and of output bands for K-corrections, absolute '
  'magnitudes, output fluxes and mass-to-light ratios, also when these numbers differ; Monte Carlo results add a last axis of length mc. '
  'No valid call fails because of the sizes of its inputs.',
  'all numbers of objects, input bands, output bands, templates and realizations, in scalar and array mode, for all flags',
  'The tests use one template set, mostly equal numbers of input and output bands, and never a one-element array with Monte Carlo.',
  [F, K, R, U], [('array/scalar mode', F + ':Fitter._process_inputs'), ('fit outputs', F + ':Fitter.fit_coeffs'), ('outputs', K + ':Kcorrect.absmag'), ('mc outputs', K + ':Kcorrect.absmag_mc, Kcorrect.derived_mc')],
  ('inputs', 'configurations'))
p('C03', 'A batch gives every object its own scalar result',
  'For every public calculation that accepts arrays of objects, the result for object i depends only on the inputs for object i. '
  'It is the same value as the same calculation done for that object alone in scalar mode.',
  'all batch sizes, all positions in the batch, all combinations of valid and degenerate objects in one batch',
  'Tests use batches of identical or few objects and do not compare with scalar calls; mixing of rows shows only for non-identical rows.',
  [F, K, U], [('per-object loop', F + ':Fitter.fit_coeffs'), ('matrix product over objects', F + ':Fitter._reconstruct'), ('masks', K + ':Kcorrect.kcorrect, Kcorrect.absmag, Kcorrect.derived'), ('unit conversions', U)])
p('C04', 'Inverse variance transforms as the inverse square of the flux',
  'Whenever a conversion multiplies a flux by a factor (AB correction, Galactic extinction, conversion to flux density), it divides the '
  'corresponding inverse variance by the square of the same factor, so that signal-to-noise is unchanged, in every band and in scalar and array mode. '
  'Bands whose flux is not changed keep their inverse variance, and fluxes come out the same whether or not an inverse variance is given.',
  'all flux, inverse variance, extinction and offset values, 1-D and N-D inputs',
  'Tests only run the conversions and check a result is produced; none checks the inverse variance quantitatively.',
  [U, K], [('AB factor', U + ':sdss_ab_correct'), ('extinction factor', U + ':sdss_asinh_to_maggies'), ('unit factor', U + ':maggies2flambda'), ('subset of bands', K + ':KcorrectGST.to_ab')])
p('C05', 'Fit coefficients solve the inverse-variance weighted problem',
  'The coefficients for an object are the nonnegative least squares solution in which the model fluxes of each band at that redshift and the measured flux of '
  'the same band are both divided by the 1-sigma error of that band. A band with zero inverse variance has no influence on the coefficients. '
  'Nothing else (other objects, realizations, call order) enters the problem, and a retry after non-convergence solves the same problem.',
  'all redshifts in range, fluxes, inverse variances and template sets',
  'The tests use unit or uniform inverse variances, for which unweighted or doubly weighted fits give the same answer.',
  [F], [('weighted design matrix and data', F + ':Fitter._fit_coeffs')])
p('C06', 'Monte Carlo realizations perturb the data by their own errors',
  'Each realization adds to each measured band (inverse variance > 0) independent Gaussian noise of zero mean and standard deviation 1/sqrt(ivar) of that band, and leaves unmeasured '
  'bands as they are. Its coefficients are the solution of the fit of exactly the fluxes returned for that realization with the same weights and templates as the nominal fit, '
  'and the nominal coefficients do not depend on the realizations. Realizations are drawn independently for each band, object and realization.',
  'all fluxes, inverse variances (including zeros), redshifts, numbers of realizations',
  'Outputs are random, the tests only look at shapes, and a wrong width or a reused draw passes them.',
  [F], [('perturbation and refit', F + ':Fitter._fit_coeffs'), ('collection', F + ':Fitter.fit_coeffs')])
p('C07', 'AB correction is applied exactly once, and only when requested',
  'When AB correction is on, the fluxes and inverse variances passed to a fit or to an absolute magnitude calculation are converted by the to-AB conversion of the object exactly once before use; '
  'when it is off they are used as given. Redshifts, coefficients, distances and reconstructed fluxes are never converted, and asinh-magnitude fits follow the same rule.',
  'all classes, both settings of the switch, all entry points and flags',
  'Tests use one setting per class and have no reference values; a double or missing correction of a few percent goes unnoticed.',
  [F, K], [('conversion', F + ':Fitter._process_inputs'), ('conversion methods', K + ':KcorrectSDSS.to_ab, KcorrectGST.to_ab')], ('inputs', 'configurations'))
p('C08', 'Absolute magnitudes are m - DM - K, with -9999 as sentinel',
  'An absolute magnitude is the apparent magnitude of the input band mapped to the output band, minus the distance modulus, minus the K-correction of that object and band; it is -9999 where that flux or its inverse variance is not positive '
  '(zero, negative or NaN). The bright limit is the same with the flux replaced by its 1-sigma error (valid where ivar > 0 and the coefficients are not all zero, otherwise -9999), and the reconstructed magnitude is that of '
  'the rest-frame output-band model flux (band-shifted as requested) minus the distance modulus, or -9999 where that flux is not positive. The requested extras come in the order reconstruct, limit, kcorrect after the main result, and '
  'the K-corrections returned are the ones used.',
  'all fluxes, inverse variances (any sign, NaN), band maps, redshifts, band shifts and flag combinations',
  'Tests use bright detections and identical input and output bands, for which wrong indices, limits or sentinels are invisible.',
  [K], [('formula and masks', K + ':Kcorrect.absmag'), ('Monte Carlo', K + ':Kcorrect.absmag_mc')], ('inputs', 'configurations'))
P[-1]['statement'] = (
  'An absolute magnitude is the apparent magnitude of the input band mapped to the output band, minus the distance modulus, minus the K-correction of that object and band, and is -9999 where that flux or its inverse variance is not positive (or is NaN). '
  'The bright limit is the same with the flux replaced by its 1-sigma error, valid where ivar > 0 and the coefficients are not all zero and -9999 otherwise; the reconstructed magnitude is that of the rest-frame output-band model flux minus the distance modulus, or -9999 where that flux is not positive. '
  'The requested extras follow the main result in the order reconstruct, limit, kcorrect, and are the ones used in it.')
p('C09', 'K-correction is the model flux ratio of mapped input to output band',
  'The K-correction from input band R to output band Q of an object is -2.5 log10 of the model flux in the band R that the band map assigns to Q, observed at the redshift of the object, over the model flux in Q at redshift zero with the requested band shift. '
  'It is zero in all bands for an object whose coefficients are all zero. The overall normalization of the coefficients does not change it.',
  'all coefficients, redshifts, band maps (identity, permuted, repeated, fewer or more output bands), band shifts',
  'The only quantitative tests use the identity map and no band shift.',
  [K], [('ratio', K + ':Kcorrect.kcorrect'), ('band map', K + ':Kcorrect.__init__')], ('inputs', 'configurations'))
p('C10', 'Explicit distances and cosmological distances are interchangeable',
  'Where a luminosity distance in Mpc is given, it replaces the distance modulus of the cosmology by 5 log10(distance / 10 pc) everywhere in that calculation and changes nothing else; the redshift still sets the K-correction. '
  'Where it is not given, the distance modulus of the cosmology of the object at the redshift of the galaxy is used. '
  'Masses scale with the distance squared, and mass-to-light ratios, colors, star formation ratios and metallicities do not depend on distance.',
  'all redshifts, distances, cosmology objects; absolute magnitudes and derived quantities, nominal and Monte Carlo',
  'No test passes a distance with a reference value.',
  [K], [('distance modulus', K + ':Kcorrect.absmag, Kcorrect.derived'), ('forwarding', K + ':Kcorrect.absmag_mc, Kcorrect.derived_mc')])
p('C11', 'Band shift means the output band observed at (1+z)(1+shift)',
  'A model flux with a band shift b at redshift z is the unshifted model flux at redshift (1+z)(1+b)-1 divided by (1+b). '
  'K-corrections, absolute magnitudes and mass-to-light ratios use the requested band shift for the output bands at redshift zero and never for the input bands. '
  'A band shift of zero is the same as giving none.',
  'all band shifts, redshifts and coefficients; nominal and Monte Carlo calculations',
  'Tests use band_shift=0 or check only that a call succeeds.',
  [F, K], [('shift and normalization', F + ':Fitter._reconstruct'), ('use', K + ':Kcorrect.kcorrect, Kcorrect.absmag, Kcorrect.derived, absmag_mc, derived_mc')])
p('C12', 'Derived quantities are the documented template sums',
  'Current stellar mass and integrated star formation are the coefficient-weighted sums of the corresponding template masses times the squared distance in units of 10 pc; metallicity is the sum weighted by current stellar mass; b50, b300 and b1000 are the recent over the '
  'integrated star formation for the corresponding period. The mass-to-light ratio in each output band is the current stellar mass over the rest-frame luminosity in that band in solar units of that same band, or per maggy if the solar magnitude is undefined. '
  'All ratios are zero for zero mass, never undefined.',
  'all coefficients (including all zeros), redshifts, distances, band shifts and sets of output bands',
  'One test runs it on one object; swapped template properties, bands or missing guards do not change its result.',
  [K, T], [('sums', K + ':Kcorrect.derived'), ('template properties', T + ':Template.__init__')])
p('C13', 'Redshifting always starts from the rest frame',
  'After setting redshift z on a spectrum, its wavelengths are the rest-frame wavelengths times (1+z), its fluxes are the rest-frame fluxes over (1+z) and its recorded redshift is z, whatever redshifts were set before. '
  'The rest-frame grid itself never changes. If the spectrum has an interpolator, it always describes the current grid.',
  'all sequences of redshift settings, with and without interpolation',
  'Tests set one redshift once; drift and stale interpolators appear only over histories.',
  [T], [('shift', T + ':SED.set_redshift'), ('refresh', T + ':SED.set_interp'), ('load', T + ':SED._setup')], ('inputs', 'histories'))
p('C14', 'Every design-matrix element belongs to its redshift, band and template',
  'The model flux table holds, for each grid redshift, band and template, the projection of that template at that redshift onto that band, the same with and without template interpolation and for any number of templates. '
  'The input table uses the input bands and the output table the output bands in their given order, on a grid that runs linearly from the lower to the upper end of the redshift range, and the band map gives for each output band the position of its mapped input band. '
  'The templates are back at redshift 0 afterwards.',
  'all band lists, redshift ranges, grid sizes, template counts (more than one internal chunk), both interpolation modes',
  'Tests use few templates (one chunk) and equal input and output bands.',
  [F, K], [('table', F + ':Fitter._calc_Amatrix'), ('grid', F + ':Fitter.__init__'), ('band map and output table', K + ':Kcorrect.__init__')], ('inputs', 'configurations'))
p('C15', 'A response is always sorted and internally consistent',
  'However a response is created or (re)loaded - from arrays, a data file or a FITS table - its wavelengths are in increasing order with each transmission value kept with its own wavelength. '
  'Its interpolator, effective wavelength, width limits, solar magnitude and Vega offset are all computed from that current curve, never from an earlier one. The number of samples equals the length of the curve.',
  'all curves in any order, all entry points, reloading an existing object',
  'The data files used in tests are already sorted and each object is loaded once.',
  [R], [('sorting', R + ':Response.__init__, Response.fromdat, Response.fromfits'), ('refresh', R + ':Response._setup')], ('inputs', 'histories'))
p('C16', 'The response registry is shared, idempotent and never half-loaded',
  'All parts of the program see one registry; a name in it always denotes a completely loaded response from the file of that name. Loading a name already present does nothing unless a reload is requested, in which case the entry is replaced by a fresh load. '
  'A failed load leaves the registry as it was, and listing or validating available responses never lists one that failed validation.',
  'all sequences of load, reload, failing load and listing',
  'Tests load valid files once; a failing load followed by use is never exercised.',
  [R], [('registry', R + ':ResponseDict, ResponseDictSingleton'), ('listing', R + ':all_responses')], ('histories', 'fault_sequences'))
p('C17', 'Saving and loading preserves every stored quantity',
  'What a saver writes, the corresponding loader reads back into the same attribute with the same values, shapes and kinds: spectra, template sets with all their properties, responses, and K-correction objects with redshift grid, range, band lists, tables and AB setting, under the documented table, column and image names. '
  'A loaded object, whether newly made or one constructed with another configuration before loading, gives the same results as the saved one. No stored number is truncated to a narrower kind (such as float to integer) on the way.',
  'all object contents, sizes and numbers of spectra and bands, both template file layouts',
  'The tests round-trip a single spectrum; the K-correction object round trip is untested.',
  [K, T, R], [('K-correction files', K + ':Kcorrect.tofits, Kcorrect.fromfits'), ('template files', T + ':Template.tofits, Template.__init__, SED.tofits, SED.fromfits'), ('response files', R + ':Response.tofits, Response.fromfits')], ('inputs', 'histories'))
p('C18', 'Every file that is opened is closed',
  'Each data file opened by the package is closed again on every normal path of the operation that opened it, before that operation returns. '
  'Files opened for update are closed after the last change to them, so the file on disk is complete when the call returns.',
  'all loading and saving operations, all file layouts and branches',
  'Leaks have no visible effect in a short test run.',
  [K, T, R, U], [('resources', U + ':read_basel'), ('FITS', K + ':Kcorrect.tofits, Kcorrect.fromfits'), ('FITS', T + ':SED.fromfits, Template.__init__, Template.tofits'), ('FITS', R + ':Response.fromfits')], ('histories',))
p('C19', 'Inconsistent inputs are rejected with a proper exception',
  'A call whose redshift, flux, inverse variance or coefficient arrays disagree in dimension, in number of objects, in number of bands or in number of templates raises an exception instead of returning a result, in scalar and array mode; so do conversions of SDSS data given other than 5 bands or unequal shapes, '
  'error floors of the wrong length, output-band maps of the wrong length or with unknown bands, inconsistent projection inputs and missing response files. Everything raised is a real exception object. Valid inputs are never rejected.',
  'all shapes and dimensions of every input, in both modes, for every public entry point',
  'No test passes inconsistent inputs.',
  [F, K, R, U], [('shape checks', F + ':Fitter._process_inputs'), ('conversion checks', U), ('map checks', K + ':Kcorrect.__init__'), ('projection checks', R + ':Response.project')])
p('C20', 'Redshifts outside the grid are never extrapolated',
  'A fit at a redshift outside the range of the object gives zero coefficients (and, for Monte Carlo, zero coefficients and unperturbed fluxes in the usual number and shape of results), without disturbing other objects of the batch. '
  'Reconstructing model fluxes or K-corrections outside the range raises a ValueError. No result is extrapolated from or clamped to the end of the grid.',
  'all redshifts and band shifts, scalar and array mode, with and without Monte Carlo, freshly built and reloaded objects',
  'No test uses an out-of-range redshift.',
  [F, K], [('fallback', F + ':Fitter._fit_coeffs'), ('error', F + ':Fitter._reconstruct'), ('interpolator', F + ':Fitter._interpolate_Amatrix')])
p('C21', 'Projection is the photon-weighted flux relative to the AB source',
  'The flux of a spectrum in a band is the integral of flux density times transmission times wavelength over the union of the samples of the band and the spectrum samples inside the band (with the one next to them on either side), divided by the same integral for the AB source, the two integrals using the same grid and transmission. '
  'It is linear in the spectrum, independent of the normalization of the transmission, and the AB source itself gives exactly 1. Projecting several spectra gives each spectrum its own value, from arrays as from spectrum objects, and a spectrum without samples in the band gives 0.',
  'all spectra, numbers of spectra, transmission curves, wavelength grids',
  'Tests check one or two curves to within a tolerance, one spectrum at a time.',
  [R, U], [('integral', R + ':Response.project'), ('AB source', U + ':sed_ab')])
p('C22', 'Solar magnitude and Vega offset come from the right spectrum or are None',
  'The solar absolute magnitude of a band is -2.5 log10 of the flux of the solar model at 10 pc in that band, and the Vega-to-AB offset is -2.5 log10 of the flux of the Vega model at its own distance in that band. '
  'Both are None, not a number, exactly where the projected flux is not positive. The models are converted from per-frequency to per-wavelength units with wavelengths in Angstroms.',
  'all response curves, inside or outside the range of the models',
  'Tests compare a few well-covered bands to loose tolerances.',
  [R], [('solar', R + ':Response.set_solar_magnitude'), ('Vega', R + ':Response.set_vega2ab')])
p('C23', 'Asinh magnitudes convert to fluxes and errors consistently',
  'The flux of an asinh magnitude is 2 b sinh(-ln b - 0.4 ln(10) mag) with the softening b of its own band (ugriz: 1.4, 0.9, 1.2, 1.8, 7.4 times 1e-10), multiplied by 10^(0.4 extinction) if extinction is given. '
  'The inverse variance is one over the square of (absolute derivative of that flux with respect to magnitude, times the magnitude error), including the extinction. '
  'Asinh-magnitude fits use exactly these fluxes and inverse variances.',
  'all magnitudes (including very faint, negative flux), errors, extinctions, 1-D and N-D inputs',
  'The test only fits one object and has no reference values.',
  [U, K], [('conversion', U + ':sdss_asinh_to_maggies'), ('fit', K + ':KcorrectSDSS.fit_coeffs_asinh')])
p('C24', 'An error floor only ever enlarges errors',
  'For a band with positive inverse variance, the new fractional error is the larger of the original fractional error and the floor of that band; errors already above the floor are returned unchanged. '
  'Bands with inverse variance zero or negative are returned unchanged. The result is the same for one object and for that object in an array.',
  'all fluxes of any sign, inverse variances, floors, 1-D and 2-D inputs',
  'No test calls the function.',
  [U], [('floor', U + ':error_floor')])
p('C25', 'SDSS bands get the documented AB offsets, and only they',
  'Converting SDSS standard fluxes to AB multiplies the flux of band j of ugriz by 10^(-0.4 offset_j) with the documented offsets -0.036, 0.012, 0.010, 0.028, 0.040 unless others are given. '
  'The combined GALEX-SDSS-2MASS conversion applies this to its five SDSS bands only and leaves the other bands alone. '
  'The default band lists of the survey classes are in the order these conversions assume, their default AB settings are as documented, and every default response and template file exists.',
  'all fluxes and offsets, 1-D and N-D inputs, both survey classes',
  'Tests have no reference values; a permuted or shifted band changes results by only a few percent.',
  [U, K], [('offsets', U + ':sdss_ab_correct'), ('band positions', K + ':KcorrectGST.to_ab'), ('defaults', K + ':KcorrectSDSS.__init__, KcorrectGST.__init__')], ('inputs', 'configurations'))
p('C26', 'Stellar model files are parsed without misalignment',
  'In a Basel-format file, the first 1221 numbers are the wavelengths and each model that follows is six parameters (number, temperature, gravity, metallicity, turbulence, hydrogen) and 1221 fluxes. '
  'Every number goes to the parameter, model and sample it belongs to, for any number of models in the file.',
  'files with any number of models and any values',
  'The two shipped files contain one model each.',
  [U], [('parser', U + ':read_basel')])
p('C27', 'Flux densities use the AB zero point and each band\'s own wavelength',
  'The AB source has flux density 3631 Jy converted to per-Angstrom units, 3631e-23 c / wavelength^2 in erg/s/cm^2/A. '
  'Converting AB fluxes to flux density multiplies each band by the AB source at the effective wavelength of that same band, in the order of the given bands, and returns those wavelengths. '
  'Bands not yet loaded are loaded first.',
  'all fluxes, band lists in any order and with repetitions, 1-D and 2-D inputs',
  'No test calls the conversion.',
  [U], [('AB source', U + ':sed_ab'), ('conversion', U + ':maggies2flambda')])
p('C28', 'Effective wavelength and width limits follow their definitions',
  'The effective wavelength of a band is exp of the average of ln(wavelength) weighted by transmission over wavelength, integrated over wavelength, and does not depend on the normalization of the transmission. '
  'The lower and upper width limits are where the interpolated transmission first and last crosses half its maximum between the bracketing samples (the end of the curve where it does not drop below), and the width is upper minus lower.',
  'all transmission curves and wavelength grids, any normalization',
  'Tests check that the attributes exist, not their values.',
  [R], [('effective wavelength', R + ':Response.set_lambda_eff'), ('width', R + ':Response.set_fwhm_limits')])
p('C29', 'No call path uses an undefined name, variable or library function',
  'On every path through the package selected by valid arguments, every variable is assigned before it is used. Every module, attribute and function of the installed libraries, and every method and attribute of the package itself, that a path refers to exists. '
  'Every call supplies the parameters its target declares.',
  'all functions, all combinations of flags and optional arguments',
  'A branch that no test enters can refer to anything in Python; the 25 tests leave many branches unentered.',
  [F, K, R, T, U], [('all functions', 'src/kcorrect/*.py')], ('inputs', 'programs'))
p('C30', 'Results are reproducible functions of inputs and object state',
  'Only Monte Carlo fits use random numbers, through NumPy\'s global generator, which the package never seeds or replaces, so that a user\'s seed controls them. No calculation depends on time, environment or process state, and none changes global settings of the libraries. '
  'Fits, reconstructions, K-corrections, absolute magnitudes and derived quantities leave the object they are called on unchanged, so repeating a call gives the same result.',
  'all sequences of calls on one object, all public calculations',
  'Tests build a fresh object and make few calls; hidden state only shows over histories.',
  [F, K, R, T, U], [('random numbers', F + ':Fitter._fit_coeffs'), ('calculations', K)], ('histories', 'inputs'))
p('C31', 'Monte Carlo summaries are the nominal calculation for each realization',
  'Realization j of Monte Carlo absolute magnitudes and derived quantities is what the nominal calculation gives for the fluxes and coefficients of realization j with all other arguments (inverse variance, redshift, band shift, distance, flags) unchanged. '
  'It is stored at position j of the last axis, for every result requested.',
  'all numbers of realizations, flags, scalar and array mode',
  'Tests run a few calls and check shapes.',
  [K], [('absolute magnitudes', K + ':Kcorrect.absmag_mc'), ('derived quantities', K + ':Kcorrect.derived_mc')], ('inputs', 'configurations'))
p('C32', 'Reconstructed fluxes are the coefficient-weighted model fluxes',
  'The reconstructed flux in a band is the sum over templates of coefficient times the model flux of that template in that band at the (shifted) redshift, using input bands for the input reconstruction and output bands for the output reconstruction. '
  'It is linear in the coefficients, for one object and for arrays of objects alike. '
  'Bands and templates keep their order.',
  'all coefficients, redshifts, numbers of bands, templates and objects',
  'Tests compare with the fitted fluxes only loosely and for one object.',
  [F, K], [('matrix product', F + ':Fitter._reconstruct'), ('table choice', K + ':Kcorrect.reconstruct_out')])
# ---- not applicable to static analysis ----
p('C40', 'The solver returns the optimal nonnegative coefficients',
  'No nonnegative set of coefficients fits an object better than the one returned.',
  'all design matrices and data', 'Optimality is a numerical fact about an external solver.',
  [F], [('scipy solver', F + ':Fitter._fit_coeffs')])
p('C41', 'Interpolating the tables in redshift is accurate',
  'Between grid redshifts the interpolated model fluxes differ from exact projections by less than the photometric calibration error.',
  'all templates, bands, redshifts', 'Accuracy is a numerical quantity that depends on the data files.',
  [F], [('interpolator', F + ':Fitter._interpolate_Amatrix')])
p('C42', 'K-correction at redshift equal to band shift is -2.5 log10(1+z)',
  'To numerical accuracy, the K-correction into the same band shifted by the redshift of the object is -2.5 log10(1+z) for any spectrum.',
  'all spectra and bands', 'Numerical identity between a gridded and an exact projection.',
  [K], [('ratio', K + ':Kcorrect.kcorrect')])
p('C43', 'Shipped templates and responses are scientifically correct',
  'The template spectra, response curves and stellar models shipped with the package describe the objects and instruments they are named after.',
  'all data files', 'Data quality is not a property of the source.', ['src/kcorrect/data'], [('data', 'src/kcorrect/data')])
p('C44', 'Single precision does not degrade results',
  'The use of single precision for tables and inputs changes magnitudes by less than a millimagnitude.',
  'all inputs', 'Rounding error analysis of solver and splines is numerical.', [F, K], [('casts', F)])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as fp:
    for x in P:
        n = x['statement'].replace('e.g.', '').count('. ') + 1
        assert len(x['title']) <= 80, x['id']
        assert n <= 3, (x['id'], n)
        fp.write(json.dumps(x) + '\n')
print(len(P), 'properties')
