"""The properties claimed and the rules that decide them."""
import importlib

# property: (module, function giving the tasks, what the rule says)
PROPS = {
    'C08': ('values', 'c08', 'every value returned by absmag/absmag_mc equals, as a value number over the inputs, m - DM - K (or -9999) with the K-corrections and output fluxes the object itself returns'),
    'C09': ('values', 'c09', 'the result of kcorrect equals -2.5 log10 of the ratio of mapped input to output table sums, zero for all-zero coefficients'),
    'C10': ('values', 'c10', 'results with an explicit distance equal those with the cosmological distance after substituting it; dependence on distance is that of the rule'),
    'C11': ('values', 'c11', 'results with a band shift equal the unshifted results with the redshift substituted by (1+z)(1+b)-1, over (1+b); only output bands are shifted'),
    'C12': ('values', 'c12', 'every derived quantity equals its documented coefficient-weighted template sum'),
    'C01': ('effects', 'c01', 'no recorded write reaches an array, list or default value owned by the caller'),
    'C18': ('effects', 'c18', 'every opened handle is closed on every normal path, and not used after'),
    'C29': ('effects', 'c29', 'every name, attribute, library function and call parameter resolves in every context and in the whole program'),
    'C30': ('effects', 'c30', 'random draws only in Monte Carlo fits and from the global generator; no outside state; object unchanged; same value number after other calls'),
    'C02': ('fits', 'c02', 'every returned array has the documented number of axes, their lengths and element type, for scalar, one-galaxy and many-galaxy inputs'),
    'C03': ('fits', 'c03', 'the value number of galaxy i of a batch equals that of the scalar call with galaxy i, with every other galaxy abstracted'),
    'C05': ('fits', 'c05', 'the arguments of nnls equal the documented weighted design matrix and data, and coeffs is its solution, zero where it raises'),
    'C06': ('fits', 'c06', 'each Monte Carlo member is the fit to maggies plus a fresh normal draw times ivar**-0.5 of the same object and band'),
    'C07': ('fits', 'c07', 'maggies passed through to_ab exactly once when abcorrect is true, and never otherwise'),
    'C20': ('fits', 'c20', 'out-of-range redshifts raise no unhandled error, are marked, and never reach an interpolation outside its grid'),
    'C31': ('fits', 'c31', 'results for Monte Carlo member k equal the nominal results with the coefficients and maggies of member k'),
    'C04': ('units', 'c04', 'the converted flux is a factor times the flux, and the converted inverse variance is the inverse variance over the square of that very factor'),
    'C23': ('units', 'c23', 'flux and inverse variance of asinh magnitudes equal the documented terms of each band, and asinh fits equal fits of them'),
    'C24': ('units', 'c24', 'the inverse variance returned equals that of the larger of the original error and the floor, and is unchanged elsewhere'),
    'C25': ('units', 'c25', 'SDSS bands are multiplied by the documented factors and no other band is; default bands, settings and data files are the documented ones and exist'),
    'C26': ('units', 'c26', 'every value returned equals the word of the file at the documented position'),
    'C27': ('units', 'c27', 'the AB source and flux densities equal the documented terms with the effective wavelength of the same band'),
    'C13': ('spectra', 'c13', 'after every sequence of calls, the grid, fluxes, redshift and interpolator equal those of the rest frame shifted once by the last redshift'),
    'C14': ('spectra', 'c14', 'every element of the tables equals the projection of its template at its grid redshift onto its band, and the band map the position of the mapped band'),
    'C15': ('resp', 'c15', 'after every construction or reload the samples are those given, sorted together, and every derived attribute equals that of a fresh object made from the same samples'),
    'C16': ('regis', 'c16', 'after every sequence of loads, failed loads and uses the registry holds exactly the complete responses of the files of those names; a failed load leaves its contents alone'),
    'C21': ('resp', 'c21', 'the projection equals the documented ratio of integrals over the union grid, for each spectrum'),
    'C22': ('resp', 'c22', 'the solar magnitude and Vega offset equal -2.5 log10 of the projected model flux at its distance, and are None exactly where it is not positive'),
    'C28': ('resp', 'c28', 'effective wavelength and width limits equal their definitions over the current samples'),
    'C17': ('saved', 'c17', 'every documented attribute of an object loaded from a saved file, by a new object or one of another configuration, equals that of the saved object, and so do the results of its methods'),
    'C19': ('reject', 'c19', 'no path of a call whose arrays have axes of another number or length returns; no valid call raises; whatever is raised is an exception'),
    'C32': ('values', 'c32', 'every reconstructed flux equals the sum over templates of coefficient times table entry at the shifted redshift'),
}


def tasks(pid, tier):
    mod, fn, _ = PROPS[pid]
    return getattr(importlib.import_module('sa.props.' + mod), fn)(tier)


VN = 'gated value numbering of results, compared with a specification built from the same tables and inputs; a difference counts where random interpretation of the two terms separates them'
TECH = {
    'C01': 'alias and write-effect analysis (origins of heap cells followed through casts, views and calls)',
    'C02': 'shape and element-type domain, with merged values at joins',
    'C03': VN + ' (batch row against scalar call)',
    'C04': VN, 'C05': VN, 'C06': VN + '; provenance of random draws', 'C07': VN + ' with the conversion replaced by a marker',
    'C08': VN, 'C09': VN, 'C10': VN + ' after substituting the distance', 'C11': VN + ' after substituting the redshift', 'C12': VN,
    'C13': VN + ' over sequences of calls', 'C14': VN, 'C15': VN + '; attribute refresh over call sequences',
    'C16': 'typestate and effect analysis of the registry', 'C17': 'field-by-field comparison of what savers write and loaders read, through an abstract file',
    'C18': 'typestate analysis of file handles over all normal paths', 'C19': 'abstract interpretation of argument checks on mismatched shapes: no path returns',
    'C20': VN + '; reachability of interpolation outside its grid', 'C21': VN, 'C22': VN, 'C23': VN, 'C24': VN, 'C25': VN + '; existence of the named data files',
    'C26': VN + ' over the words of an abstract file', 'C27': VN, 'C28': VN,
    'C29': 'name resolution, definite assignment and call compatibility over all contexts and a whole-program lint against the installed libraries',
    'C30': 'effect analysis (randomness, outside state, object state) and value numbering over sequences of calls',
    'C31': VN + ' (realization against nominal call)', 'C32': VN,
}
NOTE = {k: PROPS[k][2][0].upper() + PROPS[k][2][1:] + '.' for k in PROPS}

# seconds for one task of the quick tier
LIMIT = {'C19': 45}
