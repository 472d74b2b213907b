#!/opt/venv/bin/python
"""Writes sa/libnames.json: the public names of the installed libraries, with the parameters of their functions.
Run once against the environment kcorrect runs in; the checks only read the file."""
import importlib, inspect, json, os, types, warnings
warnings.simplefilter('ignore')
MODS = ['numpy', 'numpy.random', 'numpy.linalg', 'numpy.ma', 'numpy.fft', 'numpy.lib', 'numpy.lib.recfunctions', 'numpy.testing', 'numpy.polynomial', 'numpy.typing',
        'scipy', 'scipy.integrate', 'scipy.interpolate', 'scipy.optimize', 'scipy.special', 'scipy.stats', 'scipy.linalg', 'scipy.constants', 'scipy.ndimage', 'scipy.signal', 'scipy.sparse',
        'astropy', 'astropy.units', 'astropy.constants', 'astropy.cosmology', 'astropy.io', 'astropy.io.fits', 'astropy.io.ascii', 'astropy.table', 'astropy.modeling', 'astropy.modeling.models', 'astropy.coordinates', 'astropy.time', 'astropy.stats', 'astropy.utils',
        'os', 'os.path', 'sys', 're', 'math', 'copy', 'collections', 'functools', 'itertools', 'logging', 'warnings', 'pathlib', 'json', 'time', 'datetime', 'random', 'glob', 'shutil', 'tempfile', 'io', 'operator', 'contextlib', 'typing', 'types', 'abc', 'dataclasses', 'enum', 'importlib', 'importlib.resources', 'string', 'struct', 'threading', 'pickle', 'inspect', 'numbers', 'builtins', 'matplotlib', 'matplotlib.pyplot']
out = {}
for m in MODS:
    try:
        mod = importlib.import_module(m)
    except Exception:
        out[m] = None
        continue
    d = {}
    names = set(dir(mod)) | set(getattr(mod, '__all__', ()))
    for n in sorted(names):
        try:
            v = getattr(mod, n)
        except Exception:
            continue
        sig = 1
        if callable(v) and not isinstance(v, types.ModuleType) and not inspect.isclass(v):
            try:
                ps = inspect.signature(v).parameters.values()
                if any(p.kind == p.VAR_KEYWORD for p in ps):
                    sig = 1
                else:
                    sig = [p.name for p in ps if p.kind in (p.POSITIONAL_OR_KEYWORD, p.KEYWORD_ONLY)]
            except (ValueError, TypeError):
                pass
        d[n] = sig
    out[m] = d
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'sa', 'libnames.json'), 'w') as fp:
    json.dump(out, fp, separators=(',', ':'), sort_keys=True)
print({m: (None if d is None else len(d)) for m, d in out.items()})
