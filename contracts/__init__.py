import importlib
MODULES = ['lib', 'idx', 'data', 'misc', 'grid', 'var', 'bc', 'rk', 'src', 'ic', 'fv', 'vtk', 'struct', 'setup', 'copies']
ASSUME = [
 'machine integers are treated as mathematical integers (no overflow)',
 'doubles are treated as real numbers: rounding, infinities and NaN are not modelled, and divisors are assumed non-zero',
 'std:: containers, streams and algorithms behave as modelled in qkv/builtins.py',
 'numbers of dimensions are enumerated (see configurations); bounds, lengths and all data are unbounded and symbolic',
]
def load_contracts():
    from contracts.base import R
    R.assumptions = {'*': ASSUME}
    for m in MODULES: importlib.import_module('contracts.' + m)
    return R
