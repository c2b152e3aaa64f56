from . import effects, labels, options, values, joins, selection, validity, missing, dtypes, archive, state, resample, mapping, convert, formula, queries

REGISTRY = {}
for _m in (effects, labels, options, values, joins, selection, validity, missing, dtypes, archive, state, resample, mapping, convert, formula, queries):
    for _c in _m.CHECKS:
        REGISTRY[_c.id] = _c
