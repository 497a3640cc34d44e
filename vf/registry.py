"""Facets: a property is decided by one or more facets, each a generator plus an oracle.

gen(d)      runs in CPython under Hypothesis, returns a JSON-able case
check(c)    runs in PyPy against the real code; raises Violation / returns a dict(nontrivial=bool, tags=[...])
fixed       list of explicit cases (corner cases, exhaustive small enumerations, repaired defects) run first
"""
FACETS = {}
_ORDER = []


class Facet:
    def __init__(self, prop, name, gen, check, quick, thorough=None, rule='', fixed=None, large=None):
        self.prop = prop
        self.name = name
        self.gen = gen
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.rule = rule
        self.large = max(4, quick // 8) if large is None else large   # number of large random cases
        self.fixed = fixed or (lambda: [])


def facet(prop, name, gen, check, quick, thorough=None, rule='', fixed=None, large=None):
    f = Facet(prop, name, gen, check, quick, thorough, rule, fixed, large)
    FACETS.setdefault(prop, {})
    assert name not in FACETS[prop], (prop, name)
    FACETS[prop][name] = f
    return f


def load(prop):
    import importlib
    importlib.import_module('vf.props.%s' % prop.lower())
    return FACETS[prop]
