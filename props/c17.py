"""C17: every validation error names the place of the offending value."""

from lib import catalog
from lib.errs import cases
from lib.gen import MUTATIONS, Opts
from lib.spec import M, Field as F, attr, boolean, dctv, elem, lst, model, opt, prim, tup, union, valid, wrapped
from lib.std import mutated, reads

SECONDS = {'quick': 220, 'thorough': 850}
LINES = False


def harnesses(tier, lines=LINES):
    th = tier == 'thorough'
    out = []
    for mode in ('strict', 'ordered', 'unordered') if th else ('strict',):
        for name, (m, doc) in cases(th, search_mode=mode).items():
            out.append(reads(f'{name}-{mode}', m, doc, lines=lines, labels=('read: errors', 'read: value'), weight=2,
                             bounds='every combination of right, wrong and missing values; 0..2 items or members'))
    kinds = ('none', 'text', 'drop', 'dropattr', 'setattr', 'dup', 'kid') if not th else MUTATIONS
    for make in catalog.ALL:
        m = strict(make())
        out.append(mutated('any-' + m.name, m, Opts(text=1, min_text=1, items=2 if th else 1, min_items=1, depth=1, none=False, key=0),
                           kinds=kinds, tx=3, lines=lines, weight=2))
    return out


def strict(m, seen=None):
    """The same model with strings that can be invalid."""
    seen = {} if seen is None else seen
    if m in seen or not hasattr(m, 'own_fields'):
        return m
    seen[m] = True

    def sub(t):
        from lib.spec import T, SelfRef
        if t.kind == 'prim':
            return valid
        for a in t.args:
            if isinstance(a, M):
                strict(a, seen)
        if t.kind == 'tagged':
            for a in t.kw['members'].values():
                strict(a, seen)
        if t.kind in ('set', 'fset', 'dict') or not t.args:
            return t
        return T(t.kind, *(sub(a) if isinstance(a, T) else a for a in t.args), **t.kw)
    for f in m.own_fields:
        f.type = sub(f.type)
    return m
