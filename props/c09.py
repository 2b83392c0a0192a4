"""C09: exclude_none and exclude_unset omit exactly None and unset fields."""

from lib import catalog
from lib.gen import Opts, gen_obj
from lib.ref import Obj
from lib.spec import (M, Field as F, attr, boolean, dct, elem, lit, lst, model, opt, prim, raw, st, tagged, tup, union,
                      vtup, wrapped)
from lib.std import configured, writes
from lib.tree import N

SECONDS = {'quick': 200, 'thorough': 800}


def shapes():
    leaf = M('Leaf', F('x', opt(prim), attr(), 'dx'), F('t', opt(prim), None, None), tag='leaf')
    rm = M('RM', F('root', opt(prim), None, None), root=True, tag='rm')
    a = M('UA', F('x', opt(prim), attr(), None), tag='u')
    b = M('UB', F('y', opt(prim), elem(), None), tag='v')
    ta = M('TA', F('k', lit('a'), attr()), F('x', opt(prim), elem(), None), tag='t')
    tb = M('TB', F('k', lit('b'), attr()), F('y', opt(prim), None, None), tag='t')
    return {
        'elements': [F('a', opt(prim), elem(), None), F('b', opt(boolean), elem(), None), F('c', prim, elem(), 'dc')],
        'attributes': [F('a', opt(prim), attr(), None), F('b', opt(boolean), attr(), None), F('t', opt(prim), None, 'dt')],
        'models': [F('a', opt(model(leaf)), elem('a'), None), F('b', opt(model(leaf)), elem('b'), None)],
        'rootmodels': [F('a', opt(model(rm)), elem('a'), None), F('z', opt(prim), attr(), None)],
        'unions': [F('a', opt(union(a, b)), None, None), F('z', opt(prim), attr(), None)],
        'tagged': [F('a', opt(tagged('k', a=ta, b=tb)), None, None), F('z', opt(prim), attr(), None)],
        'lists': [F('a', opt(lst(opt(prim))), elem(), None), F('b', opt(lst(model(leaf))), elem('b'), None)],
        'unions-list': [F('a', lst(union(a, b)), None, None)],
        'tuples': [F('a', opt(tup(opt(prim), opt(model(leaf)))), elem('a'), None)],
        'tuples-in-list': [F('a', opt(lst(tup(opt(prim), opt(prim)))), elem('a'), None)],
        'mappings': [F('m', opt(dct()), None, None), F('a', opt(dct()), elem('a'), None)],
        'wrapped': [F('a', opt(prim), wrapped('w', elem('a')), None), F('b', opt(prim), wrapped('w', attr('b')), None),
                    F('c', opt(prim), wrapped('v'), None)],
        'wrapped-more': [F('a', opt(lst(prim)), wrapped('w/v', elem('a')), None), F('b', opt(model(leaf)), wrapped('w', elem('b')), None)],
        'nillable': [F('a', opt(prim), elem(nillable=True), None), F('m', opt(model(leaf)), elem('m', nillable=True), None)],
        'computed': [F('a', opt(prim), attr(), None), F('c', opt(prim), elem(), computed=lambda self: self.a),
                     F('d', opt(prim), attr(), computed=lambda self: self.a)],
        'raw': [F('r', opt(raw), elem('r'), None), F('z', opt(prim), elem(), None)],
    }


def with_computed(ctx, m, o):
    obj = gen_obj(ctx, m, 'o', o)
    for f in m.fields:
        if f.computed is not None:
            obj.values[f.name] = obj.values['a']
    return obj


def excluded(kind):
    """Any subset of the fields is declared as excluded."""
    def make(ctx):
        leaf = M('Leaf', F('x', opt(prim), attr(), None, exclude=ctx.flag('x out')),
                 F('t', opt(prim), None, None, exclude=ctx.flag('t out')), tag='leaf')
        mode = ctx.choice('how', ['exclude', 'exclude_if'])

        def out(n):
            if not ctx.flag(n + ' out'):
                return {}
            return {'exclude': True} if mode == 'exclude' else {'exclude_if': lambda v: v is None}
        if kind == 'plain':
            fs = [F('a', opt(prim), attr(), None, **out('a')), F('b', opt(prim), elem(), None, **out('b')),
                  F('c', opt(prim), elem(), None, **out('c'))]
        elif kind == 'nested':
            fs = [F('m', opt(model(leaf)), elem('m'), None, **out('m')), F('l', opt(lst(model(leaf))), elem('l'), None, **out('l'))]
        elif kind == 'text-map':
            fs = [F('t', opt(prim), None, None, **out('t')), F('d', opt(dct()), None, None, **out('d')),
                  F('e', opt(dct()), elem('e'), None, **out('e'))]
        else:
            fs = [F('a', opt(prim), wrapped('w', elem('a')), None, **out('a')), F('b', opt(prim), wrapped('w/v', elem('b')), None, **out('b')),
                  F('u', opt(tup(prim, prim)), elem('u'), None, **out('u'))]
        return M('R', *fs, tag='r')
    return make


def raw_tree(ctx, p):
    return N('r', ctx.str(p, 1, 0, 'text'), [('a', 'b')])


def harnesses(tier):
    th = tier == 'thorough'
    out = []
    o = Opts(text=2 if th else 1, items=2 if th else 1, unset=True, key=1, raw=raw_tree)
    both = {'exclude_none': 'any', 'exclude_unset': 'any'}
    b = 'any instance: every field unset, None or a value (strings of 0..1 characters, 0..1 items); any combination of the flags'
    for name, fields in shapes().items():
        m = M('R', *fields, tag='r')
        out.append(writes(name, m, o, inst=lambda ctx, m=m: with_computed(ctx, m, o), write_kw=both, bounds=b))
    for kind in ('plain', 'nested', 'text-map', 'wrapped'):
        out.append(configured('excluded-' + kind, excluded(kind), None,
                              lambda ctx, m: gen_obj(ctx, m, 'o', Opts(text=1, items=1, key=0)),
                              write_kw={'exclude_none': 'any', **({'skip_empty': 'any'} if th else {})},
                              bounds='any subset of fields excluded always or if None; any instance', weight=2))
    small = Opts(text=1, items=1, key=0, min_text=0 if th else 1, attr_min=0 if th else 1, unset=True, depth=1)
    for make in catalog.ALL:
        m = make()
        for flag in ('exclude_none', 'exclude_unset'):
            out.append(writes(f'{flag}-{m.name}', m, small, write_kw={flag: True, **({'skip_empty': 'any'} if th else {})},
                              weight=2, bounds='any instance: optional fields unset, None or a value'))
    return out
