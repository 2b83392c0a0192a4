"""C08: skip_empty omits exactly the empty entities."""

from lib import catalog
from lib.gen import Opts, gen_obj
from lib.ref import Obj
from lib.spec import (M, Field as F, attr, boolean, dct, dctv, elem, fst, integer, lst, model, opt, prim, st, tup, union, vtup, wrapped)
from lib.std import configured, writes
from lib.tree import N

SECONDS = {'quick': 200, 'thorough': 800}

SETTING = [None, True, False]


def levels(kind):
    """The setting at the root model, at a sub-model and at a model below, independently."""
    def make(ctx):
        top, mid, low = (ctx.choice('set ' + x, SETTING) for x in ('root', 'sub', 'subsub'))
        inner = M('Inner', F('x', opt(prim), attr(), None), F('y', opt(prim), elem(), None), tag='inner', skip_empty=low)
        sub = M('Sub', F('t', opt(prim), None, None), F('inner', opt(model(inner)), elem('i'), None),
                tag='sub', skip_empty=mid)
        t = {'model': model(sub), 'list': lst(model(sub)), 'tuple': tup(model(sub), prim),
             'wrapped': model(sub), 'union': union(sub, M('Other', F('o', opt(prim), elem(), None), tag='other'))}[kind]
        e = {'wrapped': wrapped('w', elem('s')), 'tuple': elem('s')}.get(kind)
        return M('R', F('s', opt(t), e, None), tag='r', skip_empty=top)
    return make


def shapes():
    leaf = M('Leaf', F('x', opt(prim), attr(), None), F('t', opt(prim), None, None), tag='leaf')
    rm = M('RM', F('root', opt(prim), None, None), root=True, tag='rm')
    rd = M('RD', F('root', dct()), root=True, tag='rd')
    return {
        'elements': [F('a', opt(prim), elem(), None), F('b', opt(boolean), elem(), None), F('c', prim, elem())],
        'attributes': [F('a', opt(prim), attr(), None), F('b', opt(boolean), attr(), None), F('t', opt(prim), None, None)],
        'models': [F('a', opt(model(leaf)), elem('a'), None), F('b', model(leaf), elem('b'))],
        'rootmodels': [F('a', opt(model(rm)), elem('a'), None), F('b', model(rd), elem('b'))],
        'lists': [F('a', lst(opt(prim)), elem()), F('b', lst(model(leaf)), elem('b'))],
        'falsy': [F('a', lst(boolean), elem()), F('b', lst(integer), elem()), F('c', tup(boolean, integer), elem()),
                  F('d', opt(integer), attr(), None)],
        'falsy2': [F('t', opt(integer), None, None), F('c', opt(boolean), wrapped('w', elem()), None),
                   F('d', opt(integer), wrapped('w', attr()), None), F('e', opt(integer), elem(), None)],
        'falsy-maps': [F('m', dctv(boolean), elem('m')), F('n', opt(dctv(integer)), elem('n'), None)],
        'sets': [F('a', opt(st(prim)), elem(), None), F('b', fst(prim), elem())],
        'tuples': [F('a', tup(opt(prim), opt(model(leaf)), prim), elem('a'))],
        'tuples-in-list': [F('a', lst(tup(opt(prim), prim)), elem('a'))],
        'mappings': [F('m', dct(), None), F('a', opt(dct()), elem('a'), None), F('z', opt(prim), elem(), None)],
        'mappings-list': [F('a', lst(dct()), elem('a'))],
        'wrapped': [F('a', opt(prim), wrapped('w', elem('a')), None), F('b', opt(prim), wrapped('w', attr('b')), None),
                    F('c', opt(prim), wrapped('v'), None)],
        'wrapped-deep': [F('a', opt(prim), wrapped('w/v/u', elem('a')), None), F('b', opt(prim), wrapped('w/v', elem('b')), None),
                         F('c', opt(model(leaf)), wrapped('w', elem('c')), None)],
        'wrapped-list': [F('a', opt(lst(prim)), wrapped('w/v', elem('a')), None), F('b', opt(dct()), wrapped('w', elem('b')), None)],
        'nillable': [F('a', opt(prim), elem(nillable=True), None), F('m', opt(model(leaf)), elem('m', nillable=True), None)],
        'computed': [F('a', opt(prim), attr(), None), F('c', opt(prim), elem(), computed=lambda self: self.a),
                     F('d', opt(prim), attr(), computed=lambda self: self.a)],
    }


def with_computed(ctx, m, o):
    obj = gen_obj(ctx, m, 'o', o)
    for f in m.fields:
        if f.computed is not None:
            obj.values[f.name] = obj.values['a']
    return obj


def harnesses(tier):
    th = tier == 'thorough'
    out = []
    for name, fields in shapes().items():
        m = M('R', *fields, tag='r')
        o = Opts(text=2 if th else 1, items=2, none=True, key=0 if name == 'falsy-maps' else 2)
        out.append(writes(name, m, o, inst=lambda ctx, m=m, o=o: with_computed(ctx, m, o), write_kw={'skip_empty': 'any'},
                          bounds='any instance: strings of 0..1 characters, 0..2 items, None where allowed; with and without '
                                 'the flag'))
    for kind in ('model', 'list', 'tuple', 'wrapped', 'union'):
        out.append(configured('levels-' + kind, levels(kind), None,
                              lambda ctx, m: gen_obj(ctx, m, 'o', Opts(text=1, items=1)), write_kw={'skip_empty': 'any'},
                              bounds='the setting None, True or False at three levels of models, and as argument; any instance, '
                                     'strings of 0..1 characters', weight=4))
    small = Opts(text=1, items=1, key=0)
    for make in catalog.ALL:
        if make in (catalog.recursive,) and not th:
            out.append(writes('any-Node', make(), Opts(text=1, items=1, depth=1, key=0), write_kw={'skip_empty': True},
                              bounds='any instance'))
            continue
        m = make()
        out.append(writes('any-' + m.name, m, small, write_kw={'skip_empty': True}, weight=2,
                          bounds='any instance: strings of 0..1 characters, 0..1 items, None where allowed'))
    return out
