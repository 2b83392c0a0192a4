"""C22: computed fields are written and never read."""

from lib.gen import Opts, deep, gen_obj, kids, lname, text, universe
from lib.harness import Harness
from lib.ref import XSI_NIL, Item, Obj, Reader, Writer, check_read, check_write, construct, read_real, write_real
from lib.spec import (M, Field as F, attr, boolean, build, const, dct, elem, lst, model, ntup, opt, prim, raw, tup, union,
                      vtup, wrapped)
from lib.std import reads, writes
from lib.tree import N, native

SECONDS = {'quick': 200, 'thorough': 850}


class Kind:
    """A kind of computed entity: its type and entity, the property, and its value in terms of the reference."""

    def __init__(self, type, entity, real, ref, like, alias=None, nsmap=None):
        self.type = type
        self.entity = entity
        self.real = real        # real(self) -> value
        self.ref = ref          # ref(values) -> value
        self.like = like        # a field that binds to the same entity
        self.alias = alias


def kinds():
    sub = M('Sub', F('x', opt(prim), attr(), None), F('t', opt(prim), None, None), tag='c')
    sub2 = M('Sub2', F('y', opt(prim), attr(), None), tag='c')
    rt = M('Rt', F('root', opt(prim), None, None), root=True, tag='c')

    def S(v):
        return sub.cls(x=v)

    def So(v):
        return Obj(sub, {'x': v, 't': None}, {'x'})
    both = opt(prim)
    five = const(int, (5, '5'))
    nt = ntup('NT', u=prim, v=prim)

    def o(real):    # None if the value starts as None
        return lambda s: None if s.v is None else real(s)

    def r(ref):
        return lambda v: None if v['v'] is None else ref(v)
    lk = dict
    return {
        'text': Kind(both, None, lambda s: s.v, lambda v: v['v'], F('f', both, None, None)),
        'attr': Kind(both, attr('c'), lambda s: s.v, lambda v: v['v'], F('f', both, attr('c'), None)),
        'attr-named': Kind(both, attr(), lambda s: s.v, lambda v: v['v'], F('f', both, attr('c'), None)),
        'attr-alias': Kind(both, attr(), lambda s: s.v, lambda v: v['v'], F('f', both, attr('d'), None), alias='d'),
        'attr-ns': Kind(both, attr('c', ns='p'), lambda s: s.v, lambda v: v['v'], F('f', both, attr('c', ns='p'), None)),
        'elem': Kind(both, elem('c'), lambda s: s.v, lambda v: v['v'], F('f', both, elem('c'), None)),
        'elem-named': Kind(both, elem(), lambda s: s.v, lambda v: v['v'], F('f', both, elem('c'), None)),
        'elem-alias': Kind(both, elem(), lambda s: s.v, lambda v: v['v'], F('f', both, elem('d'), None), alias='d'),
        'elem-ns': Kind(both, elem('c', ns='q', nsmap={'q': 'uq'}), lambda s: s.v, lambda v: v['v'],
                        F('f', both, elem('c', ns='q', nsmap={'q': 'uq'}), None)),
        'nillable': Kind(both, elem('c', nillable=True), lambda s: s.v, lambda v: v['v'], F('f', both, elem('c', nillable=True), None)),
        'bool': Kind(boolean, elem('c'), lambda s: s.v is None, lambda v: v['v'] is None, F('f', both, elem('c'), None)),
        'int': Kind(five, elem('c'), lambda s: 5, lambda v: 5, F('f', both, elem('c'), None)),
        'list': Kind(lst(prim), elem('c'), lambda s: [] if s.v is None else [s.v, 'k'], lambda v: [] if v['v'] is None else [v['v'], 'k'],
                     F('f', opt(lst(prim)), elem('c'), None)),
        'tuple': Kind(opt(tup(prim, prim)), elem('c'), o(lambda s: (s.v, 'k')), r(lambda v: [v['v'], 'k']),
                      F('f', opt(tup(prim, prim)), elem('c'), None)),
        'vtuple': Kind(vtup(prim), elem('c'), lambda s: ('k',), lambda v: ['k'], F('f', opt(lst(prim)), elem('c'), None)),
        'dict': Kind(dct(), elem('c'), lambda s: {'a': 'b'} if s.v is None else {'k': s.v}, lambda v: Item({'a': 'b'} if v['v'] is None else {'k': v['v']}),
                     F('f', opt(dct()), elem('c'), None)),
        'attrs': Kind(dct(), None, lambda s: {'a': 'b'} if s.v is None else {'k': s.v}, lambda v: Item({'a': 'b'} if v['v'] is None else {'k': v['v']}),
                      F('f', opt(dct()), None, None)),
        'model': Kind(model(sub), elem('c'), lambda s: S(s.v), lambda v: So(v['v']), F('f', opt(model(sub)), elem('c'), None)),
        'model-tag': Kind(model(sub), None, lambda s: S(s.v), lambda v: So(v['v']), F('f', opt(model(sub)), None, None)),
        'model-none': Kind(opt(model(sub)), elem('c', nillable=True), o(lambda s: S(s.v)), r(lambda v: So(v['v'])),
                           F('f', opt(model(sub)), elem('c'), None)),
        'models': Kind(lst(model(sub)), elem('c'), lambda s: [S('k'), S(s.v)], lambda v: [So('k'), So(v['v'])],
                       F('f', opt(lst(model(sub))), elem('c'), None)),
        'union': Kind(union(sub, sub2), elem('c'), lambda s: S(s.v) if s.v is not None else sub2.cls(y='k'),
                      lambda v: So(v['v']) if v['v'] is not None else Obj(sub2, {'y': 'k'}), F('f', opt(union(sub, sub2)), elem('c'), None)),
        'root-model': Kind(model(rt), elem('c'), lambda s: rt.cls(s.v), lambda v: Obj(rt, {'root': v['v']}), F('f', opt(model(rt)), elem('c'), None)),
        'named': Kind(opt(nt), elem('c'), o(lambda s: (s.v, 'k')), r(lambda v: [v['v'], 'k']), F('f', opt(tup(prim, prim)), elem('c'), None)),
    }


def make(kind, like=None, after=True, **kw):
    """The model: data, the computed entity and, perhaps, a field that binds to an entity of the same name."""
    c = F('c', kind.type, kind.entity, computed=kind.real, alias=kind.alias)
    fs = [F('v', opt(prim), attr('v'), None), c]
    if like:
        fs.append(kind.like)
    fs.append(F('z', opt(prim), elem('z'), None))
    kw.setdefault('nsmap', {'p': 'up'})
    return M('R', *fs, tag='r', **kw)


def doc(ctx, kind, th, n=2):
    """Documents with none, one or two entities of the computed one's name, and others."""
    r = N('r', text(ctx, 'text', 1))
    for a in ('v', '{up}c' if kind.entity is not None and kind.entity.ns == 'p' else 'c' if kind.alias is None else 'd'):
        if ctx.flag('@' + a):
            r.attrs.append((a, text(ctx, '=' + a, 1)))
    tag = 'd' if kind.alias else '{uq}c' if kind.entity is not None and kind.entity.ns == 'q' else 'c'
    r.kids = kids(ctx, 'k', 0, n, lambda p: N(tag, text(ctx, p, 1), [[], [('x', 'y')], [(XSI_NIL, 'true')]][ctx.int(p + '@', 0, 2)]))
    r.kids += kids(ctx, 'z', 0, 1, lambda p: N('z', text(ctx, p, 1)))
    return r


def made(ctx, m, kind, p='o', n=2):
    o = gen_obj(ctx, m, p, Opts(text=n, items=1, key=1))
    o.values['c'] = kind.ref(o.values)
    return o


def rewrites(name, m, kind):
    """The value is that of the time of writing."""
    def setup(w):
        return build(w, m)

    def fn(w, ctx, cls):
        o = made(ctx, m, kind, n=1)
        obj = construct(w, o)
        check_write(ctx, w, write_real(w, obj), Writer().write(o), 'first')
        v = text(ctx, 'new', 1)
        obj.v = v
        o.values['v'] = v
        o.values['c'] = kind.ref(o.values)
        o.given.add('v')
        check_write(ctx, w, write_real(w, obj), Writer().write(o), 'second')
    return Harness(name, fn, setup, universe(m), bounds='any value written, changed to any other and written again')


def harnesses(tier):
    th = tier == 'thorough'
    out = []
    for name, kind in kinds().items():
        for like in (False, True):
            m = make(kind, like)
            s = '-like' if like else ''
            if not (like and name in ('text', 'attrs') or like and name.startswith('attr')):
                out.append(writes(f'write-{name}{s}', m, Opts(), inst=lambda ctx, m=m, kind=kind: made(ctx, m, kind, n=2 if not like else 1),
                                  write_kw={'skip_empty': 'any', 'exclude_none': 'any'}, bounds='any values up to 2 characters; all options', weight=2))
            for mode in ('strict', 'ordered', 'unordered') if th or name in ('elem', 'list', 'model', 'models', 'nillable') else ('strict',):
                for extra in ('ignore', 'forbid') if th or name in ('elem', 'attr', 'text', 'model', 'model-none', 'models', 'dict') else ('ignore',):
                    if extra == 'forbid' and mode != 'strict' and name not in ('elem', 'model') and not th:
                        continue
                    m2 = make(kind, like, search_mode=mode, extra=extra)
                    out.append(reads(f'read-{name}{s}-{mode}-{extra}', m2, lambda ctx, kind=kind, extra=extra: doc(ctx, kind, th, 2 if th or extra == 'ignore' else 1), weight=2,
                                     bounds='0..2 entities of the name of the computed one, any values'))
        out.append(rewrites(f'again-{name}', make(kind), kind))
    # inherited and overridden computed entities, several of them
    base = M('Base', F('v', opt(prim), attr(), None), F('c', prim, attr(), computed=lambda s: 'b'),
             F('d', opt(prim), elem(), computed=lambda s: s.v), tag='r')
    m = M('Derived', F('c', prim, elem('cc'), computed=lambda s: 'own'), F('e', opt(prim), elem('d'), None), base=base)

    def derived(ctx):
        o = gen_obj(ctx, m, 'o', Opts(text=2))
        o.values.update(c='own', d=o.values['v'])
        return o
    out.append(writes('inherited', m, Opts(), inst=derived, bounds='any values up to 2 characters'))
    out.append(reads('inherited-read', m, lambda ctx: N('r', None, [(a, text(ctx, a, 1)) for a in 'vc' if ctx.flag(a)],
                                                        kids(ctx, 'k', 0, 2, lambda p: N(lname(ctx, p, 2), text(ctx, p + 't', 1)))),
                     bounds='0..2 sub-elements of any name'))
    # inside sub-models
    inner = M('Inner', F('v', opt(prim), attr(), None), F('c', opt(prim), elem('c'), computed=lambda s: s.v), tag='i')
    m3 = M('Outer', F('i', lst(model(inner))), F('c', opt(prim), elem(), None), tag='o')

    def outer(ctx):
        o = gen_obj(ctx, m3, 'o', Opts(text=1))
        for i in o.values['i']:
            i.values['c'] = i.values['v']
        return o
    out.append(writes('nested', m3, Opts(), inst=outer, write_kw={'skip_empty': 'any', 'exclude_none': 'any'},
                      bounds='0..2 sub-models, any values'))
    out.append(reads('nested-read', m3, lambda ctx: deep(ctx, 'o', [2, 1], attrs=0, max=1), bounds='0..2 sub-elements of any name, 0..1 below'))
    return out
