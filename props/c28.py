"""C28: prefixes of namespace maps are registered, and written elements have the declarations in scope for them."""

from lib.gen import Opts, gen_obj
from lib.harness import Harness
from lib.ref import DefinitionError, Writer, check_write, construct, write_real
from lib.spec import (M, Field as F, attr, build, dct, elem, lit, lst, model, opt, prim, raw, st, tagged, tup, union, wrapped)
from lib.std import align
from lib.gen import universe
from lib.tree import N

SECONDS = {'quick': 200, 'thorough': 850}

XML_NS = 'http://www.w3.org/XML/1998/namespace'


# -- registration

PLACES = ('model', 'base', 'override', 'sub', 'root-model', 'elem', 'list', 'raw', 'dict', 'wrapped', 'inner', 'twice', 'computed',
          'union', 'model-elem')


def declare(place, maps):
    """A model with the maps at a place; all of them are of the model or of one of its fields."""
    a = maps[0]
    b = maps[1] if len(maps) > 1 else None
    if place == 'model':
        return M('R', F('x', prim, elem()), nsmap=a)
    if place == 'base':
        return M('R', F('x', prim, elem()), base=M('B', nsmap=a), nsmap=b)
    if place == 'override':
        return M('R', F('x', prim, elem()), base=M('B', nsmap=a), nsmap={k: v + '2' for k, v in a.items()})
    if place == 'sub':
        return M('R', F('x', model(M('S', F('y', prim), nsmap=a))), nsmap=b)
    if place == 'root-model':
        return M('R', F('root', prim, elem('x', nsmap=b)), root=True, nsmap=a)
    if place == 'elem':
        return M('R', F('x', prim, elem(nsmap=a)), F('y', prim, elem(nsmap=b)))
    if place == 'list':
        return M('R', F('x', lst(tup(prim, prim)), elem('x', nsmap=a)))
    if place == 'raw':
        return M('R', F('x', raw, elem(nsmap=a)))
    if place == 'dict':
        return M('R', F('x', dct(), elem(nsmap=a)))
    if place == 'wrapped':
        return M('R', F('x', prim, wrapped('w/v', elem(nsmap=b), nsmap=a)))
    if place == 'inner':
        return M('R', F('x', prim, wrapped('w', elem(nsmap=a), nsmap=b, outer=True)))
    if place == 'twice':
        return M('R', F('x', prim, wrapped('w', wrapped('v', elem(nsmap=a), nsmap=b))))
    if place == 'computed':
        return M('R', F('x', prim, elem(nsmap=a), computed=lambda self: 'v'), F('z', prim, elem(nsmap=b), computed=lambda self: 'v'))
    if place == 'union':
        return M('R', F('x', union(M('S', F('s', prim), nsmap=a), M('T', F('t', prim), tag='t', nsmap=b))))
    if place == 'model-elem':
        return M('R', F('x', model(M('S', F('y', prim))), elem(nsmap=a)))


def registration(place, chars):
    def fn(w, ctx, env):
        kind = ctx.choice('kind', ['any', 'reserved', 'near'])
        if kind == 'any':
            p = ctx.str('prefix', chars, 1, 'name')
            reserved = matches(p)
        else:
            digits = ctx.choice('digits', ['0', '7', '42', ''])
            p = 'ns' + digits
            reserved = digits != ''
            if kind == 'near':
                tail = ctx.str('tail', 1, 1, 'name')
                p, q = (p + tail, 'x' + p)
                reserved = matches(p)
                if ctx.flag('front'):
                    p, reserved = q, False
        u = ctx.str('uri', 2, 1, 'uri')
        maps = [{p: u}, {'k': 'u2', '': 'dd'}]
        if ctx.flag('default'):
            maps[0] = {'': 'dd', **maps[0]}
        del w.registered[:]
        m = declare(place, maps)
        build(w, m)
        seen = list(w.registered)
        declared = [x for y in all_maps(m) for x in y.items()]
        # everything registered was declared, with this URI, and is neither the default prefix nor reserved
        conds = []
        for pref, uri in seen:
            conds.append(ctx.any([ctx.all([ctx.eq(pref, a), ctx.eq(uri, b)]) for a, b in declared if a != '']))
            conds.append(not ('ns' in pref and matches(pref)))
        ctx.check('nothing else is registered', ctx.all(conds), lambda: f'declared {declared}, registered {seen}')
        # and everything declared that is not is registered
        conds = []
        for a, b in final(m):
            if a == '' or (a is p and reserved):
                continue
            conds.append(ctx.any([ctx.all([ctx.eq(pref, a), ctx.eq(uri, b)]) for pref, uri in seen]))
        ctx.check('declared prefixes are registered', ctx.all(conds), lambda: f'declared {declared}, registered {seen}')
    return Harness('registered-' + place, fn, None, (), min_paths=6,
                   bounds=f'a prefix of 1..{chars} characters, or a reserved one, or one like it; URIs of 1..2 characters; with and without a default namespace')


def matches(p):
    """Has the prefix the reserved form? (forks)"""
    import re
    if type(p) is str:
        return re.fullmatch('ns[0-9]+', p) is not None
    from symx import rx
    return rx.fullmatch('ns[0-9]+', p) is not None


def all_maps(m, seen=()):
    out = []
    if m.base is not None:
        out += all_maps(m.base)
    if m.own['nsmap']:
        out.append(m.own['nsmap'])
    for f in m.own_fields:
        e = f.entity
        while e is not None:
            if e.nsmap:
                out.append(e.nsmap)
            e = e.inner
        for s in [a for a in f.type.args if isinstance(a, M)]:
            out += all_maps(s)
    return out


def final(m):
    """What is in effect at last: also what a base declares and the class redeclares is declared."""
    return [x for y in all_maps(m) for x in y.items()]


# -- emission

KINDS = ('prim', 'dict', 'model', 'list', 'tuple', 'models', 'union', 'tagged', 'raw', 'wrapped', 'wrapped-model', 'wrapped-twice',
         'computed', 'deep', 'root')


def maps(ctx, name, uris, th=False, none=True):
    opts = [{'p': uris[0]}, {'p': uris[1]}, {'q': uris[0]}, {'': uris[0]}, {'': uris[1], 'p': uris[0]}, {'p': uris[0], 'q': uris[1]}]
    return ctx.choice(name, ([None] if none else []) + (opts if th else opts[:2] + opts[3:5]))


def make(kind, th):
    def fn(ctx, uris):
        big = kind not in ('prim', 'dict', 'list', 'computed', 'raw')
        nsmap = maps(ctx, 'model.nsmap', uris, th)
        ns = ctx.choice('model.ns', [None, 'p'])
        kw = dict(tag='r', ns=ns, nsmap=nsmap)
        ens = ctx.choice('ns', [None, 'p', ''] if th or not big else [None, 'p'])
        emap = maps(ctx, 'nsmap', uris, th or not big) if kind not in ('model', 'models', 'union', 'tagged', 'deep') else \
            ctx.choice('nsmap', [None, {'p': uris[1]}])

        def sub(n, *fields, tag='e', **k):
            return M(n, F('x', opt(prim), attr(), None), *fields, tag=tag, ns=ctx.choice(n + '.ns', [None, 'p']),
                     nsmap=maps(ctx, n + '.nsmap', uris, th), **k)
        e = elem(ns=ens, nsmap=emap)
        if kind == 'prim':
            f = F('e', prim, e)
        elif kind == 'dict':
            f = F('e', dct(), e)
        elif kind == 'model':
            f = F('e', model(sub('Sub', F('y', prim, elem(ns=ctx.choice('y.ns', [None, 'p']))))), e)
        elif kind == 'models':
            f = F('e', lst(model(sub('Sub'))), e)
        elif kind == 'list':
            f = F('e', lst(prim), e)
        elif kind == 'tuple':
            f = F('e', tup(prim, model(sub('Sub'))), elem('e', ns=ens, nsmap=emap))
        elif kind == 'union':
            f = F('e', union(sub('SubA'), M('SubB', F('y', prim, attr()), tag='f', nsmap={'q': uris[0]})), e)
        elif kind == 'tagged':
            a = M('TA', F('k', lit('a'), attr()), tag='e', nsmap=maps(ctx, 'TA.nsmap', uris, th))
            b = M('TB', F('k', lit('b'), attr()), tag='f', nsmap={'q': uris[1]})
            f = F('e', tagged('k', a=a, b=b), e)
        elif kind == 'raw':
            f = F('e', raw, e)
        elif kind in ('wrapped', 'wrapped-model', 'wrapped-twice'):
            inner = elem('i', ns=ctx.choice('inner.ns', [None, 'p']), nsmap=maps(ctx, 'inner.nsmap', uris, th))
            t = prim
            if kind == 'wrapped-model':
                t = model(M('Sub', F('x', prim, elem()), nsmap={'p': uris[1]}))
            if kind == 'wrapped-twice':
                inner = wrapped('v', inner, nsmap=ctx.choice('mid.nsmap', [None, {'p': uris[1]}, {'': uris[1]}]))
            f = F('e', t, wrapped('w/z' if kind == 'wrapped' else 'w', inner, ns=ens, nsmap=emap))
        elif kind == 'computed':
            f = F('e', prim, e, computed=lambda self: 'v')
        elif kind == 'deep':
            c = M('C', F('x', prim, elem()), tag='c', nsmap=ctx.choice('C.nsmap', [None, {'p': uris[0], 'q': uris[1]}, {'': uris[0]}]))
            f = F('e', model(sub('Sub', F('c', model(c)))), e)
        elif kind == 'root':
            f = F('e', model(M('Root', F('root', prim, elem('x', ns=ens, nsmap=emap)), root=True, tag='rt',
                               nsmap=maps(ctx, 'Root.nsmap', uris, th))))
        return M('R', f, **kw)
    return fn


def in_scope(n, outer=None):
    """The declarations of the elements around it apply to an element."""
    scope = {**(outer or {}), **(n.nsmap or {})}
    if scope.get('') and not n.tag.startswith('{'):
        scope[''] = ''
    n.nsmap = scope
    for k in n.kids:
        in_scope(k, scope)
    return n


def plain(n):
    """No default namespace is the same as an empty one."""
    n.nsmap = {k: v for k, v in n.nsmap.items() if v}
    for k in n.kids:
        plain(k)
    return n


def emission(kind, th):
    mk = make(kind, th)
    o = Opts(text=1, min_text=1, items=2 if th else 1, min_items=1, key=0, none=False, raw=lambda ctx, p: N('e', 'x', kids=[N('y')]))

    def fn(w, ctx, env):
        uris = [ctx.str('u1', 2, 1, 'uri'), ctx.str('u2', 2, 1, 'uri')]
        m = mk(ctx, uris)
        try:
            ctx.universe = universe(m, extra=('x', 'y', 'k'))
        except DefinitionError:
            ctx.assume(False)
        build(w, m)
        obj = gen_obj(ctx, m, 'o', o)
        if kind == 'computed':
            obj.values['e'] = 'v'
        real = construct(w, obj)
        expected = Writer().write(align(w, real, obj))
        real = write_real(w, real)
        if real[0] == 'ok':
            plain(real[1])
        check_write(ctx, w, real, plain(in_scope(expected)), 'declarations', nsmap=True)
    return Harness('emitted-' + kind, fn, None, ('x', 'y', 'k'), backends=('lxml',), min_paths=4, weight=3,
                   bounds='maps with up to two of the prefixes p, q and default and two URIs (any, equal or not) at model, field, wrapper and sub-model')


def harnesses(tier):
    th = tier == 'thorough'
    return [registration(p, 6 if th else 4) for p in PLACES] + [emission(k, th) for k in KINDS]
