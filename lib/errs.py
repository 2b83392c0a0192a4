"""Models and documents with invalid and missing values at every kind of place (properties C17, C18, C27)."""

from .gen import kids, text
from .spec import (M, Field as F, SelfRef, attr, boolean, dct, dctv, elem, lit, lst, model, ntup, opt, prim, raw, st, tagged,
                   tdict, tup, union, valid, vtup, wrapped)
from .tree import N


def differ(values):
    return values['x'] is None or values['x'] != values['y']


def val(ctx, p, min=1):
    """Any string; 'bad' is invalid."""
    return text(ctx, p, 3, min)


def leaf(ctx, p, tag=None, attrs=('x',), sub=(), txt=None):
    """An element whose attributes, sub-elements and text are right, wrong or missing, each."""
    n = N(tag)
    for a in attrs:
        if ctx.flag(f'{p}@{a}?'):
            n.attrs.append((a, val(ctx, f'{p}@{a}', 0)))
    for s in sub:
        if ctx.flag(f'{p}/{s}?'):
            n.kids.append(N(s, val(ctx, f'{p}/{s}', 0)))
    if txt:
        n.text = val(ctx, p + '.text', 0)
    return n


def cases(th=False, **cfg):
    """name -> (model, document)"""
    def mk(name, *fields, **kw):
        return M(name, *fields, **{**cfg, **kw})

    def low(name='Low', tag='low', **kw):
        return mk(name, F('x', valid, attr()), F('y', valid, elem()), tag=tag, **kw)

    out = {}
    out['flat'] = (mk('R', F('x', valid, attr()), F('y', valid, elem()), F('z', opt(valid), elem('zz'), None), F('b', opt(boolean), elem(), None),
                      tag='r'),
                   lambda ctx: leaf(ctx, 'd', 'r', 'x', ('y', 'zz', 'b')))
    out['text'] = (mk('R', F('t', valid), F('x', valid, attr('xx')), tag='r'), lambda ctx: leaf(ctx, 'd', 'r', ['xx'], (), True))
    mid = mk('Mid', F('low', model(low())), F('y', valid, elem()), tag='mid')
    out['nested'] = (mk('R', F('mid', model(mid)), F('y', valid, elem()), tag='r'),
                     lambda ctx: nest(ctx))

    def nest(ctx):
        r = leaf(ctx, 'r', 'r', (), ('y',))
        m = leaf(ctx, 'm', 'mid', (), ('y',))
        if ctx.flag('low?'):
            m.kids.insert(0, leaf(ctx, 'l', 'low', 'x', 'y'))
        if ctx.flag('mid?'):
            r.kids.insert(0, m)
        return r

    def items(tag, n=2, lo=0, **kw):
        return lambda ctx: N('r', kids=kids(ctx, 'k', lo, n, lambda p: leaf(ctx, p, tag, **kw)))
    out['list'] = (mk('R', F('a', lst(valid), elem('a')), F('b', opt(vtup(valid)), elem('b'), None), tag='r'),
                   lambda ctx: N('r', kids=kids(ctx, 'a', 0, 3, lambda p: N('a', val(ctx, p)))
                                 + kids(ctx, 'b', 0, 2, lambda p: N('b', val(ctx, p)))))
    out['models'] = (mk('R', F('low', lst(model(low()))), tag='r'), items('low', 2, sub='y'))
    out['models-tuple'] = (mk('R', F('low', tup(model(low()), valid, model(low('Low2', 'low'))), elem('low')), tag='r'),
                           lambda ctx: N('r', kids=[leaf(ctx, 'a', 'low', 'x', 'y'), N('low', val(ctx, 't')),
                                                    leaf(ctx, 'b', 'low', 'x', 'y')][:ctx.int('n', 0, 3)]))
    out['named'] = (mk('R', F('t', ntup('NT', u=valid, v=valid), elem('t')), F('z', valid, elem()), tag='r'),
                    lambda ctx: N('r', kids=kids(ctx, 'k', 0, 2, lambda p: N('t', val(ctx, p, 0)))
                                  + kids(ctx, 'z', 0, 1, lambda p: N('z', val(ctx, p)))))
    out['tuples'] = (mk('R', F('t', lst(tup(valid, valid)), elem('t')), tag='r'),
                     lambda ctx: N('r', kids=kids(ctx, 'k', 0, 4, lambda p: N('t', val(ctx, p)))))
    ua = mk('UA', F('x', valid, attr()), F('y', valid, elem()), tag='u')
    ub = mk('UB', F('x', valid, attr()), F('z', valid, elem()), tag='u')
    out['union'] = (mk('R', F('u', union(ua, ub)), F('y', opt(valid), elem(), None), tag='r'),
                    lambda ctx: N('r', kids=kids(ctx, 'k', 0, 1, lambda p: leaf(ctx, p, 'u', 'x', 'yz'))
                                  + kids(ctx, 'y', 0, 1, lambda p: N('y', val(ctx, p)))))
    uc = mk('UC', F('x', valid, attr()), tag='u')
    ud = mk('UD', F('y', valid, attr()), tag='u')
    out['unions'] = (mk('R', F('u', lst(union(uc, ud))), tag='r'), items('u', 2, attrs='xy'))
    ta = mk('TA', F('k', lit('a'), attr()), F('x', valid, attr()), F('y', valid, elem()), tag='t')
    tb = mk('TB', F('k', lit('b'), attr()), F('x', valid, attr()), tag='t')

    def with_kind(ctx, p):
        n = leaf(ctx, p, 't', 'x', 'y')
        n.attrs.append(('k', ctx.choice(p + 'k', ['a', 'b', 'c'])))
        return n
    out['tagged'] = (mk('R', F('t', tagged('k', a=ta, b=tb)), F('z', opt(valid), elem(), None), tag='r'),
                     lambda ctx: N('r', kids=kids(ctx, 'k', 0, 1, lambda p: with_kind(ctx, p))
                                   + kids(ctx, 'z', 0, 1, lambda p: N('z', val(ctx, p)))))
    out['tagged-list'] = (mk('R', F('t', lst(tagged('k', a=ta, b=tb))), tag='r'),
                          lambda ctx: N('r', kids=kids(ctx, 'k', 0, 2, lambda p: with_kind(ctx, p))))
    out['wrapped'] = (mk('R', F('a', valid, wrapped('w/v', elem('a'))), F('b', valid, wrapped('w/v', attr('b'))), F('c', opt(valid), wrapped('w'), None),
                         tag='r'),
                      lambda ctx: N('r', kids=kids(ctx, 'w', 0, 1, lambda p: N('w', val(ctx, 'c', 0), kids=kids(
                          ctx, 'v', 0, 1, lambda q: leaf(ctx, 'q', 'v', 'b', 'a'))))))
    out['wrapped-models'] = (mk('R', F('m', lst(model(low())), wrapped('w', elem('low'))), F('n', opt(model(low('Low2', 'low2'))), wrapped('w'), None), tag='r'),
                             lambda ctx: N('r', kids=kids(ctx, 'w', 0, 1, lambda p: N('w', kids=kids(
                                 ctx, 'v', 0, 2, lambda q: leaf(ctx, q, 'low', 'x', 'y')) + [N('low2')][:ctx.int('n', 0, 1)]))))
    rl = mk('RL', F('root', lst(model(low())), elem('low')), root=True, tag='rl')
    out['root-list'] = (rl, lambda ctx: N('rl', kids=kids(ctx, 'k', 0, 2, lambda q: leaf(ctx, q, 'low', 'x', 'y'))))
    rt = mk('RT', F('root', valid), root=True, tag='rt')
    ru = mk('RU', F('root', union(uc, ud)), root=True, tag='ru')
    out['roots'] = (mk('R', F('a', lst(model(rt))), F('b', opt(model(ru)), elem('b'), None), F('c', opt(model(rl)), None, None), tag='r'),
                    lambda ctx: N('r', kids=kids(ctx, 'a', 0, 2, lambda p: N('rt', val(ctx, p, 0)))
                                  + kids(ctx, 'b', 0, 1, lambda p: N('b', kids=kids(ctx, p, 0, 1, lambda q: leaf(ctx, q, 'u', 'xy'))))
                                  + kids(ctx, 'c', 0, 1, lambda p: N('rl', kids=kids(ctx, p, 0, 1, lambda q: N('low', attrs=[('x', val(ctx, q))]))))))
    out['maps'] = (mk('R', F('m', dctv(valid)), F('d', opt(lst(dctv(valid))), elem('d'), None), tag='r'),
                   lambda ctx: N('r', attrs=leaf(ctx, 'r', 'r', 'pq').attrs, kids=kids(ctx, 'd', 0, 2, lambda p: leaf(ctx, p, 'd', 'p'))))
    out['typed-map'] = (mk('R', F('t', tdict('TD', 'p', 'q'), elem('t')), F('z', opt(tdict('TD2', 'p')), elem('z'), None), tag='r'),
                        lambda ctx: N('r', kids=kids(ctx, 't', 0, 1, lambda p: leaf(ctx, p, 't', 'pq'))
                                      + kids(ctx, 'z', 0, 1, lambda p: leaf(ctx, p, 'z', 'p'))))
    al = mk('Al', F('x', valid, attr(), alias='xx'), F('y', valid, elem('y'), alias='yy'), tag='al')
    out['aliased'] = (mk('R', F('a', lst(model(al)), None, alias='aa'), F('b', valid, attr('b'), valias='bb'), tag='r'),
                      lambda ctx: N('r', attrs=leaf(ctx, 'r', 'r', 'b').attrs,
                                    kids=kids(ctx, 'k', 0, 2, lambda p: leaf(ctx, p, 'al', ['xx'], 'y'))))
    node = mk('Node', F('x', valid, attr()), F('node', opt(lst(model(SelfRef('Node')))), elem('node'), None), tag='node')

    def deep_node(ctx, p, ns):
        n = leaf(ctx, p, 'node', 'x')
        if ns:
            n.kids = kids(ctx, p + '.', 0, ns[0], lambda q: deep_node(ctx, q, ns[1:]))
        return n
    out['recursive'] = (node, lambda ctx: deep_node(ctx, 'n', [2, 1]))
    # model validators
    for mode in ('after', 'before'):
        ck = mk('Ck', F('x', opt(valid), attr(), None), F('y', opt(valid), attr(), None), tag='ck', check=differ, check_mode=mode)

        def pair(ctx, p, tag):
            n = N(tag)
            for a in 'xy':
                v = ctx.choice(p + a, ['1', '2', 'bad', None])
                if v:
                    n.attrs.append((a, v))
            return n
        out['check-' + mode] = (mk('R', F('ck', lst(model(ck)), elem('ck')), F('x', opt(valid), attr(), None), F('y', opt(valid), attr(), None),
                                   tag='r', check=differ, check_mode=mode),
                                lambda ctx: N('r', attrs=pair(ctx, 'r', 'r').attrs, kids=kids(ctx, 'k', 0, 1, lambda p: pair(ctx, p, 'ck'))))
        other = mk('Other', F('x', opt(valid), attr(), None), F('y', valid, attr()), tag='ck')
        out['check-union-' + mode] = (mk('R', F('u', union(ck, other)), F('c', opt(model(ck)), elem('c'), None), tag='r'),
                                      lambda ctx: N('r', kids=kids(ctx, 'k', 0, 1, lambda p: pair(ctx, p, 'ck'))
                                                    + kids(ctx, 'c', 0, 1, lambda p: pair(ctx, p, 'c'))))
    cr = mk('CR', F('root', lst(valid), elem('i')), root=True, tag='cr', check=lambda v: len(v['root']) != 2)
    out['check-root'] = (mk('R', F('c', model(cr), elem('c')), tag='r'), lambda ctx: N('r', kids=[
        N('c', kids=kids(ctx, 'k', 0, 3, lambda p: N('i', val(ctx, p))))]))
    return out
