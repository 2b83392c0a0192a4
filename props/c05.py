"""C05: an undeclared namespace alias is refused when the model is defined."""

from lib.gen import definable
from lib.harness import Harness
from lib.spec import (M, Field as F, attr, build, dct, elem, fst, lit, lst, model, opt, prim, raw, tagged, tup, union, wrapped)

SECONDS = {'quick': 200, 'thorough': 800}

KINDS = ('root', 'elem', 'elem-map', 'attr', 'ns-attrs', 'dict', 'raw', 'list', 'set', 'tuple', 'tuple-list', 'model', 'model-own',
         'model-elem', 'union', 'tagged', 'wrapped', 'wrapped-map', 'wrapped-inner', 'wrapped-attr', 'wrapped-twice',
         'computed', 'computed-attr', 'inherited', 'inherited-field', 'root-model', 'optional')


def make(kind, ctx, a, b, k1, k2):
    """a, b: aliases used; k1: the one the model declares, k2: the one the entity, wrapper or sub-model declares."""
    outer = {k1: 'u1'}
    own = {k2: 'u2'}
    kw = dict(tag='r', nsmap=outer)
    if kind == 'root':
        return M('R', F('x', opt(prim), attr(), None), ns=a, **kw)
    if kind == 'inherited':
        base = M('Base', F('x', opt(prim), attr(), None), nsmap=own, tag='b')
        return M('R', F('y', opt(prim), elem(), None), base=base, ns=a, **kw)
    if kind == 'inherited-field':
        base = M('Base', F('x', opt(prim), elem(ns=b), None), nsmap={b: 'u2', k2: 'u3'}, tag='b')
        return M('R', F('y', opt(prim), elem(ns=a), None), base=base, **kw)
    if kind == 'root-model':
        return M('R', F('root', lst(prim), elem('e', ns=a)), root=True, **kw)
    if kind == 'ns-attrs':
        # the model namespace goes to the attributes as well
        return M('R', F('x', opt(prim), attr(), None), ns=a, ns_attrs=True, **kw)

    def sub(name='Sub', **k):
        return M(name, F('x', opt(prim), attr(), None), tag=k.pop('tag', 's'), **k)
    e = {
        'elem': lambda: F('e', opt(prim), elem(ns=a), None),
        'elem-map': lambda: F('e', opt(prim), elem(ns=a, nsmap=own), None),
        'optional': lambda: F('e', prim, elem(ns=a, nsmap=own, nillable=True)),
        'attr': lambda: F('e', opt(prim), attr(ns=a), None),
        'dict': lambda: F('e', opt(dct()), elem(ns=a, nsmap=own), None),
        'raw': lambda: F('e', opt(raw), elem(ns=a, nsmap=own), None),
        'list': lambda: F('e', opt(lst(prim)), elem(ns=a, nsmap=own), None),
        'set': lambda: F('e', opt(fst(prim)), elem(ns=a), None),
        'tuple': lambda: F('e', opt(tup(prim, prim)), elem(ns=a, nsmap=own), None),
        'tuple-list': lambda: F('e', opt(lst(tup(prim, model(sub())))), elem(ns=a), None),
        'model': lambda: F('e', opt(model(sub(ns=a))), None, None),
        'model-own': lambda: F('e', opt(model(sub(ns=a, nsmap=own))), None, None),
        'model-elem': lambda: F('e', opt(model(sub(ns=b, nsmap={b: 'u3', k2: 'u2'}))), elem(ns=a), None),
        'union': lambda: F('e', opt(union(sub('A'), sub('B', tag='t', nsmap=own))), elem(ns=a), None),
        'tagged': lambda: F('e', opt(tagged('k', x=M('A', F('k', lit('x'), attr()), tag='t'),
                                            y=M('B', F('k', lit('y'), attr()), tag='s', nsmap=own))), elem(ns=a), None),
        'wrapped': lambda: F('e', opt(prim), wrapped('w', elem(), ns=a), None),
        'wrapped-map': lambda: F('e', opt(prim), wrapped('w/v', elem(ns=b), ns=a, nsmap=own), None),
        'wrapped-inner': lambda: F('e', opt(prim), wrapped('w', elem(ns=a, nsmap=own)), None),
        'wrapped-attr': lambda: F('e', opt(prim), wrapped('w', attr(ns=a), nsmap=own), None),
        'wrapped-twice': lambda: F('e', opt(prim), wrapped('w', wrapped('v', elem(), ns=a), nsmap=own), None),
        'computed': lambda: F('e', prim, elem(ns=a, nsmap=own), computed=lambda self: 'v'),
        'computed-attr': lambda: F('e', prim, attr(ns=a), computed=lambda self: 'v'),
    }[kind]()
    return M('R', F('z', opt(prim), elem(), None), e, **kw)


def harness(kind, th):
    n = 3 if th else 2

    def fn(w, ctx, env):
        is_attr = 'attr' in kind
        a = ctx.str('a', n, 1 if is_attr else 0, 'name')
        b = ctx.str('b', n, 0, 'name') if kind in ('wrapped-map', 'model-elem', 'inherited-field') else 'b'
        k1 = ctx.str('k1', n, 0, 'name')
        k2 = ctx.str('k2', n, 0, 'name')
        m = make(kind, ctx, a, b, k1, k2)
        expected = definable(m)
        det = lambda: f'alias {a!r}/{b!r}, model declares {k1!r}, entity declares {k2!r}: expected ' \
                      f'{"success" if expected else "ModelError"}'  # noqa: E731
        try:
            build(w, m)
        except w.px.errors.ModelError:
            ctx.check('declared aliases are accepted', not expected, det)
        except Exception as x:
            why = f'{type(x).__name__}: {x}'
            ctx.check('definition fails with ModelError', False, lambda: f'{why}; {det()}')
        else:
            ctx.check('an undeclared alias is refused', expected, det)
    return Harness(kind, fn, None, ('', 'b'), bounds=f'aliases and declared prefixes: any names of up to {n} characters',
                   min_paths=2, labels=('declared aliases are accepted', 'an undeclared alias is refused'))


def default_attr(kind):
    """An attribute is never put into the default namespace."""
    def fn(w, ctx, env):
        ns = ctx.str('ns', 1, 0, 'name')
        d = ctx.flag('default declared')
        nsmap = {ns: 'u', 'x': 'u1'}
        if d:
            nsmap[''] = 'dd'
        e = attr(ns=ns) if kind != 'wrapped' else wrapped('w', attr(ns=ns))
        f = F('e', prim, e, computed=lambda self: 'v') if kind == 'computed' else F('e', opt(prim), e, None)
        try:
            build(w, M('R', f, tag='r', nsmap=nsmap))
        except (w.px.errors.ModelFieldError, w.px.errors.ModelError):
            ctx.check('only the default prefix is refused', ctx.eq(ns, ''))
        else:
            ctx.check('the default prefix is refused for attributes', ctx.neg(ctx.eq(ns, '')))
    return Harness(f'default-{kind}', fn, None, ('', 'x'), bounds='any alias of up to 1 character')


def harnesses(tier):
    th = tier == 'thorough'
    return [harness(k, th) for k in KINDS] + [default_attr(k) for k in ('attr', 'computed', 'wrapped')]
