"""C02: the search mode alone decides which sub-elements fields bind to."""

import itertools

from lib.gen import deep, flat, kids, lname, text, universe
from lib.harness import Harness
from lib.ref import read_real
from lib.spec import M, Field as F, attr, build, dct, elem, lit, lst, model, opt, prim, raw, tagged, tup, union, wrapped
from lib.std import reads
from lib.tree import N, native

MODES = ('strict', 'ordered', 'unordered')
SECONDS = {'quick': 200, 'thorough': 800}


def multiset(tier):
    """Unordered mode with repeated names: which of several is bound first is open, that all are is not."""
    m = M('Multi', F('c', opt(prim), elem(), None), F('a', opt(lst(prim)), elem(), None), F('b', opt(prim), elem(), None),
          tag='r', search_mode='unordered')
    n = 4 if tier == 'quick' else 5

    def setup(w):
        return build(w, m)

    def fn(w, ctx, cls):
        d = flat(ctx, 'r', n, tx=1)
        real = read_real(w, cls, native(w, d))
        if real[0] != 'ok':
            return ctx.check('outcome', False, lambda: f'{d!r}: {real!r}')
        obj = real[1]
        by = {'a': [], 'b': [], 'c': []}
        for k in d.kids:
            for name, out in by.items():
                if k.tag == name:
                    out.append(k.text)
                    break
        det = lambda: f'{d!r} read as {obj!r}'  # noqa: E731
        for f in 'bc':
            v = getattr(obj, f)
            if not by[f]:
                ctx.check(f, v is None, det)
            else:
                ctx.check(f, v is not None and ctx.any([ctx.eq(w.resym(v), x) for x in by[f]]), det)
        got = [w.resym(x) for x in obj.a or ()]
        ctx.check('a has every one', len(got) == len(by['a']) and ctx.any([
            ctx.all([ctx.eq(g, x) for g, x in zip(got, perm)]) for perm in itertools.permutations(by['a'])
        ]), det)
    return Harness('unordered-repeated', fn, setup, universe(m), bounds=f'0..{n} sub-elements of any name', weight=4)


def harnesses(tier):
    th = tier == 'thorough'
    n = 5 if th else 4
    out = [multiset(tier)]
    b = f'0..{n} sub-elements of any name (1..2 characters) and text'

    def leaf(name, tag, **kw):
        return M(name, F('x', opt(prim), attr(), None), F('t', opt(prim), None, None), tag=tag, **kw)

    for mode in MODES:
        def add(name, doc, *fields, bounds=b, tag='r', weight=1, **kw):
            out.append(reads(f'{mode}-{name}', M(name.title().replace('-', ''), *fields, tag=tag, search_mode=mode, **kw),
                             doc, bounds=bounds, weight=weight))
        fl = lambda ctx: flat(ctx, 'r', n)  # noqa: E731
        add('three', fl, F('a', opt(prim), elem(), None), F('b', prim, elem()), F('c', opt(prim), elem('c'), None), weight=3)
        add('names', lambda ctx: flat(ctx, '{u}r', n - 1, q=True), F('a', opt(prim), elem(), None),
            F('b', opt(prim), elem(ns='v'), None), F('c', opt(prim), elem('c', ns=''), None), ns='u',
            nsmap={'u': 'u', 'v': 'vv', '': 'd'}, tag='r',
            bounds=f'0..{n - 1} sub-elements of any qualified name (local 1..2, namespace 1..2)', weight=6)
        add('foreign', lambda ctx: flat(ctx, 'r', n - 1, q=True), F('a', opt(prim), elem(), None), F('b', opt(prim), elem('b'), None),
            F('m', opt(model(leaf('C', 'c'))), None, None),
            bounds=f'fields without namespace; 0..{n - 1} sub-elements of any qualified name (local 1..2, namespace 1..2)', weight=4)
        add('list', fl, F('a', opt(lst(prim)), elem(), None), F('b', opt(prim), elem(), None),
            F('c', opt(lst(prim)), elem(), None), weight=3)
        add('list-twice', fl, F('b', opt(prim), elem(), None), F('a', opt(lst(prim)), elem(), None),
            F('b2', opt(prim), elem('b'), None), weight=3)
        add('tuple', fl, F('p', opt(tup(prim, prim)), elem('a'), None), F('b', opt(prim), elem(), None),
            F('c', opt(prim), elem(), None), weight=2)
        add('raw', lambda ctx: deep(ctx, 'r', [3], texts=False, max=1),
            F('a', opt(raw), elem(), None), F('b', opt(prim), elem(), None), F('c', opt(raw), elem(), None),
            bounds='0..3 sub-elements of any name')

        def mdoc(ctx):
            def make(p):
                return N(lname(ctx, p + 't', 1), text(ctx, p + 'x', 1), [('k', text(ctx, p + 'k', 1))])
            return N('r', kids=kids(ctx, 'k', 0, 3, make))
        add('map', mdoc, F('a', opt(dct()), elem(), None), F('d', opt(prim), elem(), None),
            F('b', opt(dct()), elem(), None), bounds='0..3 sub-elements of any name with an attribute')
        add('models', lambda ctx: deep(ctx, 'r', [3], attrs=0, max=1, texts=True),
            F('a', opt(model(leaf('A', 'a'))), None, None), F('b', model(leaf('B', 'b'))),
            F('c', opt(lst(model(leaf('C', 'c')))), None, None), weight=2, bounds='0..3 sub-elements of any name')
        add('union', lambda ctx: deep(ctx, 'r', [3], attrs=0, max=1, texts=True),
            F('u', opt(union(leaf('A', 'a'), leaf('B', 'b'))), None, None), F('c', opt(prim), elem(), None),
            F('a', opt(prim), elem(), None), weight=2, bounds='0..3 sub-elements of any name')
        ta = M('TA', F('k', lit('x'), attr()), tag='a')
        tb = M('TB', F('k', lit('y'), attr()), tag='b')

        def tdoc(ctx):
            def make(p):
                e = N(lname(ctx, p + 't', 1))
                if ctx.flag(p + 'k?'):
                    e.attrs.append(('k', text(ctx, p + 'k', 1)))
                return e
            return N('r', kids=kids(ctx, 'k', 0, 3, make))
        add('tagged', tdoc, F('u', opt(tagged('k', x=ta, y=tb)), None, None), F('c', opt(model(leaf('C', 'c'))), None, None),
            F('a', opt(model(leaf('A', 'a'))), None, None), weight=2, bounds='0..3 sub-elements of any name and tag')
        two = lambda ctx: deep(ctx, 'r', [2, 2] if not th else [3, 2], max=1)  # noqa: E731
        bb = '0..2 (thorough 3) sub-elements with 0..2 sub-elements each, any names'
        add('wrapped', two, F('a', opt(prim), wrapped('w', elem('a')), None), F('b', opt(prim), elem(), None),
            F('c', opt(prim), wrapped('w', elem('c')), None), bounds=bb, weight=6)
        for inner in MODES:
            sub = M('Sub', F('a', opt(prim), elem(), None), F('b', opt(prim), elem(), None), tag='s', search_mode=inner)
            add(f'sub-{inner}', two, F('s', opt(model(sub)), None, None), F('b', opt(prim), elem(), None), bounds=bb,
                weight=4)
    return out
