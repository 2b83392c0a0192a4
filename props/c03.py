"""C03: extra='forbid' rejects exactly the documents with unread data."""

from lib import catalog
from lib.gen import MUTATIONS, Opts, deep, kids, lname, text
from lib.spec import (M, Field as F, SelfRef, attr, boolean, dct, elem, lit, lst, model, opt, prim, raw, tagged, tup, union,
                      valid, wrapped)
from lib.std import mutated, reads
from lib.tree import N

SECONDS = {'quick': 200, 'thorough': 800}


def raw_tree(ctx, p):
    return N('r', ctx.str(p + '.t', 1, 0, 'text'), [('x', 'y')], [N('k', 't', tail='u')])


def harnesses(tier):
    th = tier == 'thorough'
    out = []

    def add(name, doc, *fields, bounds, weight=1, **kw):
        kw.setdefault('extra', 'forbid')
        m = M(name.title().replace('-', ''), *fields, tag=kw.pop('tag', 'r'), **kw)
        out.append(reads(name, m, doc, bounds=bounds, weight=weight, labels=('read: errors', 'read: value')))
        return m

    # unread attributes, texts and tails of any content, at two levels
    leaf = M('Leaf', F('x', opt(prim), attr(), None), F('t', opt(prim), None, None), tag='s')
    forb = M('Forb', F('x', opt(prim), attr(), None), F('t', opt(prim), None, None), tag='f', extra='forbid')

    for mode in ('strict', 'ordered', 'unordered'):
        add(f'attrs-{mode}', lambda ctx: deep(ctx, 'r', [2], attrs=1, texts=False, max=1),
            F('a', opt(prim), attr(), None), F('s', opt(model(leaf)), None, None), F('e', opt(prim), elem(), None),
            bounds='root and 0..2 sub-elements with 0..1 attributes each, any names', search_mode=mode)
        add(f'texts-{mode}', lambda ctx: deep(ctx, 'r', [1, 1] if not th else [2, 1], tails=True, max=1),
            F('s', opt(model(leaf)), None, None), F('e', opt(prim), elem(), None),
            bounds='root, 0..1 (thorough 2) sub-elements, 0..1 below each; texts and tails everywhere',
            search_mode=mode, weight=6)
        add(f'tails-{mode}', lambda ctx: N('r', kids=kids(ctx, 'k', 0, 3, lambda p: N(
            lname(ctx, p, 1), tail=text(ctx, p + 'l', 1)))),
            F('s', opt(model(leaf)), None, None), F('e', opt(prim), elem(), None),
            bounds='0..3 sub-elements with tails', search_mode=mode, weight=2)
    for mode in ('strict', 'ordered', 'unordered') if th else ('strict',):
        add(f'mixed-{mode}', lambda ctx: N('r', kids=[deep(ctx, ctx.choice('tag', ['s', 'e', 'q']), [1], attrs=1, tails=True, p='q')]),
            F('s', opt(model(leaf)), None, None), F('e', opt(prim), elem(), None), search_mode=mode, weight=3,
            bounds='one sub-element with text, tail, 0..1 attributes and 0..1 elements, any names')
    add('text-strip', lambda ctx: N('r', text(ctx, 'x', 4), kids=[N('e', text(ctx, 'y', 3), tail=text(ctx, 'z', 3))]),
        F('e', opt(prim), elem(), None), bounds='text and tail of up to 4 characters')
    add('own-text', lambda ctx: N('r', text(ctx, 'x', 3), [(k, text(ctx, k, 2)) for k in 'ab' if ctx.flag(k + '?')]),
        F('t', opt(prim), None, None), F('b', opt(prim), attr(), None), bounds='text up to 3 characters')
    add('inner', lambda ctx: deep(ctx, 'r', [2], attrs=1, texts=True, max=1),
        F('f', opt(model(forb)), None, None), F('s', opt(model(leaf)), None, None), extra=None,
        bounds='only the sub-model forbids; 0..2 sub-elements, 0..1 attributes')
    add('both', lambda ctx: deep(ctx, 'r', [2] if th else [1], attrs=1, texts=True, max=1, tails=True),
        F('f', opt(model(forb)), None, None), F('t', opt(prim), None, None),
        bounds='both models forbid; 0..1 (thorough 2) sub-elements, 0..1 attributes', weight=3)
    add('map', lambda ctx: deep(ctx, 'r', [1], attrs=2, texts=th, max=1),
        F('a', opt(prim), attr(), None), F('m', opt(dct()), None, None), F('d', opt(dct()), elem(), None),
        bounds='0..2 attributes each', weight=2)
    add('wrap', lambda ctx: deep(ctx, 'r', [2, 2] if th else [1, 2], attrs=0, texts=True, max=1, tails=False),
        F('a', opt(prim), wrapped('w', elem()), None), F('b', opt(prim), wrapped('w', attr()), None),
        F('c', opt(prim), wrapped('w'), None), bounds='0..1 wrapper of any name with 0..2 elements', weight=2)
    add('list', lambda ctx: deep(ctx, 'r', [3] if th else [2], attrs=0, texts=True, max=1, tails=True),
        F('a', opt(lst(prim)), elem(), None), F('s', opt(lst(model(leaf))), None, None),
        bounds='0..2 (thorough 3) sub-elements with texts and tails', weight=4)

    # every kind of field, one unexpected thing (or other change) anywhere
    kinds = MUTATIONS if th else ('none', 'attr', 'kid', 'text', 'tail', 'dup', 'rename')
    for make in catalog.ALL + [catalog.raws]:
        m = make(extra='forbid', td=False) if make is catalog.mappings else make(extra='forbid')
        out.append(mutated(f'any-{m.name}', m, Opts(text=1, min_text=1, items=1, min_items=1, depth=1, none=False,
                                                    key=0, raw=raw_tree), kinds=kinds, q=make is catalog.namespaces,
                           tx=2, weight=2))
    # union members and forbidding: a member that leaves something unread does not fit
    ua = M('UA', F('x', opt(prim), attr(), None), tag='u', extra='forbid')
    ub = M('UB', F('x', opt(prim), attr(), None), F('y', opt(prim), attr(), None), tag='u')
    add('union', lambda ctx: N('r', kids=kids(ctx, 'k', 0, 2, lambda p: N(
        'u', text(ctx, p + 't', 1), [(k, 'v') for k in 'xyz' if ctx.flag(p + k)]))),
        F('u', opt(lst(union(ua, ub))), None, None), bounds='0..2 union elements', extra='forbid')
    return out
