"""C14: a wrapped field is bound at its path and nowhere else."""

from lib import catalog
from lib.gen import MUTATIONS, Opts, deep, gen_obj, kids, lname, text
from lib.ref import qname
from lib.spec import (M, Field as F, attr, boolean, dct, elem, lit, lst, model, opt, prim, raw, tagged, tup, union, valid,
                      vtup, wrapped)
from lib.std import configured, mutated, reads, roundtrips, writes
from lib.tree import N

SECONDS = {'quick': 220, 'thorough': 850}
MODES = ('strict', 'ordered', 'unordered')


def sub(name='Sub', **kw):
    return M(name, F('x', opt(prim), attr(), None), F('k', opt(prim), elem(), None), tag='sub', **kw)


def shapes():
    W = wrapped
    return {
        'one': [F('a', opt(prim), W('w', elem('a')), None), F('b', opt(prim), elem('b'), None)],
        'text': [F('a', opt(prim), W('w'), None), F('b', opt(prim), W('w', attr('b')), None), F('c', opt(prim), elem('c'), None)],
        'shared': [F('a', opt(prim), W('w', elem('a')), None), F('b', opt(prim), W('w', elem('b')), None), F('c', opt(prim), W('w', attr('c')), None)],
        'apart': [F('a', opt(prim), W('w', elem('a')), None), F('b', opt(prim), elem('b'), None), F('c', opt(prim), W('w', elem('c')), None)],
        'deep': [F('a', opt(prim), W('w/v', elem('a')), None), F('b', opt(prim), W('w', elem('b')), None)],
        'deeper': [F('a', opt(prim), W('w/v/u', elem('a')), None), F('b', opt(prim), W('w/v', elem('b')), None)],
        'forks': [F('a', opt(prim), W('w/v', elem('a')), None), F('b', opt(prim), W('w/u', elem('a')), None), F('c', opt(prim), W('w/v', elem('c')), None)],
        'nested': [F('a', opt(prim), W('w', W('v', elem('a'))), None), F('b', opt(prim), W('w/v', elem('b')), None)],
        'same': [F('a', opt(prim), W('w/w', elem('w')), None), F('b', opt(prim), W('w', elem('b')), None)],
        'models': [F('a', opt(model(sub())), W('w'), None), F('b', opt(model(sub('Sub2'))), W('w', elem('b')), None)],
        'model-and-wrapper': [F('a', opt(model(sub())), elem('w'), None), F('b', opt(prim), W('w', elem('k')), None)],
        'wrapper-and-model': [F('b', opt(prim), W('w', elem('k')), None), F('a', opt(model(sub())), elem('w'), None)],
        'lists': [F('a', opt(lst(prim)), W('w', elem('a')), None), F('b', opt(lst(prim)), W('w', elem('b')), None)],
        'tuples': [F('a', opt(tup(prim, prim)), W('w', elem('a')), None), F('b', opt(prim), W('w', elem('b')), None)],
        'maps': [F('a', opt(dct()), W('w'), None), F('b', opt(dct()), W('w', elem('b')), None)],
        'raws': [F('a', opt(raw), W('w', elem('a')), None), F('b', opt(prim), W('w', elem('b')), None)],
        'required': [F('a', prim, W('w/v', elem('a'))), F('b', prim, W('w', attr('b')))],
        'order': [F('b', opt(prim), elem('b'), None), F('a', opt(prim), W('w', elem('a')), None), F('c', opt(prim), elem('c'), None)],
    }


def tree(ctx, th, spec):
    """Up to spec[0] children of any of a few names, and so on below; leaves with text and attributes."""
    names = ['w', 'v', 'a', 'b', 'q']

    def make(p, depth):
        n = N(lname(ctx, p, 1))
        if depth < len(spec):
            n.kids = kids(ctx, p + '.', 0, spec[depth], lambda q: make(q, depth + 1))
        n.text = text(ctx, p + 't', 1)
        return n
    return N('r', kids=kids(ctx, 'k', 0, spec[0], lambda q: make(q, 1)))


def raw_tree(ctx, p):
    return N('a', text(ctx, p, 1))


def presences(m):
    """The document of any instance; wrappers are dropped, repeated, emptied, renamed, moved or filled otherwise."""
    return mutated


def ns_make(kind, write=False):
    """Namespaces on wrapper and entity."""
    def make(ctx):
        wns = ctx.choice('wrapper ns', [None, 'p', ''])
        ens = ctx.choice('entity ns', [None, 'p', 'q'])
        mns = ctx.choice('model ns', [None, 'q'])
        nsmap = {'p': 'urn:p', 'q': 'urn:q', '': 'urn:d'}
        if kind == 'elem':
            e = wrapped('w/v', elem('a', ns=ens), ns=wns)
            t = prim
        elif kind == 'attr':
            e = wrapped('w/v', attr('a', ns=ens), ns=wns)
            t = prim
        elif kind == 'model':
            e, t = wrapped('w', elem('a', ns=ens), ns=wns), model(M('S', F('k', opt(prim), elem('k', ns=''), None), ns=ctx.choice('sub ns', [None, 'p']), nsmap=nsmap))
        elif kind == 'nested':
            e, t = wrapped('w', wrapped('v', elem('a'), ns=ens), ns=wns), prim
        return M('R', F('a', opt(t), e, None), F('b', opt(prim), elem('b'), None), tag='r', ns=mns, nsmap=nsmap)
    return make


def ns_doc(ctx, m):
    from lib.gen import document
    return document(ctx, m, Opts(text=1, min_text=1, items=1, min_items=1, none=False, attr_min=1), p='d',
                    kinds=('none', 'rename', 'renameattr'), q=True, max=1)


def harnesses(tier):
    th = tier == 'thorough'
    out = []
    for name, fields in shapes().items():
        for mode in MODES:
            m = M('R', *fields, tag='r', search_mode=mode)
            opts = Opts(text=1, min_text=1, items=1, min_items=1, none=False, attr_min=1, key=0, raw=raw_tree)
            out.append(mutated(f'{name}-{mode}', m, opts, tx=1, weight=2,
                               kinds=('none', 'drop', 'dup', 'swap', 'rename', 'kid', 'text') + (('tail', 'attr', 'dropattr', 'nil') if th else ())))
            m2 = M('R', *fields, tag='r', search_mode=mode, extra='forbid')
            out.append(mutated(f'{name}-forbid-{mode}', m2, opts, tx=1, weight=2, kinds=('none', 'drop', 'dup', 'rename')))
        m = M('R', *fields, tag='r')
        for mode in MODES if th else ('strict', 'unordered'):
            m = M('R', *fields, tag='r', search_mode=mode)
            out.append(writes(f'write-{name}-{mode}', m, Opts(text=1, items=2, key=0, raw=raw_tree), weight=1,
                              write_kw={'skip_empty': 'any', 'exclude_none': 'any'}, bounds='any instance'))
    for mode in MODES:
        for name in ('apart', 'deep', 'shared', 'text'):
            m = M('R', *shapes()[name], tag='r', search_mode=mode)
            out.append(reads(f'any-{name}-{mode}', m, lambda ctx: tree(ctx, th, [2, 2] if name != 'deep' else [1, 2, 1]), weight=5,
                             bounds='up to 2 elements with up to 2 each (deep: one, two, one), any names and texts'))
    for kind in ('elem', 'attr', 'model', 'nested'):
        out.append(configured('ns-' + kind, ns_make(kind), ns_doc,
                              lambda ctx, m: gen_obj(ctx, m, 'o', Opts(text=1, min_text=1, attr_min=1, none=False)), weight=2,
                              bounds='namespace aliases given or not on model, wrapper and entity; one name changed to any'))
    w = catalog.wrappers()
    out.append(roundtrips('back', w, Opts(text=1, min_text=1, items=1, min_items=1, attr_min=1), bounds='any instance'))
    out.append(mutated('any', w, weight=3))
    return out
