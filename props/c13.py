"""C13: fixed-length and named tuples bind their items by position."""

from lib import catalog
from lib.gen import MUTATIONS, Opts, flat, gen_obj, kids, lname, text
from lib.ref import XSI_NIL
from lib.spec import (M, Field as F, attr, boolean, dct, elem, lit, lst, model, ntup, opt, prim, raw, tagged, tdict, tup, union,
                      valid, vtup, wrapped)
from lib.std import configured, mutated, reads, roundtrips, writes
from lib.tree import N

SECONDS = {'quick': 220, 'thorough': 850}


def sub(name='Sub'):
    return M(name, F('x', opt(valid), attr(), None), F('t', opt(prim), None, None), tag='sub')


def shapes():
    a, b = M('UA', F('x', prim, attr()), tag='e'), M('UB', F('y', prim, attr()), tag='e')
    ta, tb = M('TA', F('k', lit('a'), attr()), tag='e'), M('TB', F('k', lit('b'), attr()), tag='e')
    return {
        'prims': [valid, boolean, opt(prim)],
        'opts': [opt(valid), opt(valid), opt(valid)],
        'models': [model(sub()), opt(valid), model(sub('Sub2'))],
        'maps': [dct(), valid, opt(dct())],
        'raws': [raw, valid],
        'unions': [union(a, b), prim, opt(union(a, b))],
        'tagged': [tagged('k', a=ta, b=tb), prim],
        'two': [valid, valid],
        'one': [valid],
    }


def wrap(kind, ts):
    t = tup(*ts) if kind != 'named' else ntup('NT', **{f'n{i}': x for i, x in enumerate(ts)})
    z = F('z', opt(prim), elem('z'), None)
    if kind in ('plain', 'named'):
        return [F('e', t, elem('e')), z]
    if kind == 'optional':
        return [F('a', opt(prim), elem('a'), None), F('e', opt(t), elem('e'), None), z]
    if kind == 'list':
        return [F('e', opt(lst(t)), elem('e'), None), z]
    if kind == 'named-list':
        return [F('e', opt(lst(ntup('NT', **{f'n{i}': x for i, x in enumerate(ts)}))), elem('e'), None), z]
    if kind == 'wrapped':
        return [F('e', opt(t), wrapped('w', elem('e')), None), F('y', opt(prim), wrapped('w', elem('z')), None)]
    if kind == 'two':
        return [F('e', opt(t), elem('e'), None), F('f', opt(t), elem('e'), None), z]


def element(ctx, p, tag=None):
    """Something that suits one or the other position."""
    kind = ctx.choice(p, ['text', 'bad', 'empty', 'attr', 'map'])
    n = N(tag or 'e')
    if kind == 'text':
        n.text = text(ctx, p + 't', 1, 1)
    elif kind == 'bad':
        n.text = 'bad'
        n.attrs.append(('x', 'bad'))
    elif kind == 'attr':
        n.attrs.append(('x', 'v'))
    elif kind == 'map':
        n.attrs += [('k', 'b'), ('y', 'w')]
    return n


def harnesses(tier):
    th = tier == 'thorough'
    out = []
    b = 'one element per position, and one more or less; each with text, invalid, empty or with attributes; another element behind'
    for name, ts in shapes().items():
        n = len(ts)
        for kind in ('plain', 'named', 'optional', 'list', 'named-list', 'wrapped', 'two'):
            if kind in ('list', 'named-list', 'two') and n > 2 and not th:
                continue
            m = M('R', *wrap(kind, ts), tag='r')

            def doc(ctx, kind=kind, n=n):
                if kind in ('list', 'named-list', 'two'):
                    ks = kids(ctx, 'k', 0, 2 * n + 1 if n == 1 else 4, lambda p: N('e', ctx.choice(p, ['bad', 'ok', ''])))
                else:
                    ks = kids(ctx, 'k', max(0, n - 1), n + 1 if n < 3 or th else n, lambda p: element(ctx, p))
                ks = ks + [N('z', 'zz')]
                return N('r', kids=[N('w', kids=ks)] if kind == 'wrapped' else ks)
            out.append(reads(f'{name}-{kind}', m, doc, bounds=b, weight=2))
            if kind in ('plain', 'named', 'list', 'wrapped'):
                out.append(writes(f'write-{name}-{kind}', m, Opts(
                    text=1, items=1 if n > 2 else 2, key=0, raw=lambda ctx, p: N('e', text(ctx, p, 1))),
                    bounds='any instance, None where allowed', weight=1,
                    write_kw={'exclude_none': 'any', 'skip_empty': 'any'} if th else {}))
    for kind in ('plain', 'named', 'optional', 'list', 'wrapped'):
        for name in ('opts', 'two') if kind != 'list' else ('two',):
            m = M('R', *wrap(kind, shapes()[name]), tag='r')

            def doc(ctx, kind=kind, n=len(shapes()[name])):
                ks = kids(ctx, 'k', 0, 4 if kind == 'list' else n, lambda p: N('e', ctx.choice(p, ['bad', 'ok', ''])))
                return N('r', kids=[N('w', kids=ks)] if kind == 'wrapped' else ks)
            out.append(reads(f'empty-{name}-{kind}', m, doc, read_kw={'empty_as_string': 'any'},
                             bounds='one element per position or fewer, each with text, invalid or empty'))
    for mode in ('strict', 'ordered', 'unordered'):
        m = M('R', F('a', opt(prim), elem('a'), None), F('e', opt(tup(prim, boolean)), elem('e'), None), F('b', opt(prim), elem('b'), None),
              tag='r', search_mode=mode)
        out.append(reads('around-' + mode, m, lambda ctx: flat(ctx, 'r', 4, max=1, tx=1), bounds='0..4 elements of any name and text',
                         weight=3))
        m = M('R', F('e', tup(model(sub('S1')), model(sub('S2')), model(sub('S1')))), tag='r', search_mode=mode)
        m.fields[0].type.args[1].args[0].own['tag'] = 'sub2'
        out.append(reads('own-tags-' + mode, m, lambda ctx: N('r', kids=kids(ctx, 'k', 1, 4, lambda p: N(
            ctx.choice(p, ['sub', 'sub2', 'z']), attrs=[('x', ctx.choice(p + 'x', ['bad', 'ok']))]))), weight=2,
            bounds='1..4 elements with the tags of the items or another'))
    for make in (catalog.tuples, catalog.tuple_list):
        m = make()
        out.append(roundtrips('back-' + m.name, m, Opts(text=1, min_text=1, items=2, min_items=1), bounds='any instance'))
        out.append(mutated('any-' + m.name, m, kinds=MUTATIONS, weight=2))
    return out
