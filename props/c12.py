"""C12: collections keep every item, in document order."""

from lib import catalog
from lib.gen import MUTATIONS, Opts, deep, flat, gen_obj, kids, lname, text, universe
from lib.harness import Harness
from lib.ref import XSI_NIL, Reader, check_read, eq_outcome, read_real
from lib.spec import (M, Field as F, attr, boolean, build, dct, elem, fst, lit, lst, model, opt, prim, raw, st, tagged, tup,
                      union, valid, vtup, wrapped)
from lib.std import configured, mutated, reads, roundtrips, writes
from lib.tree import N, native

SECONDS = {'quick': 220, 'thorough': 850}


def empties(name, t, doc):
    """Items without a value: the recorded finding K1, and nothing else."""
    m = M('R', F('e', opt(lst(t)), elem('e'), None), F('z', opt(prim), elem('z'), None), tag='r', search_mode='ordered')

    def setup(w):
        return build(w, m)

    def fn(w, ctx, cls):
        d = doc(ctx)
        real = read_real(w, cls, native(w, d))
        stop = Reader(ctx, empty_items='stop').read(m, d)
        keep = Reader(ctx, empty_items='keep').read(m, d)
        check_read(ctx, w, real, keep, known=('K1', eq_outcome(ctx, w, real, stop)))
    return Harness('empty-' + name, fn, setup, universe(m), bounds='0..3 items of which any have no value', min_paths=2)


COLLECTIONS = {'list': lst, 'vtup': vtup, 'set': st, 'fset': fst}


def harnesses(tier):
    th = tier == 'thorough'
    out = []
    n = 5 if th else 4
    leaf = lambda: M('Leaf', F('x', valid, attr()), F('t', opt(prim), None, None), tag='leaf')  # noqa: E731

    # every kind of collection of primitives: neighbours before and behind, items valid or not
    for cname, make in COLLECTIONS.items():
        for mode in ('strict', 'ordered'):
            if cname in ('set', 'fset') and mode == 'ordered':
                continue
            m = M('Prims', F('a', opt(prim), elem(), None), F('e', opt(make(prim if cname in ('set', 'fset') else valid)), elem(), None),
                  F('z', opt(prim), elem(), None), tag='r', search_mode=mode)
            out.append(reads(f'{cname}-{mode}', m, lambda ctx: flat(ctx, 'r', n, max=1, tx=1), weight=3,
                             bounds=f'0..{n} sub-elements of any name and text'))
    m = M('Invalid', F('e', lst(valid), elem()), F('z', opt(valid), elem(), None), tag='r')
    out.append(reads('invalid-items', m, lambda ctx: N('r', kids=kids(ctx, 'k', 0, n, lambda p: N('e', text(ctx, p, 3, 1))) +
                                                       ([N('z', text(ctx, 'z', 3, 1))] if ctx.flag('z?') else [])),
                     bounds=f'0..{n} items with any text of 1..3 characters', weight=3))
    m = M('Bools', F('e', vtup(boolean), elem()), tag='r')
    out.append(reads('bools', m, lambda ctx: N('r', kids=kids(ctx, 'k', 0, 3, lambda p: N('e', text(ctx, p, 2, 1)))),
                     bounds='0..3 items with any text of 1..2 characters', weight=3))

    # collections of everything else
    def items(p, ctx, tag, hi=3):
        def make(q):
            kind = ctx.choice(q, ['ok', 'bad', 'lacks', 'other'])
            el = N(tag if kind != 'other' else 'z', attrs=[('x', 'bad' if kind == 'bad' else 'v')] if kind != 'lacks' else [])
            el.text = text(ctx, q + 't', 1, 1)
            return el
        return kids(ctx, p, 0, hi, make)
    for mode in ('strict', 'ordered', 'unordered'):
        m = M('Models', F('e', lst(model(leaf())), elem('e')), F('z', opt(model(leaf())), elem('z'), None), tag='r', search_mode=mode)
        out.append(reads('models-' + mode, m, lambda ctx: N('r', kids=items('i', ctx, 'e')), weight=2,
                         bounds='0..3 elements: valid, invalid or incomplete items and others'))
    two = lambda: M('Two', F('p', opt(lst(valid)), elem('p'), None), F('q', opt(lst(prim)), elem('q'), None), tag='two')  # noqa: E731
    m = M('Nested', F('two', lst(model(two()))), F('q', opt(lst(prim)), elem('q'), None), tag='r')

    def two_doc(ctx):
        return N('r', kids=kids(ctx, 't', 0, 2, lambda p: N('two', kids=kids(ctx, p + 'k', 0, 2, lambda q: N(
            ctx.choice(q, ['p', 'q']), ctx.choice(q + 'v', ['bad', 'ok']))))) + [N('q', 'x') for _ in range(ctx.int('q', 0, 1))])
    out.append(reads('nested', m, two_doc, bounds='0..2 items with 0..2 items each, valid or not', weight=3))
    m = M('Maps', F('e', opt(lst(dct())), elem('e'), None), F('z', opt(dct()), elem('z'), None), tag='r')
    out.append(reads('maps', m, lambda ctx: N('r', kids=kids(ctx, 'k', 0, 3, lambda p: N(
        ctx.choice(p, ['e', 'z']), attrs=[(lname(ctx, p + 'n', 1), text(ctx, p + 'v', 1))]))), weight=2,
        bounds='0..3 elements with an attribute each'))
    m = M('Raws', F('e', opt(lst(raw)), elem('e'), None), F('z', opt(raw), elem('z'), None), tag='r')
    out.append(reads('raws', m, lambda ctx: N('r', kids=kids(ctx, 'k', 0, 3, lambda p: N(
        lname(ctx, p, 1), text(ctx, p + 't', 1), kids=[N('k', 'x')] if ctx.flag(p + 'k') else []))), weight=2,
        bounds='0..3 elements of any name'))
    m = M('Tuples', F('e', opt(lst(tup(valid, prim))), elem('e'), None), F('z', opt(prim), elem('z'), None), tag='r')
    out.append(reads('tuples', m, lambda ctx: N('r', kids=kids(ctx, 'k', 0, 5, lambda p: N(
        ctx.choice(p, ['e', 'z']), ctx.choice(p + 'v', ['bad', 'ok'])))), weight=2, bounds='0..5 elements'))
    m = M('Wrapped', F('e', opt(lst(valid)), wrapped('w/v', elem('e')), None), F('y', opt(lst(prim)), wrapped('w', elem('y')), None),
          F('z', opt(prim), elem('z'), None), tag='r')
    out.append(reads('wrapped', m, lambda ctx: N('r', kids=[N('w', kids=[
        N('v', kids=kids(ctx, 'e', 0, 3, lambda p: N('e', ctx.choice(p, ['bad', 'ok']))))] +
        kids(ctx, 'y', 0, 2, lambda p: N(ctx.choice(p, ['y', 'e']), 'x'))), N('z', 'x')]), weight=2,
        bounds='0..3 items below two wrappers, 0..2 below one'))
    rl = M('RL', F('root', lst(valid), elem('e')), root=True, tag='rl')
    m = M('Roots', F('l', opt(lst(model(rl))), None, None), F('z', opt(prim), elem('z'), None), tag='r')
    out.append(reads('roots', m, lambda ctx: N('r', kids=kids(ctx, 'l', 0, 2, lambda p: N('rl', kids=kids(
        ctx, p + 'e', 0, 2, lambda q: N('e', ctx.choice(q, ['bad', 'ok']))))) + [N('z', 'x')]), weight=2,
        bounds='0..2 lists of 0..2 items'))
    ua, ub = M('UA', F('x', prim, attr()), tag='a'), M('UB', F('y', prim, attr()), tag='b')
    m = M('Unions', F('u', opt(lst(union(ua, ub))), None, None), F('z', opt(prim), elem('z'), None), tag='r')
    out.append(reads('unions', m, lambda ctx: N('r', kids=kids(ctx, 'k', 0, 3, lambda p: N(
        ctx.choice(p, ['a', 'b', 'z']), attrs=[(k, 'v') for k in 'xy' if ctx.flag(p + k)]))), weight=2,
        bounds='0..3 elements that fit or not'))

    # writing, and reading back
    big = Opts(text=1, items=3, min_text=0, key=0)
    for cname, make in COLLECTIONS.items():
        m = M('W', F('a', opt(prim), elem(), None), F('e', opt(make(prim)), elem(), None), F('z', opt(prim), elem(), None), tag='r')
        out.append(writes('write-' + cname, m, big, bounds='any instance with 0..3 items', weight=2))
    for name, t in (('models', model(leaf())), ('maps', dct()), ('tuples', tup(prim, boolean)), ('unions', union(ua, ub)),
                    ('opt', opt(prim))):
        m = M('W', F('e', lst(t), elem('e')), F('z', opt(prim), elem('z'), None), tag='r')
        out.append(writes('write-' + name, m, Opts(text=1, items=3 if name != 'maps' else 2, key=0), bounds='any instance with 0..3 items',
                          weight=2))
    m = M('W', F('e', opt(lst(prim)), wrapped('w/v', elem('e')), None), F('y', opt(vtup(prim)), wrapped('w', elem('y')), None), tag='r')
    out.append(writes('write-wrapped', m, Opts(text=1, items=2), bounds='any instance with 0..2 items'))
    one = Opts(text=1, min_text=1, items=3, min_items=1, none=False, key=0)
    for make in (catalog.lists, catalog.sets, catalog.tuple_list, catalog.root_list):
        m = make()
        out.append(roundtrips('back-' + m.name, m, one if make is not catalog.lists else Opts(
            text=1, min_text=1, items=2, min_items=1, none=False), bounds='any instance with 0..3 items', weight=2))
        out.append(mutated('any-' + m.name, m, Opts(text=1, min_text=1, items=2, min_items=2, none=False), weight=2, read_kw={'empty_as_string': 'any'} if th or make is not catalog.sets else {},
                           kinds=MUTATIONS if th else ('none', 'kid', 'text', 'drop', 'dup', 'swap', 'rename', 'tail')))

    # items without a value
    out.append(empties('text', prim, lambda ctx: N('r', kids=kids(ctx, 'k', 0, 3, lambda p: N('e', text(ctx, p, 1))) + [N('z', 'z')])))
    out.append(empties('nil', model(M('Leaf', F('x', opt(prim), attr(), None), tag='leaf')), lambda ctx: N('r', kids=kids(
        ctx, 'k', 0, 3, lambda p: N('e', attrs=[(XSI_NIL, 'true')] if ctx.flag(p) else [])) + [N('z', 'z')])))
    return out
