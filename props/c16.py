"""C16: raw elements pass through unchanged."""

from lib import catalog
from lib.gen import MUTATIONS, Opts, distinct, document, gen_obj, kids, lname, qtag, text, universe
from lib.harness import Harness
from lib.ref import Obj, construct, read_real
from lib.spec import (M, Field as F, attr, build, dct, elem, lst, model, opt, prim, raw, tup, union, valid, vtup, wrapped)
from lib.std import configured, mutated, reads, writes
from lib.tree import N, eq_tree, native, neutral, show

SECONDS = {'quick': 220, 'thorough': 850}


def subtree(ctx, p, tag, shape, q=True, attrs=1, tx=1):
    """Any content: text, attributes and, level by level, up to shape[i] elements of any name with tails."""
    n = N(tag, text(ctx, p + 't', tx))
    for i in range(ctx.int(p + '@', 0, attrs)):
        n.attrs.append((qtag(ctx, f'{p}@{i}', 1, 1) if q else lname(ctx, f'{p}@{i}', 1), text(ctx, f'{p}={i}', tx)))
    distinct(ctx, n.attrs)
    if shape:
        def make(x):
            s = subtree(ctx, x, qtag(ctx, x + 'n', 1, 1) if q else lname(ctx, x + 'n', 1), shape[1:], q, 0, tx)
            s.tail = text(ctx, x + 'l', tx)
            return s
        n.kids = kids(ctx, p + '.', 0, shape[0], make)
    return n


def shapes():
    sub = M('Sub', F('r', raw, elem('r')), F('x', opt(prim), attr(), None), tag='sub')
    return {
        'one': ([F('a', opt(prim), elem('a'), None), F('r', raw, elem('r')), F('z', opt(prim), elem('z'), None)], 1),
        'optional': ([F('r', opt(raw), elem('r'), None), F('z', opt(prim), elem('z'), None)], 1),
        'list': ([F('r', opt(lst(raw)), elem('r'), None), F('z', opt(prim), elem('z'), None)], 2),
        'tuple': ([F('r', opt(tup(raw, prim, raw)), elem('r'), None), F('z', opt(prim), elem('z'), None)], 3),
        'two': ([F('r', opt(raw), elem('r'), None), F('s', opt(raw), elem('r'), None), F('z', opt(prim), elem('z'), None)], 2),
        'wrapped': ([F('r', opt(raw), wrapped('w', elem('r')), None), F('y', opt(prim), wrapped('w', elem('z')), None)], 1),
        'sub': ([F('s', opt(model(sub)), elem('sub'), None), F('z', opt(prim), elem('z'), None)], 1),
        'attrs': ([F('i', opt(prim), attr(), None), F('t', opt(prim), None, None), F('r', opt(raw), elem('r'), None), F('d', opt(dct()), None, None)], 1),
    }


def through():
    """What is read is written back: the subtree of the output is the one of the input."""
    m = M('R', F('a', opt(prim), elem('a'), None), F('r', lst(raw), elem('r')), F('z', opt(prim), elem('z'), None), tag='r')

    def setup(w):
        return build(w, m)

    def fn(w, ctx, cls):
        subs = [subtree(ctx, 's', 'r', [1], q=True)]
        if ctx.flag('two'):
            subs.insert(ctx.int('at', 0, 1), N('r', text(ctx, 'x', 1)))
        for i, s in enumerate(subs):
            s.tail = text(ctx, f'tail{i}', 1)
        d = N('r', kids=subs + [N('z', 'z')])
        real = read_real(w, cls, native(w, d))
        if real[0] != 'ok':
            return ctx.check('read', False, lambda: repr(real))
        kw = {k: ctx.flag(k) for k in ('skip_empty', 'exclude_none', 'exclude_unset')}
        got = neutral(w, real[1].to_xml_tree(**kw))
        kept = [s for s in subs if not kw['skip_empty'] or s.text or s.attrs or s.kids or s.tail]
        ours = [k for k in got.kids if k.tag == 'r']
        ctx.check('same subtrees', len(ours) == len(kept) and ctx.all([eq_tree(ctx, a, b, tails=True) for a, b in zip(ours, kept)]),
                  lambda: f'{show(d)}\nwritten as\n{show(got)}')
    return Harness('through', fn, setup, universe(m), bounds='1..2 raw elements, one of them with text, 0..1 attributes, 0..1 elements, tails; any names',
                   weight=3)


def harnesses(tier):
    th = tier == 'thorough'
    out = [through()]
    for name, (fields, n) in shapes().items():
        for extra in (None, 'forbid'):
            for mode in ('strict', 'ordered', 'unordered') if th or name == 'one' else ('strict',):
                m = M('R', *fields, tag='r', extra=extra, search_mode=mode)

                def doc(ctx, name=name, n=n):
                    shape = [1, 1] if n == 1 else [1]
                    count = ctx.int('k#', 0, n)
                    full = ctx.int('full', 0, count - 1) if count > 1 else 0
                    ks = []
                    for i in range(count):
                        if i == full:
                            ks.append(subtree(ctx, f'k{i}', 'r', shape, q=False, attrs=1))
                            ks[-1].tail = text(ctx, f'tail{i}', 1)
                        else:
                            ks.append(N('r', text(ctx, f'k{i}t', 1)))
                    ks = ks + [N('z', 'z')]
                    d = N('r', kids=ks)
                    if name == 'wrapped':
                        d.kids = [N('w', kids=ks)]
                    if name == 'sub':
                        d.kids = [N('sub', kids=ks[:-1], attrs=[('x', 'x')])] + ks[-1:]
                    if name == 'attrs':
                        d.attrs, d.text = [('i', 'i'), ('j', 'j')], 't'
                    return d
                out.append(reads(f'{name}-{mode}{"-forbid" if extra else ""}', m, doc, weight=2,
                                 bounds=f'0..{n} elements of the name, one of them with text, tail, attribute and elements below, any names'))
        m = M('R', *fields, tag='r')
        out.append(writes('write-' + name, m, Opts(text=1, items=2, key=0, raw=lambda ctx, p: tailed(ctx, p)), weight=2,
                          write_kw={'skip_empty': 'any'}, bounds='any instance with raw elements of 0..1 attributes and elements'))
    ro = Opts(text=1, min_text=1, items=1, min_items=1, none=False, raw=lambda ctx, p: tailed(ctx, p))
    out.append(mutated('any', catalog.raws(), ro, kinds=('none', 'kid', 'drop', 'dup', 'rename', 'attr', 'tail', 'text'), weight=2))
    rf = Opts(text=1, min_text=1, items=1, min_items=1, none=False,
              raw=lambda ctx, p: N('r', 't', [('k', 'v')], [N('s', text(ctx, p, 1), tail='w')], tail='tail'))
    out.append(mutated('any-forbid', catalog.raws(extra='forbid'), rf, tx=1, weight=2))
    # the name of the field decides, whatever the element is
    m = M('R', F('r', opt(raw), elem('r', ns='p'), None), F('z', opt(raw), elem('z'), None), tag='r', nsmap={'p': 'u', '': 'd'})
    out.append(reads('names', m, lambda ctx: N('{d}r', kids=kids(ctx, 'k', 0, 2, lambda p: N(qtag(ctx, p, 1, 1), 'x'))),
                     bounds='0..2 elements of any qualified name'))
    return out


def tailed(ctx, p):
    n = subtree(ctx, p, 'r', [1], q=False)
    n.tail = text(ctx, p + 'tail', 1)
    return n
