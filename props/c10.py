"""C10: a union takes the first member that fits and others leave no trace."""

from lib import catalog
from lib.gen import MUTATIONS, Opts, gen_obj, kids, lname, text
from lib.spec import (M, Field as F, attr, boolean, dct, elem, lit, lst, model, opt, prim, raw, tagged, tup, union, valid,
                      vtup, wrapped)
from lib.std import configured, mutated, reads, writes
from lib.tree import N

SECONDS = {'quick': 220, 'thorough': 850}


def members(tags=('u', 'u'), **kw):
    """Two members that can fail early, late and at depth; what they consume before that overlaps."""
    low = M('Low', F('q', prim, attr()), tag='low', **kw)
    a = M('UA', F('x', opt(prim), attr(), None), F('k', opt(lst(valid)), elem('k'), None), F('m', opt(model(low)), None, None),
          tag=tags[0], **kw)
    b = M('UB', F('x', opt(prim), attr(), None), F('k', opt(prim), elem('k'), None), F('y', prim, attr()), tag=tags[1], **kw)
    return a, b


def item(ctx, p, tag, n=1):
    """A candidate: any attributes of x and y, 0..n elements k that are valid or not, and a sub-model that is valid or not."""
    el = N(tag, attrs=[('x', 'v')] + ([('y', text(ctx, p + 'y', 1))] if ctx.flag(p + 'y?') else []))
    el.kids = kids(ctx, p + 'k', 0, n, lambda q: N('k', ctx.choice(q, ['bad', 'ok'])))
    low = ctx.choice(p + 'low', [None, 'valid', 'invalid'])
    if low:
        el.kids.append(N('low', attrs=[('q', 'q')] if low == 'valid' else []))
    return el


def simple(ctx, p, tag):
    """A smaller candidate: fits the first member, the second, both or none."""
    kind = ctx.choice(p + 'kind', ['both', 'first', 'second', 'none'])
    return N(tag, attrs=[('x', 'v')] + ([('y', 'w')] if kind in ('both', 'second') else []),
             kids=[N('k', 'bad' if kind in ('second', 'none') else 'ok')])


def configuration(kind, th, write=False):
    def make(ctx):
        mode = 'strict' if write else ctx.choice('mode', ['strict', 'ordered', 'unordered'])
        tags = ctx.choice('tags', [('u', 'u'), ('u', 'v')])
        extra = ctx.choice('extra', [None, 'forbid']) if kind in ('single', 'wrapped') and not write else None
        a, b = members(tags, search_mode=mode, extra=extra)
        u = union(a, b)
        kw = dict(tag='r', search_mode=mode)
        z = F('z', opt(prim), elem(), None)
        if kind == 'single':
            fs = [F('u', opt(u), None, None), z]
        elif kind == 'required':
            fs = [F('u', u), z]
        elif kind == 'list':
            fs = [F('u', opt(lst(u)), None, None), z]
        elif kind == 'tuple':
            fs = [F('u', opt(tup(u, prim, u)), elem('u'), None), z]
        elif kind == 'two':
            fs = [F('p', opt(u), None, None), F('q', union(b, a)), z]
        elif kind == 'wrapped':
            fs = [F('u', opt(u), wrapped('w'), None), F('y', opt(prim), wrapped('w', elem('z')), None)]
        elif kind == 'wrapped-list':
            fs = [F('u', opt(lst(u)), wrapped('w', elem('u')), None), z]
        elif kind == 'tag-given':
            fs = [F('u', opt(u), elem('u'), None), z]
        elif kind == 'nested':
            c = M('UC', F('n', union(a, b), None), F('z', opt(valid), elem(), None), tag='c', search_mode=mode)
            d = M('UD', F('n', opt(lst(union(b, a))), None, None), tag='c', search_mode=mode)
            fs = [F('u', opt(union(c, d)), None, None), z]
        elif kind == 'root':
            rm = M('RM', F('root', u), root=True, tag='rm', search_mode=mode)
            fs = [F('u', opt(model(rm)), None, None), z]
        elif kind == 'wrapped-members':
            # members that bind below wrappers: what a failed member has seen must not be remembered
            a = M('UA', F('p', opt(prim), wrapped('w', elem('p')), None), F('y', prim, attr()), tag='u', search_mode=mode)
            b = M('UB', F('q', opt(prim), wrapped('w', elem('q')), None), F('p', opt(prim), wrapped('w', elem('p')), None),
                  tag='u', search_mode=mode)
            fs = [F('u', opt(union(a, b)), None, None), F('z', opt(prim), wrapped('w', elem('z')), None)]
        elif kind == 'lists':
            a = M('UA', F('k', lst(valid), elem('k')), F('y', prim, attr()), tag='u', search_mode=mode)
            b = M('UB', F('k', lst(prim), elem('k')), tag='u', search_mode=mode)
            fs = [F('u', opt(lst(union(a, b))), None, None), z]
        elif kind == 'maps':
            a = M('UA', F('d', dct()), F('k', valid, elem()), tag='u', search_mode=mode)
            b = M('UB', F('x', opt(prim), attr(), None), F('d', opt(dct()), None, None), F('k', opt(prim), elem(), None), tag='u',
                  search_mode=mode)
            fs = [F('u', opt(union(a, b)), None, None), z]
        elif kind == 'three':
            c = M('UC', F('k', opt(prim), elem('k'), None), F('t', opt(boolean), None, None), tag=tags[1], search_mode=mode)
            fs = [F('u', opt(union(a, b, c)), None, None), z]
        return M('R', *fs, **kw)

    def doc(ctx, m):
        def tag(p):
            return ctx.choice(p + 'tag', ['u', 'v'])

        def zs(p='z'):
            return [N('z', text(ctx, p, 1, 1))] if ctx.flag(p + '?') else []
        if kind in ('single', 'required'):
            return N('r', kids=(zs('z0') if th else []) + [item(ctx, 'i', tag('i'), 2)] + zs())
        if kind in ('list', 'wrapped-list', 'root', 'tag-given'):
            ks = kids(ctx, 'i', 0, 3 if th else 2, lambda p: simple(ctx, p, tag(p))) + zs()
            ks = {'wrapped-list': [N('w', kids=ks[:-1])] + ks[-1:] if ks else [], 'root': [N('rm', kids=ks)] + zs('z1')}.get(kind, ks)
            return N('r', kids=ks)
        if kind == 'tuple':
            return N('r', kids=[simple(ctx, 'i', tag('i')), N('u', text(ctx, 't', 1)), simple(ctx, 'j', tag('j'))] + zs())
        if kind == 'two':
            return N('r', kids=[simple(ctx, 'i', tag('i')), simple(ctx, 'j', tag('j'))] + zs())
        if kind == 'wrapped':
            return N('r', kids=[N('w', kids=zs('z0') + [item(ctx, 'i', tag('i'), 1)] + zs())])
        if kind == 'nested':
            return N('r', kids=[N('c', kids=kids(ctx, 'i', 0, 2, lambda p: simple(ctx, p, tag(p))) +
                                  ([N('z', ctx.choice('z', ['bad', 'ok']))] if ctx.flag('z?') else []))] + zs('z1'))
        if kind == 'wrapped-members':
            return N('r', kids=[N('u', attrs=[('y', 'y')] if ctx.flag('y') else [], kids=[
                N('w', kids=[N(lname(ctx, f'p{i}', 1), text(ctx, f'p{i}t', 1)) for i in range(ctx.int('n', 0, 2))])])] +
                     ([N('w', kids=[N('z', 'z')])] if ctx.flag('w') else []))
        if kind == 'lists':
            return N('r', kids=kids(ctx, 'u', 0, 2, lambda p: N('u', attrs=[('y', 'y')] if ctx.flag(p + 'y') else [], kids=kids(
                ctx, p + 'k', 0, 2, lambda q: N('k', ctx.choice(q, ['bad', 'ok']))))) + zs())
        if kind == 'maps':
            return N('r', kids=[N('u', attrs=[(n, text(ctx, n, 1)) for n in 'xy' if ctx.flag(n + '?')],
                                  kids=[N('k', ctx.choice('k', ['bad', 'ok']))] if ctx.flag('k?') else [])] + zs())
        if kind == 'three':
            el = simple(ctx, 'i', tag('i'))
            el.text = text(ctx, 'b', 1)
            return N('r', kids=[el] + zs())
    return make, doc


def harnesses(tier):
    th = tier == 'thorough'
    out = []
    b = ('members with equal or different tags, every search mode; elements that fit each member, both or none; attributes, valid '
         'and invalid sub-elements and sub-models, other elements around them')
    for kind in ('single', 'required', 'list', 'tuple', 'two', 'wrapped', 'wrapped-list', 'tag-given', 'nested', 'root',
                 'wrapped-members', 'lists', 'maps', 'three'):
        make, doc = configuration(kind, th)
        out.append(configured('read-' + kind, make, doc, bounds=b, weight=2, extra=('k', 'u', 'v', 'w', 'z', 'x', 'y')))
        if kind not in ('three', 'two'):
            out.append(configured('write-' + kind, configuration(kind, th, True)[0], None,
                                  lambda ctx, m: gen_obj(ctx, m, 'o', Opts(text=1, items=1, min_text=1, key=0, depth=3)),
                                  bounds='any instance', weight=2))
    m = catalog.unions()
    out.append(mutated('any', m, kinds=MUTATIONS, weight=2))
    out.append(mutated('any-two', m, Opts(text=1, min_text=1, items=2, min_items=2, depth=1, none=False), weight=3,
                       kinds=('none', 'kid', 'drop', 'dup', 'swap', 'rename', 'dropattr', 'renameattr', 'nil')))
    return out
