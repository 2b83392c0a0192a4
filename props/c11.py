"""C11: a discriminated union is decided by the discriminating attribute alone."""

from lib import catalog
from lib.gen import MUTATIONS, Opts, gen_obj, kids, text
from lib.ref import XSI_NIL, attr_name, enter, scope_of
from lib.spec import (M, T, Field as F, attr, boolean, dct, elem, lit, lst, model, opt, prim, tagged, tup, valid, vtup,
                      wrapped)
from lib.std import configured, mutated, writes
from lib.tree import N

SECONDS = {'quick': 220, 'thorough': 850}

KINDS = ('single', 'required', 'list', 'tuple', 'two', 'wrapped', 'wrapped-list', 'tag-given', 'nested', 'root', 'names',
         'many-values', 'three', 'computed')


def members(ctx, tags=('u', 'u'), d=None, **kw):
    """Two members; each accepts the content of the other but for one invalid element."""
    d = d or attr()
    a = M('TA', F('kind', lit('a'), d), F('x', opt(prim), attr(), None), F('k', opt(lst(valid)), elem('k'), None), tag=tags[0], **kw)
    b = M('TB', F('x', opt(prim), attr(), None), F('kind', lit('bb'), d), F('y', opt(valid), elem('k'), None), tag=tags[1], **kw)
    return a, b


def config(kind, th, write=False):
    def make(ctx):
        mode = 'strict' if write else ctx.choice('mode', ['strict', 'ordered', 'unordered'])
        tags = ctx.choice('tags', [('u', 'u'), ('u', 'v')])
        d = attr()
        if kind == 'names':
            d = ctx.choice('name', [attr('dk'), attr(ns='p'), attr('dk', ns='p'), attr()])
        if kind == 'names':
            ctx.assume(mode == 'strict' and tags[1] == 'u')
        kw = dict(search_mode=mode, **({'nsmap': {'p': 'urn:p'}, 'ns_attrs': ctx.flag('ns attrs'), 'ns': ctx.choice('ns', [None, 'p'])}
                                       if kind == 'names' else {}))
        if kind in ('single', 'wrapped', 'required') and not write:
            kw['extra'] = ctx.choice('extra', [None, 'forbid'])
        a, b = members(ctx, tags, d, **kw)
        t = tagged('kind', a=a, bb=b)
        z = F('z', opt(prim), elem(), None)
        rk = dict(tag='r', search_mode=mode)
        e = None
        if kind in ('single', 'names'):
            fs = [F('u', opt(t), None, None), z]
        elif kind == 'required':
            fs = [F('u', t), z]
        elif kind == 'list':
            fs = [F('u', opt(lst(t)), None, None), z]
        elif kind == 'tuple':
            fs = [F('u', opt(tup(t, prim, t)), elem('u'), None), z]
        elif kind == 'two':
            fs = [F('p', opt(t), None, None), F('q', t, None), z]
        elif kind == 'wrapped':
            fs = [F('u', opt(t), wrapped('w'), None), F('y', opt(prim), wrapped('w', elem('z')), None)]
        elif kind == 'wrapped-list':
            fs = [F('u', opt(vtup(t)), wrapped('w', elem('u')), None), z]
        elif kind == 'tag-given':
            fs = [F('u', opt(t), elem('g'), None), z]
        elif kind == 'nested':
            c = M('TC', F('kind', lit('c'), attr()), F('n', opt(lst(t)), None, None), tag='u', search_mode=mode)
            fs = [F('u', opt(tagged('kind', a=a, bb=b, c=c)), None, None), z]
        elif kind == 'root':
            rm = M('RM', F('root', lst(t)), root=True, tag='rm', search_mode=mode)
            fs = [F('u', opt(model(rm)), None, None), z]
        elif kind == 'many-values':
            a = M('TA', F('kind', T('lit', 'a', 'aa'), attr()), F('k', opt(valid), elem(), None), tag='u', search_mode=mode)
            fs = [F('u', opt(tagged('kind', a=a, aa=a, bb=b)), None, None), z]
        elif kind == 'three':
            c = M('TC', F('kind', lit(''), attr()), F('k', opt(prim), elem(), None), tag=tags[1], search_mode=mode)
            fs = [F('u', opt(tagged('kind', **{'a': a, '': c, 'bb': b})), None, None), z]
        elif kind == 'computed':
            fs = [z, F('u', opt(t), None, computed=lambda self: None if self.z is None else b.cls(kind='bb', x='x'))]
        return M('R', *fs, **rk)

    def doc(ctx, m):
        """The elements have any discriminator value, or none."""
        f = m.fields[-1] if kind == 'computed' else m.fields[0]

        def tag(p):
            return ctx.choice(p + 'tag', ['u', 'v'] if kind != 'tag-given' else ['g', 'u'])

        def item(p, full=False):
            n = N(tag(p))
            name, uri = 'kind', ''
            if kind == 'names':
                n.tag = ctx.choice(p + 'q', ['{urn:p}', '']) + n.tag
                name = ctx.choice(p + 'n', ['dk', 'kind', '{urn:p}dk', '{urn:p}kind'])
            if full:
                if ctx.flag(p + 'kind?'):
                    n.attrs.append((name, ctx.str(p + 'kind', 3, 0, 'text')))
                n.attrs.append(('x', 'v'))
            else:
                v = ctx.choice(p + 'kind', [None, 'a', 'bb', 'q', 'bad'])
                if v:
                    n.attrs.append((name, 'a' if v == 'bad' else v))
                n.kids.append(N('k', 'bad' if v == 'bad' else 'ok'))
            if full and ctx.flag(p + 'k?'):
                n.kids.append(N('k', ctx.choice(p + 'k', ['bad', 'ok'])))
            return n

        def zs(p='z'):
            return [N('z', 'zz')]
        if kind in ('single', 'required', 'names', 'three', 'many-values', 'tag-given'):
            n = item('i', True)
            if kind == 'single' and ctx.flag('nil'):
                n.attrs.append((XSI_NIL, 'true'))
            return N('r', kids=[n] + zs())
        if kind in ('list', 'wrapped-list', 'root'):
            ks = kids(ctx, 'i', 0, 2, lambda p: item(p))
            return N('r', kids={'list': ks, 'wrapped-list': [N('w', kids=ks)], 'root': [N('rm', kids=ks)]}[kind] + zs())
        if kind == 'tuple':
            return N('r', kids=[item('i'), N('u', 'x'), item('j')] + zs())
        if kind == 'two':
            return N('r', kids=[item('i'), item('j')] + zs())
        if kind == 'wrapped':
            return N('r', kids=[N('w', kids=[item('i', True)] + zs())])
        if kind == 'nested':
            n = item('i', True)
            return N('r', kids=[N('u', attrs=[('kind', ctx.choice('c', ['c', 'a']))], kids=[n] + zs())] + zs('z1'))
    return make, doc


def inst(ctx, m):
    from lib.ref import Obj
    if m.fields[-1].computed is not None:
        z = None if ctx.flag('z.none') else 'z'
        b = m.fields[-1].type.args[0].kw['members']['bb']
        return Obj(m, {'z': z, 'u': None if z is None else Obj(b, {'kind': 'bb', 'x': 'x', 'y': None}, {'kind', 'x'})}, {'z'})
    return gen_obj(ctx, m, 'o', Opts(text=1, items=1, min_text=1, key=0, depth=3))


def harnesses(tier):
    th = tier == 'thorough'
    out = []
    b = ('members with equal or different tags, every search mode, attribute absent or any value of up to 3 characters (or one of '
         'the declared values and another); content valid for both, one or no member')
    for kind in KINDS:
        make, doc = config(kind, th)
        if kind != 'computed':
            out.append(configured('read-' + kind, make, doc, bounds=b, weight=2, extra=('k', 'u', 'v', 'w', 'z', 'x', 'kind')))
        out.append(configured('write-' + kind, config(kind, th, True)[0], None, inst, bounds='any instance', weight=1,
                              write_kw={'exclude_none': 'any', 'skip_empty': 'any'}))
    m = catalog.tagged_unions()
    out.append(mutated('any', m, kinds=MUTATIONS, weight=2))
    out.append(mutated('any-two', m, Opts(text=1, min_text=1, items=2, min_items=2, depth=1, none=False), weight=3,
                       kinds=('none', 'kid', 'drop', 'dup', 'swap', 'rename', 'dropattr', 'renameattr', 'setattr', 'nil')))
    return out
