"""C15: mappings carry exactly the attributes of their element."""

from lib import catalog
from lib.gen import MUTATIONS, Opts, distinct, gen_obj, kids, lname, qtag, text
from lib.ref import Item, Obj, attr_name, enter, scope_of
from lib.spec import (M, Field as F, attr, boolean, dct, dctv, elem, lst, model, opt, prim, tdict, tup, union, valid, vtup,
                      wrapped)
from lib.std import configured, mutated, reads, roundtrips, writes
from lib.tree import N

SECONDS = {'quick': 220, 'thorough': 850}


def attributes(ctx, p, hi=2, q=False, lo=0, max=2, tx=2):
    out = []
    for i in range(ctx.int(p + '@', lo, hi)):
        out.append((qtag(ctx, f'{p}@{i}', max, 1) if q else lname(ctx, f'{p}@{i}', max), text(ctx, f'{p}={i}', tx)))
    distinct(ctx, out)
    return out


def shapes():
    sub = M('Sub', F('d', dct()), F('k', opt(prim), elem('k'), None), tag='sub')
    rd = M('RD', F('root', dct()), root=True, tag='rd')
    return {
        'model': [F('d', opt(dct()), None, None)],
        'required': [F('d', dct())],
        'after': [F('i', opt(prim), attr(), None), F('d', opt(dct()), None, None)],
        'before': [F('d', opt(dct()), None, None), F('i', opt(prim), attr(), None)],
        'between': [F('i', opt(prim), attr(), None), F('d', opt(dct()), None, None), F('j', opt(prim), attr('jj'), None),
                    F('t', opt(prim), None, None)],
        'twice': [F('d', opt(dct()), None, None), F('e', opt(dct()), None, None)],
        'bools': [F('d', opt(dctv(boolean)), None, None)],
        'valids': [F('d', opt(dctv(valid)), None, None)],
        'typed': [F('d', opt(tdict('TD', 'k1', 'k2')), None, None)],
        'typed-open': [F('i', opt(prim), attr('k1'), None), F('d', opt(tdict('TD', 'k1', 'k2', total=False)), None, None)],
    }


def inner():
    sub = M('Sub', F('i', opt(prim), attr(), None), F('d', dct()), F('k', opt(prim), elem('k'), None), tag='e')
    rd = M('RD', F('root', dct()), root=True, tag='e')
    return {
        'element': [F('i', opt(prim), attr(), None), F('e', opt(dct()), elem('e'), None), F('z', opt(prim), elem('z'), None)],
        'element-required': [F('e', dct(), elem('e')), F('z', opt(prim), elem('z'), None)],
        'element-bools': [F('e', opt(dctv(boolean)), elem('e'), None), F('z', opt(prim), elem('z'), None)],
        'element-typed': [F('e', opt(tdict('TD', 'k1', 'k2')), elem('e'), None), F('z', opt(prim), elem('z'), None)],
        'list': [F('e', opt(lst(dct())), elem('e'), None), F('z', opt(prim), elem('z'), None)],
        'tuple': [F('e', opt(tup(dct(), dct())), elem('e'), None), F('z', opt(prim), elem('z'), None)],
        'sub': [F('d', opt(dct()), None, None), F('e', opt(model(sub)), None, None)],
        'subs': [F('e', lst(model(sub))), F('d', opt(dct()), None, None)],
        'root': [F('e', opt(model(rd)), None, None), F('d', opt(dct()), None, None)],
        'wrapped': [F('e', opt(dct()), wrapped('e'), None), F('x', opt(prim), wrapped('e', attr('x')), None)],
        'wrapped-after': [F('x', opt(prim), wrapped('e', attr('x')), None), F('e', opt(dct()), wrapped('e'), None)],
        'two': [F('e', opt(dct()), elem('e'), None), F('f', opt(dct()), elem('e'), None)],
    }


def nsmake(kind, write):
    def make(ctx):
        ns_attrs = ctx.flag('ns_attrs')
        mns = ctx.choice('model ns', [None, 'p'])
        ens = ctx.choice('field ns', [None, 'q']) if kind != 'model' else None
        kw = dict(tag='r', ns=mns, nsmap={'p': 'urn:p', 'q': 'urn:q', '': 'urn:d'} if ctx.flag('default') else {'p': 'urn:p', 'q': 'urn:q'},
                  ns_attrs=ns_attrs)
        if kind == 'model':
            return M('R', F('i', opt(prim), attr('ii', ns=ctx.choice('attr ns', [None, 'q'])), None), F('d', opt(dct()), None, None), **kw)
        if kind == 'element':
            return M('R', F('d', opt(dct()), elem('e', ns=ens), None), F('i', opt(prim), attr('ii'), None), **kw)
        if kind == 'wrapped':
            return M('R', F('d', opt(dct()), wrapped('w', elem('e'), ns=ens), None), **kw)
        if kind == 'list':
            return M('R', F('d', opt(lst(dct())), elem('e', ns=ens), None), **kw)
    return make


def nsdoc(ctx, m):
    """The document of an instance with fixed keys; the attributes get any namespace."""
    from lib.gen import nodes_of
    from lib.ref import Writer
    d = Writer(exclude_none=True).write(gen_obj(ctx, m, 'd', Opts(text=1, items=2 if len(m.fields) < 2 else 1, min_items=1, none=False, key=0, attr_min=0)))
    for _, _, n in nodes_of(d):
        n.nsmap = None
        n.attrs = [('{' + ctx.str(f"u{i}", 5, 1, "uri") + '}' + k.split('}')[-1] if ctx.flag(f'q{i}') else k.split('}')[-1], v)
                   for i, (k, v) in enumerate(n.attrs)]
    return d


def nsinst(ctx, m):
    o = gen_obj(ctx, m, 'o', Opts(text=1, items=1, min_items=1, none=False, key=2))
    return o


def harnesses(tier):
    th = tier == 'thorough'
    out = []
    hi = 3 if th else 2
    b = f'0..{hi} attributes of any name (1..2 characters) and value (0..2)'
    wo = Opts(text=1, items=hi, key=2)
    for name, fields in shapes().items():
        for extra in (None, 'forbid') if 'typed' not in name else (None,):
            m = M('R', *fields, tag='r', extra=extra)
            if name == 'bools':
                doc = lambda ctx: N('r', text(ctx, 't', 1), [(lname(ctx, f'k{i}', 1), text(ctx, f'v{i}', 2)) for i in range(1)])  # noqa: E731
            else:
                doc = lambda ctx: N('r', text(ctx, 't', 1), attributes(ctx, 'r', hi, tx=3 if name == 'valids' else 2))  # noqa: E731
            out.append(reads(f'{name}{"-forbid" if extra else ""}', m, doc, bounds=b, weight=2))
        m = M('R', *fields, tag='r')
        if name != 'twice':
            out.append(writes('write-' + name, m, Opts(text=1, items=1 if name in ('between',) else hi, key=2), weight=2,
                              write_kw={'skip_empty': 'any'}, bounds='any instance with 0..2 pairs'))
    for name, fields in inner().items():
        m = M('R', *fields, tag='r')

        def doc(ctx, name=name):
            def el(p):
                return N('e', text(ctx, p + 't', 1), attributes(ctx, p, 1 if not th else 2, max=1, tx=1), [N('k', 'x')] if name.startswith('sub') else [])
            ks = kids(ctx, 'k', 0, 2 if name in ('list', 'tuple', 'two', 'subs') else 1, el) + [N('z', 'zz')]
            return N('r', kids=ks, attrs=attributes(ctx, 'r', 1))
        if name == 'element-bools':
            doc = lambda ctx: N('r', kids=[N('e', attrs=[('k', text(ctx, 'v', 2))]), N('z', 'zz')])  # noqa: E731
        if name == 'element-typed':
            doc = lambda ctx: N('r', kids=[N('e', attrs=attributes(ctx, 'e', 2)), N('z', 'zz')])  # noqa: E731
        out.append(reads('in-' + name, m, doc, bounds='0..1 attributes of any name (1) on the root and up to two elements', weight=2))
        out.append(writes('write-in-' + name, m, Opts(text=1, items=2 if name in ('element', 'element-required', 'element-bools') else 1, key=1),
                          inst=(lambda ctx, m=m, name=name: free(ctx, m, name)), weight=2,
                          write_kw={'skip_empty': 'any', **({'exclude_none': 'any'} if th else {})}, bounds='any instance'))
    for kind in ('model', 'element', 'wrapped', 'list'):
        out.append(configured('ns-' + kind, nsmake(kind, False), nsdoc, None, weight=2,
                              bounds='attributes namespaced or not; namespaces of model and field; any namespace on every attribute'))
        out.append(configured('write-ns-' + kind, nsmake(kind, True), None, nsinst, weight=2,
                              bounds='attributes namespaced or not; namespaces of model and field; any pair'))
    m = catalog.mappings()
    out.append(roundtrips('back', m, Opts(text=1, items=1, min_items=1, key=2, none=False), bounds='any instance'))
    out.append(mutated('any', m, kinds=MUTATIONS, weight=2))
    return out


def free(ctx, m, name):
    o = gen_obj(ctx, m, 'o', Opts(text=1, items=2 if name in ('element', 'element-required', 'element-bools') else 1, key=1))
    if name.startswith('wrapped') and o.values['e'] is not None:
        for k in o.values['e']:
            ctx.assume(ctx.neg(ctx.eq(k, 'x')))
    return o
