"""C04: names are qualified by the documented namespace rules, both ways."""

from lib.gen import Opts, document, gen_obj
from lib.ref import elem_name, enter, scope_of
from lib.spec import (M, Field as F, attr, build, dct, elem, lit, lst, model, opt, prim, raw, st, tagged, tup, union, wrapped)
from lib.std import configured, mutated, roundtrips, writes
from lib.tree import N
from lib import catalog

SECONDS = {'quick': 240, 'thorough': 850}

MAPS = [{'p': 'u1', 'q': 'u2'}, {'p': 'u1', 'q': 'u2', '': 'dd'}]
KINDS = ('prim', 'attr', 'dict', 'model', 'list', 'tuple', 'models', 'union', 'tagged', 'raw', 'wrapped', 'wrapped-attr',
         'wrapped-model', 'wrapped-twice', 'computed', 'computed-attr', 'attrs')


def make(kind, th):
    def fn(ctx):
        if kind == 'attrs':
            # a mapping of namespaced attributes
            m = M('R', F('e', opt(dct()), elem(ns=ctx.choice('ns', [None, 'q'])), None), tag='r', ns_attrs=ctx.flag('ns_attrs'),
                  ns=ctx.choice('model.ns', [None, 'p']), nsmap=MAPS[0])
            return m
        ns = ctx.choice('model.ns', [None, 'p', 'q', ''] if th else [None, 'p'])
        big = kind in ('union', 'tagged', 'model', 'models') or kind.startswith('wrapped')
        nsmap = MAPS[1] if big and not th else ctx.choice('model.nsmap', MAPS)
        kw = dict(tag='r', ns=ns, nsmap=nsmap)
        ens = ctx.choice('ns', [None, 'p', 'q', ''])
        emap = ctx.choice('nsmap', [None, {'q': 'u3'}, {'': 'ee'}][:2 if big and not th else 3])

        def sub(n, **k):
            return M(n, F('x', opt(prim), attr(), None), tag='e', ns=ctx.choice('sub.ns', [None, 'q']),
                     nsmap={'q': 'u4'}, **k)
        if kind in ('attr', 'computed-attr', 'wrapped-attr'):
            ctx.assume(ens != '')
            kw['ns_attrs'] = ctx.flag('ns_attrs')
        if kind == 'prim':
            f = F('e', opt(prim), elem(ns=ens, nsmap=emap), None)
        elif kind == 'attr':
            f = F('e', opt(prim), attr(ns=ens), None)
        elif kind == 'dict':
            f = F('e', opt(dct()), elem(ns=ens, nsmap=emap), None)
        elif kind == 'model':
            f = F('e', opt(model(sub('Sub'))), elem(ns=ens, nsmap=emap), None)
        elif kind == 'models':
            f = F('e', opt(lst(model(sub('Sub')))), elem(ns=ens, nsmap=emap), None)
        elif kind == 'list':
            f = F('e', opt(lst(prim)), elem(ns=ens, nsmap=emap), None)
        elif kind == 'tuple':
            f = F('e', opt(tup(prim, prim)), elem(ns=ens, nsmap=emap), None)
        elif kind == 'union':
            f = F('e', opt(union(sub('SubA'), M('SubB', F('y', opt(prim), attr(), None), tag='f'))),
                  elem(ns=ens, nsmap=emap), None)
        elif kind == 'tagged':
            k = attr(ns=ctx.choice('disc.ns', [None, 'q']))
            a = M('TA', F('k', lit('a'), k), tag='e', ns=ctx.choice('sub.ns', [None, 'q']), nsmap={'q': 'u4'})
            b = M('TB', F('k', lit('b'), k), tag='f', nsmap={'q': 'u4'})
            f = F('e', opt(tagged('k', a=a, b=b)), elem(ns=ens, nsmap=emap), None)
        elif kind == 'raw':
            f = F('e', opt(raw), elem(ns=ens, nsmap=emap), None)
        elif kind.startswith('wrapped'):
            ins = ctx.choice('inner.ns', [None, 'p', '', 'q'])
            imap = ctx.choice('inner.nsmap', [None, {'q': 'u5'}])
            if kind == 'wrapped':
                inner, t = elem('i', ns=ins, nsmap=imap), prim
            elif kind == 'wrapped-attr':
                ctx.assume(ins != '' and imap is None)
                inner, t = attr('i', ns=ins), prim
            elif kind == 'wrapped-model':
                inner, t = elem('i', ns=ins, nsmap=imap), model(sub('Sub'))
            else:
                inner, t = wrapped('v', elem('i', ns=ins, nsmap=imap), ns=ctx.choice('mid.ns', [None, 'q'])), prim
            f = F('e', opt(t), wrapped('w', inner, ns=ens, nsmap=emap), None)
        elif kind == 'computed':
            f = F('e', prim, elem(ns=ens, nsmap=emap), computed=lambda self: 'v')
        elif kind == 'computed-attr':
            f = F('e', prim, attr(ns=ens), computed=lambda self: 'v')
        return M('R', f, **kw)
    return fn


def doc(ctx, m):
    return document(ctx, m, Opts(text=1, min_text=1, items=1, min_items=1, none=False, attr_min=1, key=0,
                                 raw=lambda ctx, p: N(elem_name(enter(scope_of(m), m.fields[0].entity), m.fields[0],
                                                                m.fields[0].entity), 'x')),
                    p='d', kinds=('none', 'rename', 'renameattr'), q=True, max=2, umax=2)


def harnesses(tier):
    th = tier == 'thorough'
    out = []
    o = Opts(text=1, min_text=1, items=1, min_items=1, key=1, none=False, raw=lambda ctx, p: N('{u1}e', 'x'))
    b = ('all combinations of entity, wrapper, sub-model and model namespaces (none, two aliases, default) and maps (alias '
         'redeclared, default declared); an element or attribute with any local name and namespace (1..2 characters)')
    for kind in KINDS:
        out.append(configured(kind, make(kind, th), doc if not kind.startswith('computed') else None,
                              (lambda ctx, m: gen_obj(ctx, m, 'o', o)) if not kind.startswith('computed') else inst_computed,
                              bounds=b, weight=3, extra=('x', 'k', '{u2}k')))
    out.append(mutated('any', catalog.namespaces(), q=True, kinds=('none', 'rename', 'kid', 'attr'), weight=4))
    return out


def inst_computed(ctx, m):
    from lib.ref import Obj
    return Obj(m, {'e': 'v'}, set())
