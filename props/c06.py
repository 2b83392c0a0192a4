"""C06: entity names follow the documented precedence."""

from lib.gen import Opts, document, gen_obj, lname
from lib.ref import Obj, elem_name, enter, local_name, scope_of
from lib.spec import (M, Field as F, attr, dct, elem, lit, lst, model, opt, prim, raw, tagged, tup, union, vtup, wrapped)
from lib.std import configured
from lib.tree import N

SECONDS = {'quick': 240, 'thorough': 850}

KINDS = ('prim', 'attr', 'dict', 'raw', 'list', 'tuple', 'model', 'models', 'union', 'unions', 'tagged', 'tuple-model',
         'wrapped', 'wrapped-attr', 'wrapped-model', 'computed', 'computed-attr', 'computed-model', 'root', 'root-model',
         'root-models', 'nested-root', 'text')


def make(kind, th):
    def fn(ctx):
        tag = lname(ctx, 'tag', 1) if ctx.flag('tag given') else None
        al = ctx.choice('alias', [{}, {'alias': 'al'}, {'salias': 'sa'}, {'valias': 'va'}, {'alias': 'al', 'salias': 'sa'}])
        stag = lname(ctx, 'class tag', 1) if ctx.flag('class tag given') else None

        def sub(name='Sub', **k):
            return M(name, F('x', opt(prim), attr(), None), tag=k.pop('tag', stag), **k)
        if kind.startswith('root') or kind == 'nested-root':
            ctx.assume(not al)
        if kind == 'root':
            ctx.assume(tag is None)
            return M('RName', F('x', opt(prim), attr(), None), tag=stag)
        if kind == 'root-model':
            return M('RName', F('root', model(sub()), elem(tag)), root=True, tag='r')
        if kind == 'root-models':
            return M('RName', F('root', lst(model(sub())), elem(tag)), root=True, tag='r')
        if kind == 'nested-root':
            inner = M('Inner', F('root', lst(model(M('Sub', F('x', opt(prim), attr(), None), tag=tag)))), root=True, tag=stag)
            return M('R', F('e', opt(model(inner)), None, None), tag='r')
        if kind in ('prim', 'attr', 'dict', 'raw', 'list', 'tuple', 'computed', 'computed-attr', 'wrapped', 'wrapped-attr', 'text'):
            ctx.assume(stag is None)
        none = {} if kind.startswith('computed') else {'default': None}
        k = {**al, **none}
        if kind == 'prim':
            f = F('e', opt(prim), elem(tag), **k)
        elif kind == 'text':
            ctx.assume(tag is None)
            f = F('e', opt(prim), None, **k)
        elif kind == 'attr':
            f = F('e', opt(prim), attr(tag), **k)
        elif kind == 'dict':
            f = F('e', opt(dct()), elem(tag), **k)
        elif kind == 'raw':
            f = F('e', opt(raw), elem(tag), **k)
        elif kind == 'list':
            f = F('e', opt(lst(prim)), elem(tag), **k)
        elif kind == 'tuple':
            f = F('e', opt(tup(prim, prim)), elem(tag), **k)
        elif kind == 'tuple-model':
            f = F('e', opt(tup(prim, model(sub()))), elem(tag), **k)
        elif kind == 'model':
            f = F('e', opt(model(sub())), elem(tag) if tag is not None or ctx.flag('element()') else None, **k)
        elif kind == 'models':
            f = F('e', opt(vtup(model(sub()))), elem(tag) if tag is not None else None, **k)
        elif kind == 'union':
            f = F('e', opt(union(sub('SubA'), M('SubB', F('y', prim, attr()), tag=None))), elem(tag), **k)
        elif kind == 'unions':
            f = F('e', opt(lst(union(sub('SubA'), M('SubB', F('y', prim, attr()), tag='b')))),
                  elem(tag) if tag is not None else None, **k)
        elif kind == 'tagged':
            a = M('TA', F('k', lit('a'), attr()), tag=stag)
            b = M('TB', F('k', lit('b'), attr()))
            f = F('e', opt(tagged('k', a=a, b=b)), elem(tag) if tag is not None else None, **k)
        elif kind == 'wrapped':
            f = F('e', opt(prim), wrapped('w', elem(tag), outer=ctx.flag('alias on wrapped')), **k)
        elif kind == 'wrapped-attr':
            f = F('e', opt(prim), wrapped('w', attr(tag), outer=ctx.flag('alias on wrapped')), **k)
        elif kind == 'wrapped-model':
            f = F('e', opt(model(sub())), wrapped('w', elem(tag) if tag is not None else None), **k)
        elif kind == 'computed':
            ctx.assume('valias' not in al and 'salias' not in al)
            f = F('e', prim, elem(tag), computed=lambda self: 'v', **k)
        elif kind == 'computed-attr':
            ctx.assume('valias' not in al and 'salias' not in al)
            f = F('e', prim, attr(tag), computed=lambda self: 'v', **k)
        elif kind == 'computed-model':
            ctx.assume('valias' not in al and 'salias' not in al)
            s = sub()
            f = F('e', model(s), elem(tag), computed=lambda self: s.cls(x='v'), **k)
        return M('R', f, tag='r')
    return fn


def doc(ctx, m):
    f = m.fields[0]

    def raw_tree(ctx, p):
        return N(elem_name(enter(scope_of(m), f.entity), f, f.entity), 'x')
    return document(ctx, m, Opts(text=1, min_text=1, items=1, min_items=1, none=False, attr_min=1, key=0, raw=raw_tree),
                    p='d', kinds=('none', 'rename', 'renameattr') + (('renameroot',) if len(m.fields) and m.name == 'RName' else ()),
                    max=2)


def inst(ctx, m):
    f = m.fields[0]
    if f.computed is not None:
        t = f.type
        v = Obj(t.args[0], {'x': 'v'}) if t.kind == 'model' else 'v'
        return Obj(m, {'e': v}, set())
    return gen_obj(ctx, m, 'o', Opts(text=1, min_text=1, items=1, min_items=1, key=0, none=False, attr_min=1,
                                     raw=lambda ctx, p: N(elem_name(enter(scope_of(m), f.entity), f, f.entity), 'x')))


def harnesses(tier):
    th = tier == 'thorough'
    b = ('given tag and class tag: absent or any name of 1 character; alias, serialization alias, validation alias; documents '
         'with the right names or one name replaced by any (1..2 characters)')
    return [configured(kind, make(kind, th), doc if not kind.startswith('computed') else None, inst, bounds=b, weight=3,
                       extra=('x', 'k', 'y'), min_paths=1)
            for kind in KINDS]
