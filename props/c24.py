"""C24: reading and writing change neither the document nor the model."""

from lib import catalog
from lib.errs import cases
from lib.gen import Opts, clone, document, gen_obj, kids, text, universe
from lib.harness import Harness
from lib.ref import Reader, Writer, check_read, check_write, construct, eq_obj, read_real, write_real
from lib.spec import (M, Field as F, attr, boolean, build, dct, elem, lst, model, opt, prim, raw, tup, union, valid, wrapped)
from lib.std import align, writes
from lib.tree import N, eq_tree, native, neutral, strip_comments
from props.c03 import raw_tree
from props.c17 import strict

SECONDS = {'quick': 240, 'thorough': 850}


def spoil(w, v, seen=None):
    """Changes everything that can be changed about a value that was read."""
    if isinstance(v, w.pd.BaseModel):
        for name in type(v).model_fields:
            spoil(w, getattr(v, name, None))
            v.__dict__[name] = 'spoilt'
    elif isinstance(v, list):
        for x in v:
            spoil(w, x)
        v.append('spoilt')
    elif isinstance(v, dict):
        v['spoilt'] = 'spoilt'
    elif isinstance(v, (set,)):
        v.add('spoilt')
    elif isinstance(v, tuple):
        for x in v:
            spoil(w, x)
    elif hasattr(v, 'tag'):
        spoil_tree(v)


def spoil_tree(el):
    for k in list(el):
        if isinstance(k.tag, str):
            spoil_tree(k)
    el.text = 'spoilt'
    el.tail = 'spoilt'
    el.set('spoilt', 'spoilt')
    for k in list(el):
        el.remove(k)


def history(name, m, docs, opts, n=2, spoilt='any', inst=None, writing=True, **kw):
    """Any sequence of reads of two documents and writes of an instance; every result may be spoilt afterwards."""
    def setup(w):
        return build(w, m)

    def fn(w, ctx, cls):
        ops = [ctx.choice(f'op{i}', ['read'] + ['other'] * bool(docs[1]) + ['write'] * writing) for i in range(n)]
        hurt = ctx.flag('spoilt') if spoilt == 'any' else spoilt
        given = {}
        if 'read' in ops:
            given['read'] = docs[0](ctx)
        if 'other' in ops:
            given['other'] = docs[1](ctx)
        natives = {k: native(w, d) for k, d in given.items()}
        if 'write' in ops:
            o = inst(ctx) if inst else gen_obj(ctx, m, 'w', opts)
            obj = construct(w, o)
            o = align(w, obj, o)
            fields_set = set(obj.model_fields_set)
        expected, results = {}, []
        for i, op in enumerate(ops):
            label = f'{i + 1}: {op}'
            if op == 'write':
                real = write_real(w, obj)
                if op not in expected:
                    expected[op] = Writer().write(o)
                check_write(ctx, w, real, expected[op], label)
                if hurt and real[0] == 'ok':
                    spoil_tree(obj.to_xml_tree())
            else:
                real = read_real(w, cls, natives[op])
                if op not in expected:
                    expected[op] = Reader(ctx).read(m, given[op])
                check_read(ctx, w, real, expected[op], label, inputs=False)
                if real[0] == 'ok':
                    if hurt:
                        spoil(w, real[1])
                    else:
                        results.append((op, real[1]))
        for k, d in given.items():
            ctx.check(f'the document is as it was: {k}', eq_tree(ctx, neutral(w, natives[k]), d, True))
        if 'write' in ops:
            ctx.check('the model is as it was', ctx.all([eq_obj(ctx, w, obj, o), obj.model_fields_set == fields_set]))
        for k, v in results:
            if expected[k][0] == 'ok':
                ctx.check(f'an earlier result is as it was: {k}', eq_obj(ctx, w, v, expected[k][1]))
    kw.setdefault('min_paths', 3)
    return Harness(name, fn, setup, universe(m, extra=['spoilt']), **kw)


def harnesses(tier):
    th = tier == 'thorough'
    out = []
    o = Opts(text=1, min_text=1, items=1, min_items=1, depth=1, none=False, key=0, raw=raw_tree)
    ow = Opts(text=1, min_text=1, items=2, min_items=1, depth=1, none=False, key=0, raw=raw_tree)
    kinds = ('none', 'attr', 'kid', 'text', 'drop')
    for make in catalog.ALL + [catalog.raws]:
        if make is catalog.sets and not th:
            continue
        m = strict(make())

        def first(ctx, m=m):
            return document(ctx, m, o, kinds=kinds if th else ('none',), tx=1, p='a')

        def second(ctx, m=m):
            return document(ctx, m, o, kinds=('text', 'drop', 'dropattr', 'tail') if th else ('text', 'dropattr'), tx=1 if not th else 3, p='b')
        out.append(history(f'any-{m.name}', m, (first, second), ow, n=2 if not th else 3,
                           bounds='sequences of two (thorough: three) reads of a document, reads of one with another change, and writes; '
                                  'results changed afterwards or not', weight=3))
        if make not in (catalog.mappings, catalog.root_list, catalog.tuples, catalog.tuple_list, catalog.primitive_union_items):
            m2 = strict(make(extra='forbid', search_mode='unordered'))

            def doc(ctx, m2=m2):
                return document(ctx, m2, o, kinds=('none', 'attr', 'kid', 'tail', 'comment', 'swap', 'drop') if th else ('none', 'tail', 'comment', 'swap'),
                                tx=1, p='a')
            out.append(history(f'unordered-{m2.name}', m2, (doc, None), ow, n=2, spoilt=False,
                               bounds='two reads or writes; unordered documents with unread data, comments or swapped elements', weight=2))
    # values a failed union member has seen, items, and everything else that can be wrong
    for name, (m, doc) in cases(th).items():
        out.append(history(f'wrong-{name}', m, (doc, None), Opts(text=1, min_text=1, items=1, depth=1, none=False, key=0), n=1 if not th else 2, spoilt=False, writing=False,
                           bounds='right, wrong and missing values read once (thorough: twice)', weight=2))
    # raw elements: neither moved out of the document nor out of the model
    m = M('Raw', F('r', opt(lst(raw)), elem('r'), None), F('w', opt(raw), wrapped('w', elem('r')), None), tag='d')

    def tree(ctx, p):
        return N('r', text(ctx, p + 't', 1), [('x', 'y')], kids(ctx, p, 0, 2, lambda q: N('k', text(ctx, q, 1), tail=text(ctx, q + 'l', 1))),
                 tail=None)

    def doc(ctx):
        return N('d', kids=kids(ctx, 'k', 0, 2, lambda p: tree(ctx, p)) + [N('w', kids=[tree(ctx, 'w')])][:ctx.int('w', 0, 1)])
    out.append(history('raw', m, (doc, None), Opts(items=2 if th else 1, raw=tree), n=2, spoilt='any' if th else True,
                       bounds='0..2 raw elements with 0..2 elements; two reads or writes', weight=4))
    # mutable defaults
    m = M('Defaults', F('l', lst(prim), elem(), ['a']), F('d', dct(), elem('d'), {'k': 'v'}), F('t', opt(prim), elem(), None), tag='r')
    out.append(history('defaults', m, (lambda ctx: N('r', kids=kids(ctx, 'l', 0, 1, lambda p: N('l', text(ctx, p, 1, 1))) + kids(
        ctx, 'd', 0, 1, lambda p: N('d', attrs=[('q', 'w')]))), lambda ctx: N('r')), Opts(text=1, items=1, key=0, unset=True), n=2 if not th else 3,
        bounds='mutable defaults; values present or not', weight=2))
    return out
