"""C26: the validation context and the options reach every nested level."""

from lib import catalog
from lib.errs import cases
from lib.gen import Opts, document, text, universe
from lib.harness import Harness
from lib.ref import Reader, check_read, read_real
from lib.spec import M, Field as F, SEEN, attr, boolean, build, elem, lst, model, opt, prim, tup, union, valid, wrapped
from lib.std import configured, reads, writes
from lib.tree import native
from props.c17 import strict

SECONDS = {'quick': 240, 'thorough': 850}


def contexts(name, m, doc, **kw):
    """What the validators refuse is in the context; all of them see the very object that was given."""
    def setup(w):
        return build(w, m)

    def fn(w, ctx, cls):
        kind = ctx.choice('context', ['any', 'none', 'empty'])
        context = {'any': lambda: {'bad': text(ctx, 'bad', 3, 1), 'lenient': ctx.flag('lenient') if has_check(m) else False},
                   'none': lambda: None, 'empty': dict}[kind]()
        d = doc(ctx)
        SEEN.clear()
        real = read_real(w, cls, native(w, d), context=context)
        seen = list(SEEN)
        check_read(ctx, w, real, Reader(ctx, context=context).read(m, d))
        ctx.check('every validator sees the context', all(x is context for x in seen))
    kw.setdefault('min_paths', 4)
    return Harness(name, fn, setup, universe(m), **kw)


def has_check(m, seen=None):
    seen = seen if seen is not None else set()
    if not isinstance(m, M) or m in seen:
        return False
    seen.add(m)

    def has(t):
        parts = list(getattr(t, 'args', ())) + list(getattr(t, 'kw', {}).get('members', {}).values())
        return any(has_check(a, seen) if isinstance(a, M) else hasattr(a, 'kind') and has(a) for a in parts)
    return m.check is not None or any(has(f.type) for f in m.fields)


def harnesses(tier):
    th = tier == 'thorough'
    out = []
    for mode in ('strict', 'ordered', 'unordered') if th else ('strict',):
        for name, (m, doc) in cases(th, search_mode=mode).items():
            out.append(contexts(f'context-{name}-{mode}', m, doc, weight=2,
                                bounds='any context, none or an empty one; every combination of right, wrong and missing values; 0..2 items or members'))
    for make in catalog.ALL:
        m = strict(make())
        o = Opts(text=1, min_text=1, items=2 if th else 1, min_items=1, depth=1, none=False, key=0)
        if make is not catalog.sets:
            out.append(contexts('context-any-' + m.name, m, lambda ctx, m=m, o=o: document(ctx, m, o, kinds=('none', 'text') if not th else
                                                                                           ('none', 'text', 'drop', 'dropattr'), tx=3),
                                bounds='any context; documents of all instances with one change'))
        # empty values at any level
        m = make()
        o = Opts(text=1, items=1, depth=2 if th else 1, none=False, key=0, attr_min=0)
        if make is not catalog.sets:
            out.append(reads('empty-' + m.name, m, lambda ctx, m=m, o=o: document(ctx, m, o, kinds=('none',) if not th else ('none', 'text', 'drop', 'dup', 'nil'), tx=1),
                             read_kw={'empty_as_string': 'any'}, bounds='documents of all instances; empty values anywhere; empty_as_string or not'))
        # writing options
        o = Opts(text=1, items=1, depth=2 if th else 1, key=0, unset=make not in (catalog.root_list, catalog.root_text), none=True)
        if make is catalog.wrappers and not th:
            o.unset = False
        out.append(writes('options-' + m.name, m, o, write_kw={'skip_empty': 'any', 'exclude_none': 'any', 'exclude_unset': 'any'},
                          bounds='all instances with values empty, None or unset anywhere; every combination of the writing options', weight=2))
    # one part with everything that can be empty, at every kind of place
    for place in ('field', 'list', 'tuple', 'union', 'wrapped', 'wrapped-list', 'root', 'root-list', 'deep', 'tagged', 'optional'):
        out.append(placed(place, th))
    return out


def placed(place, th):
    def make(ctx):
        from lib.spec import lit, tagged
        part = M('Part', F('x', opt(prim), attr(), None), F('t', opt(prim), elem(), None), F('n', opt(prim), elem(nillable=True), None), tag='part')
        other = M('Other', F('o', prim, attr()), tag='other')
        kind = M('Kind', F('k', lit('a'), attr(), 'a'), F('x', opt(prim), attr(), None), F('t', opt(prim), elem(), None), tag='kind')
        kind2 = M('Kind2', F('k', lit('b'), attr()), tag='kind')
        f = {
            'field': lambda: F('p', model(part)),
            'optional': lambda: F('p', opt(model(part)), None, None),
            'list': lambda: F('p', lst(model(part))),
            'tuple': lambda: F('p', tup(model(part), boolean, *[model(part)] * th), elem('part')),
            'union': lambda: F('p', union(other, part)),
            'tagged': lambda: F('p', tagged('k', a=kind, b=kind2)),
            'wrapped': lambda: F('p', model(part), wrapped('w/v', elem('q'))),
            'wrapped-list': lambda: F('p', lst(model(part)), wrapped('w', elem('q'))),
            'root': lambda: F('p', model(M('Root', F('root', model(part), elem('part')), root=True, tag='rt'))),
            'root-list': lambda: F('p', model(M('Root', F('root', lst(model(part)), elem('part')), root=True, tag='rt'))),
            'deep': lambda: F('p', model(M('Deep', F('q', lst(model(M('Deeper', F('r', tup(model(part)), None), tag='deeper')))), tag='deep'))),
        }[place]()
        return M('Top', f, tag='top')

    o = Opts(text=1, items=1 if not th else 2, min_items=1, depth=4, unset=True)
    rd = Opts(text=1, items=1, min_items=1, depth=4, none=False)
    return configured('placed-' + place, make, doc=lambda ctx, m: document(ctx, m, rd, p='d', kinds=('none',) if not th else ('none', 'drop'), tx=1),
                      inst=lambda ctx, m: gen(ctx, m, o), read_kw={'empty_as_string': 'any'},
                      write_kw={'skip_empty': 'any', 'exclude_none': 'any', 'exclude_unset': 'any'},
                      bounds='a part with an attribute, an element and a nillable element, each empty, None, unset or neither; all options') if th else \
        split(place, make, o, rd)


def gen(ctx, m, o):
    from lib.gen import gen_obj
    return gen_obj(ctx, m, 'o', o)


def split(place, make, o, rd):
    """Reading or writing, not both."""
    from lib.std import align
    from lib.ref import Writer, check_write, construct, write_real

    m = make(None)

    def fn(w, ctx, cls):
        if ctx.flag('write'):
            wk = {k: ctx.flag(k) for k in ('skip_empty', 'exclude_none', 'exclude_unset')}
            obj = gen(ctx, m, o)
            real = construct(w, obj)
            check_write(ctx, w, write_real(w, real, **wk), Writer(**wk).write(align(w, real, obj)))
        else:
            e = ctx.flag('empty_as_string')
            d = document(ctx, m, rd, p='d', kinds=('none', 'drop'), tx=1)
            check_read(ctx, w, read_real(w, cls, native(w, d), empty_as_string=e), Reader(ctx, empty_as_string=e).read(m, d))
    return Harness('placed-' + place, fn, lambda w: build(w, m), universe(m), min_paths=10,
                   bounds='a part with an attribute, an element and a nillable element, each empty, None, unset or neither; all options')
