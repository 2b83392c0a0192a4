"""C25: class settings are inherited and overridden one by one; generic and dynamic models are as if written out."""

import itertools
import types
import typing

from lib import gen, spec
from lib.gen import Opts, document, gen_obj, universe
from lib.harness import Harness
from lib.ref import Reader, Writer, check_read, check_write, construct, read_real, write_real
from lib.spec import (M, Field as F, attr, boolean, build, dct, elem, lst, model, opt, own_settings, prim, valid, wrapped)
from lib.std import align
from lib.tree import native

SECONDS = {'quick': 240, 'thorough': 850}

MAP = {'p': 'u:1', 'q': 'u:2'}
VALUES = {
    'tag': ('t1', 't2', 't3'),
    'ns': ('p', 'q', ''),
    'nsmap': (MAP, {'p': 'u:3', '': 'u:4'}, {'q': 'u:5'}),
    'ns_attrs': (True, False),
    'search_mode': ('strict', 'ordered', 'unordered'),
    'skip_empty': (True, False),
    'extra': ('forbid', 'ignore'),
}


def definable(m):
    return gen.definable(m) and not (m.ns_attrs and m.ns == '')     # attributes can not be in the default namespace


def own_fields(p, name=None):
    return [F(p + 'x', opt(prim), attr(), None), F(p + 'b', opt(prim), elem(), None), F(p + 'c', opt(prim), elem(), None)]


def observe(w, ctx, m, o, kinds, p=''):
    """Reads a document into the model and writes an instance of it."""
    cls = m.cls
    ctx.universe = universe(m)
    if ctx.flag(p + 'write'):
        obj = gen_obj(ctx, m, p + 'w', o)
        real = construct(w, obj)
        expected = Writer().write(align(w, real, obj))
        check_write(ctx, w, write_real(w, real), expected, f'{m.name}: write', nsmap=w.backend == 'lxml')
    else:
        d = document(ctx, m, Opts(text=1, min_text=1, items=1, min_items=1, none=False, depth=o.depth), p=p + 'r', kinds=kinds, tx=1)
        check_read(ctx, w, read_real(w, cls, native(w, d)), Reader(ctx).read(m, d), f'{m.name}: read')
    ctx.check('given mappings are left alone', all(a == b for a, b in spec.GIVEN), lambda: f'{spec.GIVEN!r}')


def settings(ctx, p, names, values=None):
    out = {}
    for s in names:
        vs = (values or VALUES)[s]
        i = ctx.int(f'{p}.{s}', 0, len(vs))
        if i:
            out[s] = vs[i - 1]
    return out


def family(name, names, th, base_values=None, values=None, fixed=None, o=None, kinds=('none', 'swap', 'kid'), nested=False, root=False,
           levels=2, fields=None, **kw):
    """A base class, a subclass with other settings (and one of its own), and a sibling; one of them is used."""
    fixed = fixed or {}
    o = o or Opts(text=1, items=1, depth=2)

    def fn(w, ctx, env):
        spec.GIVEN.clear()
        given = [{**fixed, **settings(ctx, 'base', names, base_values)}]
        for i in range(1, levels):
            given.append(settings(ctx, 'sub' if i == 1 else f'sub{i}', names, values))
        ms = []
        for i, g in enumerate(given):
            own = (fields or own_fields)('abcd'[i]) if not root else [F('root', lst(opt(prim)), elem('i'))] if not i else []
            ms.append(M(('Base', 'Sub', 'Subsub')[i], *own, base=ms[-1] if ms else None, root=root, **g))
        heir = M('Heir', base=ms[-1], root=root)            # gives nothing itself
        sibling = M('Sibling', *own_fields('s')[:0 if root else 1], base=ms[0], root=root)
        every = [*ms, heir, sibling]
        if not all(definable(m) for m in every):
            ctx.assume(False)
        cache = {}
        for m in every:
            build(w, m, cache)
        if nested:
            outer = M('Outer', *(F(f'f{i}', opt(model(m)), None, None) for i, m in enumerate(every)), tag='outer')
            build(w, outer, cache)
            observe(w, ctx, outer, o, kinds)
        else:
            observe(w, ctx, ctx.choice('used', every), o, kinds)
    kw.setdefault('min_paths', 10)
    return Harness(name, fn, None, (), bounds=f'settings {", ".join(names)} given or not, with different values, at {levels} levels; one class of the '
                   'family read (with one change of the document) or written', **kw)


# -- generic and dynamic models --------------------------------------------------------------------------------


def used(name, make, o=None, kinds=('none', 'swap', 'kid', 'text', 'nil'), **kw):
    """make(w, ctx) -> (description, real class); other real classes of it are set in the descriptions."""
    o = o or Opts(text=1, items=1, depth=2)

    def fn(w, ctx, env):
        spec.GIVEN.clear()
        m = make(w, ctx)
        observe(w, ctx, m, o, kinds)
    kw.setdefault('min_paths', 10)
    return Harness(name, fn, None, (), **kw)


T1 = typing.TypeVar('T1')
T2 = typing.TypeVar('T2')


def new(w, name, bases, kwargs, body):
    body = {'__module__': __name__, '__qualname__': name, **body}
    return types.new_class(name, bases, kwargs, lambda d: d.update(body))


def body_of(w, fields, types_):
    """The class body of own fields with given annotations."""
    from lib.spec import entity_field
    body, ann = {}, {}
    for f, t in zip(fields, types_):
        ann[f.name] = t
        kw = {} if repr(f.default) == 'MISSING' else {'default': f.default}
        if f.entity is not None or kw:
            body[f.name] = entity_field(w, f.entity, **kw)
    return {**body, '__annotations__': ann}


def generic(names):
    """G[str, Leaf] against the class with these types written out."""
    def make(w, ctx):
        s = settings(ctx, 'g', names)
        s.setdefault('tag', 'g')
        leaf = M('Leaf', F('x', opt(prim), attr(), None), F('t', opt(prim), None, None), tag='leaf')
        fields = [F('a', opt(prim), elem(), None), F('x', opt(prim), attr(), None), F('m', opt(model(leaf)), None, None), F('l', lst(model(leaf)), elem('l'))]
        m = M('G', *fields, **s)
        if not definable(m):
            ctx.assume(False)
        L = build(w, leaf)
        Opt = typing.Optional
        g = new(w, 'G', (w.Model, typing.Generic[T1, T2]), own_settings(s), body_of(w, fields, [Opt[T1], Opt[T1], Opt[T2], typing.List[T2]]))
        how = ctx.choice('how', ['both', 'one by one', 'subclass'])
        if how == 'both':
            m.cls = g[w.S, L]
        elif how == 'one by one':
            m.cls = g[w.S, T2][L]
        else:
            m = M('C', base=m, **({'tag': 'c'} if ctx.flag('own tag') else {}))
            m.cls = new(w, 'C', (g[w.S, L],), {'tag': m.own['tag']} if m.own['tag'] else {}, {})
        if ctx.flag('another'):
            other = M('Leaf', F('y', opt(prim), attr(), None), tag='leaf')
            g[w.S, build(w, other)]         # other parameters are another class
        return m
    return make


def generic_parts(w, ctx):
    """Parametrised models as field types; parametrised with models; generic root models."""
    leaf = M('Leaf', F('x', opt(prim), attr(), None), tag='leaf')
    L = build(w, leaf)
    Opt = typing.Optional
    fields = [F('v', opt(prim), attr(), None), F('w', opt(prim), elem(), None)]
    s = settings(ctx, 'part', ('ns', 'nsmap', 'ns_attrs'))
    a = M('Part1', *fields, tag='part', **s)
    fields2 = [F('v', opt(prim), attr(), None), F('w', opt(model(leaf)), elem(), None)]
    b = M('Part2', *fields2, tag='part', **s)
    if not definable(a):
        ctx.assume(False)
    g = new(w, 'Part', (w.Model, typing.Generic[T1, T2]), own_settings(dict(s, tag='part')), body_of(w, fields, [Opt[T1], Opt[T2]]))
    a.cls, b.cls = g[w.S, w.S], g[w.S, L]
    rp = M('Rp', F('root', prim), root=True, tag='rp')
    rpg = new(w, 'Rp', (w.RootModel[T1], typing.Generic[T1]), {'tag': 'rp'}, {})
    rp.cls = rpg[w.S]
    outer = M('Outer', F('a', opt(model(a)), elem('a'), None), F('b', opt(model(b)), elem('b'), None), F('p', opt(model(rp)), None, None), tag='outer')
    outer.cls = new(w, 'Outer', (w.Model,), {'tag': 'outer'}, body_of(w, outer.own_fields, [Opt[a.cls], Opt[b.cls], Opt[rp.cls]]))
    return outer


def created(names):
    """create_model() against a class statement; base classes, configuration and own fields are given or not."""
    def make(w, ctx):
        base = None
        based = ctx.choice('base', ['none', 'one', 'tuple'])
        if based != 'none':
            base = M('B', F('bx', opt(prim), attr(), None), F('bb', opt(prim), elem(), None), tag='b', search_mode='ordered', ns='p', nsmap=MAP,
                     skip_empty=True, ns_attrs=True)
        config = ctx.flag('config')
        s = settings(ctx, 'c', names)
        m = M('C', *own_fields('c'), base=base, extra='forbid' if config else None, **s)
        if not definable(m):
            ctx.assume(False)
        from lib.spec import entity_field
        fields = {f.name: (typing.Optional[w.S], entity_field(w, f.entity, default=None)) for f in m.own_fields}
        kw = {f'__{k}__': v for k, v in own_settings(s).items()}
        if config:
            kw['__config__'] = w.pd.ConfigDict(extra='forbid')
        bases = build(w, base) if base is not None else w.Model
        kw['__base__'] = (bases,) if based == 'tuple' else bases
        if ctx.flag('module'):
            kw['__module__'] = __name__
        m.cls = w.px.create_model('C', **kw, **fields)
        if base is not None and ctx.flag('observe base'):
            return base
        return m
    return make


def forward(w, ctx):
    """A model that refers to one defined later."""
    s = settings(ctx, 'f', ('tag', 'ns', 'search_mode', 'ns_attrs'))
    late = M('Late', F('x', opt(prim), attr(), None), tag='late')
    m = M('Early', F('x', opt(prim), attr(), None), F('a', opt(prim), elem(), None), F('late', opt(model(late)), None, None), nsmap=MAP, **s)
    if not definable(m):
        ctx.assume(False)
    ann = [typing.Optional[w.S], typing.Optional[w.S], typing.Optional['Late']]
    m.cls = new(w, 'Early', (w.Model,), own_settings(dict(s, nsmap=MAP)), body_of(w, m.own_fields, ann))
    sub = M('SubEarly', base=m, **({'tag': 'sub'} if ctx.flag('own tag') else {}))
    sub.cls = new(w, 'SubEarly', (m.cls,), {'tag': 'sub'} if sub.own['tag'] else {}, {})
    build(w, late)
    for c in (m.cls, sub.cls):
        c.model_rebuild(_types_namespace={'Late': late.cls, 'typing': typing})
    return ctx.choice('used', [m, sub])


def harnesses(tier):
    th = tier == 'thorough'
    out = []
    fx = {'nsmap': {'nsmap': MAP, 'ns': 'p'}, 'ns': {'nsmap': MAP}, 'ns_attrs': {'nsmap': MAP, 'ns': 'p'}}
    empty = Opts(text=1, items=1, depth=2)
    full = Opts(text=1, min_text=1, none=False, items=1, depth=2)
    names = list(VALUES)
    for s in names:
        fixed = dict(fx.get(s, {}))
        fixed.pop(s, None)
        oo = empty if s == 'skip_empty' else full
        kinds = {'search_mode': ('none', 'swap', 'kid'), 'extra': ('none', 'attr', 'tail'), 'tag': ('none', 'renameroot'),
                 'ns_attrs': ('none', 'renameattr')}.get(s, ('none', 'rename'))
        few = None if th else (lambda p: own_fields(p)[1:]) if s == 'search_mode' else (lambda p: own_fields(p)[::2])
        out.append(family('one-' + s, [s], th, fixed=fixed, o=oo, kinds=kinds, levels=3 if th or s == 'ns' else 2, fields=few))
        out.append(family('one-nested-' + s, [s], th, fixed=fixed, o=full, kinds=('none', 'swap') if th else ('none',), nested=True))
        if s not in ('extra', 'search_mode', 'ns_attrs'):
            out.append(family('one-root-' + s, [s], th, fixed=fixed, o=Opts(text=1, items=1), kinds=('none', 'renameroot'), root=True))
    for a, b in itertools.combinations(names, 2):
        fixed = {}
        for s in (a, b):
            fixed.update(fx.get(s, {}))
        base_values = {s: v if th else v[:1] for s, v in VALUES.items()}
        values = {s: v if th else v[-1:] for s, v in VALUES.items()}
        for s in (a, b):
            fixed.pop(s, None)
        out.append(family(f'two-{a}-{b}', [a, b], th, base_values=base_values, values=values, fixed=fixed,
                          o=empty if th and 'skip_empty' in (a, b) else Opts(text=1, items=1, none=False), kinds=('none', 'swap', 'kid') if th else ('none', 'swap')))
    out.append(family('all', names, th, base_values={s: v[:1] for s, v in VALUES.items()}, values={s: v[-1:] for s, v in VALUES.items()},
                      o=full, kinds=('none',), fields=lambda p: own_fields(p)[:2], fixed={} if th else {'nsmap': MAP, 'extra': 'forbid'},
                      weight=4) if th else
               family('all', ['tag', 'ns', 'nsmap', 'ns_attrs'], th, base_values={s: v[:1] for s, v in VALUES.items()},
                      values={s: v[-1:] for s, v in VALUES.items()}, o=full, kinds=('none',), fields=lambda p: own_fields(p)[:2], weight=2))
    for s in names[:6]:
        out.append(used('generic-' + s, generic(list(dict.fromkeys([s] + (['nsmap'] if s in ('ns', 'ns_attrs') else [])))), o=full, kinds=('none', 'swap', 'nil') if th else ('none',),
                        bounds=f'any setting of {s}; parameters given at once, one after another or by a subclass'))
        out.append(used('created-' + s, created(list(dict.fromkeys([s] + (['nsmap'] if s in ('ns', 'ns_attrs') else [])))), o=empty if s == 'skip_empty' else full, kinds=('none', 'kid') if th else ('none', 'attr') if s == 'search_mode' else ('none',),
                        bounds=f'any setting of {s}; base classes, configuration, module given or not'))
    out.append(used('generic-parts', generic_parts, o=full, kinds=('none', 'swap') if th else ('none',), bounds='parametrised models as parts of another'))
    out.append(used('forward', forward, o=full, kinds=('none', 'swap'), bounds='models that refer to later ones, any settings'))
    return out
