"""
C29: the type checker plugin gives fields the constructor parameters the runtime has.

The decisions the plugin makes about a field declaration are executed on syntax trees of the type checker (real nodes)
whose names, argument names and literals are symbolic.
"""

import os

from lib.gen import lname
from lib.harness import Harness

SECONDS = {'quick': 200, 'thorough': 850}

NAMES = ('default', 'default_factory', 'alias', 'validation_alias', 'strict', 'frozen', 'entity', 'path')


class Env:
    pass


def setup(w):
    import mypy.types  # noqa: has to be loaded before mypy.nodes
    import mypy.nodes as nodes
    import mypy.options
    import pydantic.mypy as base
    import pydantic_xml.mypy as mod
    e = Env()
    e.nodes, e.mod, e.base = nodes, mod, base.PydanticModelTransformer
    e.names = {x: full_name(getattr(w.px, x)) for x in ('attr', 'element', 'wrapped')}
    e.names['Field'] = full_name(w.pd.Field)
    e.meta = full_name(w.px.model.XmlModelMeta)
    options = mypy.options.Options()
    options.config_file = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib', 'mypy.ini')
    e.plugin = mod.plugin('1')(options)
    e.transformer = mod.PydanticXmlModelTransformer
    return e


def full_name(x):
    return x.__module__ + '.' + x.__qualname__


def name_expr(n, name, full):
    x = n.NameExpr(name)
    x.fullname = full
    return x


def call(n, full, args):
    """args: (name or None, expression)"""
    from mypy.nodes import ARG_NAMED, ARG_POS
    return n.CallExpr(name_expr(n, 'f', full), [a for _, a in args], [ARG_POS if k is None else ARG_NAMED for k, _ in args], [k for k, _ in args])


def stmt(n, value):
    return n.AssignmentStmt([n.NameExpr('x')], value)


EXPRS = ('ellipsis', 'none', 'true', 'false', 'str', 'name')


def expression(ctx, n, p, kinds=EXPRS):
    kind = ctx.choice(p, kinds)
    if kind == 'ellipsis':
        return kind, n.EllipsisExpr()
    if kind == 'str':
        s = ctx.str(p + '.s', 3, 0, 'text')
        return (kind, s), n.StrExpr(s)
    return kind, name_expr(n, 'v', {'none': 'builtins.None', 'true': 'builtins.True', 'false': 'builtins.False', 'name': 'm.v'}[kind])


def arg_name(ctx, p):
    """Any name."""
    return ctx.str(p, 17, 1, 'name')


def arguments(ctx, n, p, positional, keyword):
    """(name or None, kind, expression), ..."""
    out = []
    for i in range(ctx.int(p + '#', 0, positional)):
        out.append((None, *expression(ctx, n, f'{p}{i}', ('none', 'str'))))
    first = len(out)
    for i in range(ctx.int(p + '#k', 0, keyword)):
        name = arg_name(ctx, f'{p}k{i}')
        for k, *_ in out[first:]:
            ctx.assume(ctx.neg(ctx.eq(k, name)))
        ctx.assume(ctx.neg(ctx.eq(name, 'entity')))
        out.append((name, *expression(ctx, n, f'{p}v{i}')))
    return out


def find(args, name):
    for k, kind, _ in args:
        if k is not None and k == name:
            return kind
    return None


def decisions(args):
    """(required, alias, strict, frozen) for the arguments of a field specifier"""
    default, factory = find(args, 'default'), find(args, 'default_factory')
    if default is not None:
        optional = default != 'ellipsis'
    else:
        optional = factory is not None and factory != 'none'
    alias = find(args, 'validation_alias')
    if alias is None:
        alias = find(args, 'alias')
    if alias is None:
        alias = (None, False)
    else:
        alias = (alias[1], False) if type(alias) is tuple else (None, True)
    strict = {'true': True, 'false': False}.get(plain(find(args, 'strict')))
    return optional, alias, strict, plain(find(args, 'frozen')) == 'true'


def plain(kind):
    return kind[0] if type(kind) is tuple else kind


def decide(t, s):
    return t.get_has_default(s), t.get_alias_info(s), t.get_strict(s), t.is_field_frozen(s)


def same(ctx, a, b):
    (o1, (a1, d1), s1, f1), (o2, (a2, d2), s2, f2) = a, b
    yield 'required', o1 == o2
    if a1 is None or a2 is None:
        yield 'alias', a1 is a2 and d1 == d2
    else:
        yield 'alias', ctx.all([d1 == d2, ctx.eq(a1, a2)])
    yield 'strict', s1 is s2
    yield 'frozen', f1 is f2


def check(ctx, got, expected):
    for label, ok in same(ctx, got, expected):
        ctx.check(label, ok, lambda: f'expected {expected!r}, got {got!r}')


def compatible(ctx, args):
    """What the runtime accepts, and each thing given once."""
    for pair in (('default', 'default_factory'),):
        ctx.assume(not all(find(args, x) is not None for x in pair))


def calls(name, callee, positional, keyword, **kw):
    """A call of a field specifier with any arguments."""
    def fn(w, ctx, e):
        args = arguments(ctx, e.nodes, 'a', positional, keyword)
        compatible(ctx, args)
        s = stmt(e.nodes, call(e.nodes, e.names[callee], [(k, x) for k, _, x in args]))
        check(ctx, decide(e.transformer, s), decisions(args))
    return Harness(name, fn, setup, NAMES, backends=('lxml',), min_paths=20,
                   bounds=f'up to {positional} positional and {keyword} keyword arguments with any names up to 17 characters', **kw)


def nested(name, depth, keyword, by_name, **kw):
    """wrapped() with an entity in it: the arguments of both count."""
    def fn(w, ctx, e):
        kind = ctx.choice('kind', ['attr', 'element'] if depth == 1 else ['element'])
        args = all_args = arguments(ctx, e.nodes, 'i', 0, keyword)
        inner = call(e.nodes, e.names[kind], [(k, x) for k, _, x in args])
        for d in range(depth):
            more = arguments(ctx, e.nodes, f'o{d}', 0, keyword if d == depth - 1 else 0)
            for k, *_ in more:
                for k2, *_ in all_args:
                    ctx.assume(ctx.neg(ctx.eq(k, k2)))
                ctx.assume(ctx.neg(ctx.eq(k, 'path')))
            path = (None, e.nodes.StrExpr('w'))
            own = [(k, x) for k, _, x in more]
            if by_name:
                # by name, at any place among the other ones
                own.insert(ctx.int(f'pos{d}', 0, len(own)), ('entity', inner))
                inner = call(e.nodes, e.names['wrapped'], [path] + own)
            else:
                inner = call(e.nodes, e.names['wrapped'], [path, (None, inner)] + own)
            all_args = all_args + more
        compatible(ctx, all_args)
        # both kinds of aliases at different levels: which of them wins is left open
        a = [find(x, y) is not None for x in (args, all_args[len(args):]) for y in ('alias', 'validation_alias')]
        ctx.assume(not ((a[0] or a[1]) and (a[2] or a[3])))
        check(ctx, decide(e.transformer, stmt(e.nodes, inner)), decisions(all_args))
    return Harness(name, fn, setup, NAMES, backends=('lxml',), min_paths=20,
                   bounds=f'entities wrapped {depth} times, up to {keyword} keyword arguments with any names at the innermost and outermost level', **kw)


def others(tier):
    """Values that are no calls of field specifiers are left to the plugin this one is based on."""
    def fn(w, ctx, e):
        kind = ctx.choice('kind', ['call', 'field', 'value', 'none'])
        n = e.nodes
        if kind == 'call':
            full = ctx.str('full', 27, 1, 'text')
            args = arguments(ctx, n, 'a', 0, 1)
            s = stmt(n, call(n, full, [(k, x) for k, _, x in args]))
            known = any(full == x for x in (e.names['attr'], e.names['element'], e.names['wrapped']))
            check(ctx, decide(e.transformer, s), decisions(args) if known else decide(e.base, s))
            return
        if kind == 'field':
            args = arguments(ctx, n, 'a', 1, 1)
            s = stmt(n, call(n, e.names['Field'], [(k, x) for k, _, x in args]))
        elif kind == 'value':
            s = stmt(n, expression(ctx, n, 'v')[1])
        else:
            import mypy.types
            s = stmt(n, n.TempNode(mypy.types.AnyType(mypy.types.TypeOfAny.explicit), no_rhs=True))
        check(ctx, decide(e.transformer, s), decide(e.base, s))
    return Harness('others', fn, setup, NAMES, backends=('lxml',), min_paths=10,
                   bounds='calls of functions with any full name up to 27 characters; other values; annotations only')


def runtime(name, callee, wrap):
    """The decisions agree with the field the same declaration makes at run time."""
    def fn(w, ctx, e):
        n = e.nodes
        levels = []
        for d in range(wrap + 1):
            real, syntax = {}, []

            def give(key, value, x):
                real[key] = value
                syntax.append((key, x))
            if ctx.choice('default at', range(-1, wrap + 1)) == d:
                kind = ctx.choice('default', ['ellipsis', 'none', 'str', 'factory', 'no factory'])
                if kind == 'factory':
                    give('default_factory', list, name_expr(n, 'list', 'builtins.list'))
                elif kind == 'no factory':
                    give('default_factory', None, name_expr(n, 'None', 'builtins.None'))
                else:
                    give('default', {'ellipsis': ..., 'none': None, 'str': 'v'}[kind],
                         {'ellipsis': n.EllipsisExpr(), 'none': name_expr(n, 'None', 'builtins.None'), 'str': n.StrExpr('v')}[kind])
            if ctx.choice('alias at', range(-1, wrap + 1)) == d:
                which = ctx.choice('alias', ['alias', 'validation', 'both', 'serialization'])
                al, va = lname(ctx, 'al', 2), lname(ctx, 'va', 2)
                if which in ('alias', 'both'):
                    give('alias', al, n.StrExpr(al))
                if which in ('validation', 'both'):
                    give('validation_alias', va, n.StrExpr(va))
                if which == 'serialization':
                    give('serialization_alias', al, n.StrExpr(al))
            for key in ('frozen', 'strict'):
                if ctx.choice(key + ' at', range(-1, wrap + 1)) == d:
                    v = ctx.flag(key)
                    give(key, v, name_expr(n, str(v), 'builtins.' + str(v)))
            if ctx.flag('reversed'):
                syntax.reverse()
            levels.append((real, syntax))
        real, syntax = levels[0]
        field = getattr(w.px, callee)(**real)
        value = call(n, e.names[callee], syntax)
        for real, syntax in levels[1:]:
            field = w.px.wrapped('w', field, **real)
            value = call(n, e.names['wrapped'], [(None, n.StrExpr('w')), (None, value)] + syntax)
        optional, (alias, dynamic), strict, frozen = decide(e.transformer, stmt(n, value))
        ctx.check('required', optional == (not field.is_required()))
        real_alias = field.validation_alias if field.validation_alias is not None else field.alias
        ctx.check('alias', not dynamic and (alias is real_alias is None or alias is not None and real_alias is not None and ctx.eq(alias, real_alias)))
        ctx.check('frozen', bool(frozen) == bool(field.frozen))
        stricts = [x.strict for x in field.metadata if type(x).__name__ == 'Strict']
        ctx.check('strict', strict is (stricts[-1] if stricts else None), lambda: f'{strict} {stricts}')
    return Harness(name, fn, setup, NAMES, backends=('lxml',), min_paths=20,
                   bounds='default, alias, validation alias, frozen and strict given or not, at any level, in either order; any aliases up to 2 characters')


def hooks():
    """The plugin works on the classes of the library, with its own decisions."""
    def fn(w, ctx, e):
        full = ctx.str('full', 45, 1, 'text')
        hook = e.plugin.get_metaclass_hook(full)
        base = e.mod.PydanticPlugin.get_metaclass_hook(e.plugin, full)
        if full == e.meta:
            ctx.check('the metaclass of the library is handled', hook == e.plugin._pydantic_model_metaclass_marker_callback)
        else:
            ctx.check('other metaclasses are left to the other plugin', hook == base)
        made = []

        class Stub:
            cls, reason, api = object(), object(), object()
        real = e.base.transform
        e.base.transform = lambda self: made.append(self)
        try:
            e.plugin._pydantic_model_class_maker_callback(Stub)
        finally:
            e.base.transform = real
        ctx.check('classes are transformed', len(made) == 1 and isinstance(made[0], e.transformer) and made[0]._cls is Stub.cls
                  and made[0]._api is Stub.api and made[0].plugin_config is e.plugin.plugin_config)
    return Harness('hooks', fn, setup, NAMES, backends=('lxml',), min_paths=2, bounds='metaclasses with any full name up to 45 characters')


def harnesses(tier):
    th = tier == 'thorough'
    out = [calls(c, c, 2 if th and c != 'wrapped' else 1, 3 if th else 2) for c in ('attr', 'element', 'wrapped')]
    out += [nested('wrapped-entity', 1, 2 if th else 1, False), nested('wrapped-entity-by-name', 1, 2 if th else 1, True),
            nested('wrapped-twice', 2, 1, False), nested('wrapped-twice-by-name', 2, 1, True)]
    out.append(others(tier))
    out += [runtime('runtime-' + c, c, 0) for c in ('attr', 'element', 'wrapped') if c != 'wrapped']
    out += [runtime('runtime-wrapped-' + c, c, 1) for c in ('attr', 'element')]
    out.append(hooks())
    return out
