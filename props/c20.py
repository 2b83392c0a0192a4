"""C20: a document with another root element is refused, before anything else happens."""

import typing

from lib.gen import Opts, document, kids, lname, qtag, text, universe
from lib.harness import Harness
from lib.ref import Reader, check_read, read_real, root_name
from lib.spec import (M, Field as F, attr, build, dct, elem, lst, model, opt, prim, raw, union, valid, wrapped)
from lib.std import configured
from lib.tree import N, native

SECONDS = {'quick': 150, 'thorough': 800}

CALLS = []


def noted(v):
    CALLS.append('field validator')
    return v


def note(w):
    return w.pd.BeforeValidator(noted)


def note_model(values):
    CALLS.append('model validator')
    return True


def models():
    """name -> model; the fields tell when they are validated."""
    ns = {'': 'u1', 'p': 'u2', 'q': 'q'}
    sub = M('Sub', F('x', opt(prim), attr(), None, annotations=[note]), tag='sub')

    def fields():
        return [F('x', valid, attr(), annotations=[note]), F('e', opt(prim), elem(), None, annotations=[note]),
                F('s', opt(model(sub)), None, None)]
    out = {
        'named-by-class': M('Rr', *fields(), check=note_model, check_mode='before'),
        'tag': M('R', *fields(), tag='r', check=note_model, check_mode='before'),
        'ns': M('R', *fields(), tag='r', ns='p', nsmap=ns, check=note_model, check_mode='before'),
        'default-ns': M('R', *fields(), tag='r', nsmap=ns, check=note_model, check_mode='before'),
        'forbid': M('R', *fields(), tag='r', extra='forbid', check=note_model, check_mode='before'),
        'unordered': M('R', *fields(), tag='r', search_mode='unordered', check=note_model, check_mode='before'),
        'root': M('R', F('root', lst(model(sub))), root=True, tag='r'),
        'root-class': M('Rr', F('root', opt(prim), None, None), root=True),
        'root-ns': M('R', F('root', dct()), root=True, tag='r', ns='q', nsmap=ns),
        'root-model': M('R', F('root', model(sub)), root=True, tag='r', ns='p', nsmap=ns),
        'root-union': M('R', F('root', union(sub, M('Sub2', F('y', prim, attr()), tag='sub'))), root=True, tag='sub'),
    }
    base = M('Base', *fields(), tag='r', ns='p', nsmap=ns, check=note_model, check_mode='before')
    out['inherited'] = M('Derived', F('d', opt(prim), elem(), None), base=base)
    out['inherited-tag'] = M('Derived', F('d', opt(prim), elem(), None), base=base, tag='d')
    out['inherited-ns'] = M('Derived', F('d', opt(prim), elem(), None), base=base, ns='', nsmap={'': 'u3'})
    plain = M('Base', *fields(), check=note_model, check_mode='before')
    out['inherited-class'] = M('Derived', F('d', opt(prim), elem(), None), base=plain)
    return out


def body(ctx, n):
    """Content that may be right or wrong for the models."""
    k = ctx.choice('content', ['empty', 'right', 'wrong', 'extra'])
    if k != 'empty':
        n.attrs.append(('x', {'right': 'v', 'wrong': 'bad', 'extra': 'v'}[k]))
        n.kids.append(N('e', 't'))
        n.kids.append(N('sub', attrs=[('x', 'v')]))
    if k == 'extra':
        n.kids.append(N('zz', 't'))
        n.attrs.append(('zz', 't'))
    return n


def harness(name, m, th, validators=True):
    def setup(w):
        return build(w, m)

    size = max(len(x) for x in root_name(m).strip('{').split('}'))

    def fn(w, ctx, cls):
        d = body(ctx, N(qtag(ctx, 'root', max(size, 3 if th else 2) + 1, 3)))
        CALLS.clear()
        real = read_real(w, cls, native(w, d))
        expected = Reader(ctx).read(m, d) if not m.root else None
        if expected is None:
            right = d.tag == root_name(m)
            ctx.check('refused if and only if the name differs', (real[0] == 'parsing') == (not right) and real[0] != 'crash',
                      lambda: f'{real}, root element {d.tag!r}')
        else:
            right = expected[0] != 'parsing'
            check_read(ctx, w, real, expected)
        if not right:
            ctx.check('no validator runs before', not CALLS, lambda: f'{CALLS}')
    return Harness(name, fn, setup, universe(m, extra=['zz']), min_paths=3,
                   bounds='root elements of any name (up to 1 character longer than the right one) with and without any '
                          'namespace (up to 3 characters); right, invalid, missing and additional content')


def make(root):
    def fn(ctx):
        tag = lname(ctx, 'tag', 2) if ctx.flag('tag given') else None
        ns = ctx.choice('ns', [None, 'p', ''])
        uri = ctx.str('uri', 2, 1, 'uri')
        nsmap = ctx.choice('nsmap', [None, {'p': uri, '': 'dd'}, {'': uri, 'p': 'pp'}])
        kw = dict(tag=tag, ns=ns, nsmap=nsmap)
        if root:
            return M('Rr', F('root', opt(prim), None, None), root=True, **kw)
        return M('Rr', F('x', opt(prim), attr(), None), F('t', opt(prim), None, None), **kw)
    return fn


def custom(th):
    """XML validators are validators, too."""
    def setup(w):
        px = w.px

        class R(w.Model, tag='r'):
            x: typing.Optional[w.S] = px.element(default=None)

            @px.xml_field_validator('x')
            def check_x(cls, element, field_name):
                CALLS.append('xml validator')
                return 'v'
        return R

    def fn(w, ctx, cls):
        d = N(qtag(ctx, 'root', 2, 2))
        CALLS.clear()
        real = read_real(w, cls, native(w, d))
        right = d.tag == 'r'
        ctx.check('refused if and only if the name differs', real[0] == ('ok' if right else 'parsing'), lambda: f'{real}')
        ctx.check('no validator runs before', bool(CALLS) == right, lambda: f'{CALLS}')
    return Harness('xml-validator', fn, setup, ['r', 'x'], bounds='root elements of any name', min_paths=2)


def generic(th):
    def setup(w):
        V = typing.TypeVar('V')

        class G(w.Model, typing.Generic[V], tag='g'):
            x: typing.Optional[V] = w.px.attr(default=None)

        class D(G[w.S]):
            pass

        class E(G[w.S], tag='e'):
            pass
        return {'g': G[w.S], 'd': D, 'e': E}

    def fn(w, ctx, classes):
        which = ctx.choice('class', ['g', 'd', 'e'])
        d = N(qtag(ctx, 'root', 2, 2), attrs=[('x', 'v')])
        real = read_real(w, classes[which], native(w, d))
        right = d.tag == ('e' if which == 'e' else 'g')
        ctx.check('refused if and only if the name differs', real[0] == ('ok' if right else 'parsing'), lambda: f'{real}')
    return Harness('generic', fn, setup, ['g', 'e', 'x'], bounds='root elements of any name; parametrised generic models '
                   'and their subclasses', min_paths=2)


def harnesses(tier):
    th = tier == 'thorough'
    out = [harness(name, m, th) for name, m in models().items()]
    for root in (False, True):
        out.append(configured('symbolic-root' if root else 'symbolic', make(root),
                              lambda ctx, m: N(qtag(ctx, 'root', 2, 2), text(ctx, 'text', 1, 1), [('x', 'v')]),
                              bounds='class tag absent or any name up to 2 characters, namespace alias absent, default or not, any URI '
                                     'up to 2 characters; root elements of any name', extra=('x',), weight=3))
    out += [custom(th), generic(th)]
    return out
