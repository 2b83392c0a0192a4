"""C07: xsi:nil stands for None exactly where it is declared."""

from lib import catalog
from lib.gen import Opts, gen_obj, text
from lib.ref import XSI_NIL, Obj
from lib.spec import (M, Field as F, attr, boolean, dct, elem, lst, model, opt, prim, tup, union, wrapped)
from lib.std import configured, mutated, reads, roundtrips, writes
from lib.tree import N

SECONDS = {'quick': 200, 'thorough': 800}

KINDS = ('prim', 'bool', 'model', 'wrapped', 'wrapped-model', 'tuple', 'computed', 'computed-model', 'default', 'models', 'root',
         'mixed', 'union')


def make(kind):
    def fn(ctx):
        nil = ctx.choice('nillable', [None, True, False])
        mode = ctx.choice('mode', ['strict', 'ordered', 'unordered']) if kind in ('prim', 'model') else 'strict'
        kw = dict(tag='r', search_mode=mode)
        e = elem('e', nillable=nil)

        def sub(name='Sub'):
            return M(name, F('x', opt(prim), attr(), None), F('t', opt(prim), None, None), F('k', opt(prim), elem(), None))
        f = {
            'prim': lambda: F('e', opt(prim), e, None),
            'default': lambda: F('e', opt(prim), e, 'dd'),
            'bool': lambda: F('e', opt(boolean), e, None),
            'model': lambda: F('e', opt(model(sub())), e, None),
            'models': lambda: F('e', opt(lst(model(sub()))), e, None),
            'union': lambda: F('e', opt(union(sub(), M('Other', F('y', prim, attr())))), elem('e'), None),
            'wrapped': lambda: F('e', opt(prim), wrapped('w', e), None),
            'wrapped-model': lambda: F('e', opt(model(sub())), wrapped('w', e), None),
            'tuple': lambda: F('e', opt(tup(opt(prim), prim, opt(model(sub())))), e, None),
            'mixed': lambda: F('e', opt(tup(opt(model(sub())), opt(prim))), e, None),
            'computed': lambda: F('e', opt(prim), e, computed=lambda self: None if self.z is None else 'v'),
            'computed-model': None,
            'root': lambda: F('e', opt(model(M('Inner', F('root', opt(prim), None, None), root=True))), e, None),
        }[kind]
        z = F('z', opt(prim), elem(nillable=True) if kind != 'computed' else attr(), None)
        if f is None:
            s = sub()
            return M('R', z, F('e', opt(model(s)), e, computed=lambda self: None if self.z is None else s.cls(x='v')), **kw)
        return M('R', f(), z, **kw)
    return fn


def element(ctx, p, tag, full=True):
    """An element with any nil attribute; the other ones of a document (not full) have a fixed content."""
    n = N(tag, text(ctx, p + 'text', 1) if full else 't')
    if ctx.flag(p + 'nil'):
        n.attrs.append((XSI_NIL, text(ctx, p + 'nilvalue', 5) if full else ctx.choice(p + 'nilvalue', ['true', 'false'])))
    if full and ctx.flag(p + 'content'):
        n.attrs.append(('x', 'x'))
        n.kids.append(N('k', 'x'))
    return n


def doc(kind):
    def fn(ctx, m):
        n = 3 if kind == 'tuple' else 2 if kind == 'mixed' else 1
        at = ctx.int('at', 0, n - 1)
        kids = [element(ctx, f'e{i}', 'e', i == at) for i in range(n)]
        if kind == 'bool':
            kids[0].text = ctx.choice('b', ['true', 'false', '', None])
        if kind.startswith('wrapped'):
            kids = [N('w', kids=kids)]
        return N('r', kids=kids + ([element(ctx, 'z', 'z', False)] if ctx.flag('z?') else []))
    return fn


def inst(kind):
    def fn(ctx, m):
        if kind.startswith('computed'):
            z = None if ctx.flag('z.none') else text(ctx, 'z', 1)
            v = None if z is None else 'v'
            f = m.fields[1] if kind == 'computed-model' else m.fields[0]
            if v is not None and kind == 'computed-model':
                v = Obj(f.type.args[0].args[0], {'x': 'v', 't': None, 'k': None}, {'x'})
            return Obj(m, {'z': z, 'e': v}, {'z'})
        return gen_obj(ctx, m, 'o', Opts(text=1, items=1, unset=False))
    return fn


def harnesses(tier):
    out = []
    b = 'nillable or not; xsi:nil absent or with any value of up to 5 characters; element with text, attribute and sub-element'
    wr = {'exclude_none': 'any', 'skip_empty': 'any'}
    for kind in KINDS:
        out.append(configured('read-' + kind, make(kind), None if kind.startswith('computed') else doc(kind), bounds=b, weight=2)
                   if not kind.startswith('computed') else
                   configured('write-' + kind, make(kind), None, inst(kind), write_kw=wr, bounds=b))
        if not kind.startswith('computed'):
            out.append(configured('write-' + kind, make(kind), None, inst(kind), write_kw=wr,
                                  bounds='nillable or not; any instance, strings up to 1 character'))
    n = catalog.nillables()
    out.append(roundtrips('nil-roundtrip', n, Opts(text=1, min_text=1), bounds='any instance'))
    out.append(mutated('any', n, kinds=('none', 'nil', 'text', 'kid', 'attr', 'dropattr', 'setattr'), weight=2))
    return out
