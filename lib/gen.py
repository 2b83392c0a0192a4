"""Symbolic documents and instances."""

from symx.base import CONSTANTS

from .ref import XSI_NIL, Item, Obj, attr_name, elem_name, enter, local_name, model_name, qname, root_name, scope_of
from .spec import MISSING, Entity, SelfRef, T
from .tree import N


def text(ctx, name, max=3, min=0):
    return ctx.str(name, max, min, 'text')


def lname(ctx, name, max=2):
    return ctx.str(name, max, 1, 'name')


def qtag(ctx, name, max=2, umax=2):
    """Any name, with or without a namespace."""
    n = lname(ctx, name, max)
    if ctx.flag(name + '.q'):
        return '{' + ctx.str(name + '.u', umax, 1, 'uri') + '}' + n
    return n


def kids(ctx, p, lo, hi, make):
    n = ctx.int(p + '#', lo, hi)
    return [make(f'{p}{i}') for i in range(n)]


def names_of(m, seen=None, out=None):
    """Every name a model description can look up (the constants symbolic names are hashed against)."""
    seen = {} if seen is None else seen
    out = set() if out is None else out
    if m in seen:
        return out
    seen[m] = True
    for n in (root_name(m), m.name, XSI_NIL):
        out.add(n)
    for f in m.fields:
        out.add(f.name)
        out.update(x for x in (f.salias, f.valias) if x)
        _names(m, scope_of(m), f, f.entity, f.type, out, seen)
    return out


def _names(m, scope, f, e, t, out, seen):
    if e is not None and e.kind == 'wrapped':
        inner = enter(scope, e)
        for part in e.name.split('/'):
            out.add(qname(part, inner.ns, inner.nsmap))
        return _names(m, inner, f, e.inner, t, out, seen)
    if e is not None and e.kind == 'attr':
        out.add(attr_name(enter(scope, e), f, e))
        return
    s = enter(scope, e)
    if t.kind in ('model', 'union', 'tagged'):
        for m2 in (t.kw['members'].values() if t.kind == 'tagged' else t.args):
            if isinstance(m2, SelfRef):
                continue
            out.add(model_name(s, f, e, m2))
            names_of(m2, seen, out)
    elif e is not None and t.kind in ('prim', 'valid', 'bool', 'int', 'const', 'lit', 'dict', 'tdict', 'raw'):
        out.add(elem_name(s, f, e))
    if t.kind == 'tdict':
        out.update(t.kw['keys'])
    for a in t.args:
        if isinstance(a, T):
            _names(m, scope, f, e, a, out, seen)


def universe(*ms, extra=()):
    out = _Plain(extra)
    out.update(CONSTANTS)
    for m in ms:
        names_of(m, {}, out)
    return sorted(out)


class Opts:
    """Bounds of generated instances."""

    def __init__(self, text=2, min_text=0, items=2, min_items=0, depth=2, unset=False, bools=False, attr_min=0,
                 key=2, raw=None, none=True, uni=True):
        self.none = none            # optional fields may be None
        self.text = text
        self.min_text = min_text
        self.items = items
        self.min_items = min_items
        self.depth = depth
        self.unset = unset          # fields with a default may be left unset
        self.attr_min = attr_min
        self.key = key
        self.raw = raw
        self.uni = uni              # values of primitive unions may be numbers


def gen_obj(ctx, m, p, o, models=None, depth=0):
    """A symbolic instance of a model description."""
    models = dict(models or {})
    models[m.name] = m
    values, given = {}, set()
    for f in m.fields:
        if f.computed is not None:
            continue
        n = f'{p}.{f.name}'
        if o.unset and f.default is not MISSING and ctx.flag(n + '.unset'):
            values[f.name] = f.default
            continue
        v = values[f.name] = gen_value(ctx, f.type, n, o, models, depth, inner_entity(f.entity))
        if isinstance(v, Item) and f.entity is None:
            # the keys are no names of attributes that other fields write on the same element
            for g in m.fields:
                if g.entity is not None and g.entity.kind == 'attr':
                    name = attr_name(enter(scope_of(m), g.entity), g, g.entity)
                    for key in v:
                        ctx.assume(ctx.neg(ctx.eq(key, name)))
        given.add(f.name)
    return Obj(m, values, given)


def has_model(t):
    return t.kind in ('model', 'union', 'tagged') or any(isinstance(a, T) and has_model(a) for a in t.args)


def inner_entity(e):
    while e is not None and e.kind == 'wrapped':
        e = e.inner
    return e


def gen_value(ctx, t, p, o, models, depth, e):
    k = t.kind
    if k == 'opt':
        inner = t.args[0]
        if depth >= o.depth and has_model(inner):
            return None
        if o.none and ctx.flag(p + '.none'):
            return None
        return gen_value(ctx, inner, p, o, models, depth, e)
    if k in ('prim', 'valid'):
        if t.kw.get('uni') and o.uni and ctx.flag(p + '.int'):
            return ctx.choice(p + '.n', [0, 7])
        v = ctx.str(p, o.text, o.attr_min if e is not None and e.kind == 'attr' else o.min_text, 'text')
        if k == 'valid':
            ctx.assume(ctx.neg(ctx.eq(v, 'bad')))
        return v
    if k == 'bool':
        return ctx.flag(p)
    if k == 'const':
        return ctx.choice(p, [v for v, _ in t.kw['pairs']])
    if k == 'int':
        return ctx.choice(p, [0, 7, -1])
    if k == 'lit':
        return ctx.choice(p, t.args)
    if k == 'model':
        m2 = t.args[0]
        return gen_obj(ctx, models[m2.name] if isinstance(m2, SelfRef) else m2, p, o, models, depth + 1)
    if k in ('union', 'tagged'):
        ms = list(t.args) if k == 'union' else list(t.kw['members'].values())
        return gen_obj(ctx, ctx.choice(p + '.of', ms), p, o, models, depth + 1)
    if k in ('list', 'vtup', 'set', 'fset'):
        n = ctx.int(p + '#', o.min_items, o.items)
        out = [gen_value(ctx, t.args[0], f'{p}{i}', o, models, depth, e) for i in range(n)]
        if k in ('set', 'fset'):
            for i in range(n):
                for j in range(i):
                    ctx.assume(ctx.neg(ctx.eq(out[i], out[j])))
        return out
    if k in ('tuple', 'ntuple'):
        return [gen_value(ctx, a, f'{p}{i}', o, models, depth, e) for i, a in enumerate(t.args)]
    if k == 'dict':
        n = ctx.int(p + '#', o.min_items, o.items)
        ks = [lname(ctx, f'{p}k{i}', o.key) for i in range(n)] if o.key else ['ka', 'kb', 'kc'][:n]
        for i in range(n):
            for j in range(i):
                ctx.assume(ctx.neg(ctx.eq(ks[i], ks[j])))
        return Item((ks[i], gen_value(ctx, t.args[0] if t.args else T('prim'), f'{p}v{i}', o, models, depth,
                                      Entity('attr'))) for i in range(n))
    if k == 'tdict':
        return Item((key, ctx.str(f'{p}.{key}', o.text, 0, 'text')) for key in t.kw['keys']
                    if t.kw['total'] or ctx.flag(f'{p}.{key}?'))
    if k == 'raw':
        return o.raw(ctx, p)
    raise AssertionError(k)


def flat(ctx, root, n, q=False, lo=0, max=2, umax=2, tx=2, p='k', min_text=1):
    """root with up to n children of any name."""
    def make(x):
        return N(qtag(ctx, x + 't', max, umax) if q else lname(ctx, x + 't', max), text(ctx, x + 'x', tx, min_text))
    return N(root, kids=kids(ctx, p, lo, n, make))


def deep(ctx, root, ns, attrs=0, texts=True, max=2, p='k', tails=False, tx=1):
    """root with up to ns[0] children of any name, each with up to ns[1] children, and so on; up to `attrs`
    attributes of any name each."""
    def make(x, ns):
        n = N(lname(ctx, x + 't', max), text(ctx, x + 'x', tx) if texts else None)
        fill(n, x, ns)
        if tails:
            n.tail = text(ctx, x + 'l', tx)
        return n

    def fill(n, x, ns):
        if attrs:
            for i in range(ctx.int(x + '@', 0, attrs)):
                n.attrs.append((lname(ctx, f'{x}@{i}', max), text(ctx, f'{x}={i}', tx)))
            distinct(ctx, n.attrs)
        if ns:
            n.kids = kids(ctx, x + '.', 0, ns[0], lambda y: make(y, ns[1:]))
    r = N(root, text(ctx, p + 'x', tx) if texts else None)
    fill(r, p, ns)
    return r


def distinct(ctx, attrs):
    for i in range(len(attrs)):
        for j in range(i):
            ctx.assume(ctx.neg(ctx.eq(attrs[i][0], attrs[j][0])))


def nodes_of(n, parent=None, i=0):
    out = [(parent, i, n)]
    for j, k in enumerate(n.kids):
        out += nodes_of(k, n, j)
    return out


def clone(n):
    return N(n.tag, n.text, list(n.attrs), [clone(k) for k in n.kids], n.tail, n.line, n.kind, n.nsmap)


def any_name(ctx, p, max=4, q=False, umax=5):
    return qtag(ctx, p, max, umax) if q else lname(ctx, p, max)


MUTATIONS = ('none', 'attr', 'kid', 'text', 'tail', 'drop', 'dup', 'swap', 'rename', 'dropattr', 'setattr', 'renameattr', 'nil')


def mutate(ctx, doc, kinds=MUTATIONS, p='mut', tx=2, q=False, max=4, umax=5):
    """One change of any kind at any place of a document (in place)."""
    kind = ctx.choice(p + '.kind', kinds)
    if kind == 'none':
        return kind
    places = [(a, i, n) for a, i, n in nodes_of(doc) if n.kind == 'el']
    if kind == 'renameroot':
        places = places[:1]
        kind = 'rename'
    elif kind in ('drop', 'dup', 'rename', 'tail'):
        places = places[1:]
    elif kind == 'swap':
        places = [x for x in places[1:] if x[1] + 1 < len(x[0].kids)]
    elif kind in ('dropattr', 'setattr', 'renameattr'):
        places = [(n, i, a) for _, _, n in places for i, a in enumerate(n.attrs)]
    if not places:
        ctx.assume(False)
    a, i, n = ctx.choice(p + '.at', places)
    if kind == 'attr':
        name = any_name(ctx, p + '.name', max, q, umax)
        for k, _ in n.attrs:
            ctx.assume(ctx.neg(ctx.eq(k, name)))
        n.attrs.insert(ctx.int(p + '.pos', 0, 1) * len(n.attrs), (name, text(ctx, p + '.value', tx)))
    elif kind == 'kid':
        pos = ctx.int(p + '.pos', 0, len(n.kids))
        n.kids.insert(pos, N(any_name(ctx, p + '.name', max, q, umax), text(ctx, p + '.value', tx)))
    elif kind in ('comment', 'pi'):
        pos = ctx.int(p + '.pos', 0, len(n.kids))
        n.kids.insert(pos, N('p', 'note', kind=kind, tail=text(ctx, p + '.value', tx)))
    elif kind == 'text':
        n.text = text(ctx, p + '.value', tx)
    elif kind == 'tail':
        n.tail = text(ctx, p + '.value', tx)
    elif kind == 'drop':
        del a.kids[i]
    elif kind == 'dup':
        a.kids.insert(i, clone(n))
    elif kind == 'swap':
        a.kids[i], a.kids[i + 1] = a.kids[i + 1], a.kids[i]
    elif kind == 'rename':
        n.tag = any_name(ctx, p + '.name', max, q, umax)
    elif kind == 'dropattr':
        del a.attrs[i]
    elif kind == 'setattr':
        a.attrs[i] = (n[0], text(ctx, p + '.value', tx))
    elif kind == 'renameattr':
        name = any_name(ctx, p + '.name', max, q, umax)
        for k, _ in a.attrs:
            if k != n[0]:
                ctx.assume(ctx.neg(ctx.eq(k, name)))
        a.attrs[i] = (name, n[1])
    elif kind == 'nil':
        ctx.assume(all(k != XSI_NIL for k, _ in n.attrs))
        n.attrs.append((XSI_NIL, 'true' if ctx.flag(p + '.nil') else text(ctx, p + '.value', 1)))
    return kind


def document(ctx, m, o, p='o', **kw):
    """The document of any instance, as it is written by the reference, with one change of any kind."""
    from .ref import Writer
    doc = Writer(exclude_none=True).write(gen_obj(ctx, m, p, o))
    for n in nodes_of(doc):
        n[2].nsmap = None
    mutate(ctx, doc, **kw)
    return doc


class _Plain(set):
    """Keeps the constants only; symbolic names need no hash."""

    def add(self, x):
        if type(x) is str:
            set.add(self, x)

    def update(self, xs):
        for x in xs:
            self.add(x)


def definable(m):
    """Is every namespace alias declared that the entities of the model and its sub-models need?"""
    from .ref import DefinitionError
    try:
        names_of(m, {}, _Plain())
    except DefinitionError:
        return False
    return True
