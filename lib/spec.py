"""
Model descriptions: one description is turned into a real model class (build) and interpreted by the reference
semantics (ref.py), which is written from the documentation.
"""

import enum
import typing
from typing import Annotated, Any, Dict, FrozenSet, List, Literal, NamedTuple, Optional, Set, Tuple, Union

MISSING = type('MISSING', (), {'__repr__': lambda s: 'MISSING'})()


class T:
    """A type expression."""

    def __init__(self, kind, *args, **kw):
        self.kind = kind
        self.args = args
        self.kw = kw

    def __repr__(self):
        return f'{self.kind}{self.args}'


prim = T('prim')
valid = T('valid')     # a string other than 'bad'
boolean = T('bool')
raw = T('raw')
integer = T('int')     # documents give it constants only
uprim = T('prim', uni=True)     # int or string; every text is read as the string


def opt(t): return T('opt', t)
def model(m): return T('model', m)
def lst(t): return T('list', t)
def vtup(t): return T('vtup', t)
def st(t): return T('set', t)
def fst(t): return T('fset', t)
def tup(*ts): return T('tuple', *ts)
def ntup(name, **ts): return T('ntuple', *ts.values(), name=name, names=list(ts))
def dct(): return T('dict')
def dctv(vt): return T('dict', vt)
def tdict(name, *keys, total=True): return T('tdict', name=name, keys=keys, total=total)
def union(*ms): return T('union', *ms)
def tagged(disc, **ms): return T('tagged', disc=disc, members=ms)
def lit(v): return T('lit', v)
def const(ann, *pairs): return T('const', ann=ann, pairs=pairs)   # (value, text) pairs; documents give it constants only


class Entity:
    def __init__(self, kind, name=None, ns=None, nsmap=None, nillable=None, inner=None, outer=False):
        self.kind = kind
        self.name = name
        self.ns = ns
        self.nsmap = nsmap
        self.nillable = nillable
        self.inner = inner
        self.outer = outer      # the field arguments are given to wrapped() itself


def attr(name=None, ns=None): return Entity('attr', name, ns)
def elem(tag=None, ns=None, nsmap=None, nillable=None): return Entity('elem', tag, ns, nsmap, nillable)
def wrapped(path, inner=None, ns=None, nsmap=None, outer=False):
    return Entity('wrapped', path, ns, nsmap, inner=inner, outer=outer)




class Field:
    def __init__(self, name, type, entity=None, default=MISSING, alias=None, salias=None, valias=None, exclude=False,
                 computed=None, annotations=(), exclude_if=None, noxml=False):
        self.name = name
        self.type = type
        self.entity = entity
        self.default = default
        self.alias = alias
        self.salias = salias if salias is not None else alias
        self.valias = valias if valias is not None else alias
        self.exclude = exclude
        self.exclude_if = exclude_if
        self.computed = computed
        self.annotations = annotations
        self.noxml = noxml


class M:
    """A model description; every setting can be None (not given)."""

    def __init__(self, name, *fields, tag=None, ns=None, nsmap=None, ns_attrs=None, search_mode=None, skip_empty=None,
                 extra=None, root=False, base=None, config=None, doc=None, check=None, check_mode='after',
                 members=None, xread=None, xwrite=None):
        self.name = name
        self.own_fields = list(fields)
        self.own = dict(tag=tag, ns=ns, nsmap=nsmap, ns_attrs=ns_attrs, search_mode=search_mode, skip_empty=skip_empty)
        self.own_extra = extra
        self.root = root
        self.base = base
        self.config = dict(config or {})
        self.cls = None
        self.check = check              # a condition on the field values, checked by a model validator
        self.check_mode = check_mode
        self.members = members          # members(w) -> other members of the class
        self.xread = xread or {}        # field name -> what its custom XML validator does: f(reader, node, name) -> value
        self.xwrite = xwrite or {}      # field name -> what its custom XML serializer does: f(node, value, name)

    def _get(self, key, default=None):
        m = self
        while m is not None:
            if m.own[key] is not None:
                return m.own[key]
            m = m.base
        return default

    @property
    def tag(self): return self._get('tag')
    @property
    def ns(self): return self._get('ns')
    @property
    def ns_attrs(self): return self._get('ns_attrs', False)
    @property
    def search_mode(self): return self._get('search_mode', 'strict')
    @property
    def skip_empty(self): return self._get('skip_empty')

    @property
    def nsmap(self):
        base = self.base.nsmap if self.base is not None else None
        own = self.own['nsmap']
        if base is None:
            return own
        return {**base, **(own or {})}

    @property
    def extra(self):
        m = self
        while m is not None:
            if m.own_extra is not None:
                return m.own_extra
            m = m.base
        return 'ignore'

    @property
    def fields(self):
        out = {}
        for f in (self.base.fields if self.base is not None else []):
            out[f.name] = f
        for f in self.own_fields:
            out[f.name] = f
        return sorted(out.values(), key=lambda f: f.computed is not None)    # computed ones are written last

    def __repr__(self):
        return f'<{self.name}>'


class SelfRef:
    """A reference to a model by name (recursive models)."""

    def __init__(self, name):
        self.name = name


SEEN = []       # the contexts validators were called with


def reject_bad(v, info):
    SEEN.append(info.context)
    if v == (info.context['bad'] if info.context else 'bad'):
        raise ValueError('bad value')
    return v


def lenient(context):
    return bool(context) and context['lenient']


def annotation(w, t, cache):
    k = t.kind
    if k == 'prim':
        return Union[int, w.S] if t.kw.get('uni') else w.S
    if k == 'valid':
        return Annotated[w.S, w.pd.AfterValidator(reject_bad)]
    if k == 'bool':
        return w.B
    if k == 'int':
        return int
    if k == 'const':
        return t.kw['ann']
    if k == 'lit':
        return Literal[t.args]
    if k == 'raw':
        return w.ElementT
    if k == 'opt':
        return Optional[annotation(w, t.args[0], cache)]
    if k == 'model':
        m = t.args[0]
        return m.name if isinstance(m, SelfRef) else build(w, m, cache)
    if k == 'list':
        return List[annotation(w, t.args[0], cache)]
    if k == 'vtup':
        return Tuple[annotation(w, t.args[0], cache), ...]
    if k == 'set':
        return Set[annotation(w, t.args[0], cache)]
    if k == 'fset':
        return FrozenSet[annotation(w, t.args[0], cache)]
    if k == 'tuple':
        return Tuple[tuple(annotation(w, a, cache) for a in t.args)]
    if k == 'ntuple':
        key = ('nt', t.kw['name'])
        if key not in cache:
            cache[key] = NamedTuple(t.kw['name'], [(n, annotation(w, a, cache)) for n, a in zip(t.kw['names'], t.args)])
        return cache[key]
    if k == 'dict':
        return Dict[w.S, annotation(w, t.args[0], cache) if t.args else w.S]
    if k == 'tdict':
        key = ('td', t.kw['name'])
        if key not in cache:
            import typing_extensions as te
            cache[key] = te.TypedDict(t.kw['name'], {k: w.S for k in t.kw['keys']}, total=t.kw['total'])
        return cache[key]
    if k == 'union':
        return Union[tuple(build(w, m, cache) for m in t.args)]
    if k == 'tagged':
        return Annotated[
            Union[tuple(build(w, m, cache) for m in t.kw['members'].values())],
            w.pd.Field(discriminator=t.kw['disc']),
        ]
    raise AssertionError(k)


GIVEN = []      # (a mapping given to the library, what it was)


def mine(nsmap):
    """A mapping of its own for every class."""
    if nsmap is None:
        return None
    out = dict(nsmap)
    GIVEN.append((out, dict(nsmap)))
    del GIVEN[:-500]
    return out


def own_settings(s):
    return {k: mine(v) if k == 'nsmap' else v for k, v in s.items()}


def entity_field(w, e, **kw):
    px = w.px
    if e is None:
        return w.pd.Field(**kw)
    if e.kind == 'attr':
        return px.attr(e.name, e.ns, **kw)
    if e.kind == 'elem':
        return px.element(e.name, e.ns, mine(e.nsmap), e.nillable, **kw)
    if e.kind == 'wrapped':
        if e.inner is None:
            return px.wrapped(e.name, ns=e.ns, nsmap=mine(e.nsmap), **kw)
        if e.outer:
            return px.wrapped(e.name, entity_field(w, e.inner), ns=e.ns, nsmap=mine(e.nsmap), **kw)
        return px.wrapped(e.name, entity_field(w, e.inner, **kw), ns=e.ns, nsmap=mine(e.nsmap))
    raise AssertionError(e.kind)


def build(w, m, cache=None):
    """The real model class of a description."""
    cache = {} if cache is None else cache
    if m in cache:
        return cache[m]
    bases = [build(w, m.base, cache)] if m.base is not None else None
    ns = {'__module__': __name__, '__qualname__': m.name}
    ann = {}
    for f in m.own_fields:
        if f.computed is not None:
            ns[f.name] = _computed(w, f, annotation(w, f.type, cache))
            continue
        kw = {}
        if f.default is not MISSING:
            kw['default'] = f.default
        if f.alias is not None:
            kw['alias'] = f.alias
        if f.valias is not None and f.valias != f.alias:
            kw['validation_alias'] = f.valias
        if f.salias is not None and f.salias != f.alias:
            kw['serialization_alias'] = f.salias
        if f.exclude:
            kw['exclude'] = True
        if f.exclude_if is not None:
            kw['exclude_if'] = f.exclude_if
        a = annotation(w, f.type, cache)
        for extra in f.annotations:
            a = Annotated[a, extra(w)]
        if f.noxml:
            a = Annotated[a, w.px.NoXml]
        ann[f.name] = a
        if f.entity is not None or kw:
            ns[f.name] = entity_field(w, f.entity, **kw)
    ns['__annotations__'] = ann
    kwargs = own_settings({k: v for k, v in m.own.items() if v is not None})
    if m.root and m.base is None:
        # the entity of the root value is given by declaring it in the class body
        bases = [w.RootModel if 'root' in ns else w.RootModel[ann.pop('root')]]
        ns['__annotations__'] = ann
    elif bases is None:
        bases = [w.Model]
    if m.members is not None:
        ns.update(m.members(w))
    if m.check is not None:
        ns['check_'] = _model_check(w, m)
    cfg = dict(m.config)
    if m.own_extra is not None:
        cfg['extra'] = m.own_extra
    if _has_raw(m):
        cfg['arbitrary_types_allowed'] = True
    if cfg:
        ns['model_config'] = w.pd.ConfigDict(**cfg)
    import types
    cls = types.new_class(m.name, tuple(bases), kwargs, lambda d: d.update(ns))
    cache[m] = cls
    m.cls = cls
    return cls


def _model_check(w, m):
    names = [f.name for f in m.fields if f.computed is None]
    if m.check_mode == 'after':
        def check_(self, info):
            SEEN.append(info.context)
            if not lenient(info.context) and not m.check({n: getattr(self, n) for n in names}):
                raise ValueError('bad model')
            return self
        return w.pd.model_validator(mode='after')(check_)

    def check_(cls, data, info):
        SEEN.append(info.context)
        if isinstance(data, dict) and not lenient(info.context) and not m.check({n: data.get(n) for n in names}):
            raise ValueError('bad model')
        return data
    return w.pd.model_validator(mode='before')(classmethod(check_))


def _has_raw(m):
    def has(t):
        return t.kind == 'raw' or any(isinstance(a, T) and has(a) for a in t.args)
    return any(has(f.type) for f in m.own_fields)


def _computed(w, f, ann):
    px = w.px
    func = f.computed

    def prop(self):
        return func(self)
    prop.__name__ = f.name
    prop.__annotations__ = {'return': ann}
    e = f.entity
    kw = {}
    if f.alias is not None:
        kw['alias'] = f.alias
    p = property(prop)
    if e is None:
        return w.pd.computed_field(**kw)(p) if kw else w.pd.computed_field(p)
    if e.kind == 'attr':
        return px.computed_attr(name=e.name, ns=e.ns, **kw)(p)
    return px.computed_element(tag=e.name, ns=e.ns, nsmap=mine(e.nsmap), nillable=e.nillable, **kw)(p)
