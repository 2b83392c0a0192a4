"""
Reference semantics, written from the documentation: how a document is read into a model description (spec.py) and how
an instance is written. It is ordinary Python over strings; comparisons of symbolic strings fork like those of the code
under check.
"""

import collections
import itertools

from symx.world import bool_text

from .spec import MISSING, SelfRef, lenient
from .tree import N, strip_comments

XSI_NIL = '{http://www.w3.org/2001/XMLSchema-instance}nil'
ANY = type('ANY', (), {'__repr__': lambda s: 'ANY'})()


class RefErrors(Exception):
    def __init__(self, errors):
        self.errors = errors


Err = collections.namedtuple('Err', 'loc type line input')


class Obj:
    """A model value: field values by name, and which of them were given."""

    def __init__(self, m, values, given=None):
        self.m = m
        self.values = values
        self.given = set(values) if given is None else given

    def __repr__(self):
        return f'{self.m.name}({self.values!r})'


class Item(dict):
    """A mapping value."""


# -- names --------------------------------------------------------------------------------------------------


class DefinitionError(Exception):
    pass


def qname(tag, ns_alias, nsmap, is_attr=False):
    uri = None
    if ns_alias is not None:
        if nsmap:
            if ns_alias not in nsmap:
                raise DefinitionError(ns_alias)
            uri = nsmap[ns_alias]
    elif not is_attr:
        uri = nsmap.get('') if nsmap else None
    return '{' + uri + '}' + tag if uri else tag


class Scope:
    """Where an entity is declared: the nearest declarations come first."""

    def __init__(self, levels, m):
        self.levels = levels   # [(ns, nsmap)], nearest first
        self.m = m

    def child(self, ns, nsmap):
        return Scope([(ns, nsmap)] + self.levels, self.m)

    @property
    def ns(self):
        for ns, _ in self.levels:
            if ns is not None:
                return ns
        return None

    @property
    def nsmap(self):
        out = {}
        for _, nsmap in reversed(self.levels):
            out.update(nsmap or {})
        return out


def scope_of(m):
    return Scope([(m.ns, m.nsmap)], m)


def root_name(m):
    return qname(m.tag or m.name, m.ns, m.nsmap)


def local_name(f, e, m2=None, m=None):
    given = e.name if e is not None else None
    fname = None if (m is not None and m.root) else f.name
    if m2 is not None:
        return given or m2.tag or f.salias or fname or m2.name
    return given or f.salias or fname


def elem_name(scope, f, e):
    """Name of a primitive, mapping or raw element; scope already includes the entity."""
    return qname(local_name(f, e, m=scope.m), scope.ns, scope.nsmap)


def model_scope(scope, f, e, m2):
    """Scope of a sub-model element: the field's declarations, then the sub-model's, then the enclosing ones."""
    own, outer = scope.levels[0], scope.levels[1:]
    return Scope([own, (m2.ns, m2.nsmap)] + outer, scope.m)


def model_name(scope, f, e, m2):
    s = model_scope(scope, f, e, m2)
    return qname(local_name(f, e, m2, m=scope.m), s.ns, s.nsmap)


def attr_name(scope, f, e):
    own = scope.levels[0][0]
    if own is None and scope.m.ns_attrs:
        own = Scope(scope.levels[1:], scope.m).ns
    return qname(e.name or f.salias or f.name, own, scope.nsmap, is_attr=True)


def enter(scope, e):
    return scope.child(e.ns if e else None, e.nsmap if e else None)


# -- reading ------------------------------------------------------------------------------------------------


class R:
    """A document element while it is read."""

    def __init__(self, n):
        self.tag = n.tag
        self.text = n.text
        self.tail = n.tail
        self.attrs = list(n.attrs)
        self.kids = [R(k) for k in n.kids if k.kind == 'el']
        self.bound = [False] * len(self.kids)
        self.cur = 0
        self.last = None
        self.line = -1 if n.line is None else n.line
        self.src = n

    def copy(self):
        c = object.__new__(R)
        c.__dict__.update(self.__dict__)
        c.attrs = list(self.attrs)
        c.kids = [k.copy() for k in self.kids]
        c.bound = list(self.bound)
        c.last = None if self.last is None else c.kids[self.kids.index(self.last)]
        return c

    def assign(self, other):
        self.__dict__.update(other.__dict__)

    def take(self, ctx, tag, mode, peek=False):
        if mode == 'strict':
            if self.cur < len(self.kids) and self.kids[self.cur].tag == tag:
                return self._bind(self.cur, peek)
        elif mode == 'ordered':
            for i in range(self.cur, len(self.kids)):
                if self.kids[i].tag == tag:
                    return self._bind(i, peek)
        else:
            found = [i for i in range(len(self.kids)) if not self.bound[i] and self.kids[i].tag == tag]
            # which of several is bound first is not specified
            ctx.assume(len(found) <= 1)
            if found:
                return self._bind(found[0], peek)
        return None

    def _bind(self, i, peek):
        if not peek:
            self.bound[i] = True
            self.cur = i + 1
            self.last = self.kids[i]
        return self.kids[i]

    def pop_attr(self, name):
        for i, (k, v) in enumerate(self.attrs):
            if k == name:
                del self.attrs[i]
                return v
        return None

    def nil(self):
        v = self.pop_attr(XSI_NIL)
        return v is not None and v == 'true'

    def unread(self, path=()):
        out = []
        if self.text is not None and self.text.strip():
            out.append((path, None, self.text.strip(), self.line))
        if self.tail is not None and self.tail.strip():
            out.append((path, None, self.tail.strip(), self.line))
        for k, v in self.attrs:
            out.append((path, k, v, self.line))
        for k in self.kids:
            out += k.unread(path + (k.tag,))
        return out


class Reader:
    def __init__(self, ctx, empty_as_string=False, models=(), empty_items='assume', context=None):
        self.ctx = ctx
        self.bad = context['bad'] if context else 'bad'     # what the validators of 'valid' strings refuse
        self.lenient = lenient(context)
        self.empty_as_string = empty_as_string
        # an item of a collection that is there but has no value: 'assume' (there is none), 'keep' (it is an item) or
        # 'stop' (it ends the collection: known finding K1)
        self.empty_items = empty_items
        self.models = {m.name: m for m in models}

    def resolve(self, m):
        return self.models[m.name] if isinstance(m, SelfRef) else m

    def read(self, m, doc):
        """('ok', Obj) / ('errors', [Err]) / ('parsing',)"""
        if not doc.tag == root_name(m):
            return ('parsing',)
        try:
            return ('ok', self.model(m, R(strip_comments(doc))))
        except RefErrors as e:
            return ('errors', e.errors)

    def model(self, m, node):
        self.models.setdefault(m.name, m)
        if m.root:
            return self.root_model(m, node)
        errors, values, lines = [], {}, {(): node.line}
        for f in m.fields:
            if f.computed is not None:
                continue
            key = f.valias or f.name
            lines[(key,)] = node.line
            try:
                if f.noxml:
                    v = None
                elif f.name in m.xread:
                    v = m.xread[f.name](self, node, f.name)
                else:
                    v = self.field(m, f, node, lines, (key,))
            except RefErrors as e:
                errors += [Err((key,) + x.loc, *x[1:]) for x in e.errors]
            else:
                if v is not None:
                    values[f.name] = v
        if errors:
            raise RefErrors(errors)
        self.extra(m, node)
        if m.check is not None and not self.lenient and m.check_mode == 'before' and not m.check({
                f.name: values.get(f.name) for f in m.fields if f.computed is None}):
            raise RefErrors([Err((), 'value_error', node.line, ANY)])
        out = {}
        for f in m.fields:
            if f.computed is not None:
                continue
            key = f.valias or f.name
            if f.name not in values:
                if f.default is MISSING:
                    errors.append(Err((key,), 'missing', None, ANY))
                else:
                    out[f.name] = f.default
            else:
                out[f.name] = self.validate(f.type, values[f.name], (key,), errors)
        if errors:
            raise RefErrors([self.with_line(e, lines) for e in errors])
        if m.check is not None and not self.lenient and m.check_mode == 'after' and not m.check(out):
            raise RefErrors([Err((), 'value_error', node.line, ANY)])
        return Obj(m, out, set(values))

    def root_model(self, m, node):
        f = m.fields[0]
        lines = {(): node.line}
        v = self.field(m, f, node, lines, ())
        self.extra(m, node)
        errors = []
        if v is None:
            if f.default is not MISSING:
                return Obj(m, {'root': f.default}, set())
            if f.type.kind == 'union':
                self.validate(f.type, None, (), errors)
            errors = [e._replace(type=ANY, input=ANY) for e in errors] or [Err((), ANY, None, ANY)]
        else:
            v = self.validate(f.type, v, (), errors)
        if errors:
            raise RefErrors([self.with_line(e, lines) for e in errors])
        if m.check is not None and not self.lenient and not m.check({'root': v}):
            raise RefErrors([Err((), 'value_error', node.line, ANY)])
        return Obj(m, {'root': v})

    @staticmethod
    def with_line(e, lines):
        loc = e.loc
        while True:
            line = lines.get(loc)
            if line is not None or not loc:
                break
            loc = loc[:-1]
        return Err(e.loc, e.type, -1 if line is None else line, e.input)

    def extra(self, m, node):
        if m.extra == 'forbid':
            left = node.unread()
            if left:
                raise RefErrors([
                    Err(path + (('@' + name,) if name is not None else ()), 'extra_forbidden', line, value)
                    for path, name, value, line in left
                ])

    def field(self, m, f, node, lines, loc):
        return self.entity(scope_of(m), f, f.entity, f.type, node, lines, loc)

    def entity(self, scope, f, e, t, node, lines, loc):
        mode = scope.m.search_mode
        if e is not None and e.kind == 'wrapped':
            inner = enter(scope, e)
            for part in e.name.split('/'):
                name = qname(part, inner.ns, inner.nsmap)
                if node.last is not None and node.last.tag == name:
                    node = node.last
                else:
                    node = node.take(self.ctx, name, mode)
                    if node is None:
                        return None
            lines[loc] = node.line
            return self.entity(inner, f, e.inner, t, node, lines, loc)
        return self.value(enter(scope, e), f, e, t, node, lines, loc)

    def value(self, scope, f, e, t, node, lines, loc):
        mode = scope.m.search_mode
        k = t.kind
        if k == 'opt':
            return self.value(scope, f, e, t.args[0], node, lines, loc)
        if k in ('prim', 'valid', 'bool', 'int', 'const', 'lit'):
            if e is None:
                return self.text(node, None)
            if e.kind == 'attr':
                return node.pop_attr(attr_name(scope, f, e))
            sub = node.take(self.ctx, elem_name(scope, f, e), mode)
            if sub is None:
                return None
            lines[loc] = sub.line
            return self.text(sub, e)
        if k == 'model':
            m2 = self.resolve(t.args[0])
            sub = node.take(self.ctx, model_name(scope, f, e, m2), mode)
            if sub is None:
                return None
            lines[loc] = sub.line
            if sub.nil():
                return None
            return self.model(m2, sub)
        if k in ('list', 'vtup', 'set', 'fset'):
            out, errors = [], []
            idx = 0
            while True:
                before = len(node.bound) - sum(node.bound)
                try:
                    v = self.value(scope, f, e, t.args[0], node, lines, loc + (idx,))
                    if v is None:
                        if len(node.bound) - sum(node.bound) == before:
                            break
                        self.ctx.assume(self.empty_items != 'assume')
                        if self.empty_items == 'stop':
                            break
                    out.append(v)
                except RefErrors as x:
                    errors += [Err((idx,) + y.loc, *y[1:]) for y in x.errors]
                idx += 1
            if errors:
                raise RefErrors(errors)
            return out or None
        if k in ('tuple', 'ntuple'):
            out, errors = [], []
            for idx, a in enumerate(t.args):
                try:
                    out.append(self.value(scope, f, e, a, node, lines, loc + (idx,)))
                except RefErrors as x:
                    errors += [Err((idx,) + y.loc, *y[1:]) for y in x.errors]
            if errors:
                raise RefErrors(errors)
            return None if all(v is None for v in out) else out
        if k in ('dict', 'tdict'):
            if e is not None:
                node = node.take(self.ctx, elem_name(scope, f, e), mode)
                if node is None:
                    return None
                lines[loc] = node.line
            if node.attrs is None:
                return None
            taken, node.attrs = node.attrs, []
            if e is None and getattr(node, 'dict_done', False):
                return None
            node.dict_done = True
            return Item((local(n) if scope.m.ns_attrs else n, v) for n, v in taken)
        if k == 'raw':
            sub = node.take(self.ctx, elem_name(scope, f, e), mode)
            if sub is None:
                return None
            lines[loc] = sub.line
            src = sub.src
            sub.text = sub.tail = None
            sub.attrs, sub.kids, sub.bound = [], [], []
            return src
        if k == 'union':
            failed, errors = None, []
            for m2 in t.args:
                snap = node.copy()
                try:
                    sub = snap.take(self.ctx, model_name(scope, f, e, m2), mode)
                    if sub is None:
                        continue
                    sub_line = sub.line
                    if sub.nil():
                        continue
                    v = self.model(m2, sub)
                    node.assign(snap)
                    lines[loc] = sub_line
                    return v
                except RefErrors as x:
                    errors += [Err((m2.name,) + y.loc, *y[1:]) for y in x.errors]
                    failed = failed or snap
            if errors:
                node.assign(failed)
                raise RefErrors(errors)
            return None
        if k == 'tagged':
            for value, m2 in t.kw['members'].items():
                name = model_name(scope, f, e, m2)
                sub = node.take(self.ctx, name, mode, peek=True)
                if sub is None:
                    continue
                df = next(x for x in m2.fields if x.name == t.kw['disc'])
                got = dict_get(sub.attrs, attr_name(enter(scope_of(m2), df.entity), df, df.entity))
                if got is not None and got == value:
                    sub = node.take(self.ctx, name, mode)
                    lines[loc] = sub.line
                    if sub.nil():
                        return None
                    return self.model(m2, sub)
            return None
        raise AssertionError(k)

    def text(self, node, e):
        if e is not None and e.nillable and node.nil():
            return None
        text, node.text = node.text, None
        if text is None or text == '':
            return '' if self.empty_as_string else None
        return text

    # what pydantic does with the assembled values
    def validate(self, t, v, loc, errors):
        k = t.kind
        if k == 'opt':
            return None if v is None else self.validate(t.args[0], v, loc, errors)
        if k in ('prim', 'valid'):
            if v is None:
                errors.append(Err(loc, 'string_type', None, None))
            elif k == 'valid' and v == self.bad:
                errors.append(Err(loc, 'value_error', None, v))
            return v
        if k == 'bool':
            b = None if v is None else bool_text(v)
            if b is None:
                errors.append(Err(loc, 'bool_type' if v is None else 'bool_parsing', None, v))
            return b
        if k == 'const':
            for c, x in t.kw['pairs']:
                if x == v:
                    return c
            errors.append(Err(loc, ANY, None, v))
            return v
        if k == 'int':
            try:
                return int(v)
            except (TypeError, ValueError):
                errors.append(Err(loc, 'int_type' if v is None else 'int_parsing', None, v))
                return v
        if k == 'lit':
            if not any(v == a for a in t.args):
                errors.append(Err(loc, 'literal_error', None, v))
            return v
        if k in ('list', 'vtup', 'set', 'fset'):
            return [self.validate(t.args[0], x, loc + (i,), errors) for i, x in enumerate(v)]
        if k == 'tuple':
            return [self.validate(a, x, loc + (i,), errors) for i, (a, x) in enumerate(zip(t.args, v))]
        if k == 'ntuple':
            return [self.validate(a, x, loc + (i,), errors) for i, (n, a, x) in enumerate(zip(t.kw['names'], t.args, v))]
        if k in ('dict', 'tdict') and v is None:
            errors.append(Err(loc, 'dict_type', None, None))
            return None
        if k == 'dict' and t.args:
            return Item((n, self.validate(t.args[0], x, loc + (n,), errors)) for n, x in v.items())
        if k == 'tdict':
            out = Item()
            for n in t.kw['keys']:
                if n in v:
                    out[n] = v[n]
                elif t.kw['total']:
                    errors.append(Err(loc + (n,), 'missing', None, ANY))
            return out
        if k in ('model', 'tagged'):
            if v is None:
                errors.append(Err(loc, ANY, None, None))
            return v
        if k == 'union':
            if v is None:
                errors += [Err(loc + (m2.name,), ANY, None, None) for m2 in t.args]
            return v
        if v is None:
            errors.append(Err(loc, ANY, None, None))
        return v


def dict_get(attrs, name):
    for k, v in attrs:
        if k == name:
            return v
    return None


def local(name):
    return name.split('}')[-1] if name[:1] == '{' else name


# -- writing ------------------------------------------------------------------------------------------------


def encode(v, t=None):
    while t is not None and t.kind == 'opt':
        t = t.args[0]
    if t is not None and t.kind == 'const' and v is not None:
        return next(x for c, x in t.kw['pairs'] if c is v)
    if v is None:
        return ''
    if v is True:
        return 'true'
    if v is False:
        return 'false'
    return str(v)


class Writer:
    def __init__(self, skip_empty=False, exclude_none=False, exclude_unset=False, models=()):
        self.skip_empty = skip_empty
        self.exclude_none = exclude_none
        self.exclude_unset = exclude_unset
        self.models = {m.name: m for m in models}

    def resolve(self, m):
        return self.models[m.name] if isinstance(m, SelfRef) else m

    def write(self, obj):
        m = obj.m
        node = N(root_name(m), nsmap=dict(m.nsmap or {}))
        self.fields(obj, node, self.skip_empty)
        return node

    def fields(self, obj, node, skip):
        m = obj.m
        self.models.setdefault(m.name, m)
        if m.skip_empty is not None:
            skip = m.skip_empty
        for f in m.fields:
            if f.exclude or f.noxml:
                continue
            if f.computed is None and self.exclude_unset and f.name not in obj.given:
                continue
            if f.computed is not None and self.exclude_unset:
                continue
            v = obj.values[f.name]
            if f.exclude_if is not None and f.exclude_if(v):
                continue
            if f.name in m.xwrite:
                m.xwrite[f.name](node, v, f.name)
                continue
            self.entity(scope_of(m), f, f.entity, f.type, v, node, skip)

    def entity(self, scope, f, e, t, v, node, skip):
        if e is not None and e.kind == 'wrapped':
            if v is None:
                return
            inner, top = enter(scope, e), node
            for part in e.name.split('/'):
                name = qname(part, inner.ns, inner.nsmap)
                if node.kids and node.kids[-1].tag == name:
                    node = node.kids[-1]
                else:
                    sub = N(name, nsmap={**inner.nsmap})
                    node.kids.append(sub)
                    node = sub
            self.entity(inner, f, e.inner, t, v, node, skip)
            if skip:
                prune(top, node)
            return
        self.value(enter(scope, e), f, e, t, v, node, skip)

    def emit(self, node, sub, skip):
        if skip and is_empty(sub):
            return
        node.kids.append(sub)

    def value(self, scope, f, e, t, v, node, skip):
        k = t.kind
        if k == 'opt':
            return self.value(scope, f, e, t.args[0], v, node, skip)
        if k in ('prim', 'valid', 'bool', 'int', 'const', 'lit'):
            if v is None and (skip or self.exclude_none):
                return
            if e is None:
                node.text = encode(v, t)
            elif e.kind == 'attr':
                set_attr(node, attr_name(scope, f, e), encode(v, t))
            else:
                sub = N(elem_name(scope, f, e), encode(v, t), nsmap=scope.nsmap)
                if v is None and e.nillable:
                    sub.attrs.append((XSI_NIL, 'true'))
                self.emit(node, sub, skip)
            return
        if k in ('model', 'union', 'tagged'):
            if v is None:
                if k == 'model' and e is not None and e.nillable and not self.exclude_none:
                    m2 = self.resolve(t.args[0])
                    node.kids.append(N(model_name(scope, f, e, m2), attrs=[(XSI_NIL, 'true')],
                                       nsmap=model_scope(scope, f, e, m2).nsmap))
                return
            m2 = v.m
            sub = N(model_name(scope, f, e, m2), nsmap=model_scope(scope, f, e, m2).nsmap)
            self.fields(v, sub, skip)
            return self.emit(node, sub, skip)
        if k in ('list', 'vtup', 'set', 'fset'):
            for x in v or ():
                if skip and x is None:
                    continue
                self.value(scope, f, e, t.args[0], x, node, skip)
            return
        if k in ('tuple', 'ntuple'):
            for a, x in zip(t.args, v or ()):
                self.value(scope, f, e, a, x, node, skip)
            return
        if k in ('dict', 'tdict'):
            if e is None:
                if v is not None:
                    self.pairs(scope, v, node, t)
                return
            if v is None and (skip or self.exclude_none):
                return
            sub = N(elem_name(scope, f, e), nsmap=scope.nsmap)
            if v is not None:
                self.pairs(scope, v, sub, t)
            return self.emit(node, sub, skip)
        if k == 'raw':
            if v is not None and not (skip and is_empty(v) and not v.tail):
                node.kids.append(v)
            return
        raise AssertionError(k)

    def pairs(self, scope, v, node, t):
        ns = scope.ns if scope.m.ns_attrs else None
        uri = scope.nsmap.get(ns) if ns else None
        for name, x in v.items():
            set_attr(node, '{' + uri + '}' + name if uri else name, encode(x, t.args[0] if t.kind == 'dict' and t.args else None))


def set_attr(node, name, value):
    for i, (k, _) in enumerate(node.attrs):
        if k == name:
            node.attrs[i] = (k, value)
            return
    node.attrs.append((name, value))


def prune(top, node):
    """Removes `node`, and what encloses it up to `top`, if it is empty; all of them are last children."""
    path = [top]
    while path[-1] is not node:
        path.append(path[-1].kids[-1])
    while len(path) > 1 and is_empty(path[-1]):
        path.pop()
        path[-1].kids.pop()


def is_empty(n):
    return not n.text and not n.attrs and not n.kids


# -- comparing ----------------------------------------------------------------------------------------------


def eq_value(ctx, w, t, actual, expected):
    """Is the real value the expected one? A formula."""
    from .tree import eq_tree, neutral
    k = t.kind
    if k == 'opt':
        return eq_value(ctx, w, t.args[0], actual, expected)
    if expected is None or actual is None:
        return actual is None and expected is None
    if k in ('prim', 'valid', 'lit'):
        if not isinstance(expected, str):
            return type(actual) is type(expected) and actual == expected
        return ctx.eq(w.resym(actual), expected) if isinstance(actual, str) else False
    if k == 'bool':
        return actual is expected
    if k == 'const':
        return type(actual) is type(expected) and actual == expected
    if k == 'int':
        return type(actual) is int and actual == expected
    if k in ('model', 'union', 'tagged'):
        return eq_obj(ctx, w, actual, expected)
    if k in ('list', 'vtup'):
        want = list if k == 'list' else tuple
        if type(actual) is not want or len(actual) != len(expected):
            return False
        return ctx.all([eq_value(ctx, w, t.args[0], a, x) for a, x in zip(actual, expected)])
    if k in ('set', 'fset'):
        return ctx.all([
            type(actual) is (set if k == 'set' else frozenset),
            ctx.all([ctx.any([eq_value(ctx, w, t.args[0], a, x) for x in expected]) for a in actual]),
            ctx.all([ctx.any([eq_value(ctx, w, t.args[0], a, x) for a in actual]) for x in expected]),
        ])
    if k in ('tuple', 'ntuple'):
        if not isinstance(actual, tuple) or len(actual) != len(expected):
            return False
        return ctx.all([eq_value(ctx, w, a, x, y) for a, x, y in zip(t.args, actual, expected)])
    if k in ('dict', 'tdict'):
        if type(actual) is not dict or len(actual) != len(expected):
            return False
        vt = t.args[0] if t.args else None
        conds = []
        for kk, vv in expected.items():
            conds.append(ctx.any([
                ctx.all([ctx.eq(w.resym(a), kk),
                         eq_value(ctx, w, vt, b, vv) if vt is not None else ctx.eq(w.resym(b), vv)])
                for a, b in actual.items()
            ]))
        return ctx.all(conds)
    if k == 'raw':
        return eq_tree(ctx, neutral(w, actual), expected)
    raise AssertionError(k)


def eq_obj(ctx, w, actual, expected):
    m = expected.m
    if type(actual) is not m.cls:
        return False
    return ctx.all([
        eq_value(ctx, w, f.type, getattr(actual, f.name), expected.values[f.name])
        for f in m.fields if f.computed is None
    ])


def read_real(w, cls, root, **kw):
    """The real outcome, in the reference's terms."""
    return outcome_of(w, lambda: cls.from_xml_tree(root, **kw))


def outcome_of(w, read):
    try:
        return ('ok', read())
    except w.pd.ValidationError as e:
        out = []
        for x in e.errors():
            c = x.get('ctx') or {}
            out.append(Err(tuple(w.resym(p) if isinstance(p, str) else p for p in x['loc']), x['type'],
                           c.get('sourceline'), w.resym(x['input']) if isinstance(x['input'], str) else x['input']))
        return ('errors', out)
    except w.px.errors.ParsingError:
        return ('parsing',)
    except Exception as e:  # anything else is an outcome too, and never an expected one
        return ('crash', f'{type(e).__name__}: {e}')


def eq_loc(ctx, a, b):
    if len(a) != len(b):
        return False
    return ctx.all([
        ctx.eq(x, y) if isinstance(x, str) and isinstance(y, str) else (type(x) is type(y) and x == y)
        for x, y in zip(a, b)
    ])


def eq_errors(ctx, w, actual, expected, lines=None, inputs=True):
    """The same errors; their order is open."""
    if len(actual) != len(expected):
        return False

    def eq(a, x):
        conds = [eq_loc(ctx, a.loc, x.loc)]
        if x.type is not ANY:
            conds.append(a.type == x.type)
        if lines is not None:
            conds.append(a.line == (x.line if lines else -1))
        if inputs and isinstance(x.input, str):
            conds.append(ctx.eq(a.input, x.input) if isinstance(a.input, str) else False)
        return ctx.all(conds)
    table = [[eq(a, x) for x in expected] for a in actual]
    n = len(actual)
    straight = ctx.all([table[i][i] for i in range(n)])
    if n < 2 or straight is True:
        return straight
    if n <= 4:
        return ctx.any([ctx.all([table[i][j] for i, j in enumerate(perm)]) for perm in itertools.permutations(range(n))])
    return ctx.any([straight, ctx.all(
        [ctx.any(row) for row in table] + [ctx.any([row[j] for row in table]) for j in range(n)])])


def eq_outcome(ctx, w, real, expected):
    if real[0] != expected[0]:
        return False
    if real[0] == 'ok':
        return eq_obj(ctx, w, real[1], expected[1])
    return eq_errors(ctx, w, real[1], expected[1]) if real[0] == 'errors' else True


def check_read(ctx, w, real, expected, label='read', lines=None, inputs=True, known=None, locs=True):
    """Obligation: the real outcome is the expected one."""
    det = lambda: f'expected {expected!r}, got {real!r}'[:1500]  # noqa: E731
    if real[0] != expected[0]:
        ctx.check(f'{label}: outcome', False, det, known)
    elif real[0] == 'ok':
        ctx.check(f'{label}: value', eq_obj(ctx, w, real[1], expected[1]), det, known)
    elif real[0] == 'errors':
        ctx.check(f'{label}: errors', eq_errors(ctx, w, real[1], expected[1], lines, inputs), det, known)
    else:
        ctx.check(f'{label}: outcome', True, det, known)


def construct(w, v):
    """The real instance of an Obj (through the validating constructor)."""
    if isinstance(v, Obj):
        if v.m.root:
            return v.m.cls(construct_t(w, v.m.fields[0].type, v.values['root'])) if 'root' in v.given else v.m.cls()
        kw = {}
        for f in v.m.fields:
            if f.computed is None and f.name in v.given:
                kw[f.valias or f.name] = construct_t(w, f.type, v.values[f.name])
        return v.m.cls(**kw)
    return v


def construct_t(w, t, v):
    from .tree import native
    k = t.kind
    if v is None:
        return None
    if k == 'opt':
        return construct_t(w, t.args[0], v)
    if k in ('list', 'vtup', 'set', 'fset'):
        items = [construct_t(w, t.args[0], x) for x in v]
        return {'list': list, 'vtup': tuple, 'set': set, 'fset': frozenset}[k](items)
    if k == 'tuple':
        return tuple(construct_t(w, a, x) for a, x in zip(t.args, v))
    if k == 'ntuple':
        return tuple(construct_t(w, a, x) for a, x in zip(t.args, v))
    if k in ('dict', 'tdict'):
        return dict(v)
    if k == 'raw':
        return native(w, v)
    if k in ('model', 'union', 'tagged'):
        return construct(w, v)
    return v


def write_real(w, inst, **kw):
    from .tree import neutral
    try:
        return ('ok', neutral(w, inst.to_xml_tree(**kw)))
    except Exception as e:
        return ('crash', f'{type(e).__name__}: {e}')


def check_write(ctx, w, real, expected, label='write', known=None, nsmap=False):
    from .tree import eq_tree, show
    det = lambda: f'expected:\n{show(expected)}\ngot:\n{show(real[1]) if real[0] == "ok" else real[1]}'[:1500]  # noqa
    if real[0] != 'ok':
        ctx.check(f'{label}: outcome', False, det, known)
    else:
        ctx.check(f'{label}: tree', eq_tree(ctx, real[1], expected, nsmap=nsmap), det, known)
