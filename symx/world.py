"""
The library under check, loaded for one XML backend, either symbolically (instrumented source, engine attached) or
plain (for replays). Everything that is replaced for the symbolic run is in this file:

  - pydantic_core.to_jsonable_python: real; symbolic strings are put back into its result
  - lxml: real; elements read back symbolic strings instead of the buffers (custom element class)
  - etree.register_namespace: recorded, not executed (it changes a process-wide table)
  - ElementTree.tostring: real, on the tokens that stand for symbolic strings (it escapes in Python code); parsing
    gives the tokens back
  - leaf types of string and bool fields: a validator function around the str or bool schema, so that a symbolic string
    passes or is decided by forking
  - Model.model_validate: a symbolic string in a Literal field is decided by forking before pydantic sees it
"""

import os
import sys
import typing

REPO = os.environ.get('SYMX_REPO', '/repo')


def bool_text(value):
    """What pydantic makes of a string in a bool field: True, False or None (an error)."""
    if type(value) is not str:
        from . import engine
        from .symstr import _and, _or, c_eq, chars_of
        cs = chars_of(value)

        def is_(word):
            if len(word) > len(cs):
                return engine.FALSE
            return _and([_or([c_eq(c, ord(x)), c_eq(c, ord(x.upper()))]) for c, x in zip(cs, word)] +
                        [c_eq(c, 0) for c in cs[len(word):]])
        for words, b in BOOL_WORDS:
            if engine.cur().fork(_or([is_(x) for x in words])):
                return b
        return None
    for words, b in BOOL_WORDS:
        if value.isascii() and value.lower() in words:
            return b
    return None


BOOL_WORDS = ((('1', 'true', 't', 'yes', 'y', 'on'), True), (('0', 'false', 'f', 'no', 'n', 'off'), False))


class World:
    """What a harness sees: px (pydantic_xml), etree, S (string leaf type), Model bases, tree helpers."""


def load(backend, symbolic):
    os.environ['FORCE_STD_XML'] = 'true' if backend == 'std' else 'false'
    assert 'pydantic_xml' not in sys.modules, "one library per process"
    w = World()
    w.backend = backend
    w.symbolic = symbolic
    w.registered = []
    if symbolic:
        _prepare_symbolic(w)
    elif REPO not in sys.path:
        sys.path.insert(0, REPO)
    import pydantic as pd
    import pydantic_xml as px
    from pydantic_xml.element.native import ElementT, etree
    path = os.path.realpath(px.__file__)
    assert path.startswith(os.path.realpath(REPO) + os.sep), f"wrong pydantic_xml: {path}"
    assert (etree.__name__ == 'lxml.etree') == (backend == 'lxml'), etree.__name__
    w.pd, w.px, w.etree, w.ElementT = pd, px, etree, ElementT
    if symbolic:
        _attach(w)
    else:
        w.S = str
        w.B = bool
        w.resym = w.deep_resym = lambda s: s
        w.Model = px.BaseXmlModel
        w.RootModel = px.RootXmlModel
        real = etree.register_namespace

        def register_namespace(prefix, uri):
            w.registered.append((prefix, uri))
            real(prefix, uri)
        # the real function runs; only a record is kept
        etree.register_namespace = register_namespace
    return w


def _prepare_symbolic(w):
    import pydantic_core

    from . import rewrite
    from .symstr import deep_resym
    real = pydantic_core.to_jsonable_python

    def to_jsonable_python(*args, **kwargs):
        return deep_resym(real(*args, **kwargs))
    pydantic_core.to_jsonable_python = to_jsonable_python
    rewrite.install(REPO, 'pydantic_xml')


def _attach(w):
    from pydantic_core import core_schema as cs

    from .symstr import SymStr, deep_resym, resym
    w.resym, w.deep_resym = resym, deep_resym
    pd, px, etree = w.pd, w.px, w.etree

    class S(str):
        @classmethod
        def __get_pydantic_core_schema__(cls, source, handler):
            return cs.no_info_wrap_validator_function(cls._validate, cs.str_schema())

        @staticmethod
        def _validate(value, handler):
            if isinstance(value, SymStr):
                return value
            return resym(handler(value))

    w.S = S

    class B(int):
        @classmethod
        def __get_pydantic_core_schema__(cls, source, handler):
            return cs.no_info_wrap_validator_function(cls._validate, cs.bool_schema())

        @staticmethod
        def _validate(value, handler):
            if isinstance(value, SymStr):
                b = bool_text(value)
                value = value if b is None else b   # the buffer of a symbolic string is no bool either
            return handler(value)

    w.B = B

    class _Validate:
        @classmethod
        def model_validate(cls, obj, **kwargs):
            if isinstance(obj, dict):
                for name, info in cls.model_fields.items():
                    if typing.get_origin(info.annotation) is typing.Literal:
                        for key in {name, info.validation_alias, info.alias} - {None}:
                            v = obj.get(key)
                            if isinstance(v, SymStr):
                                for lit in typing.get_args(info.annotation):
                                    if v == lit:
                                        obj[key] = lit
                                        break
            return super().model_validate(obj, **kwargs)

    class Model(_Validate, px.BaseXmlModel, __xml_abstract__=True):
        pass

    w.Model = Model
    w.RootModel = px.RootXmlModel

    def register_namespace(prefix, uri):
        w.registered.append((prefix, uri))
    etree.register_namespace = register_namespace

    if w.backend == 'std':
        tostring = etree.tostring

        def plain(el):
            out = etree.Element(_raw(el.tag), {_raw(k): _raw(v) for k, v in el.items()})
            out.text, out.tail = _raw(el.text), _raw(el.tail)
            out.extend([plain(x) for x in el])
            return out
        fromstring = etree.fromstring

        def symbolic(root):
            for el in root.iter():
                if isinstance(el.tag, str):
                    el.tag = resym(el.tag)
                    items = [(resym(k), resym(v)) for k, v in el.items()]
                    el.attrib.clear()
                    for k, v in items:
                        el.set(k, v)
                el.text, el.tail = resym(el.text), resym(el.tail)
            return root
        etree.tostring = lambda element, *args, **kwargs: tostring(plain(element), *args, **kwargs)
        etree.fromstring = lambda *args, **kwargs: symbolic(fromstring(*args, **kwargs))

    if w.backend == 'lxml':
        base = etree._Element

        class Tail:
            @property
            def tail(self):
                return resym(base.tail.__get__(self))

            @tail.setter
            def tail(self, v):
                base.tail.__set__(self, v)

        class SymComment(Tail, etree.CommentBase):
            pass

        class SymPI(Tail, etree.PIBase):
            pass

        class SymElement(Tail, etree.ElementBase):
            @property
            def text(self):
                return resym(base.text.__get__(self))

            @text.setter
            def text(self, v):
                base.text.__set__(self, v)

            @property
            def tag(self):
                return resym(base.tag.__get__(self))

            @tag.setter
            def tag(self, v):
                base.tag.__set__(self, v)

            @property
            def attrib(self):
                return Attrib((resym(k), resym(v)) for k, v in base.attrib.__get__(self).items())

            @property
            def nsmap(self):
                return {resym(k): resym(v) for k, v in base.nsmap.__get__(self).items()}

            def get(self, key, default=None):
                return self.attrib.get(key, default)

            def items(self):
                return list(self.attrib.items())

            def keys(self):
                return list(self.attrib)

            def values(self):
                return list(self.attrib.values())

        lookup = w.lookup = etree.ElementDefaultClassLookup(element=SymElement, comment=SymComment, pi=SymPI)
        etree.set_element_class_lookup(lookup)


def _raw(s):
    return str.__str__(s) if isinstance(s, str) else s


class Attrib:
    """Read access to the attributes; nothing is hashed before the code under check does."""

    def __init__(self, items):
        self._items = list(items)

    def items(self):
        return list(self._items)

    def keys(self):
        return [k for k, _ in self._items]

    def values(self):
        return [v for _, v in self._items]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self._items)

    def __bool__(self):
        return bool(self._items)

    def __getitem__(self, key):
        return dict(self._items)[key]

    def get(self, key, default=None):
        return dict(self._items).get(key, default)

    def __contains__(self, key):
        return key in dict(self._items)
