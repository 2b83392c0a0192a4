"""C23: custom XML validators and serializers replace the default for their field."""

from lib import catalog
from lib.gen import Opts, document, gen_obj, kids, lname, text, universe
from lib.harness import Harness
from lib.ref import Reader, construct, eq_errors, read_real
from lib.spec import (MISSING, build, M, Field as F, attr, boolean, elem, lst, model, opt, prim, union, valid, wrapped)
from lib.std import reads, writes
from lib.tree import N, native

SECONDS = {'quick': 200, 'thorough': 850}

# Custom functions: what they do for real and in terms of the reference. The mark and the name of the class tell which of
# them did it.


def read_attr(mark):
    def f(cls, element, field_name):
        v = element.pop_attrib(field_name)
        return None if v is None else mark + cls.__name__ + v
    return f


def ref_read_attr(mark, cls):
    def f(reader, node, name):
        v = node.pop_attr(name)
        return None if v is None else mark + cls + v
    return f


def read_elem(mark):
    def f(cls, element, field_name):
        sub = element.pop_element(field_name, search_mode=cls.__xml_search_mode__)
        if sub is None:
            return None
        v = sub.pop_text()
        return mark + cls.__name__ + ('' if v is None else v)
    return f


def ref_read_elem(mark, cls, mode='strict'):
    def f(reader, node, name):
        sub = node.take(reader.ctx, name, mode)
        if sub is None:
            return None
        v, sub.text = sub.text, None
        return mark + cls + ('' if v is None else v)
    return f


def plain_elem(mark):
    """Gives the text itself."""
    def f(cls, element, field_name):
        sub = element.pop_element(field_name, search_mode=cls.__xml_search_mode__)
        return None if sub is None else sub.pop_text()
    return f


def ref_plain_elem(mark, cls, mode='strict'):
    def f(reader, node, name):
        sub = node.take(reader.ctx, name, mode)
        if sub is None:
            return None
        v, sub.text = sub.text, None
        return v
    return f


def read_all(mark):
    """The texts of all elements that follow, as one value."""
    def f(cls, element, field_name):
        out = mark + cls.__name__
        while True:
            sub = element.pop_element(field_name, search_mode=cls.__xml_search_mode__)
            if sub is None:
                return out
            out = out + (sub.pop_text() or '-')
    return f


def ref_read_all(mark, cls, mode='strict'):
    def f(reader, node, name):
        out = mark + cls
        while True:
            sub = node.take(reader.ctx, name, mode)
            if sub is None:
                return out
            v, sub.text = sub.text, None
            out = out + ('-' if v is None or v == '' else v)
    return f


def write_attr(mark):
    def f(self, element, value, field_name):
        element.set_attribute(field_name, mark + type(self).__name__ + ('' if value is None else value))
    return f


def ref_write_attr(mark, cls):
    def f(node, value, name):
        node.attrs.append((name, mark + cls + ('' if value is None else value)))
    return f


def write_elem(mark):
    def f(self, element, value, field_name):
        sub = element.make_element(field_name, nsmap=None)
        sub.set_text(mark + type(self).__name__ + ('' if value is None else value))
        element.append_element(sub)
    return f


def ref_write_elem(mark, cls):
    def f(node, value, name):
        node.kids.append(N(name, mark + cls + ('' if value is None else value)))
    return f


READ = {'attr': (read_attr, ref_read_attr), 'elem': (read_elem, ref_read_elem), 'plain': (plain_elem, ref_plain_elem),
        'all': (read_all, ref_read_all)}
WRITE = {'attr': (write_attr, ref_write_attr), 'elem': (write_elem, ref_write_elem)}


def members(**functions):
    """name=(kind, mark, fields...) -> the members of the class; names starting with r read, those with w write."""
    def make(w):
        out = {}
        for name, (kind, mark, *fields) in functions.items():
            if name[0] == 'r':
                out[name] = w.px.xml_field_validator(*fields)(classmethod(READ[kind][0](mark)))
            else:
                out[name] = w.px.xml_field_serializer(*fields)(WRITE[kind][0](mark))
        return out
    return make


def expect(name, reads=(), writes=(), mode='strict'):
    """What is expected of a class: fields -> (kind, mark)."""
    def rd(k, mk):
        return READ[k][1](mk, name) if k == 'attr' else READ[k][1](mk, name, mode)
    return dict(xread={f: rd(k, mk) for f, (k, mk) in dict(reads).items()},
                xwrite={f: WRITE[k][1](mk, name) for f, (k, mk) in dict(writes).items()})


def ann(reading=None, writing=None):
    out = []
    if reading:
        out.append(lambda w: w.px.XmlFieldValidator(READ[reading[0]][0](reading[1])))
    if writing:
        out.append(lambda w: w.px.XmlFieldSerializer(WRITE[writing[0]][0](writing[1])))
    return out


def fa(name, e=None, **kw):
    return F(name, opt(prim), attr() if e is None else e, None, **kw)


def fe(name, **kw):
    return F(name, opt(prim), elem(), None, **kw)


def models():
    """name -> (model to be read and written, what else is defined before or after it)"""
    out = {}

    def both(kind, mark, *fs):
        return members(r=(kind, mark, *fs), w=(kind, mark, *fs))
    for kind, mk in (('attr', fa), ('elem', fe)):
        rw = dict(reads={'b': (kind, '1')}, writes={'b': (kind, '1')})
        three = [mk('a'), mk('b'), mk('c')]
        out[f'{kind}-one'] = M('R', *three, tag='r', members=both(kind, '1', 'b'), **expect('R', **rw))
        out[f'{kind}-validator'] = M('R', *three, tag='r', members=members(r=(kind, '1', 'b')), **expect('R', reads=rw['reads']))
        out[f'{kind}-serializer'] = M('R', *three, tag='r', members=members(w=(kind, '1', 'b')), **expect('R', writes=rw['writes']))
        out[f'{kind}-several'] = M('R', *three, tag='r', members=both(kind, '1', 'a', 'c'),
                                   **expect('R', {f: (kind, '1') for f in 'ac'}, {f: (kind, '1') for f in 'ac'}))
        out[f'{kind}-two'] = M('R', *three, tag='r', members=members(
            r1=(kind, '1', 'a'), r2=(kind, '2', 'c'), w1=(kind, '3', 'c'), w2=(kind, '4', 'b')),
            **expect('R', {'a': (kind, '1'), 'c': (kind, '2')}, {'c': (kind, '3'), 'b': (kind, '4')}))
        out[f'{kind}-annotated'] = M('R', mk('a'), mk('b', annotations=ann((kind, '1'), (kind, '2'))), mk('c'), tag='r',
                                     **expect('R', {'b': (kind, '1')}, {'b': (kind, '2')}))
        out[f'{kind}-annotated-two'] = M('R', mk('a', annotations=ann((kind, '1'), None)), mk('b'),
                                         mk('c', annotations=ann((kind, '2'), (kind, '3'))), tag='r',
                                         **expect('R', {'a': (kind, '1'), 'c': (kind, '2')}, {'c': (kind, '3')}))
        # inheritance
        def base(tag='r', **kw):
            return M('Base', *three, tag=tag, members=members(r=(kind, '1', 'b'), w=(kind, '1', 'b')),
                     **expect('Base', **rw), **kw)
        out[f'{kind}-inherited'] = M('R', mk('d'), base=base(), **expect('R', **rw))
        out[f'{kind}-same-name'] = M('R', base=base(), members=both(kind, '2', 'b'),
                                     **expect('R', {'b': (kind, '2')}, {'b': (kind, '2')}))
        out[f'{kind}-other-name'] = M('R', base=base(), members=members(zz=(kind, '2', 'b'), rr=(kind, '2', 'b'), aa=(kind, '2', 'b')),
                                      **expect('R', {'b': (kind, '2')}, {'b': (kind, '2')}))
        out[f'{kind}-other-names'] = M('R', base=base(), members=members(r_a=(kind, '2', 'b'), w_a=(kind, '2', 'b')),
                                       **expect('R', {'b': (kind, '2')}, {'b': (kind, '2')}))
        out[f'{kind}-another-field'] = M('R', base=base(), members=members(r2=(kind, '2', 'a'), w2=(kind, '2', 'c')),
                                         **expect('R', {'b': (kind, '1'), 'a': (kind, '2')}, {'b': (kind, '1'), 'c': (kind, '2')}))
        mid = M('Mid', mk('d'), base=base(), members=members(rm=(kind, '2', 'b'), wm=(kind, '2', 'b')))
        out[f'{kind}-two-levels'] = M('R', mk('e'), base=mid, **expect('R', {'b': (kind, '2')}, {'b': (kind, '2')}))
        out[f'{kind}-three-levels'] = M('R', mk('e'), base=mid, members=members(ra=(kind, '3', 'b'), wa=(kind, '3', 'b')),
                                        **expect('R', {'b': (kind, '3')}, {'b': (kind, '3')}))
        out[f'{kind}-redeclared'] = M('R', mk('b'), base=base(), **expect('R', **rw))
        ab = M('Base', mk('a'), mk('b', annotations=ann((kind, '1'), (kind, '1'))), mk('c'), tag='r')
        out[f'{kind}-annotated-inherited'] = M('R', mk('d'), base=ab, **expect('R', **rw))
        out[f'{kind}-annotated-overridden'] = M('R', mk('b', annotations=ann((kind, '2'), (kind, '3'))), base=ab,
                                                **expect('R', {'b': (kind, '2')}, {'b': (kind, '3')}))
        out[f'{kind}-annotated-redeclared'] = M('R', mk('b'), base=ab)
        out[f'{kind}-annotated-decorated'] = M('R', base=ab, members=members(r=(kind, '2', 'b'), w=(kind, '3', 'b')),
                                               **expect('R', {'b': (kind, '2')}, {'b': (kind, '3')}))
        # the base and a sibling of a class that overrides
        pair = base()
        out[f'{kind}-base-of'] = (pair, M('Sub', base=pair, members=members(r2=(kind, '2', 'b', 'a'), w2=(kind, '2', 'b', 'a'))))
        pair = base()
        out[f'{kind}-sibling-of'] = (M('R', base=pair, **expect('R', **rw)),
                                     M('Sub', base=pair, members=members(r2=(kind, '2', 'b', 'a'), w2=(kind, '2', 'b', 'a'))))
        pair = M('Base', *three, tag='r')
        out[f'{kind}-plain-base'] = (pair, M('Sub', base=pair, members=members(r2=(kind, '2', 'b', 'a'), w2=(kind, '2', 'b', 'a'))))
        # a field that is none of XML
        out[f'{kind}-noxml'] = M('R', mk('a'), mk('b', noxml=True), mk('c'), tag='r')
        out[f'{kind}-noxml-inherited'] = M('R', mk('d'), base=M('Base', mk('a'), mk('b', noxml=True), mk('c'), tag='r'))
        out[f'{kind}-noxml-redeclared'] = M('R', mk('b'), base=M('Base', mk('a'), mk('b', noxml=True), mk('c'), tag='r'))
        out[f'{kind}-noxml-derived'] = M('R', mk('b', noxml=True), base=M('Base', *three, tag='r'))
    out['noxml-required'] = M('R', fa('a'), F('b', prim, attr(), noxml=True), tag='r')
    out['noxml-text'] = M('R', F('t', opt(prim), None, None, noxml=True), F('b', opt(prim), None, None), tag='r')
    out['noxml-list'] = M('R', F('b', opt(lst(prim)), elem(), None, noxml=True), fe('c'), tag='r')
    for mode in ('ordered', 'unordered'):
        out[f'{mode}-one'] = M('R', fe('a'), fe('b'), fe('c'), tag='r', search_mode=mode, members=both('elem', '1', 'b'),
                               **expect('R', {'b': ('elem', '1')}, {'b': ('elem', '1')}, mode))
    out['collect'] = M('R', fe('a'), fe('b'), fe('c'), tag='r', members=members(r=('all', '1', 'b')), **expect('R', {'b': ('all', '1')}))
    out['validated'] = M('R', fe('a'), F('b', valid, elem()), F('c', opt(boolean), elem(), None), tag='r',
                         members=members(r=('plain', '', 'b', 'c')), **expect('R', {'b': ('plain', ''), 'c': ('plain', '')}))
    out['aliased'] = M('R', fe('a'), F('b', valid, elem(), alias='bb'), F('c', opt(prim), elem(), None, valias='cc'), tag='r',
                       members=members(r=('plain', '', 'b', 'c')), **expect('R', {'b': ('plain', ''), 'c': ('plain', '')}))
    out['text'] = M('R', F('b', opt(prim), None, None), fa('a'), tag='r', members=both('attr', '1', 'b'),
                    **expect('R', {'b': ('attr', '1')}, {'b': ('attr', '1')}))
    out['wrapped'] = M('R', fe('a'), F('b', opt(prim), wrapped('w', elem()), None), fe('c'), tag='r', members=both('elem', '1', 'b'),
                       **expect('R', {'b': ('elem', '1')}, {'b': ('elem', '1')}))
    return out


def nested():
    """Models with custom functions as parts of others."""
    c = M('C', fa('a'), fa('b'), tag='c', members=members(r=('attr', '1', 'b'), w=('attr', '2', 'b')),
          **expect('C', {'b': ('attr', '1')}, {'b': ('attr', '2')}))
    d = M('D', fa('a'), F('b', valid, attr()), tag='c')
    ce = M('CE', fe('a'), F('b', valid, elem()), tag='c', members=members(r=('plain', '', 'b')), **expect('CE', {'b': ('plain', '')}))
    de = M('DE', fe('a'), fe('b'), tag='c', extra='forbid')
    return {
        'model': M('R', F('c', model(c)), fa('b'), tag='r'),
        'list': M('R', F('c', lst(model(c))), fa('b'), tag='r'),
        'wrapped': M('R', F('c', opt(model(c)), wrapped('w', elem('c')), None), fa('b'), tag='r'),
        'union': M('R', F('c', union(d, c)), fa('b'), tag='r'),
        'union-elements': M('R', F('c', lst(union(ce, de))), fe('b'), tag='r'),
        'root': M('R', F('root', lst(model(c))), root=True, tag='r'),
    }


def given(name, m, th):
    """Every serializer is called once, in the order of the fields, with the model, its field's value itself and the element."""
    calls = []
    fields = [f.name for f in m.fields]

    def record(self, element, value, field_name):
        calls.append((self, element, value, field_name))
        element.set_attribute('a-' + field_name, 'x')

    def setup(w):
        m.members = lambda w: {'record': w.px.xml_field_serializer(*fields)(record)}
        return build(w, m)

    def fn(w, ctx, cls):
        obj = construct(w, gen_obj(ctx, m, 'o', Opts(text=1, items=1, depth=1, unset=True, key=1)))
        wk = {k: ctx.flag(k) for k in ('skip_empty', 'exclude_none', 'exclude_unset')}
        calls.clear()
        root = obj.to_xml_tree(**wk)
        want = [f for f in fields if not wk['exclude_unset'] or f in obj.__pydantic_fields_set__]
        det = lambda: f'{obj!r} with {wk}: called {[(c[3], c[2]) for c in calls]!r}, written {sorted(root.attrib)!r}'  # noqa: E731
        ctx.check('called for the fields', [c[3] for c in calls] == want, det)
        ctx.check('with the model', all(c[0] is obj for c in calls), det)
        ctx.check('with the value', all(c[2] is getattr(obj, c[3]) for c in calls), det)
        ctx.check('all that is written', sorted(root.attrib) == sorted('a-' + f for f in want) and len(root) == 0 and root.text is None, det)
        if want:
            ctx.check('one element', len({id(c[1]) for c in calls}) == 1, det)
    return Harness('given-' + name, fn, setup, universe(m), bounds='all instances: strings of 0..1 characters, 0..1 items, all options', min_paths=2)


def asked(name, m, th):
    """Every validator is called once, in the order of the fields, with the class and the element; nothing else reads anything."""
    calls = []
    fields = [f.name for f in m.fields]

    def record(cls, element, field_name):
        calls.append((cls, element, field_name))

    def setup(w):
        m.members = lambda w: {'record': w.px.xml_field_validator(*fields)(classmethod(record))}
        m.own_extra = 'forbid'
        return build(w, m)

    def fn(w, ctx, cls):
        d = document(ctx, m, Opts(text=1, min_text=1, items=1, min_items=1, depth=1, key=0, none=False, uni=False, attr_min=1), kinds=('none', 'kid', 'attr', 'text') if th else ('none', 'kid'), tx=1)
        calls.clear()
        real = read_real(w, cls, native(w, d))
        det = lambda: f'{d!r}: called {[c[2] for c in calls]!r}, {real!r}'  # noqa: E731
        ctx.check('called for the fields', [c[2] for c in calls] == fields, det)
        ctx.check('with the class', all(c[0] is cls for c in calls), det)
        ctx.check('one element', len({id(c[1]) for c in calls}) == 1 and calls[0][1].tag == d.tag, det)
        left = Reader(ctx).read(bare, d)
        if left[0] == 'errors' or any(f.default is MISSING for f in m.fields):
            # what a field without a value makes of it is pydantic's
            ctx.check('unread is refused', real[0] == 'errors', det)
            if left[0] == 'errors':
                ctx.check('all unread', eq_errors(ctx, w, [e for e in real[1] if e.type == 'extra_forbidden'], left[1], inputs=False), det)
        else:
            ctx.check('read', real[0] == 'ok', det)
    bare = M(m.name, tag=m.tag, ns=m.ns, nsmap=m.nsmap, extra='forbid')
    return Harness('asked-' + name, fn, setup, universe(m), bounds='documents of all instances with one change', min_paths=2)


def attrs_doc(ctx, p='d', names='abcd'):
    return [(a, text(ctx, p + '=' + a, 1)) for a in names if ctx.flag(p + '@' + a)]


def doc(ctx, name, m, th):
    if name.startswith('attr') or name == 'noxml-required':
        return N('r', text(ctx, 't', 1), attrs_doc(ctx))
    if name == 'text' or name == 'noxml-text':
        return N('r', text(ctx, 't', 1), attrs_doc(ctx, names='ab'))
    if name in ('validated', 'aliased'):
        return N('r', kids=[N(k, text(ctx, k, 3)) for k in 'abc' if ctx.flag(k + '?')])
    n = 3 if not th else 4
    return N('r', kids=kids(ctx, 'k', 0, n, lambda p: N(lname(ctx, p, 1), text(ctx, p + 't', 1))))


def harnesses(tier):
    th = tier == 'thorough'
    out = []
    for name, m in models().items():
        also = ()
        if isinstance(m, tuple):
            m, also = m[0], m[1:]
        o = Opts(text=2 if not th else 4, unset=True, items=1)
        out.append(reads(name, m, lambda ctx, name=name, m=m: doc(ctx, name, m, th), also=also, weight=2, read_kw={'empty_as_string': 'any'} if 'annotated' not in name or th else {},
                         bounds='0..4 attributes or 0..3 elements of any names and any values'))
        out.append(writes('write-' + name, m, o, also=also, write_kw={'skip_empty': 'any', 'exclude_none': 'any', 'exclude_unset': 'any'} if th or 'one' in name else
                          {'exclude_unset': 'any'}, bounds=f'any values up to {o.text} characters, set or not; all options'))
    for name in ('attr-one', 'attr-annotated', 'attr-noxml', 'elem-one', 'elem-annotated', 'elem-noxml', 'collect', 'elem-noxml-derived'):
        m = models()[name]
        m.own_extra = 'forbid'
        out.append(reads('forbid-' + name, m, lambda ctx, name=name, m=m: doc(ctx, name, m, False), weight=2,
                         bounds='0..4 attributes or 0..3 elements of any names and any values; unread data is forbidden'))
    for mk in catalog.ALL:
        if mk not in (catalog.root_list, catalog.root_text):
            m = mk()
            out.append(given(m.name, m, th))
            out.append(asked(m.name, mk(), th))
    for name, m in nested().items():
        if name == 'union-elements':
            d = lambda ctx: N('r', kids=kids(ctx, 'k', 0, 2, lambda p: N('c', kids=kids(ctx, p, 0, 2, lambda q: N(  # noqa: E731
                ctx.choice(q, ['a', 'b']), text(ctx, q + 't', 3, 1))))) + [N('b', 'v')])
        else:
            def d(ctx, name=name):
                ks = kids(ctx, 'k', 0, 2, lambda p: N('c', None, [(a, text(ctx, p + '=' + a, 3)) for a in 'ab' if ctx.flag(p + '@' + a)]))
                if name == 'wrapped':
                    ks = [N('w', kids=ks)]
                return N('r', None, attrs_doc(ctx, names='b') if name != 'root' else [], ks)
        out.append(reads('nested-' + name, m, d, weight=2, bounds='0..2 sub-elements, any values'))
        out.append(writes('write-nested-' + name, m, Opts(text=2, min_text=1), bounds='any values up to 2 characters; 0..2 items'))
    return out
