"""Model descriptions shared by several properties: one function per part of the library."""

from .spec import (M, Field, SelfRef, attr, boolean, dct, dctv, elem, fst, lit, lst, model, ntup, opt, prim, raw, st,
                   tagged, tdict, tup, union, uprim, valid, vtup, wrapped)


def F(*a, **k):
    return Field(*a, **k)


def leaf(name='Leaf', tag=None, **kw):
    return M(name, F('x', prim, attr()), F('t', opt(prim), None, None), tag=tag, **kw)


def basic(**kw):
    return M('Basic', F('i', prim, attr()), F('j', opt(prim), attr('jj'), None), F('a', prim, elem()),
             F('b', opt(prim), elem('bb'), None), F('c', boolean, elem()), tag='basic', **kw)


def textual(**kw):
    return M('Textual', F('t', prim), F('i', opt(prim), attr(), None), tag='txt', **kw)


def nested(**kw):
    inner = M('Inner', F('x', prim, attr()), F('y', opt(prim), elem(), None), **kw)
    mid = M('Mid', F('inner', model(inner)), F('z', prim, elem()), tag='mid', **kw)
    return M('Outer', F('p', model(mid), elem('p')), F('q', opt(model(mid)), None, None), F('a', opt(prim), elem(), None),
             tag='outer', **kw)


def lists(**kw):
    return M('Lists', F('a', lst(prim), elem('a')), F('b', opt(vtup(prim)), elem('b'), None),
             F('m', lst(model(leaf())), elem('m')), tag='lists', **kw)


def sets(**kw):
    return M('Sets', F('s', st(prim), elem('s')), F('f', opt(fst(prim)), elem('f'), None), tag='sets', **kw)


def tuples(**kw):
    return M('Tuples', F('a', tup(prim, model(leaf()), boolean), elem('a')),
             F('b', opt(ntup('NT', u=prim, v=prim)), elem('b'), None), tag='tuples', **kw)


def tuple_list(**kw):
    return M('TupleList', F('a', lst(tup(prim, boolean)), elem('a')), tag='tl', **kw)


def mappings(td=True, **kw):
    return M('Mappings', F('i', prim, attr()), F('d', dct()), F('e', opt(dct()), elem('e'), None),
             F('t', tdict('TD', 'k1', 'k2', total=False) if td else dct(), elem('t')), tag='maps', **kw)


def unions(**kw):
    a = M('UA', F('x', prim, attr()), tag='u')
    b = M('UB', F('y', prim, attr()), tag='u')
    c = M('UC', F('x', prim, attr()), tag='c')
    return M('Unions', F('one', union(a, b)), F('many', opt(lst(union(c, a, b))), None, None), tag='unions', **kw)


def tagged_unions(**kw):
    a = M('TA', F('kind', lit('a'), attr()), F('x', opt(prim), None, None), tag='t')
    b = M('TB', F('kind', lit('b'), attr()), F('x', opt(prim), attr('y'), None), tag='t')
    c = M('TC', F('kind', lit('a'), attr()), F('x', opt(prim), None, None), tag='o')
    d = M('TD', F('kind', lit('b'), attr()), F('x', opt(prim), attr('y'), None), tag='o')
    return M('TaggedUnions', F('one', opt(tagged('kind', a=c, b=d)), None, None), F('many', lst(tagged('kind', a=a, b=b))),
             tag='tagged', **kw)


def wrappers(**kw):
    return M('Wrappers', F('a', prim, wrapped('w/v', elem('a'))), F('b', opt(prim), wrapped('w/v', elem('b')), None),
             F('c', opt(prim), wrapped('w', attr('c')), None), F('d', opt(prim), wrapped('w/d'), None),
             F('e', lst(prim), wrapped('w2', elem('e'))), F('m', opt(model(leaf())), wrapped('w2', elem('m')), None),
             tag='wrappers', **kw)


def namespaces(**kw):
    sub = M('Sub', F('x', prim, attr(ns='n')), F('y', prim, elem()), F('z', opt(prim), elem(ns=''), None), tag='sub',
            ns='n', nsmap={'n': 'urn:n', '': 'urn:d'}, ns_attrs=True)
    return M('Namespaces', F('i', prim, attr()), F('k', opt(prim), attr(ns='p'), None), F('a', prim, elem()),
             F('b', opt(prim), elem(ns='q', nsmap={'q': 'urn:q'}), None), F('s', model(sub)),
             F('w', opt(prim), wrapped('w', elem('i', ns='q'), ns='q', nsmap={'q': 'urn:w'}), None),
             tag='ns', ns='p', nsmap={'p': 'urn:p', 'q': 'urn:q0'}, **kw)


def recursive(**kw):
    node = M('Node', F('x', prim, attr()), F('kids', opt(lst(model(SelfRef('Node')))), elem('node'), None),
             F('next', opt(model(SelfRef('Node'))), elem('next'), None), tag='node', **kw)
    return node


def nillables(**kw):
    return M('Nillables', F('a', opt(prim), elem(nillable=True), None), F('m', opt(model(leaf())), elem('m', nillable=True), None),
             F('b', opt(prim), elem(nillable=True), None), tag='nil', **kw)


def root_list(extra=None, **kw):
    return M('RootList', F('root', lst(model(leaf(extra=extra))), elem('item')), root=True, tag='rl', **kw)


def root_text(**kw):
    inner = M('RootText', F('root', prim), root=True, tag='rt')
    attrs = M('RootDict', F('root', dct()), root=True, tag='rd')
    return M('Roots', F('a', model(inner)), F('b', opt(model(attrs)), elem('b'), None), tag='roots', **kw)


def aliases(**kw):
    return M('Aliases', F('a', prim, elem(), alias='aa'), F('b', opt(prim), attr(), None, alias='bb'),
             F('c', model(M('Al', F('x', prim, attr()))), None, alias='cc'), F('d', opt(prim), elem('dt'), None, alias='dd'),
             tag='aliases', **kw)


def raws(**kw):
    return M('Raws', F('a', prim, elem()), F('r', raw, elem('r')), F('z', opt(prim), elem(), None), tag='raws', **kw)


def primitive_unions(**kw):
    return M('PrimitiveUnions', F('t', opt(uprim), None, None), F('a', opt(uprim), attr(), None), F('e', opt(uprim), elem(), None),
             F('w', opt(uprim), wrapped('w', elem('e')), None), tag='pu', **kw)


def primitive_union_items(inner=opt(uprim), **kw):
    return M('PrimitiveUnionItems', F('n', opt(uprim), elem(nillable=True), None), F('l', opt(lst(inner)), elem(), None),
             F('p', opt(tup(inner, prim)), elem(), None), tag='pi', **kw)


ALL = [basic, textual, nested, lists, sets, tuples, tuple_list, mappings, unions, tagged_unions, wrappers, namespaces,
       recursive, nillables, root_list, root_text, aliases, primitive_unions, primitive_union_items]
