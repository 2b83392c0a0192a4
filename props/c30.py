"""C30: the string form of a model is its tree form, both ways."""

from lib import catalog
from lib.errs import cases
from lib.gen import Opts, document, gen_obj, text, universe
from lib.harness import Harness
from lib.ref import DefinitionError, Reader, Writer, check_read, construct, outcome_of, read_real
from lib.spec import M, SEEN, build
from lib.tree import N, eq_tree, native, neutral, show
from props import c28
from props.c17 import strict
from props.c26 import has_check

SECONDS = {'quick': 300, 'thorough': 850}

OPTIONS = ('skip_empty', 'exclude_none', 'exclude_unset')
STD_KW = [{}, {'encoding': 'unicode'}, {'encoding': 'utf-8', 'xml_declaration': True}, {'short_empty_elements': False}]
LXML_KW = [{}, {'encoding': 'unicode'}, {'encoding': 'utf-8', 'xml_declaration': True, 'standalone': True}, {'pretty_print': True},
           {'doctype': '<!DOCTYPE x>'}]


def check_written(w, ctx, real, kws):
    opts = {k: ctx.flag(k) for k in OPTIONS}
    kw = ctx.choice('kwargs', kws)
    s = real.to_xml(**opts, **kw)
    tree = real.to_xml_tree(**opts)
    direct = w.etree.tostring(tree, **kw)
    ctx.check('the string is what the library makes of the tree', type(s) is type(direct) and s == direct,
              lambda: f'{kw}: {s!r} instead of {direct!r}')
    if not kw.get('pretty_print'):
        a, b = neutral(w, w.etree.fromstring(s)), neutral(w, tree)
        ctx.check('the string parses to the tree', eq_tree(ctx, a, b), lambda: f'tree:\n{show(b)}\nparsed:\n{show(a)}\nstring: {s!r}')


def written(name, m, o, th):
    def fn(w, ctx, cls):
        real = construct(w, gen_obj(ctx, m, 'o', o))
        kws = STD_KW if w.backend == 'std' else LXML_KW
        check_written(w, ctx, real, kws if th else kws[:2])
    return Harness('written-' + name, fn, lambda w: build(w, m), universe(m), min_paths=4,
                   bounds='all instances (strings up to 1 character, 0..1 items); every combination of the options; some serialiser arguments')


def declared(kind, th):
    """Namespaces declared at several levels."""
    mk = c28.make(kind, th)
    o = Opts(text=1, min_text=1, items=2 if th else 1, min_items=1, key=0, none=False, raw=lambda ctx, p: N('e', 'x', kids=[N('y')]))

    def fn(w, ctx, env):
        uris = [ctx.str('u1', 2, 1, 'uri'), ctx.str('u2', 2, 1, 'uri')]
        m = mk(ctx, uris)
        try:
            ctx.universe = universe(m, extra=('x', 'y', 'k'))
        except DefinitionError:
            ctx.assume(False)
        build(w, m)
        obj = gen_obj(ctx, m, 'o', o)
        if kind == 'computed':
            obj.values['e'] = 'v'
        real = construct(w, obj)
        s, tree = real.to_xml(), real.to_xml_tree()
        a, b = neutral(w, w.etree.fromstring(s)), neutral(w, tree)
        e = Writer().write(obj)
        ctx.check('the string parses to the tree', eq_tree(ctx, a, b), lambda: f'tree:\n{show(b)}\nparsed:\n{show(a)}\nstring: {s!r}')
        ctx.check('the string carries the declared names', eq_tree(ctx, a, e), lambda: f'expected:\n{show(e)}\nparsed:\n{show(a)}\nstring: {s!r}')
    return Harness('declared-' + kind, fn, None, ('x', 'y', 'k'), min_paths=4, weight=3,
                   bounds='maps with up to two of the prefixes p, q and default and two URIs (any, equal or not) at model, field, wrapper and sub-model')


def read(name, m, doc, th):
    """A string is read like the tree it parses to, with the context and options given."""
    def fn(w, ctx, cls):
        context = None
        if ctx.flag('context'):
            context = {'bad': text(ctx, 'bad', 3, 1), 'lenient': ctx.flag('lenient') if has_check(m) else False}
        e = ctx.flag('empty_as_string')
        d = doc(ctx)
        s = w.etree.tostring(native(w, d))
        if ctx.flag('str'):
            s = s.decode()
        SEEN.clear()
        real = outcome_of(w, lambda: cls.from_xml(s, context=context, empty_as_string=e))
        seen = list(SEEN)
        tree = outcome_of(w, lambda: cls.from_xml_tree(w.etree.fromstring(s), context=context, empty_as_string=e))
        expected = Reader(ctx, context=context, empty_as_string=e).read(m, d)
        check_read(ctx, w, real, expected, 'string')
        check_read(ctx, w, tree, expected, 'tree')
        ctx.check('every validator sees the context', all(x is context for x in seen))
    return Harness('read-' + name, fn, lambda w: build(w, m), universe(m), min_paths=4,
                   bounds='documents of all instances with one change, as str or bytes; any context; empty_as_string or not')


def parser(m):
    """The parser that is given is the one used."""
    def fn(w, ctx, cls):
        d = document(ctx, m, Opts(text=1, min_text=1, items=1, min_items=1, depth=1, none=False, key=0), kinds=('none', 'text'), tx=1)
        s = w.etree.tostring(native(w, d))
        if w.backend == 'lxml':
            cut = s[:-1] if ctx.flag('cut') else s
            real = outcome_of(w, lambda: cls.from_xml(cut, parser=parser_of(w)))
        else:
            class Target(w.etree.TreeBuilder):
                def start(self, tag, attrs):
                    return super().start('top' if tag == 'other' else tag, attrs)
            cut = s.replace(b'<top', b'<other').replace(b'</top', b'</other') if ctx.flag('cut') else s
            real = outcome_of(w, lambda: cls.from_xml(cut, parser=w.etree.XMLParser(target=Target())))
        check_read(ctx, w, real, Reader(ctx).read(m, d), 'parser')
    return Harness('parser', fn, lambda w: build(w, m), universe(m), min_paths=4, bounds='documents of all instances with one changed text')


def parser_of(w):
    p = w.etree.XMLParser(recover=True)
    lookup = getattr(w, 'lookup', None)
    if lookup is not None:
        p.set_element_class_lookup(lookup)
    return p


def harnesses(tier):
    from lib.spec import Field as F, attr, elem, lst, opt, prim
    th = tier == 'thorough'
    out = []
    for mk in catalog.ALL:
        if mk is catalog.sets:
            continue
        m = mk()
        o = Opts(text=1, items=1, depth=2 if th else 1, key=0, none=True, unset=mk not in (catalog.root_list, catalog.root_text))
        if mk is catalog.wrappers and not th:
            o.unset = False
        out.append(written(m.name, m, o, th))
        m = strict(mk())
        o = Opts(text=1, min_text=1, items=2 if th else 1, min_items=1, depth=1, none=False, key=0)
        out.append(read('any-' + m.name, m, lambda ctx, m=m, o=o: document(ctx, m, o, kinds=('none', 'text', 'rename', 'attr') if th else
                                                                        ('none', 'text'), tx=2), th))
    for name, (m, doc) in cases(th).items():
        out.append(read(name, m, doc, th))
    top = M('Top', F('a', prim, attr()), F('x', prim, elem()), F('l', lst(prim), elem()), F('o', opt(prim), elem(), None), tag='top')
    out.append(parser(top))
    out += [declared(k, th) for k in c28.KINDS]
    return out
