"""C21: both XML backends give the same result."""

from lib import catalog
from lib.errs import cases
from lib.gen import MUTATIONS, Opts, clone, document, kids, mutate, text
from lib.spec import (M, Field as F, attr, dct, elem, lst, model, opt, prim, raw, valid, wrapped)
from lib.std import reads, writes
from lib.tree import N
from props.c03 import raw_tree

SECONDS = {'quick': 240, 'thorough': 850}


def note(ctx, p, tx):
    """A comment or processing instruction and the text that follows it."""
    return N('p', 'note', kind=ctx.choice(p + '.note', ['comment', 'pi']), tail=text(ctx, p + '.tail', tx))


def mixed(ctx, p, tx=1, n=3):
    """Text, elements, comments and processing instructions in any order."""
    r = N('r', text(ctx, p + 'text', tx), [('i', 'v')])
    for i in range(ctx.int(p + '#', 0, n)):
        q = f'{p}{i}'
        if ctx.flag(q + '?'):
            r.kids.append(note(ctx, q, tx))
        else:
            r.kids.append(N(ctx.choice(q + 'tag', ['e', 's']), text(ctx, q + 'text', tx), tail=text(ctx, q + 'tail', tx)))
    return r


def in_text(ctx, p, tag='e', tx=2):
    """An element with comments in its text."""
    n = N(tag, text(ctx, p + 'text', tx))
    n.kids = [note(ctx, f'{p}{i}', tx) for i in range(ctx.int(p + '#', 0, 2))]
    return n


def harnesses(tier):
    th = tier == 'thorough'
    out = []
    notes = 'comments and processing instructions'
    # comments and processing instructions between everything
    leaf = M('Leaf', F('t', opt(prim), None, None), tag='s')
    for mode in ('strict', 'ordered', 'unordered'):
        for extra in ('ignore', 'forbid'):
            n = 3 if th or extra == 'ignore' and mode == 'strict' else 2
            m = M('Mixed', F('t', opt(prim), None, None), F('i', opt(prim), attr(), None), F('e', opt(prim), elem(), None),
                  F('s', opt(model(leaf)), None, None), tag='r', extra=extra, search_mode=mode)
            out.append(reads(f'mixed-{mode}-{extra}', m, lambda ctx, n=n: mixed(ctx, 'd', n=n), weight=4,
                             bounds=f'0..{n} {notes} and elements in any order, any texts and tails'))
    m = M('In', F('t', opt(valid), None, None), F('e', opt(lst(valid)), elem(), None), F('n', opt(prim), elem('n', nillable=True), None),
          F('w', opt(prim), wrapped('w/v'), None), F('s', opt(model(leaf)), None, None), tag='r')

    def doc(ctx):
        which = ctx.choice('which', ['root', 'items', 'nillable', 'wrapped', 'model'])
        if which == 'root':
            return in_text(ctx, 'd', 'r')
        if which == 'items':
            return N('r', kids=kids(ctx, 'k', 0, 2, lambda p: in_text(ctx, p, tx=1)))
        if which == 'nillable':
            return N('r', kids=[in_text(ctx, 'd', 'n')])
        if which == 'wrapped':
            return N('r', kids=[N('w', kids=[note(ctx, 'a', 1), in_text(ctx, 'd', 'v'), note(ctx, 'b', 1)])])
        return N('r', kids=[note(ctx, 'a', 1), in_text(ctx, 'd', 's')])
    out.append(reads('in-text', m, doc, read_kw={'empty_as_string': 'any'}, weight=3, bounds=f'texts with 0..2 {notes} in them'))
    m = M('Raws', F('r', opt(lst(raw)), elem('r'), None), F('e', opt(prim), elem(), None), tag='d')
    out.append(reads('raw', m, lambda ctx: N('d', kids=kids(ctx, 'k', 0, 2 if th else 1, lambda p: mixed(ctx, p)) + [note(ctx, 'z', 1), N('e', 'v')]),
                     weight=3, bounds=f'0..1 (thorough 2) raw elements with 0..3 {notes} and elements in any order'))
    # every kind of field, a comment or another change anywhere
    kinds = ('none', 'comment', 'pi', 'text', 'kid', 'drop', 'dropattr', 'nil') if not th else MUTATIONS + ('comment', 'pi')
    for make in catalog.ALL + [catalog.raws]:
        for extra in (None, 'forbid') if make is not catalog.mappings else (None,):
            m = make(extra=extra)
            o = Opts(text=1, min_text=1, items=1, min_items=1, depth=1, none=False, key=0, raw=raw_tree)

            def doc(ctx, m=m, o=o, extra=extra):
                ks = kinds if th or extra is None else ('comment', 'pi')
                d = document(ctx, m, o, kinds=ks, tx=2)
                if th:
                    mutate(ctx, d, ('comment', 'none'), p='mut2', tx=1)
                return d
            out.append(reads(f'any-{m.name}-{extra or "ignore"}', m, doc, weight=3,
                             bounds=f'documents of all instances with one change of the kinds {", ".join(kinds)} (if unread data is '
                                    'forbidden: a comment) anywhere; thorough: and another comment'))
    # attributes of the namespace that needs no declaration
    XML = 'http://www.w3.org/XML/1998/namespace'
    sub = M('Sub', F('d', opt(dct()), None, None), tag='s')
    for extra in ('ignore', 'forbid'):
        m = M('Lang', F('lang', opt(prim), attr('lang', ns='xml'), None), F('base', opt(prim), attr('base'), None), F('d', opt(dct()), elem(), None),
              F('s', opt(model(sub)), None, None), F('q', opt(raw), elem(), None), tag='r', nsmap={'xml': XML, 'p': 'u:p'}, extra=extra)

        def xml(ctx):
            def attrs(p):
                return [(q + a, text(ctx, p + q[-1:] + a, 1)) for q in ('', '{' + XML + '}') for a in ('lang', 'base') if ctx.flag(p + q[-1:] + a + '?')]
            at = ctx.choice('at', ['r', 'd', 's', 'q'])
            return N('r', None, attrs('r') if at == 'r' else [], [N(t, None, attrs(t) if at == t else []) for t in 'dsq' if t == at or ctx.flag(t)])
        out.append(reads('xml-' + extra, m, xml, weight=2, bounds='xml: attributes and others of the same names on any element'))
    # errors
    for name, (m, d) in cases(th).items():
        out.append(reads(f'errors-{name}', m, lambda ctx, d=d: noted(ctx, d(ctx)), weight=2,
                         bounds='right, wrong and missing values; a comment anywhere'))
    # writing
    for make in catalog.ALL + [catalog.raws]:
        m = make()
        out.append(writes(f'write-{m.name}', m, Opts(text=2, items=2 if make not in (catalog.unions, catalog.mappings) or th else 1, depth=1, raw=raw_tree, key=1),
                          write_kw={'exclude_none': 'any', 'skip_empty': 'any'} if make is not catalog.mappings else {'skip_empty': 'any'}, min_paths=1, weight=2,
                          bounds='all instances: strings up to 2 characters, 0..2 items'))
    return out


def noted(ctx, d):
    if ctx.flag('noted'):
        d.kids.insert(0, N('p', 'note', kind='comment', tail=None))
    return d
