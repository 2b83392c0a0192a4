"""C01: writing a model and reading it back gives an equal model."""

from lib import catalog
from lib.gen import Opts
from lib.std import roundtrips
from lib.spec import uprim
from lib.tree import N

SECONDS = {'quick': 120, 'thorough': 800}


def raw_tree(ctx, p):
    n = N('r', ctx.str(p + '.t', 2, 0, 'text'), [('x', ctx.str(p + '.a', 2, 0, 'text'))])
    for i in range(ctx.int(p + '#', 0, 2)):
        n.kids.append(N(ctx.str(f'{p}{i}', 2, 1, 'name'), ctx.str(f'{p}{i}.t', 1, 0, 'text'),
                        tail=ctx.str(f'{p}{i}.l', 1, 0, 'text')))
    return n


def harnesses(tier):
    thorough = tier == 'thorough'
    out = []
    items = 3 if thorough else 2
    for mode in ('strict', 'ordered', 'unordered'):
        for make in catalog.ALL + [catalog.raws]:
            if make in (catalog.unions, catalog.root_list, catalog.mappings) and mode != 'strict':
                continue
            m = make(search_mode=mode) if not (make is catalog.root_list) else make()
            if make is catalog.primitive_union_items:
                m = make(inner=uprim, search_mode=mode)
            o = Opts(text=3 if thorough else 2, min_text=1, items=items, min_items=1, unset=thorough, raw=raw_tree, uni=False)
            if make is catalog.recursive:
                o.depth = 2
                o.items = 2
            if make is catalog.mappings and not thorough:
                o.items, o.text, o.key = 2, 1, 1
            out.append(roundtrips(
                f'{m.name}-{mode}', m, o, write_kw={'exclude_none': True} if make is not catalog.nillables else {},
                weight=3 if make in (catalog.unions, catalog.recursive, catalog.lists) else 1,
                bounds=f'strings up to {o.text} characters, collections of 1..{o.items}, nesting {o.depth}'))
    return out
