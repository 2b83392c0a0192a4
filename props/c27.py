"""C27: hide_input_in_errors keeps input values out of error texts."""

import re

from lib import catalog
from lib.errs import cases
from lib.gen import Opts, document, universe
from lib.harness import Harness
from lib.spec import M, Field as F, attr, build, elem, lst, model, opt, prim, union, valid
from lib.tree import native
from props.c17 import strict

SECONDS = {'quick': 240, 'thorough': 850}

INPUT = re.compile(r', input_value=.*, input_type=[^\]]*\]')


def failure(w, cls, d):
    """The error, or None."""
    try:
        cls.from_xml_tree(native(w, d))
    except w.pd.ValidationError as e:
        return e
    return None


def hides(name, m, hidden, doc, via='config', **kw):
    """Two like models, one of which hides its inputs: the texts of their errors differ in the inputs, and in nothing else."""
    def setup(w):
        return build(w, m), build(w, hidden)

    def fn(w, ctx, env):
        d = doc(ctx)
        shown, hid = (failure(w, cls, d) for cls in env)
        ctx.check('outcome', (shown is None) == (hid is None))
        if shown is None or hid is None:
            return
        n = shown.error_count()
        text, short = str(shown), str(hid)
        ctx.check('inputs are shown by default', text.count(', input_value=') >= n, text)
        ctx.check('no input is shown', 'input_value=' not in short and 'input_type=' not in short, short)
        ctx.check('the texts are the same but for the inputs', INPUT.sub(']', text) == short, lambda: f'{text}\n---\n{short}')
        # the setting is about texts only
        ctx.check('the errors are the same', [(e['loc'], e['type'], e['msg']) for e in shown.errors()] == [(e['loc'], e['type'], e['msg']) for e in hid.errors()])
    kw.setdefault('min_paths', 2)
    kw.setdefault('labels', ('no input is shown',))
    return Harness(name, fn, setup, universe(m), **kw)


def harnesses(tier):
    th = tier == 'thorough'
    out = []
    hide = {'hide_input_in_errors': True}
    for mode in ('strict', 'ordered', 'unordered') if th else ('strict',):
        shown, hidden = cases(th, search_mode=mode), cases(th, search_mode=mode, config=hide)
        for name in shown:
            out.append(hides(f'{name}-{mode}', shown[name][0], hidden[name][0], shown[name][1],
                             bounds='every combination of right, wrong and missing values; 0..2 items or members', weight=2))
    # only the model that is read hides
    for name, (m, doc) in cases(th).items():
        top = cases(th)[name][0]
        top.config = dict(hide)
        out.append(hides(f'{name}-top-only', m, top, doc, bounds='every combination of right, wrong and missing values; the parts do not hide', weight=2))
        top = cases(th, config={'hide_input_in_errors': False})[name][0]
        top.config = dict(hide)
        out.append(hides(f'{name}-parts-show', m, top, doc, bounds='every combination of right, wrong and missing values; the parts show inputs', weight=2))
        base = M('Base_', root=m.root, config=hide) if not m.root else None
        if base is not None and name not in ('recursive',):
            heir = cases(th)[name][0]
            heir.base = base
            out.append(hides(f'{name}-inherited', m, heir, doc, bounds='the setting is inherited', weight=2))
    # data that is not expected
    kinds = ('attr', 'kid', 'text', 'tail', 'setattr', 'dropattr') if not th else ('attr', 'kid', 'text', 'tail', 'setattr', 'dropattr', 'dup', 'rename', 'drop', 'nil')
    for make in catalog.ALL:
        if make in (catalog.mappings, catalog.root_list):
            continue
        ms = [strict(make(extra='forbid', **x)) for x in ({}, {'config': hide})]

        def doc(ctx, m=ms[0]):
            return document(ctx, m, Opts(text=1, min_text=1, items=1, min_items=1, depth=1, none=False, key=0), kinds=kinds, tx=3 if th else 1)
        out.append(hides('extra-' + ms[0].name, *ms, doc, bounds='documents with one change: data that is not expected, wrong or missing values', weight=2))
    return out
