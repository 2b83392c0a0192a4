"""The harness kinds most properties use."""

from .gen import MUTATIONS, Opts, document, gen_obj, nodes_of, universe
from .harness import Harness
from .ref import DefinitionError, Reader, Writer, check_read, check_write, construct, eq_obj, read_real, write_real
from .spec import build
from .tree import native


def short(e):
    return f'{type(e).__name__}: {e}'


def define(w, m, also=()):
    """The real class; other classes are defined after it."""
    cache = {}
    cls = build(w, m, cache)
    for x in also:
        build(w, x, cache)
    return cls


def reads(name, m, doc, models=(), extra=(), read_kw=None, lines=False, label='read', also=(), **kw):
    """Reading any document of a family gives what the reference semantics says."""
    read_kw = read_kw or {}

    def setup(w):
        return define(w, m, also)

    def fn(w, ctx, cls):
        d = doc(ctx)
        if lines:
            number(d)
        rk = {k: (ctx.flag(k) if v == 'any' else v) for k, v in read_kw.items()}
        real = read_real(w, cls, native(w, d), **rk)
        check_read(ctx, w, real, Reader(ctx, models=models, **rk).read(m, d), label,
                   lines=w.backend == 'lxml' if lines else None)
    kw.setdefault('min_paths', 2)
    return Harness(name, fn, setup, universe(m, *models, extra=extra), **kw)


def number(n):
    """A different source line for every element."""
    for i, (_, _, x) in enumerate(nodes_of(n)):
        x.line = 1000 + (i * 7) % 101


def align(w, real, o):
    """Sets are written in the order in which they are iterated."""
    for f in o.m.fields:
        t = f.type.args[0] if f.type.kind == 'opt' else f.type
        v = o.values.get(f.name)
        if v is None or f.computed is not None:
            continue
        if t.kind in ('set', 'fset'):
            o.values[f.name] = [w.resym(x) for x in getattr(real, f.name)]
        elif t.kind == 'model':
            align(w, getattr(real, f.name), v)
    return o


def writes(name, m, opts, models=(), extra=(), write_kw=None, inst=None, nsmap=False, label='write', also=(), **kw):
    """Writing any instance of a family gives what the reference semantics says."""
    write_kw = write_kw or {}

    def setup(w):
        return define(w, m, also)

    def fn(w, ctx, cls):
        o = inst(ctx) if inst else gen_obj(ctx, m, 'o', opts)
        wk = {k: (ctx.flag(k) if v == 'any' else v) for k, v in write_kw.items()}
        obj = construct(w, o)
        real = write_real(w, obj, **wk)
        check_write(ctx, w, real, Writer(models=models, **wk).write(align(w, obj, o)), label,
                    nsmap=nsmap and w.backend == 'lxml')
    kw.setdefault('min_paths', 2)
    return Harness(name, fn, setup, universe(m, *models, extra=extra), **kw)


def roundtrips(name, m, opts, models=(), extra=(), inst=None, write_kw=None, **kw):
    """An instance is equal to what is read from the tree it is written to."""
    write_kw = write_kw or {}

    def setup(w):
        return build(w, m)

    def fn(w, ctx, cls):
        o = inst(ctx) if inst else gen_obj(ctx, m, 'o', opts)
        obj = construct(w, o)
        wk = {k: (ctx.flag(k) if v == 'any' else v) for k, v in write_kw.items()}
        tree = obj.to_xml_tree(**wk)
        real = read_real(w, cls, tree)
        ok = eq_obj(ctx, w, real[1], o) if real[0] == 'ok' else False
        ctx.check('read back equal', ok, lambda: f'instance {o!r} read back as {real!r}')
    kw.setdefault('min_paths', 2)
    return Harness(name, fn, setup, universe(m, *models, extra=extra), **kw)


def mutated(name, m, opts=None, kinds=MUTATIONS, q=False, tx=2, **kw):
    """Reading the document of any instance with one change of any kind gives what the reference semantics says."""
    o = opts or Opts(text=1, min_text=1, items=1, min_items=1, depth=1, none=False, attr_min=0, key=0)
    kw.setdefault('bounds', f'documents of all instances (strings up to {o.text}, {o.min_items}..{o.items} items) with '
                            f'one change of the kinds {", ".join(kinds)} at any place; inserted names up to 4 characters')
    return reads(name, m, lambda ctx: document(ctx, m, o, kinds=kinds, q=q, tx=tx), **kw)


def configured(name, make, doc=None, inst=None, read_kw=None, write_kw=None, lines=False, nsmap=False, extra=(), reader=None,
               **kw):
    """
    Models chosen by the solver: make(ctx) gives a model description for every value of the configuration flags; a
    document is read into it and an instance is written.
    """
    read_kw, write_kw = read_kw or {}, write_kw or {}

    def fn(w, ctx, env):
        m = make(ctx)
        try:
            ctx.universe = universe(m, extra=extra)
        except DefinitionError:
            ctx.assume(False)
        cls = build(w, m)
        if doc is not None:
            d = doc(ctx, m)
            rk = {k: (ctx.flag(k) if v == 'any' else v) for k, v in read_kw.items()}
            real = read_real(w, cls, native(w, d), **rk)
            check_read(ctx, w, real, Reader(ctx, **rk).read(m, d), 'read', lines=w.backend == 'lxml' if lines else None)
        if inst is not None:
            o = inst(ctx, m)
            wk = {k: (ctx.flag(k) if v == 'any' else v) for k, v in write_kw.items()}
            obj = construct(w, o)
            real = write_real(w, obj, **wk)
            check_write(ctx, w, real, Writer(**wk).write(align(w, obj, o)), 'write', nsmap=nsmap and w.backend == 'lxml')
    kw.setdefault('min_paths', 2)
    return Harness(name, fn, None, extra, **kw)
