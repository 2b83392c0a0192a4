"""Neutral XML trees: built as native trees of either backend, and read back from them."""


class N:
    """kind: 'el', 'comment' or 'pi'."""

    def __init__(self, tag, text=None, attrs=(), kids=(), tail=None, line=None, kind='el', nsmap=None):
        self.tag = tag
        self.text = text
        self.attrs = list(attrs)
        self.kids = list(kids)
        self.tail = tail
        self.line = line
        self.kind = kind
        self.nsmap = nsmap

    def __repr__(self):
        return f'N({self.tag!r}, {self.text!r}, {self.attrs!r}, {self.kids!r}, {self.tail!r})'


def native(w, n):
    """The native tree of the world's backend."""
    etree = w.etree
    if n.kind == 'comment':
        el = etree.Comment(n.text)
    elif n.kind == 'pi':
        el = etree.ProcessingInstruction(n.tag, n.text)
    elif w.backend == 'lxml':
        el = etree.Element(n.tag, nsmap=n.nsmap) if n.nsmap else etree.Element(n.tag)
    else:
        el = etree.Element(n.tag)
    if n.kind == 'el':
        el.text = n.text
        for k, v in n.attrs:
            el.set(k, v)
        for kid in n.kids:
            el.append(native(w, kid))
    el.tail = n.tail
    if w.backend == 'lxml' and n.line is not None:
        el.sourceline = n.line
    return el


def neutral(w, el):
    """Reads a native tree; symbolic values come back as such."""
    if not isinstance(el.tag, str):
        kind = 'comment' if el.tag is w.etree.Comment else 'pi'
        tag, txt = kind, w.resym(el.text)
        if kind == 'pi':
            tag, txt = (el.target, txt) if w.backend == 'lxml' else el.text.split(' ', 1)
        return N(tag, txt, kind=kind, tail=w.resym(el.tail))
    return N(
        w.resym(el.tag), w.resym(el.text), [(w.resym(k), w.resym(v)) for k, v in el.attrib.items()],
        [neutral(w, k) for k in el], w.resym(el.tail),
        nsmap={k or '': w.resym(v) for k, v in el.nsmap.items()} if w.backend == 'lxml' else None,
    )


def strip_comments(n):
    """Without comments and processing instructions; they do not interrupt the text they are placed in."""
    out = N(n.tag, n.text, n.attrs, (), n.tail, n.line, n.kind, n.nsmap)
    for k in n.kids:
        if k.kind == 'el':
            out.kids.append(strip_comments(k))
        elif k.tail is not None:
            if out.kids:
                out.kids[-1].tail = k.tail if out.kids[-1].tail is None else out.kids[-1].tail + k.tail
            else:
                out.text = k.tail if out.text is None else out.text + k.tail
    return out


def eq_text(ctx, a, b):
    """Texts: None and '' are the same to XML."""
    if a is None and b is None:
        return True
    return ctx.eq('' if a is None else a, '' if b is None else b)


def eq_attrs(ctx, a, b):
    """Attribute lists as maps: the names within each list are known to be different."""
    if len(a) != len(b):
        return False
    conds = []
    for k, v in a:
        conds.append(ctx.any([ctx.all([ctx.eq(k, k2), ctx.eq(v, v2)]) for k2, v2 in b]))
    return ctx.all(conds)


def eq_tree(ctx, a, b, tails=False, nsmap=False):
    if a.kind != b.kind or len(a.kids) != len(b.kids):
        return False
    conds = [a.kind != 'el' or ctx.eq(a.tag, b.tag), eq_text(ctx, a.text, b.text), eq_attrs(ctx, a.attrs, b.attrs)]
    if tails:
        conds.append(eq_text(ctx, a.tail, b.tail))
    if nsmap:
        conds.append(eq_attrs(ctx, list((a.nsmap or {}).items()), list((b.nsmap or {}).items())))
    conds += [eq_tree(ctx, x, y, True, nsmap) for x, y in zip(a.kids, b.kids)]
    return ctx.all(conds)


def show(n, indent=0):
    pad = ' ' * indent
    s = f'{pad}<{n.tag} {n.attrs}> {n.text!r}' + (f' tail={n.tail!r}' if n.tail else '')
    return '\n'.join([s] + [show(k, indent + 2) for k in n.kids])
