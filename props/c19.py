"""C19: primitive values have one textual form."""

import datetime as dt
import decimal
import enum
import math
import typing
import uuid

import pydantic

from lib.gen import Opts, gen_obj, kids, lname, text
from lib.ref import XSI_NIL
from lib.spec import (M, Field as F, attr, boolean, const, dct, dctv, elem, integer, lst, model, ntup, opt, prim, tup, wrapped)
from lib.std import reads, roundtrips, writes
from lib.tree import N

SECONDS = {'quick': 220, 'thorough': 850}


class Color(enum.Enum):
    red = 'RED'
    true = 'True'


class Level(enum.IntEnum):
    low = 0
    high = 1


U = uuid.UUID('12345678-1234-5678-1234-567812345678')
TYPES = {
    'int': const(int, (0, '0'), (-5, '-5'), (1, '1'), (10 ** 20, '1' + '0' * 20)),
    'float': const(float, (1.0, '1.0'), (0.0, '0.0'), (-0.5, '-0.5'), (1e30, '1e+30')),
    'decimal': const(decimal.Decimal, (decimal.Decimal('1.10'), '1.10'), (decimal.Decimal('0'), '0'), (decimal.Decimal('1E+5'), '1E+5')),
    'date': const(dt.date, (dt.date(2024, 2, 29), '2024-02-29')),
    'datetime': const(dt.datetime, (dt.datetime(2024, 2, 29, 1, 2, 3), '2024-02-29T01:02:03'),
                      (dt.datetime(2024, 2, 29, tzinfo=dt.timezone.utc), '2024-02-29T00:00:00Z')),
    'time': const(dt.time, (dt.time(0, 0), '00:00:00'), (dt.time(1, 2, 3, 4), '01:02:03.000004')),
    'timedelta': const(dt.timedelta, (dt.timedelta(days=1), 'P1D'), (dt.timedelta(0), 'PT0S')),
    'uuid': const(uuid.UUID, (U, str(U))),
    'bytes': const(bytes, (b'ab', 'ab'), (b'\xc3\xa9', '\u00e9')),
    'enum': const(Color, (Color.red, 'RED'), (Color.true, 'True')),
    'literal': const(typing.Literal['None', 'True', 'x'], ('None', 'None'), ('True', 'True'), ('x', 'x')),
    'union': const(typing.Union[int, float], (0, '0'), (1, '1'), (0.5, '0.5')),
}
WRITE_ONLY = {
    'float-special': const(float, (math.nan, 'nan'), (math.inf, 'inf'), (-math.inf, '-inf'), (-0.0, '-0.0'), (1e-7, '1e-07')),
    'decimal-special': const(typing.Annotated[decimal.Decimal, pydantic.Field(allow_inf_nan=True)], (decimal.Decimal('NaN'), 'NaN'),
                             (decimal.Decimal('-Infinity'), '-Infinity'), (decimal.Decimal('-0'), '-0')),
    'intenum': const(Level, (Level.low, '0'), (Level.high, '1')),
    'bool|str': const(typing.Union[bool, str], (True, 'true'), (False, 'false'), ('False', 'False')),
    'literal-bool': const(typing.Literal[True, 'y', 0], (True, 'true'), ('y', 'y'), (0, '0')),
}


def places(t):
    rt = M('RT', F('root', t), root=True, tag='rt')
    sub = M('Sub', F('x', t, attr()), F('t', t), tag='sub')
    return {
        'text-attr': [F('t', t), F('a', t, attr())],
        'elem': [F('e', t, elem()), F('n', t, elem('n', nillable=True))],
        'items': [F('e', lst(t), elem()), F('f', tup(t, t), elem('f'))],
        'named': [F('f', ntup('NT', u=t, v=t), elem('f'))],
        'wrapped': [F('e', t, wrapped('w', elem())), F('a', t, wrapped('w', attr()))],
        'wrapped-text': [F('e', t, wrapped('w/v')), F('l', lst(t), wrapped('u', elem('l')))],
        'map': [F('m', dctv(t)), F('d', dctv(t), elem('d'))],
        'models': [F('s', lst(model(sub))), F('r', model(rt))],
        'computed': [F('v', t, attr()), F('ca', t, attr(), computed=lambda self: self.v), F('ce', t, elem(), computed=lambda self: self.v)],
    }


def docs(place, v):
    """A document for the place; v(name) is the text."""
    return {
        'text-attr': lambda: N('r', v('t'), [('a', v('a'))]),
        'elem': lambda: N('r', kids=[N('e', v('e')), N('n', v('n'))]),
        'items': lambda: N('r', kids=[N('e', v('e')), N('e', v('e2')), N('f', v('f')), N('f', v('f2'))]),
        'named': lambda: N('r', kids=[N('f', v('f')), N('f', v('f2'))]),
        'wrapped': lambda: N('r', kids=[N('w', None, [('a', v('a'))], [N('e', v('e'))])]),
        'wrapped-text': lambda: N('r', kids=[N('w', kids=[N('v', v('e'))]), N('u', kids=[N('l', v('l'))])]),
        'map': lambda: N('r', None, [('p', v('p')), ('q', v('q'))], [N('d', None, [('p', v('dp'))])]),
        'models': lambda: N('r', kids=[N('sub', v('s'), [('x', v('x'))]), N('rt', v('r'))]),
        'computed': lambda: N('r', None, [('v', v('v'))]),
    }[place]()


def made(ctx, m, o):
    obj = gen_obj(ctx, m, 'o', o)
    for f in m.fields:
        if f.computed is not None:
            obj.values[f.name] = obj.values['v']
    return obj


def harnesses(tier):
    th = tier == 'thorough'
    out = []
    for tn, t in {'str': prim, 'optstr': opt(prim), 'bool': boolean, 'optbool': opt(boolean)}.items():
        for place, fields in places(t).items():
            m = M('R', *fields, tag='r')
            n = 1 if place in ('items', 'models') and not th else 2
            o = Opts(text=n, items=2 if place != 'models' else 1, min_items=1, key=0)
            out.append(writes(f'write-{tn}-{place}', m, o, inst=lambda ctx, m=m, o=o: made(ctx, m, o),
                              bounds=f'any value; strings of 0..{n} characters', min_paths=1))
            if place == 'named' and tn.startswith('opt'):
                continue
            tx = 5 if 'bool' in tn and (th or place in ('text-attr', 'map', 'elem')) else 2 if not th else 3
            out.append(reads(f'read-{tn}-{place}', m, lambda ctx, place=place, tx=tx: docs(place, lambda p: text(ctx, p, tx)),
                             read_kw={'empty_as_string': 'any'}, bounds=f'any texts of 0..{tx} characters; with and without '
                             'empty_as_string', weight=2))
    for tn, t in {**TYPES, **WRITE_ONLY}.items():
        for place, fields in places(t).items():
            if place == 'map' and tn in ('union', 'bool|str'):    # refused
                continue
            if place not in ('text-attr', 'elem', 'items', 'map', 'wrapped', 'computed') and not th:
                continue
            m = M('R', *fields, tag='r')
            o = Opts(items=1 if not th else 2, min_items=1, key=0)
            out.append(writes(f'write-{tn}-{place}', m, o, inst=lambda ctx, m=m, o=o: made(ctx, m, o), min_paths=1,
                              bounds='any of some values of the type'))
            if tn in TYPES:
                texts = [x for _, x in t.kw['pairs']]
                out.append(reads(f'read-{tn}-{place}', m, lambda ctx, place=place, texts=texts: docs(place, lambda p: ctx.choice(p, texts)),
                                 bounds='the texts of some values of the type', min_paths=1))
    # long texts
    m = M('R', F('t', prim), F('a', prim, attr()), F('e', prim, elem()), tag='r')
    out.append(writes('long', m, Opts(text=12), min_paths=1, bounds='strings of 0..12 characters'))
    out.append(reads('long-read', m, lambda ctx: N('r', text(ctx, 't', 12), [('a', text(ctx, 'a', 12))], [N('e', text(ctx, 'e', 12))]),
                     read_kw={'empty_as_string': 'any'}, bounds='texts of 0..12 characters'))
    # absence stays absence, whatever the option
    m = M('R', F('t', opt(prim), None, None), F('a', opt(prim), attr(), None), F('e', opt(prim), elem(nillable=True), None),
          F('l', opt(lst(prim)), elem(), None), tag='r')
    out.append(reads('absent', m, lambda ctx: N('r', text(ctx, 't', 1), [('a', text(ctx, 'a', 1))][:ctx.int('a?', 0, 1)],
                     kids(ctx, 'e', 0, 1, lambda p: N('e', text(ctx, p, 1), [(XSI_NIL, ctx.choice(p + 'n', ['true', 'false']))]
                                                      [:ctx.int(p + 'n?', 0, 1)]))
                     + kids(ctx, 'l', 0, 2, lambda p: N('l', text(ctx, p, 1)))),
                     read_kw={'empty_as_string': 'any'}, bounds='every entity present or not'))
    return out
