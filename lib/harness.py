"""What a property module is made of, and how one of its harnesses is executed - symbolically or on one assignment."""

import importlib
import signal
import traceback

from symx.base import Stop

MAX_CALLS = 20000        # calls of functions under check on one path
MAX_CPU_S = 10           # cpu time of one path


class Hang(Stop):
    """A path does not come to an end."""


class Harness:
    def __init__(self, name, fn, setup=None, universe=(), backends=('std', 'lxml'), bounds='', weight=1.0,
                 min_paths=1, labels=(), max_paths=200000, params=None):
        self.name = name
        self.fn = fn                    # fn(w, ctx, env)
        self.setup = setup              # setup(w) -> env, once; defines the models
        self.universe = tuple(dict.fromkeys(universe))
        self.backends = backends
        self.bounds = bounds
        self.weight = weight
        self.min_paths = min_paths
        self.labels = tuple(labels)     # obligations that have to be reached on some path
        self.max_paths = max_paths


_loaded = {}


def load(prop, tier):
    if (prop, tier) in _loaded:
        return _loaded[prop, tier]
    mod = importlib.import_module('props.' + prop.lower())
    hs = mod.harnesses(tier)
    names = [h.name for h in hs]
    assert len(set(names)) == len(names), f'duplicate harness names: {names}'
    _loaded[prop, tier] = {h.name: h for h in hs}
    return _loaded[prop, tier]


def guarded(h, w, env):
    """The harness function; an exception that is not the engine's is an outcome of the code under check."""
    def fn(ctx):
        try:
            h.fn(w, ctx, env)
        except Stop:
            raise
        except Exception as e:
            if type(e).__name__ == 'Nondeterminism':
                raise
            text = f'{type(e).__name__}: {e}\n' + ''.join(traceback.format_tb(e.__traceback__)[-4:])
            ctx.check('no unexpected exception', False, text)
    return fn


def cpu_limit(seconds):
    def on_alarm(*_):
        raise Hang('cpu time of one path')
    signal.signal(signal.SIGVTALRM, on_alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds)


def cpu_limit_off():
    signal.setitimer(signal.ITIMER_VIRTUAL, 0)
