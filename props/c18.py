"""C18: errors point at the source line of the element concerned."""

from props import c17

SECONDS = {'quick': 220, 'thorough': 850}


def harnesses(tier):
    return c17.harnesses(tier, lines=True)
