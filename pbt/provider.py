"""
Where the generators get their choices from.

Hypothesis' own engine spends a large part of a small budget on near-duplicates
of the simplest cases and draws small integers most of the time. Here every
case is drawn independently of the others, and choices among few possibilities
are uniform; Hypothesis still does the shrinking.
"""

import math

from hypothesis.internal.conjecture.providers import AVAILABLE_PROVIDERS, HypothesisProvider

NAME = "pbt-independent"


class IndependentProvider(HypothesisProvider):
    def draw_integer(self, min_value=None, max_value=None, *, weights=None, shrink_towards=0):
        if weights is not None or min_value is None or max_value is None:
            return HypothesisProvider.draw_integer(self, min_value, max_value, weights=weights, shrink_towards=shrink_towards)
        rnd = self._random
        span = max_value - min_value
        if span <= 100:
            return rnd.randint(min_value, max_value)
        how = rnd.random()
        if how < 0.06:
            constant = self._maybe_draw_constant(
                "integer", {"min_value": min_value, "max_value": max_value, "weights": weights, "shrink_towards": shrink_towards}, p=1.0)
            if constant is not None:
                return constant
        elif how < 0.12:
            return rnd.choice([min_value, min_value + 1, max_value - 1, max_value])
        elif how < 0.45:
            # Many orders of magnitude
            return min_value + min(int(2 ** (rnd.random() * math.log2(span + 1))) - 1, span)
        return rnd.randint(min_value, max_value)


AVAILABLE_PROVIDERS[NAME] = "pbt.provider.IndependentProvider"
