"""Normal log-density"""
from .pdfs import *

BOUNDS = 'vectors of length 1..5 fully symbolic (7 thorough), of length 6, 9, 17 (33 thorough) with chosen elements symbolic and the rest fixed numbers; covariance matrices 1x1 and 2x2 (3x3 thorough) fully symbolic, 3x3 and 4x4 (5x5 thorough) with one symbolic entry; every shape case and constant/variable combination, up to 3 successive evaluations, chosen moves in and out of the support; scalar constants also as int, size_t, float (2-4 values each)'


def programs(tier, rng):
    from .zoo import huge
    return family('normal', tier, rng) + huge(lambda k: k.startswith('normal') and not k.endswith('.sub'), tier == 'thorough')
