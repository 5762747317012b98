"""Cauchy log-density"""
from .pdfs import *

BOUNDS = 'vectors of length 1..5 fully symbolic (7 thorough), of length 6, 9, 17 (33 thorough) with chosen elements symbolic and the rest fixed numbers; every shape case and constant/variable combination, up to 3 successive evaluations, chosen moves in and out of the support; scalar constants also as int, size_t, float (2-4 values each)'


def programs(tier, rng):
    return family('cauchy', tier, rng)
