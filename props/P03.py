"""P03: T-norms on [0,1]: documented formula and T-norm laws."""
from . import norms
from .norms import *

PROPERTY = 'P03'
NAMES = norms.TN
SOURCES = norms.sources(NAMES, 't')
TRUSTED = norms.TRUSTED
KIND = 't'
BUDGET = 120


def groups(prog, tier):
    return norms.groups(NAMES, 't')


CONTRACTED = [n + '::compute' for n in NAMES]
SEARCHED = norms.SEARCHED


def search(models, seed, tier, failed=()):
    return norms.search(NAMES, 't', models, seed, tier)
