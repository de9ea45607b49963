"""P04: S-norms on [0,1]: documented formula and S-norm laws."""
from . import norms
from .norms import *

PROPERTY = 'P04'
NAMES = norms.SN
SOURCES = norms.sources(NAMES, 's')
TRUSTED = norms.TRUSTED
KIND = 's'
BUDGET = 120


def groups(prog, tier):
    return norms.groups(NAMES, 's')


CONTRACTED = [n + '::compute' for n in NAMES]
SEARCHED = norms.SEARCHED


def search(models, seed, tier, failed=()):
    return norms.search(NAMES, 's', models, seed, tier)
