"""Whole-program proofs: see harness/sets.cpp."""
from _common import whole
GROUP = whole('sets')
