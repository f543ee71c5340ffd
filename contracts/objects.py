"""Whole-program proofs: see harness/objects.cpp."""
from _common import whole
GROUP = whole('objects')
