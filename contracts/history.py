"""Whole-program proofs: see harness/history.cpp."""
from _common import whole
GROUP = whole('history')
