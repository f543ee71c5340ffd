"""Whole-program proofs: see harness/events.cpp."""
from _common import whole
GROUP = whole('events')
