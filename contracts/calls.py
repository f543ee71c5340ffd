"""Calls of whole mocks."""
import proof
from _common import whole
GROUP = whole('calls')
