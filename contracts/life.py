"""Life of mocks, stubbings and members."""
from _common import whole
GROUP = whole('life')
