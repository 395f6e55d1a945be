"""
Stand-in for the third-party ``gridded`` package (not installed in this
sandbox).  PyGnome cannot be imported in full without it.  It implements, from
gridded's documented behaviour, just what PyGnome's own code needs: time axes,
rectangular grids, scalar / vector variables with bi-linear interpolation in
space and linear interpolation in time.  Nothing in here is code under test.
"""
__version__ = '0.7.5'

from . import utilities  # noqa
from . import time       # noqa
from . import grids      # noqa
from . import depth      # noqa
from .variable import Variable, VectorVariable  # noqa
