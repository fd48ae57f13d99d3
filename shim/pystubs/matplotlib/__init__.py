"""Stand-in: pymatching only imports matplotlib for drawing, which no monitor exercises."""
from . import cbook  # noqa


class MatplotlibDeprecationWarning(DeprecationWarning):
    pass
