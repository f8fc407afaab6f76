"""All the properties."""
from . import props2, props3, props4  # noqa: F401
from .props import PROPS  # noqa: F401
