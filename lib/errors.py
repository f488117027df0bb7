"""Error classes of the library that live next to the code raising them."""
from importlib import import_module


def error(module, name, base):
    """the error class, or the built-in class it is documented to derive from when the module is organised differently"""
    try:
        return getattr(import_module('discretehelpers.' + module), name)
    except (ImportError, AttributeError):
        return base
