"""What the stand-ins share."""
import sys
import types


class Unsupported(BaseException):
    """Something that the stand-ins do not offer was asked for; says nothing about the code."""


class Violation(Exception):
    def __init__(self, key, detail):
        super().__init__("%s: %s" % (key, detail))
        self.key, self.detail = key, detail


class Module(types.ModuleType):
    """A module or namespace all of whose other names are not supported."""

    def __init__(self, name, **names):
        super().__init__(name)
        self.__dict__.update(names)
        self.__path__ = []
        sys.modules[name] = self

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("%s.%s" % (self.__name__, name))


class Closed:
    """An object all of whose other methods are not supported."""

    def __getattr__(self, name):
        if name.startswith("_") or name in ("has_value", "value", "parent"):
            raise AttributeError("%s has no attribute %s" % (type(self).__name__, name))
        raise Unsupported("%s.%s" % (type(self).__name__, name))
