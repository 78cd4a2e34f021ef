def enable_pretty_printing(proxy, name):
    if hasattr(proxy, "_print"):
        proxy.__repr__ = lambda self: self._print()
        proxy.__str__ = lambda self: self._print()
