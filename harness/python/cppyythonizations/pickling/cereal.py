_classes = {}


def _load(name, text):
    return _classes[name]._load(text)


def enable_cereal(proxy, name, headers=[]):
    if hasattr(proxy, "_save"):
        _classes[name] = proxy
        proxy.__reduce__ = lambda self: (_load, (name, self._save()))
