def enable_total_order(proxy, name):
    proxy.__ne__ = lambda a, b: not a == b
    proxy.__le__ = lambda a, b: a < b or a == b
    proxy.__gt__ = lambda a, b: not (a < b or a == b)
    proxy.__ge__ = lambda a, b: not a < b
