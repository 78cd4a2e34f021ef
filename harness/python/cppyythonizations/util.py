def filtered(*names):
    def decorate(pythonization):
        def pythonize(proxy, name):
            if name in names:
                pythonization(proxy, name)
        return pythonize
    return decorate
