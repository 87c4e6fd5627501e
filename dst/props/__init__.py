"""One module per group of properties; each registers its scenario."""
_REG = {}


class Prop:
    def __init__(self, pid, run):
        self.id, self.run = pid, run


def register(pid):
    def deco(f):
        _REG[pid] = Prop(pid, f)
        return f
    return deco


def get(pid):
    load()
    return _REG[pid]


def ids():
    load()
    return sorted(_REG)


_loaded = False


def load():
    global _loaded
    if _loaded:
        return
    _loaded = True
    import importlib
    import pkgutil
    for m in sorted(x.name for x in pkgutil.iter_modules(__path__)):
        importlib.import_module(f'{__name__}.{m}')
