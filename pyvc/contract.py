"""Registration of contract harnesses."""


class H:
    def __init__(self, fn, name, functions, samples=40, thorough=400, symbolic=True, concrete=True, public=False,
                 max_paths=400, stubs=None, note="", budget=240, gen=None):
        self.fn, self.name, self.functions = fn, name, functions
        self.samples, self.thorough = samples, thorough
        self.symbolic, self.concrete, self.public = symbolic, concrete, public
        self.max_paths, self.stubs, self.note, self.budget = max_paths, stubs, note, budget


def contract(reg, functions=(), **kw):
    def deco(fn):
        h = H(fn, fn.__name__, list(functions), **kw)
        h.doc = (fn.__doc__ or "").strip()
        reg.append(h)
        return fn
    return deco
