class Ob:
    """one obligation: a harness function with fixed parameters, explored over all values of its symbolic inputs"""
    def __init__(self, name, fn, params=None, covers=(), bounds=""):
        self.name = name
        self.fn = fn
        self.params = params or {}
        self.covers = tuple(covers)
        self.bounds = bounds
