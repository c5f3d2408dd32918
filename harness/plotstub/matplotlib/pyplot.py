from plot_recorder import AX, FIG, Anything
class _Map:
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        def f(v):
            import numpy as np
            v = np.atleast_1d(np.asarray(v, dtype=float))
            return np.stack([v, v, v, np.ones_like(v)], axis=-1)
        return f
cm = _Map()
def subplots(*a, **k): return FIG, AX
def figure(*a, **k): return FIG
def gca(*a, **k): return AX
def get_cmap(n, *a): return getattr(cm, n)
def close(*a, **k): pass
def savefig(n, *a, **k): FIG.savefig(n)
def __getattr__(n):
    if n.startswith('__'): raise AttributeError(n)
    return Anything()
