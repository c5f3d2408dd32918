from plot_recorder import Anything
def use(*a, **k): pass
rcParams = {}
