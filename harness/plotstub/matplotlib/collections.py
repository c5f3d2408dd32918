from plot_recorder import PolyCollection, LineCollection
