from plot_recorder import Anything as Rectangle, Anything as Polygon, Anything as Patch, Anything as Circle
