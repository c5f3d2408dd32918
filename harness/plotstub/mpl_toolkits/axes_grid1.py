from plot_recorder import Anything as make_axes_locatable
