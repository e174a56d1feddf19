PROPERTY = 'C26'
NEEDS = 'a colour bar with labels of its own, whose upper end is not the upper end of the ticks'
BREAKS = 'the labels of a colour bar run to the end of its ticks instead of the end asked for: values are read wrongly from the plot'
EDITS = [('lib/python/picopic/plot_builder.py', '__ticklabels = np.linspace(ticklabels[0], ticklabels[1], self.number_cbar_ticks) if ticklabels', '__ticklabels = np.linspace(ticklabels[0], ticks[1], self.number_cbar_ticks) if ticklabels')]
DEMO_SH = '#!/bin/bash\n# exit 0: the property holds for this scenario; nonzero: it does not\nD="$(cd "$(dirname "$0")" && pwd)"\nexport VERIF_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec python3-vt "$D/try.py"\n'
FILES = {'try.py': r"""import os, sys
from unittest import mock
for n in ("matplotlib", "matplotlib.pyplot", "mpl_toolkits", "mpl_toolkits.axes_grid1", "mpl_toolkits.mplot3d", "mpl_toolkits.mplot3d.axes3d"):
    sys.modules[n] = mock.MagicMock()
sys.path.insert(0, os.path.join(os.environ["VERIF_REPO"], "lib", "python"))
from picopic.plot_builder import PlotBuilder
p = PlotBuilder(3, 2)
p.add_subplot_cartesian_2d("a", 111)
p.add_image("a", [[1, 2, 3], [4, 5, 6]])
p.add_colorbar("a", ticks=[-1, 1], ticklabels=[-200, 600])
got = [float(x) for x in p.get_figure().colorbar.return_value.set_ticklabels.call_args[0][0]]
print(got)
sys.exit(0 if got == [-200, 200, 600] else 1)
"""}
