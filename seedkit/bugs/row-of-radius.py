PROPERTY = 'C24'
NEEDS = 'a radius that is the place of a row only up to rounding of its last digit'
BREAKS = 'the row of a radius is sometimes the one below, so that rows and radii are not inverse'
EDITS = [('lib/python/picopic/meta_reader.py', '        return(int(round(radius * self.geometry_grid[0] / self.geometry_size[0])))', '        return(int(radius * self.geometry_grid[0] / self.geometry_size[0]))')]
DEMO_SH = '#!/bin/bash\n# exit 0: the property holds for this scenario; nonzero: it does not\nD="$(cd "$(dirname "$0")" && pwd)"\nexport VERIF_REPO="$PWD" PYTHONDONTWRITEBYTECODE=1\nexec python3 "$D/try.py"\n'
FILES = {'try.py': r"""import os, sys, types
sys.modules["h5py"] = types.ModuleType("h5py")
import importlib.util
spec = importlib.util.spec_from_file_location("meta_reader", os.path.join(os.environ["VERIF_REPO"], "lib/python/picopic/meta_reader.py")); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
bad = 0
for grid in (7, 10, 100, 192):
    for size in (0.1, 0.03, 0.7e-3):
        r = m.MetaReader.__new__(m.MetaReader); r.geometry_grid = [grid, grid]; r.geometry_size = [size, size]
        for k in range(grid):
            if r.get_row_by_radius(r.get_radius_by_row(k)) != k: bad += 1
print("rows that are not the rows of their radius:", bad)
sys.exit(1 if bad else 0)
"""}
