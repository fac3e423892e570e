#!/opt/venv/bin/python
"""tools/gen_api_names.py: write sa/api_names.py, the public attribute names of the library types the analyser models
(so that a name it has no model for is told apart from one the type does not have).  Run with the interpreter of the
repository's environment; its output is committed."""
import datetime, fsspec, io, logging, os, tempfile
import cftime, numpy as np, xarray as xr, zarr

g = zarr.open_group(zarr.MemoryStore() if hasattr(zarr, "MemoryStore") else {}, mode="w")
z = g.zeros("a", shape=(2,))
T = {
    "DataArray": xr.DataArray([1.0]), "Dataset": xr.Dataset(), "CfTime": cftime.DatetimeNoLeap(2000, 1, 1),
    "TextFile": io.TextIOWrapper(io.BytesIO()), "ZAttrs": g.attrs, "ZArr": z, "GroupObj": g,
    "FsObj": fsspec.filesystem("file"), "BytesIO": io.BytesIO(), "TimeDelta": datetime.timedelta(0),
    "ndarray": np.zeros(2), "Flags": np.zeros(1).flags, "OpenFile": io.BufferedRandom(io.FileIO(os.open(os.devnull, os.O_RDWR), "r+")),
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "sa/api_names.py"), "w") as f:
    f.write('"""attribute names of modelled library types; written by tools/gen_api_names.py"""\nNAMES = {\n')
    for k, v in T.items():
        f.write(f"    {k!r}: frozenset({' '.join(sorted(set(dir(v))))!r}.split()),\n")
    f.write("}\n")
