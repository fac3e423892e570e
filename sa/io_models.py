"""Models of files and calendar types: cftime, text files."""
from .poly import Poly, Sym
from .values import *
from .models import model, MODELS, _U

CALENDARS = {"Datetime360Day": "360_day", "DatetimeJulian": "julian", "DatetimeGregorian": "standard", "DatetimeNoLeap": "noleap",
             "DatetimeAllLeap": "all_leap", "DatetimeProlepticGregorian": "proleptic_gregorian"}
FIELDS = ("year", "month", "day", "hour", "minute", "second", "microsecond")


class CfTime(Obj):
    """a cftime date"""
    label = "cftime date"

    def __init__(self, cls, fields, calendar=None):
        self.typename = "cftime." + cls
        self.cls, self.fields = cls, tuple(fields)
        self.calendar = calendar if calendar is not None else CALENDARS.get(cls)

    @property
    def key(self):
        return ("cftime", self.cls, vkey(self.calendar) if self.calendar is not None else None) + tuple(vkey(f) for f in self.fields)

    def __repr__(self):
        return f"{self.cls}({', '.join(vrepr(f) for f in self.fields)})"

    def p_calendar(self, I):
        return self.calendar

    def eq(self, I, other):
        return isinstance(other, CfTime) and self.key == other.key

    def isinstance_(self, I, t):
        if isinstance(t, ExtV) and t.name.startswith("cftime."):
            return t.name in ("cftime.datetime", self.typename) or t.name == "cftime._cftime." + self.cls
        return None

    def getattr(self, I, name):
        if name in FIELDS:
            k = FIELDS.index(name)
            return self.fields[k] if k < len(self.fields) else 0
        return Obj.getattr(self, I, name)


def _cf(cls):
    def make(I, a, k):
        vals = dict(zip(FIELDS, a))
        for n, v in k.items():
            if n in FIELDS:
                if n in vals:
                    I.raise_(TypeError, f"multiple values for {n}")
                vals[n] = v
        for n in FIELDS[:3]:
            if n not in vals:
                I.raise_(TypeError, f"missing {n}")
        fields = [vals.get(n, 0) for n in FIELDS]
        cal = None
        if cls == "datetime":
            cal = k.get("calendar", "standard")
        return I.new(CfTime(cls, fields[:6] if vals.get("microsecond", 0) == 0 else fields, cal))
    return make


for _c in list(CALENDARS) + ["datetime"]:
    MODELS["cftime." + _c] = _cf(_c)


@model("cftime.date2num")
def date2num(I, a, k):
    args = dict(zip(("dates", "units", "calendar"), a))
    args.update(k)
    I.event("date2num", **{n: args.get(n) for n in ("dates", "units", "calendar")})
    return Term("date2num", tuple(I.freeze(args.get(n)) for n in ("dates", "units", "calendar")), {"nonnull": True})


class Line(Obj):
    """a line of text made of blank-separated tokens"""
    label = "line"
    typename = "builtins.str"

    def __init__(self, tokens, name):
        self.tokens, self.name = list(tokens), name

    @property
    def key(self):
        return ("line", self.name) + tuple(vkey(t) for t in self.tokens)

    def m_split(self, I, sep=None, maxsplit=-1):
        if sep not in (None,):
            raise _U("split at a separator")
        return I.new(ListV(list(self.tokens) if maxsplit < 0 else self.tokens[:maxsplit] + [Term("rest", (self.name, maxsplit), {"kind": "str"})]))

    def m_strip(self, I, *a):
        return self

    m_rstrip = m_lstrip = m_strip

    def truth(self, I):
        return True


class TextFile(Obj):
    """text file open for reading"""
    label = "text file"
    typename = "io.TextIOWrapper"

    def __init__(self, lines, on_read=None):
        self.lines, self.pos, self.on_read = lines, 0, on_read

    def read_event(self, I):
        if self.on_read:
            self.on_read(I)

    def m_readline(self, I, *a):
        self.read_event(I)
        if self.pos >= len(self.lines):
            return ""
        self.pos += 1
        return self.lines[self.pos - 1]

    def next(self, I):
        r = self.m_readline(I)
        if r == "":
            I.raise_(StopIteration, "")
        return r

    def m_readlines(self, I, *a):
        self.read_event(I)
        r = I.new(ListV(self.lines[self.pos:]))
        self.pos = len(self.lines)
        return r

    def m_read(self, I, *a):
        return I.new(WholeText(self.m_readlines(I).items))

    def iter(self, I):
        return self.m_readlines(I).items

    def m_close(self, I):
        I.event("close", file=self)


class WholeText(Obj):
    label = "text"
    typename = "builtins.str"

    def __init__(self, lines):
        self.lines = lines

    def m_splitlines(self, I, keepends=False):
        return I.new(ListV(list(self.lines)))

    def m_split(self, I, sep=None, maxsplit=-1):
        if sep == "\n":
            return self.m_splitlines(I)
        if sep is None and maxsplit < 0:
            return I.new(ListV([t for l in self.lines for t in l.tokens]))
        raise _U("split of a text")

    def m_strip(self, I, *a):
        return self


# ------------------------------------------------------------------- files
class FileObj(TextFile):
    """open file of a file system; `lines` for text, `dataset` for netCDF"""
    label = "file"
    typename = "fsspec.file"

    def __init__(self, path, mode, lines=None, dataset=None):
        TextFile.__init__(self, lines if lines is not None else [])
        self.path, self.mode, self.dataset = path, mode, dataset
        self.closed = False

    def __repr__(self):
        return f"<file {vrepr(self.path)}>"

    def need(self, I, what):
        """the contents are read now"""
        I.event("fileread", file=self, what=what, closed=self.closed)
        if self.closed:
            I.raise_(ValueError, "I/O operation on closed file")
        if I.inject:
            I.inject(I, f"read {vrepr(self.path)}")

    read_event = lambda self, I: self.need(I, "text")

    def m___enter__(self, I):
        return self

    def m___exit__(self, I, *a):
        self.m_close(I)

    def m_close(self, I):
        if not self.closed:
            self.closed = True
            I.event("close", file=self)

    def p_closed(self, I):
        return self.closed

    def p_name(self, I):
        return self.path

    def m_flush(self, I):
        return None

    def m_write(self, I, data):
        I.event("filewrite", file=self, what=data)


class FsObj(Obj):
    """file system of a path"""
    label = "fs"
    typename = "fsspec.AbstractFileSystem"

    def __init__(self, path):
        self.path = path

    def m_isfile(self, I, path):
        I.event("isfile", path=path)
        return exists(I, path, "isfile")

    def m_exists(self, I, path, **k):
        I.event("isfile", path=path)
        return exists(I, path, "exists")

    m_lexists = m_exists

    def m_open(self, I, path, mode="rb", **k):
        return open_file(I, path, mode)


def exists(I, path, how):
    h = I.hooks.get("exists")
    if h:
        return h(I, path, how)
    return I.choose(("file", vkey(path)), f"{vrepr(path)} exists")


def open_file(I, path, mode):
    if I.inject:
        I.inject(I, f"open {vrepr(path)}")
    h = I.hooks.get("file")
    f = h(I, path, mode) if h else None
    if f is None:
        f = I.new(FileObj(path, mode))
    I.event("open", file=f, path=path, mode=mode)
    return f


@model("fsspec.get_fs_token_paths")
def get_fs_token_paths(I, a, k):
    return (I.new(FsObj(a[0])), Term("token", (a[0],), {"nonnull": True}), I.new(ListV([a[0]])))


@model("fsspec.core.url_to_fs", "fsspec.url_to_fs")
def url_to_fs(I, a, k):
    return (I.new(FsObj(a[0])), a[0])


class OpenFile(Obj):
    label = "fsspec.open"

    def __init__(self, path, mode):
        self.path, self.mode, self.f = path, mode, None

    def m___enter__(self, I):
        self.f = open_file(I, self.path, self.mode)
        return self.f

    def m___exit__(self, I, *a):
        self.f.m_close(I)

    def m_open(self, I):
        return self.m___enter__(I)


@model("fsspec.open")
def fsspec_open(I, a, k):
    return I.new(OpenFile(a[0], a[1] if len(a) > 1 else k.get("mode", "rb")))


@model("builtins.open", "io.open")
def builtin_open(I, a, k):
    f = open_file(I, a[0], a[1] if len(a) > 1 else k.get("mode", "r"))
    f.local = True
    return f


@model("os.path.exists", "os.path.isfile", "os.path.lexists")
def path_exists(I, a, k):
    I.event("isfile", path=a[0])
    return exists(I, a[0], "local")


# ---------------------------------------------------------------- zarr
class Store:
    """one array of an archive, shared by the handles of all ranks"""

    def __init__(self, name, shape, dtype, chunks, fill):
        self.name, self.shape, self.dtype, self.chunks, self.fill = name, tuple(shape), dtype, chunks, fill
        self.attrs = {}


class ZAttrs(Obj):
    label = "zarr attributes"
    typename = "zarr.attrs.Attributes"

    def __init__(self, owner):
        self.owner = owner

    def put(self, I, k, v):
        I.event("zarr", op="attrs", store=self.owner.store, name=k, value=v)
        self.owner.store.attrs[k] = I.M.deepcopy(I, v)

    def setitem(self, I, k, v):
        self.put(I, k, v)

    def getitem(self, I, k):
        if k not in self.owner.store.attrs:
            I.raise_(KeyError, k)
        return self.owner.store.attrs[k]

    def m_update(self, I, *a, **k):
        for d in a:
            if not isinstance(d, DictV) or d.base is not None:
                raise _U("attributes of an unknown mapping")
            for x, y in d.entries:
                self.put(I, x, y)
        for x, y in k.items():
            self.put(I, x, y)

    def m_put(self, I, d):
        self.owner.store.attrs.clear()
        self.m_update(I, d)

    def m_asdict(self, I):
        return I.new(DictV([[a, b] for a, b in self.owner.store.attrs.items()]))

    def m_get(self, I, k, d=None):
        return self.owner.store.attrs.get(k, d)

    def contains(self, I, k):
        return k in self.owner.store.attrs

    def m_keys(self, I):
        return I.new(ListV(list(self.owner.store.attrs)))

    def m_items(self, I):
        return I.new(ListV([(a, b) for a, b in self.owner.store.attrs.items()]))


class ZArr(Obj):
    """handle of a zarr array: remembers the shape it had when it was made"""
    label = "zarr array"
    typename = "zarr.core.Array"

    def __init__(self, store, shape=None):
        self.store = store
        self.shape = tuple(shape if shape is not None else store.shape)

    def __repr__(self):
        return f"<zarr {vrepr(self.store.name)}{vrepr(self.shape)}>"

    def snapshot(self, I):
        """what another process receives when the handle is sent to it now"""
        return I.new(ZArr(self.store))

    def deepcopy(self, I, memo):
        return I.new(ZArr(self.store, self.shape))

    def p_shape(self, I):
        return self.shape

    def p_ndim(self, I):
        return len(self.shape)

    def p_dtype(self, I):
        return self.store.dtype

    def p_chunks(self, I):
        return self.store.chunks

    def p_attrs(self, I):
        return I.new(ZAttrs(self))

    def p_name(self, I):
        return self.store.name

    def length(self, I):
        return self.shape[0]

    def m_resize(self, I, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, ListV)):
            shape = I.items_of(shape[0])
        if len(shape) != len(self.shape):
            I.raise_(ValueError, "new shape must have same number of dimensions")
        if I.inject:
            I.inject(I, "zarr.resize")
        I.event("zarr", op="resize", store=self.store, shape=tuple(shape))
        self.shape = self.store.shape = tuple(shape)

    def m_append(self, I, data, axis=0):
        raise _U("zarr append")

    def select(self, I, sel):
        """[(start, length) or index] per dimension"""
        sel = sel if isinstance(sel, tuple) else (sel,)
        if any(x is Ellipsis for x in sel):
            k = sel.index(Ellipsis)
            sel = sel[:k] + (slice(None),) * (len(self.shape) - len(sel) + 1) + sel[k + 1:]
        if len(sel) > len(self.shape):
            I.raise_(IndexError, "too many indices for array")
        sel = sel + (slice(None),) * (len(self.shape) - len(sel))
        out = []
        for x, n in zip(sel, self.shape):
            if isinstance(x, slice):
                if x.step not in (None, 1):
                    raise _U("zarr step")
                lo, hi = (0 if x.start is None else x.start), (n if x.stop is None else x.stop)
                # zarr clips like Python does
                if I.truth(I.compare("Gt", hi, n)):
                    hi = n
                if I.truth(I.compare("Lt", lo, 0)) or I.truth(I.compare("Lt", hi, 0)):
                    raise _U("negative zarr index")
                out.append((lo, mk(to_poly(hi) - to_poly(lo))))
            else:
                if to_poly(x) is None:
                    raise _U(f"zarr index {vrepr(x)}")
                if I.truth(I.compare("GtE", x, n)) or I.truth(I.compare("Lt", x, mk(-to_poly(n)))):
                    I.raise_(IndexError, "index out of bounds")
                if I.truth(I.compare("Lt", x, 0)):
                    x = mk(to_poly(x) + to_poly(n))
                out.append(x)
        return out

    def setitem(self, I, i, v):
        if I.inject:
            I.inject(I, "zarr.write")
        h = I.hooks.get("zarr_value")
        if h:
            h(I, self, v)
        s = self.select(I, i)
        A = I.A
        if isinstance(v, A.ArrV):
            want = [x[1] for x in s if isinstance(x, tuple)]
            have = list(v.shape)
            if len(have) > len(want):
                I.raise_(ValueError, "value has too many dimensions")
            if have and (len(have) != len(want) or not all(I.eq(a, b) for a, b in zip(want, have))):
                I.raise_(ValueError, "parameter value: expected array with another shape")
        I.event("zarr", op="write", store=self.store, region=tuple(s), value=v, content=A.content_of(I, v) if isinstance(v, A.ArrV) else v, shape=self.store.shape)

    def getitem(self, I, i):
        raise _U("read of a zarr array")


class GroupObj(Obj):
    label = "zarr group"
    typename = "zarr.hierarchy.Group"

    def __init__(self, arrays=None):
        self.arrays = arrays if arrays is not None else {}

    def snapshot(self, I):
        return I.new(GroupObj(self.arrays))

    def deepcopy(self, I, memo):
        return I.new(GroupObj(self.arrays))

    def make(self, I, name, shape, dtype=None, chunks=None, fill=None, overwrite=False):
        if I.inject:
            I.inject(I, "zarr.create")
        if name in self.arrays and not overwrite:
            I.event("zarr", op="collide", store=self.arrays[name].store, name=name)
            I.raise_(ValueError, f"path {name!r} contains an array")
        if not isinstance(shape, (tuple, ListV)):
            shape = (shape,)
        shape = tuple(I.items_of(shape))
        chunks = tuple(I.items_of(chunks)) if isinstance(chunks, (tuple, ListV)) else chunks
        z = I.new(ZArr(Store(name, shape, dtype, chunks, fill)))
        self.arrays[name] = z
        I.event("zarr", op="create", store=z.store, name=name, shape=shape, dtype=dtype, chunks=chunks)
        return z

    def m_create_dataset(self, I, name, shape=None, dtype=None, chunks=True, fill_value=0, overwrite=False, **k):
        return self.make(I, name, shape, dtype, chunks, fill_value, overwrite)

    m_create = m_create_dataset

    def m_zeros(self, I, name, **k):
        return self.m_create_dataset(I, name, **{"fill_value": 0, **k})

    m_empty = m_zeros

    def m_require_dataset(self, I, name, **k):
        if name in self.arrays:
            return self.arrays[name]
        return self.m_create_dataset(I, name, **k)

    def getitem(self, I, k):
        if k not in self.arrays:
            I.raise_(KeyError, k)
        return I.new(ZArr(self.arrays[k].store))

    def contains(self, I, k):
        return k in self.arrays

    def p_attrs(self, I):
        return Term("group.attrs", (), {"nonnull": True})


@model("zarr.open_group", "zarr.hierarchy.open_group")
def open_group(I, a, k):
    args = dict(zip(("store", "mode"), a))
    args.update(k)
    if I.inject:
        I.inject(I, "zarr.open_group")
    g = I.new(GroupObj())
    I.event("zarr", op="open", store=None, args=args)
    return g


# -------------------------------------------------------------- xarray datasets
def _ext():
    from . import ext
    return ext


class Scalar0(Obj):
    """0-dimensional DataArray around a Python object"""
    label = "DataArray"
    typename = "xarray.DataArray"

    def __init__(self, value, attrs):
        self.value, self.attrs, self.source, self.dims = value, attrs, None, ()

    def p_ndim(self, I):
        return 0

    def p_dims(self, I):
        return ()

    def p_shape(self, I):
        return ()

    def p_size(self, I):
        return 1

    def p_sizes(self, I):
        return I.new(DictV([]))

    def p_attrs(self, I):
        return self.attrs

    def m_item(self, I):
        if self.source is not None:
            self.source.need(I, "item")
        return self.value

    def m_load(self, I):
        if self.source is not None:
            self.source.need(I, "load")
            self.source = None
        return self

    def p_values(self, I):
        if self.source is not None:
            self.source.need(I, "values")
        return self.value


class DatasetObj(Obj):
    label = "Dataset"
    typename = "xarray.Dataset"

    def __init__(self, vars, coords=None, source=None):
        self.vars, self.coords, self.source = dict(vars), dict(coords or {}), source

    def __repr__(self):
        return f"<Dataset {sorted(map(vrepr, self.vars))}>"

    def p_data_vars(self, I):
        return I.new(DictV([[k, v] for k, v in self.vars.items()]))

    def p_coords(self, I):
        return I.new(DictV([[k, v] for k, v in self.coords.items()]))

    def p_variables(self, I):
        return I.new(DictV([[k, v] for k, v in {**self.vars, **self.coords}.items()]))

    def sizes(self, I):
        out = {}
        for v in list(self.vars.values()) + list(self.coords.values()):
            if not isinstance(v, Scalar0):
                for d, n in zip(v.dims, v.arr.shape):
                    out.setdefault(d, n)
        return out

    def p_dims(self, I):
        return I.new(DictV([[k, v] for k, v in self.sizes(I).items()]))

    p_sizes = p_dims

    def m_isel(self, I, indexers=None, drop=False, missing_dims="raise", **k):
        if indexers is not None:
            k = {**{a: b for a, b in indexers.entries}, **k}
        have = self.sizes(I)
        for d in k:
            if d not in have and missing_dims == "raise":
                I.raise_(ValueError, f"Dimensions {{{d!r}}} do not exist")

        def one(v):
            if isinstance(v, Scalar0):
                return v
            kk = {d: x for d, x in k.items() if d in v.dims}
            return v.m_isel(I, **kk) if kk else v
        return self.derive(I, {n: one(v) for n, v in self.vars.items()},
                           {n: one(v) for n, v in self.coords.items() if not (drop and n in k)})

    def m_squeeze(self, I, dim=None, drop=False):
        if dim is None:
            raise _U("squeeze of every dimension")
        if not I.eq(self.sizes(I).get(dim), 1):
            I.raise_(ValueError, "cannot select a dimension to squeeze out which has length not equal to one")
        return self.m_isel(I, drop=drop, **{dim: 0})

    def derive(self, I, vars, coords):
        return I.new(DatasetObj(vars, coords, self.source))

    def m_drop_vars(self, I, names, errors="raise"):
        names = [names] if isinstance(names, str) else I.items_of(names)
        for n in names:
            if n not in self.vars and n not in self.coords and errors == "raise":
                I.raise_(ValueError, f"variable {n!r} cannot be found in this dataset")
        return self.derive(I, {k: v for k, v in self.vars.items() if k not in names}, {k: v for k, v in self.coords.items() if k not in names})

    m_drop = m_drop_vars

    def m_load(self, I):
        for v in self.vars.values():
            v.m_load(I)
        return self

    def m_compute(self, I):
        return self.derive(I, {k: v.m_compute(I) for k, v in self.vars.items()}, self.coords)

    def m_copy(self, I, deep=False):
        return self.derive(I, self.vars, self.coords)

    def m_close(self, I):
        if self.source is not None:
            self.source.m_close(I)

    def m___enter__(self, I):
        return self

    def m___exit__(self, I, *a):
        self.m_close(I)

    def m_keys(self, I):
        return I.new(ListV(list(self.vars)))

    def m_items(self, I):
        return I.new(ListV([(k, v) for k, v in self.vars.items()]))

    def m_values(self, I):
        return I.new(ListV(list(self.vars.values())))

    def iter(self, I):
        return list(self.vars)

    def contains(self, I, k):
        return k in self.vars or k in self.coords

    def getitem(self, I, k):
        if isinstance(k, ListV):
            return self.derive(I, {n: self.getitem(I, n) for n in k.items}, self.coords)
        if k in self.vars:
            return self.vars[k]
        if k in self.coords:
            return self.coords[k]
        I.raise_(KeyError, k)

    def m_rename(self, I, names=None, **k):
        m = {**({a: b for a, b in names.entries} if names is not None else {}), **k}
        for n in m:
            if n not in self.vars and n not in self.coords and n not in self.sizes(I):
                I.raise_(ValueError, f"cannot rename {n!r}")
        vs = {}
        for n, v in self.vars.items():
            kk = I.new(DictV([[d, m[d]] for d in getattr(v, "dims", ()) if d in m]))
            vs[m.get(n, n)] = v.m_rename(I, kk) if kk.entries else v
        return self.derive(I, vs, {m.get(n, n): v for n, v in self.coords.items()})

    def m_to_netcdf(self, I, path=None, *a, **k):
        if I.inject:
            I.inject(I, "to_netcdf")
        if isinstance(path, FileObj) and path.closed:
            I.raise_(ValueError, "I/O operation on closed file")
        I.event("to_netcdf", dataset=self, target=path, kwargs=dict(k))


@model("xarray.open_dataset")
def open_dataset(I, a, k):
    f = a[0] if a else k.get("filename_or_obj")
    if not isinstance(f, FileObj):
        raise _U(f"open_dataset({vrepr(f)})")
    if f.dataset is None:
        raise _U("file without a dataset")
    I.event("open_dataset", file=f, kwargs={x: y for x, y in k.items()})
    f.need(I, "header")
    vs, cs = f.dataset
    ds = I.new(DatasetObj(vs, cs, f))
    for v in list(ds.vars.values()) + list(ds.coords.values()):
        v.source = f
    return ds


@model("xarray.load_dataset")
def load_dataset(I, a, k):
    return open_dataset(I, a, k).m_load(I)


@model("xarray.Dataset")
def dataset(I, a, k):
    args = dict(zip(("data_vars", "coords", "attrs"), a))
    args.update(k)
    X = _ext()
    if I.inject:
        I.inject(I, "Dataset")
    d = args.get("data_vars")
    sizes, out = {}, {}
    if d is not None:
        if not isinstance(d, DictV) or d.base is not None or any(isinstance(e[0], Rep) for e in d.entries):
            raise _U("Dataset of an unknown mapping")
        for n, v in d.entries:
            if isinstance(v, tuple):
                v = X.data_array(I, [v[1]], {"dims": v[0], **({"attrs": v[2]} if len(v) > 2 else {})})
            if isinstance(v, X.DataArrayObj):
                for dim, ln in zip(v.dims, v.arr.shape):
                    if dim in sizes and not I.eq(sizes[dim], ln):
                        I.raise_(ValueError, f"conflicting sizes for dimension {dim!r}")
                    sizes.setdefault(dim, ln)
                out[n] = v
            elif isinstance(v, (Scalar0,)):
                out[n] = v
            else:
                out[n] = I.new(Scalar0(v, I.new(DictV())))
    return I.new(DatasetObj(out, {}))
