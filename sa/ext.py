"""Models of xarray objects."""
from .poly import Poly, Sym
from .values import *
from . import arrays as A
from .models import model, MODELS, _U


class DataArrayObj(Obj):
    """xarray.DataArray: array, dimension names, attributes"""
    label = "DataArray"
    typename = "xarray.DataArray"

    def __init__(self, arr, dims, attrs, name=None):
        self.arr, self.dims, self.attrs, self.name = arr, tuple(dims), attrs, name
        self.source = None        # file the values are still to be read from

    def __repr__(self):
        return f"<DataArray {vrepr(self.name) if self.name is not None else ''}{self.dims}>"

    def _values(self, I, what):
        if self.source is not None:
            self.source.need(I, what)
        return self.arr

    def p_values(self, I):
        arr = self._values(I, "values")
        if isinstance(arr, A.ArrV) and arr.buf.typename != A.HOST:
            I.raise_(TypeError, "Implicit conversion to a NumPy array is not allowed.")
        return arr

    def p_data(self, I):
        return self._values(I, "data")

    def p_dims(self, I):
        return self.dims

    def p_attrs(self, I):
        return self.attrs

    def p_ndim(self, I):
        return len(self.dims)

    def p_shape(self, I):
        return self.arr.shape

    def p_size(self, I):
        return I.getattr(self.arr, "size")

    def p_dtype(self, I):
        return self.arr.buf.dtype

    def p_name(self, I):
        return self.name

    def p_sizes(self, I):
        return I.new(DictV([[d, n] for d, n in zip(self.dims, self.arr.shape)]))

    def derive(self, I, arr=None, dims=None):
        r = I.new(DataArrayObj(arr if arr is not None else self.arr, dims if dims is not None else self.dims,
                               I.new(DictV(self.attrs.entries, self.attrs.base)), self.name))
        r.source = self.source
        r.origin_da = getattr(self, "origin_da", self)
        return r

    def m_rename(self, I, new=None, **k):
        if new is None or isinstance(new, str):
            r = self.derive(I)
            if isinstance(new, str):
                r.name = new
            if not k:
                return r
            new = I.new(DictV([[a, b] for a, b in k.items()]))
        if not isinstance(new, DictV) or new.base is not None:
            raise _U("rename")
        m = {}
        for a, b in new.entries:
            if a not in self.dims:
                I.raise_(ValueError, f"cannot rename {a!r}: it is not a dimension")
            m[a] = b
        dims = tuple(m.get(d, d) for d in self.dims)
        if len(set(dims)) != len(dims):
            I.raise_(ValueError, "the new names conflict")
        return self.derive(I, dims=dims)

    def m_load(self, I):
        if self.source is not None:
            self.source.need(I, "load")
            self.source = None
        return self

    def m_compute(self, I):
        r = self.derive(I)
        return r.m_load(I)

    def m_copy(self, I, deep=True, data=None):
        if data is not None:
            return self.derive(I, arr=data)
        if deep and I.truth(deep):
            return self.deepcopy(I, {})
        return self.derive(I)

    def deepcopy(self, I, memo):
        r = self.derive(I, arr=A.copy_arr(I, self.arr) if isinstance(self.arr, A.ArrV) and self.source is None else self.arr)
        return r

    def m_transpose(self, I, *dims):
        order = [self.dims.index(d) for d in dims] if dims else list(range(len(self.dims)))[::-1]
        return self.derive(I, arr=A.transpose(I, self.arr, tuple(order)), dims=tuple(self.dims[i] for i in order))

    def m_isel(self, I, indexers=None, **k):
        if indexers is not None:
            k = {**{a: b for a, b in indexers.entries}, **k}
        idx = tuple(k.get(d, slice(None)) for d in self.dims)
        for d in k:
            if d not in self.dims:
                I.raise_(ValueError, f"dimension {d} does not exist")
        arr = A.getitem(I, self.arr, idx)
        return self.derive(I, arr=arr, dims=tuple(d for d in self.dims if isinstance(k.get(d, slice(None)), slice)))

    def m_drop_vars(self, I, *a, **k):
        return self.derive(I)

    def m_item(self, I):
        self._values(I, "item")
        h = I.hooks.get("da_item")
        if h:
            return h(I, self)
        return A.scalar_of(I, self.arr)

    def m_to_numpy(self, I):
        return self.p_values(I)

    def setattr(self, I, name, v):
        if name == "attrs":
            self.attrs = I.new(DictV(v.entries, v.base))
            return
        if name == "name":
            self.name = v
            return
        raise _U(f"assignment to DataArray.{name}")

    def getitem(self, I, i):
        return self.derive(I, arr=A.getitem(I, self.arr, i), dims=self.dims)

    def as_array(self, I):
        return self.p_values(I)


@model("xarray.DataArray")
def data_array(I, a, k):
    names = ("data", "coords", "dims", "name", "attrs")
    k = {**dict(zip(names, a)), **k}
    data = k.get("data", None)
    if data is None and "data" not in k:
        data = A.alloc(I, "nan", (), Term("dtype", ("float64",), {"nonnull": True}), content=None)
    if isinstance(data, DataArrayObj):
        data = data.arr
    if not isinstance(data, A.ArrV):
        data = A.asarray(I, data)
    if not isinstance(data, A.ArrV):
        raise _U(f"DataArray of {vrepr(data)}")
    dims = k.get("dims")
    if dims is None:
        dims = tuple(f"dim_{i}" for i in range(len(data.axes)))
    elif isinstance(dims, str):
        dims = (dims,)
    else:
        dims = tuple(I.items_of(dims))
    if len(dims) != len(data.axes):
        I.raise_(ValueError, "different number of dimensions on data and dims")
    attrs = k.get("attrs")
    if attrs is None:
        attrs = I.new(DictV())
    else:
        attrs = I.new(DictV(attrs.entries, attrs.base))
    return I.new(DataArrayObj(data, dims, attrs, k.get("name")))
