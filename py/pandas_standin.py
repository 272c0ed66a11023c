"""The part of pandas the repository uses, on numpy; pandas itself is not installed.

Everything keeps an index and aligns on it as pandas does. What is not implemented raises
Unsupported, which a check takes for "cannot tell", never for a violation.
"""
import csv
import datetime
import gzip
import io
import keyword

import numpy as np


class Unsupported(Exception):
    """The code uses a part of pandas that is not implemented here."""


# Names which exist in pandas and are not implemented here.
REAL = set("""abs add agg aggregate align all any append apply applymap array asfreq assign astype at axes backfill between bfill bool boxplot clip combine
combine_first compare convert_dtypes corr count cov cummax cummin cumprod cumsum describe diff div divide dot drop drop_duplicates droplevel dropna
dt duplicated empty eq equals eval ewm expanding explode factorize ffill fillna filter first floordiv ge get groupby gt hasnans head hist iat idxmax
idxmin infer_objects info insert interpolate is_unique isin isna isnull item items iteritems iterrows itertuples join keys kurt last le loc lookup lt
mask max mean median melt memory_usage merge min mode mul multiply name nbytes ndim ne nlargest notna notnull nsmallest nunique pct_change pipe
pivot pivot_table plot pop pow prod product quantile query radd rank ravel rename repeat replace resample rolling round sample select_dtypes sem
set_index shift skew slice sort_index sort_values squeeze stack std str sub subtract sum swapaxes T tail take to_clipboard to_csv to_dict to_excel to_frame
to_hdf to_html to_json to_latex to_list to_markdown to_numpy to_parquet to_pickle to_records to_sql to_string transform transpose truncate unique
unstack update value_counts values var view where xs""".split())


class StringDtype:
    pass


class Timestamp(datetime.datetime):
    pass


def array(values):
    """The column pandas would make of some values."""
    if isinstance(values, np.ndarray):
        return values.copy()
    values = list(values)
    kinds = {type(v) for v in values}
    kinds = {bool if issubclass(k, (bool, np.bool_)) else int if issubclass(k, (int, np.integer)) else float if issubclass(k, (float, np.floating)) else k for k in kinds}
    if not kinds:
        return np.array([], dtype=object)
    if all(issubclass(k, datetime.datetime) for k in kinds):
        return np.array(values, dtype="datetime64[s]")
    if kinds == {bool}:
        return np.array(values, dtype=bool)
    if kinds == {int}:
        try:
            return np.array(values, dtype=np.int64)
        except OverflowError:
            pass
    elif kinds <= {int, float, type(None)} and float in kinds:
        return np.array([np.nan if v is None else v for v in values], dtype=np.float64)
    res = np.empty(len(values), dtype=object)
    res[:] = values
    return res


def missing(v):
    return v is None or isinstance(v, float) and v != v


def native(a):
    return a.tolist()


class Index:
    def __init__(self, labels, name=None):
        self.labels, self.name = list(labels), name

    def __len__(self):
        return len(self.labels)

    def __iter__(self):
        return iter(self.labels)

    def __contains__(self, x):
        return x in self.labels

    def __getitem__(self, i):
        return Index(self.labels[i], self.name) if isinstance(i, slice) else self.labels[i]

    def __eq__(self, other):
        return np.array([a == b for a, b in zip(self.labels, other)])

    def tolist(self):
        return list(self.labels)

    to_list = tolist

    def __getattr__(self, name):
        if name.startswith("__") or name not in REAL:
            raise AttributeError(name)
        raise Unsupported("Index." + name)


def positions(labels):
    res = {}
    for i, x in enumerate(labels):
        res.setdefault(x, []).append(i)
    return res


class Series:
    def __init__(self, data=(), index=None, name=None):
        if isinstance(data, dict):
            index, data = list(data.keys()), list(data.values())
        self.a = data.a.copy() if isinstance(data, Series) else array(data)
        self.index = index if isinstance(index, Index) else Index(range(len(self.a)) if index is None else index)
        if isinstance(data, Series) and index is None:
            self.index = data.index
        self.name = name

    def made(self, a, index=None, name=None):
        return Series(a, self.index if index is None else index, self.name if name is None else name)

    dtype = property(lambda self: self.a.dtype)
    values = property(lambda self: self.a)
    shape = property(lambda self: self.a.shape)
    size = property(lambda self: len(self.a))
    empty = property(lambda self: len(self.a) == 0)

    def __len__(self):
        return len(self.a)

    def __iter__(self):
        return iter(native(self.a))

    def __contains__(self, x):
        return x in self.index

    def __array__(self, dtype=None, copy=None):
        return np.array(self.a, dtype=dtype)

    def __getitem__(self, k):
        if isinstance(k, Series) and k.dtype == bool:
            k = k.a
        if isinstance(k, np.ndarray) and k.dtype == bool:
            return self.made(self.a[k], Index([x for x, m in zip(self.index, k) if m], self.index.name))
        if isinstance(k, (list, np.ndarray, slice, Series)):
            raise Unsupported("Series[...]")
        at = positions(self.index).get(k)
        if at is None:
            raise KeyError(k)
        if len(at) > 1:
            return self.made(self.a[at], Index([k] * len(at)))
        return self.a[at[0]]

    def binary(self, other, op):
        if isinstance(other, Frame):
            raise Unsupported("Series with DataFrame")
        if isinstance(other, Series):
            if other.index.labels != self.index.labels:
                return self.aligned(other, op)
            other = other.a
        elif isinstance(other, (list, tuple)):
            other = array(other)
        if isinstance(other, np.ndarray) and len(other) != len(self.a):
            raise ValueError("lengths differ")
        with np.errstate(all="ignore"):
            if self.a.dtype == object or isinstance(other, np.ndarray) and other.dtype == object:
                others = other.tolist() if isinstance(other, np.ndarray) else [other] * len(self.a)
                res = self.made(array([op(x, y) for x, y in zip(native(self.a), others)]))
                return res
            return self.made(np.asarray(op(self.a, other)))

    def aligned(self, other, op):
        mine, theirs = positions(self.index), positions(other.index)
        if any(len(v) > 1 for v in list(mine.values()) + list(theirs.values())):
            raise Unsupported("alignment with repeated labels")
        labels = list(self.index.labels) if set(mine) >= set(theirs) else sorted(set(mine) | set(theirs))
        res = []
        for x in labels:
            res.append(op(native(self.a)[mine[x][0]], native(other.a)[theirs[x][0]]) if x in mine and x in theirs else float("nan"))
        return Series(res, labels, self.name)

    def __add__(self, o):
        return self.binary(o, lambda x, y: x + y)

    def __radd__(self, o):
        return self.binary(o, lambda x, y: y + x)

    def __sub__(self, o):
        return self.binary(o, lambda x, y: x - y)

    def __rsub__(self, o):
        return self.binary(o, lambda x, y: y - x)

    def __mul__(self, o):
        return self.binary(o, lambda x, y: x * y)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.binary(o, lambda x, y: x / y)

    def __rtruediv__(self, o):
        return self.binary(o, lambda x, y: y / x)

    def __floordiv__(self, o):
        return self.binary(o, lambda x, y: x // y)

    def __mod__(self, o):
        return self.binary(o, lambda x, y: x % y)

    def __pow__(self, o):
        return self.binary(o, lambda x, y: x ** y)

    def __neg__(self):
        return self.made(-self.a)

    def __invert__(self):
        return self.made(~self.a)

    def __and__(self, o):
        return self.binary(o, lambda x, y: x & y)

    __rand__ = __and__

    def __or__(self, o):
        return self.binary(o, lambda x, y: x | y)

    __ror__ = __or__

    def __eq__(self, o):
        return self.binary(o, lambda x, y: x == y)

    def __ne__(self, o):
        return self.binary(o, lambda x, y: x != y)

    def __lt__(self, o):
        return self.binary(o, lambda x, y: x < y)

    def __le__(self, o):
        return self.binary(o, lambda x, y: x <= y)

    def __gt__(self, o):
        return self.binary(o, lambda x, y: x > y)

    def __ge__(self, o):
        return self.binary(o, lambda x, y: x >= y)

    __hash__ = None
    eq, ne, lt, le, gt, ge = __eq__, __ne__, __lt__, __le__, __gt__, __ge__
    add, sub, mul, div, truediv = __add__, __sub__, __mul__, __truediv__, __truediv__

    def __bool__(self):
        raise ValueError("The truth value of a Series is ambiguous.")

    def present(self):
        return np.array([v for v in native(self.a) if not missing(v)]) if self.a.dtype.kind in "fO" else self.a

    def reduce(self, f, none):
        a = self.present()
        if len(a) == 0:
            return none
        with np.errstate(all="ignore"):
            return f(a)

    def sum(self):
        return self.reduce(np.sum, 0)

    def mean(self):
        return self.reduce(lambda a: np.float64(np.mean(a)), np.nan)

    def max(self):
        return self.reduce(np.max, np.nan)

    def min(self):
        return self.reduce(np.min, np.nan)

    def std(self, ddof=1):
        return self.reduce(lambda a: np.std(a, ddof=ddof) if len(a) > ddof else np.nan, np.nan)

    def median(self):
        return self.reduce(np.median, np.nan)

    def quantile(self, q=0.5):
        return self.reduce(lambda a: np.quantile(a, q), np.nan)

    def count(self):
        return len(self.present())

    def any(self):
        return bool(np.any(self.a))

    def all(self):
        return bool(np.all(self.a))

    def cumsum(self):
        return self.made(np.cumsum(self.a))

    def to_list(self):
        return native(self.a)

    tolist = to_list

    def to_numpy(self, *a, **k):
        return self.a.copy()

    def copy(self, deep=True):
        return self.made(self.a.copy())

    def astype(self, t):
        if t is int and self.a.dtype.kind in "fO" and any(missing(v) for v in native(self.a)):
            raise ValueError("Cannot convert non-finite values (NA or inf) to integer")
        if t in (str, "str"):
            return self.made(array([str(v) for v in native(self.a)]))
        if isinstance(t, str) and t.startswith("datetime"):
            raise Unsupported("astype " + t)
        return self.made(self.a.astype(np.int64 if t is int else t))

    def apply(self, f, *args, **kw):
        if args or kw:
            raise Unsupported("Series.apply with arguments")
        return self.made(array([f(v) for v in native(self.a)]))

    def map(self, f, *args, **kw):
        if args or kw:
            raise Unsupported("Series.map with arguments")
        if isinstance(f, dict):
            return self.made(array([f.get(v, float("nan")) for v in native(self.a)]))
        return self.apply(f)

    def unique(self):
        seen = []
        done = set()
        for v in native(self.a):
            key = "nan" if missing(v) else (v,)
            if key not in done:
                done.add(key)
                seen.append(v)
        return array(seen).astype(self.a.dtype)

    def nunique(self):
        return len([v for v in native(self.unique()) if not missing(v)])

    def value_counts(self, *a, **kw):
        if a or kw:
            raise Unsupported("value_counts with arguments")
        counts = {}
        for v in native(self.a):
            if not missing(v):
                counts[v] = counts.get(v, 0) + 1
        items = sorted(counts.items(), key=lambda x: -x[1])
        return Series(np.array([c for _, c in items], dtype=np.int64), [v for v, _ in items], self.name)

    def duplicated(self, keep="first"):
        vals = native(self.a)
        if keep is False:
            return self.made(np.array([vals.count(v) > 1 for v in vals], dtype=bool))
        if keep == "first":
            return self.made(np.array([v in vals[:i] for i, v in enumerate(vals)], dtype=bool))
        return self.made(np.array([v in vals[i + 1:] for i, v in enumerate(vals)], dtype=bool))

    def isin(self, values):
        values = list(values)
        return self.made(np.array([v in values for v in native(self.a)], dtype=bool))

    def isna(self):
        return self.made(np.array([missing(v) for v in native(self.a)], dtype=bool))

    isnull = isna

    def notna(self):
        return self.made(np.array([not missing(v) for v in native(self.a)], dtype=bool))

    notnull = notna

    def fillna(self, value):
        return self.made(array([value if missing(v) else v for v in native(self.a)]))

    def items(self):
        return zip(self.index, native(self.a))

    iteritems = items

    def round(self, n=0):
        return self.made(np.round(self.a, n)) if self.a.dtype.kind in "f" else self.copy()

    def to_dict(self):
        return dict(self.items())

    def get(self, key, default=None):
        return self[key] if key in self else default

    def keys(self):
        return self.index

    def sort_index(self, ascending=True):
        order = rank(list(self.index), ascending, range(len(self.a)))
        return self.made(self.a[order] if len(order) else self.a[:0], Index([self.index[i] for i in order], self.index.name))

    def head(self, n=5):
        return self.made(self.a[:n], self.index[:n])

    def reset_index(self, drop=False):
        if not drop:
            if isinstance(self.index.name, tuple):
                raise Unsupported("Series.reset_index")
            return Frame({self.index.name or "index": array(self.index.labels), self.name or 0: self.a.copy()})
        return Series(self.a, None, self.name)

    def rename(self, name=None, **kw):
        if kw or not (name is None or isinstance(name, str)):
            raise Unsupported("Series.rename")
        res = self.copy()
        res.name = name
        return res

    def groupby(self, by, **kw):
        if kw or not isinstance(self.index.name, tuple) or by not in self.index.name:
            raise Unsupported("Series.groupby")
        n = self.index.name.index(by)
        return GroupedValues(array([x[n] for x in self.index]), self.a, by, self.name)

    def plot(self, *args, **kw):
        if args or plot_hook is None:
            raise Unsupported("Series.plot")
        return plot_hook(self, kw)

    def sort_values(self, ascending=True):
        order = rank(native(self.a), ascending, range(len(self.a)))
        return self.made(self.a[order], Index([self.index[i] for i in order]))

    @property
    def str(self):
        return Text(self)

    @property
    def dt(self):
        return Dates(self)

    @property
    def iloc(self):
        outer = self

        class At:
            def __getitem__(self, k):
                if isinstance(k, slice):
                    return outer.made(outer.a[k], outer.index[k])
                if not isinstance(k, (int, np.integer)):
                    raise Unsupported("Series.iloc")
                return outer.a[k]
        return At()

    def __getattr__(self, name):
        if name.startswith("__") or name not in REAL:
            raise AttributeError(name)
        raise Unsupported("Series." + name)


class Text:
    def __init__(self, series):
        if series.a.dtype != object:
            raise AttributeError("Can only use .str accessor with string values!")
        self.s = series

    def contains(self, pat, case=True, regex=True, na=None):
        import re
        if not regex:
            pat = re.escape(pat)
        r = re.compile(pat, 0 if case else re.I)
        return self.s.made(array([float("nan") if missing(v) else bool(r.search(v)) for v in native(self.s.a)]) if len(self.s) else np.array([], dtype=bool))

    def lower(self):
        return self.s.apply(lambda v: v.lower())

    def upper(self):
        return self.s.apply(lambda v: v.upper())

    def startswith(self, x):
        return self.s.apply(lambda v: v.startswith(x))

    def endswith(self, x):
        return self.s.apply(lambda v: v.endswith(x))

    def split(self, pat=None, n=-1):
        return self.s.apply(lambda v: v.split(pat, n))

    def strip(self):
        return self.s.apply(lambda v: v.strip())

    def __getitem__(self, i):
        return self.s.apply(lambda v: v[i] if -len(v) <= i < len(v) else float("nan"))

    def get(self, i):
        return self[i]

    def __getattr__(self, name):
        raise Unsupported("Series.str." + name)


class Dates:
    def __init__(self, series):
        self.s = series

    day = property(lambda self: self.s.apply(lambda v: v.day))
    month = property(lambda self: self.s.apply(lambda v: v.month))
    year = property(lambda self: self.s.apply(lambda v: v.year))
    week = property(lambda self: self.s.apply(lambda v: v.isocalendar()[1]))
    weekofyear = week

    def __getattr__(self, name):
        raise Unsupported("Series.dt." + name)


def rank(values, ascending, order):
    """Positions in stable order of the values, missing ones last."""
    order = list(order)
    there = [i for i in order if not missing(values[i])]
    gone = [i for i in order if missing(values[i])]
    if ascending:
        there.sort(key=lambda i: values[i])
    else:  # stable although it is reversed
        there = list(reversed(sorted(reversed(there), key=lambda i: values[i])))
    return there + gone


class Frame:
    def __init__(self, data=None, columns=None, index=None):
        cols = {}
        n = 0
        if data is None:
            data = []
        if isinstance(data, Frame):
            cols, index = {k: v.copy() for k, v in data.cols.items()}, data.index
        elif isinstance(data, dict):
            for k, v in data.items():
                cols[k] = v.a.copy() if isinstance(v, Series) else array(v)
            if len({len(v) for v in cols.values()}) > 1:
                raise ValueError("arrays must all be same length")
        else:
            data = list(data)
            if data and columns is not None and all(isinstance(r, dict) for r in data):
                data = [[r.get(k, float("nan")) for k in columns] for r in data]
            rows = [list(r) for r in data]
            names = list(columns) if columns is not None else list(range(len(rows[0]) if rows else 0))
            if any(len(r) != len(names) for r in rows):
                raise ValueError(f"{len(names)} columns passed, passed data had {[len(r) for r in rows][:1]} columns")
            for i, k in enumerate(names):
                cols[k] = array([r[i] for r in rows])
        if columns is not None and isinstance(data, dict):
            cols = {k: cols[k] for k in columns}
        for v in cols.values():
            n = len(v)
        object.__setattr__(self, "cols", cols)
        if index is None:
            index = range(n)
        object.__setattr__(self, "index", index if isinstance(index, Index) else Index(index))

    columns = property(lambda self: Index(self.cols))
    dtypes = property(lambda self: Series(array([v.dtype for v in self.cols.values()]), list(self.cols)))
    shape = property(lambda self: (len(self.index), len(self.cols)))
    size = property(lambda self: np.prod(self.shape))
    empty = property(lambda self: 0 in self.shape)

    @property
    def values(self):
        parts = list(self.cols.values())
        if not parts or len({p.dtype for p in parts}) > 1:
            raise Unsupported("DataFrame.values")
        return np.stack(parts, axis=1)

    def made(self, cols, index=None):
        return Frame(dict(cols), index=self.index if index is None else index)

    def take(self, at):
        at = list(at)
        return self.made({k: v[at] if len(at) else v[:0] for k, v in self.cols.items()}, Index([self.index[i] for i in at], self.index.name))

    def replace_by(self, other):
        object.__setattr__(self, "cols", other.cols)
        object.__setattr__(self, "index", other.index)

    def __len__(self):
        return len(self.index)

    def __iter__(self):
        return iter(self.cols)

    def __contains__(self, k):
        return k in self.cols

    def keys(self):
        return self.columns

    def mask(self, m):
        if isinstance(m, Series):
            if m.index.labels != self.index.labels:
                raise Unsupported("mask with another index")
            if m.dtype == object and any(missing(v) for v in m):
                raise ValueError("Cannot mask with non-boolean array containing NA / NaN values")
            m = m.a
        return [i for i, x in enumerate(np.asarray(m).tolist()) if x]

    def __getitem__(self, k):
        if isinstance(k, Series) or isinstance(k, np.ndarray) and k.dtype == bool:
            return self.take(self.mask(k))
        if isinstance(k, slice):
            return self.take(range(len(self))[k])
        if isinstance(k, (list, Index)):
            for x in k:
                if x not in self.cols:
                    raise KeyError(x)
            return self.made({x: self.cols[x].copy() for x in k})
        if k not in self.cols:
            raise KeyError(k)
        return Series(self.cols[k], self.index, k)

    def column(self, v):
        if isinstance(v, Series):
            if v.index.labels != self.index.labels:
                at = positions(v.index)
                if any(len(x) > 1 for x in at.values()):
                    raise ValueError("cannot reindex from a duplicate axis")
                return array([native(v.a)[at[x][0]] if x in at else float("nan") for x in self.index])
            return v.a.copy()
        if isinstance(v, (list, tuple, np.ndarray)):
            if len(v) != len(self.index) and self.cols:
                raise ValueError(f"Length of values ({len(v)}) does not match length of index ({len(self.index)})")
            return array(v)
        return array([v] * len(self.index))

    def __setitem__(self, k, v):
        if isinstance(k, (Series, list, np.ndarray)):
            raise Unsupported("frame[...] = ")
        fresh = not self.cols and len(self.index) == 0
        self.cols[k] = self.column(v)
        if fresh:
            object.__setattr__(self, "index", Index(range(len(self.cols[k]))))

    def __delitem__(self, k):
        del self.cols[k]

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in self.cols:
            return self[name]
        if name in REAL:
            raise Unsupported("DataFrame." + name)
        raise AttributeError(f"'DataFrame' object has no attribute '{name}'")

    def __setattr__(self, name, v):
        if name == "index":
            raise Unsupported("frame.index = ")
        if name in self.cols:
            self[name] = v
            return
        object.__setattr__(self, name, v)

    @property
    def loc(self):
        outer = self

        class Loc:
            def rows(self, k):
                if isinstance(k, (Series, np.ndarray)):
                    return outer.mask(k)
                if isinstance(k, (list, Index)):
                    at = positions(outer.index)
                    if any(x not in at for x in k):
                        raise KeyError([x for x in k if x not in at])
                    return [i for x in k for i in at[x]]
                if k == slice(None):
                    return list(range(len(outer)))
                raise Unsupported("loc")

            def __getitem__(self, k):
                if isinstance(k, tuple):
                    part = outer.take(self.rows(k[0]))
                    return part[list(k[1]) if isinstance(k[1], (list, Index)) else k[1]]
                return outer.take(self.rows(k))

            def __setitem__(self, k, v):
                if not isinstance(k, tuple) or not isinstance(k[1], str):
                    raise Unsupported("loc = ")
                rows = self.rows(k[0])
                vals = native(outer.cols[k[1]])
                if isinstance(v, Series):
                    at = positions(v.index)
                    new = [native(v.a)[at[outer.index[i]][0]] if outer.index[i] in at else float("nan") for i in rows]
                elif isinstance(v, (list, tuple, np.ndarray)):
                    new = list(v)
                else:
                    new = [v] * len(rows)
                for i, x in zip(rows, new):
                    vals[i] = x
                if rows:
                    outer.cols[k[1]] = array(vals)
        return Loc()

    @property
    def iloc(self):
        outer = self

        class At:
            def __getitem__(self, k):
                if isinstance(k, slice):
                    return outer.take(range(len(outer))[k])
                if isinstance(k, (list, np.ndarray)):
                    return outer.take(k)
                raise Unsupported("iloc")
        return At()

    def head(self, n=5):
        return self.iloc[:n]

    def itertuples(self, index=True, name="Pandas"):
        lists = ([self.index.tolist()] if index else []) + [native(v) for v in self.cols.values()]
        names = []
        for k in (["Index"] if index else []) + list(self.cols):
            usable = isinstance(k, str) and k.isidentifier() and not keyword.iskeyword(k) and not k.startswith("_") and k not in names
            names.append(k if usable else f"_{len(names)}")
        for i in range(len(self.index)):
            yield Row(names, [x[i] for x in lists])

    def iterrows(self):
        for i, x in enumerate(self.index):
            yield x, Series(array([native(v)[i] for v in self.cols.values()]), list(self.cols))

    def items(self):
        return ((k, self[k]) for k in self.cols)

    iteritems = items

    def copy(self, deep=True):
        return self.made({k: v.copy() for k, v in self.cols.items()})

    def done(self, res, inplace):
        if inplace:
            self.replace_by(res)
            return None
        return res

    def rename(self, columns=None, inplace=False, **kw):
        if kw or not isinstance(columns, dict):
            raise Unsupported("rename")
        return self.done(self.made({columns.get(k, k): v for k, v in self.cols.items()}), inplace)

    def drop(self, labels=None, axis=0, columns=None, inplace=False, **kw):
        if kw or columns is None and axis not in (1, "columns"):
            raise Unsupported("drop")
        names = labels if columns is None else columns
        names = [names] if isinstance(names, str) else list(names)
        for n in names:
            if n not in self.cols:
                raise KeyError(n)
        return self.done(self.made({k: v for k, v in self.cols.items() if k not in names}), inplace)

    def set_index(self, keys, inplace=False, **kw):
        if kw:
            raise Unsupported("set_index")
        if isinstance(keys, str):
            return self.done(self.made({k: v for k, v in self.cols.items() if k != keys}, Index(native(self.cols[keys]), keys)), inplace)
        if not isinstance(keys, Index) or len(keys) != len(self):
            raise Unsupported("set_index")
        return self.done(self.made(self.cols, Index(keys.labels, keys.name)), inplace)

    def reset_index(self, drop=False, inplace=False, **kw):
        if kw:
            raise Unsupported("reset_index")
        cols = dict(self.cols)
        if not drop:
            cols = {self.index.name or "index": array(self.index.labels), **cols}
        return self.done(self.made(cols, Index(range(len(self)))), inplace)

    def reindex_like(self, other, method=None):
        if method is not None:
            raise Unsupported("reindex_like with a method")
        at = positions(self.index)
        if any(len(v) > 1 for v in at.values()):
            raise ValueError("cannot reindex from a duplicate axis")
        cols = {}
        for k in other.cols:
            if k in self.cols:
                cols[k] = array([native(self.cols[k])[at[x][0]] if x in at else float("nan") for x in other.index])
            else:
                cols[k] = np.array([np.nan] * len(other))
        return Frame(cols, index=Index(other.index.labels, other.index.name))

    def dropna(self, **kw):
        if kw:
            raise Unsupported("dropna")
        return self.take([i for i in range(len(self)) if not any(missing(native(v)[i]) for v in self.cols.values())])

    def sort_values(self, by, ascending=True, inplace=False, **kw):
        if kw:
            raise Unsupported("sort_values")
        by = [by] if isinstance(by, str) else list(by)
        asc = [ascending] * len(by) if isinstance(ascending, bool) else list(ascending)
        order = list(range(len(self)))
        for k, up in reversed(list(zip(by, asc))):
            if k not in self.cols:
                raise KeyError(k)
            order = rank(native(self.cols[k]), up, order)
        return self.done(self.take(order), inplace)

    def round(self, n=0):
        return self.made({k: np.round(v, n) if v.dtype.kind == "f" else v for k, v in self.cols.items()})

    def drop_duplicates(self, subset=None, **kw):
        if kw or not isinstance(subset, str):
            raise Unsupported("drop_duplicates")
        return self[~self[subset].duplicated()]

    def sample(self, n=None, frac=None, random_state=None):
        if frac != 1 or n is not None:
            raise Unsupported("sample")
        return self.take(np.random.RandomState(random_state).permutation(len(self)))

    def groupby(self, by, **kw):
        if kw or not isinstance(by, str):
            raise Unsupported("groupby")
        return Groups(self, by)

    def to_csv(self, target=None, index=True, **kw):
        if kw:
            raise Unsupported("to_csv")
        f = io.StringIO()
        w = csv.writer(f, lineterminator="\n")
        w.writerow(([""] if index else []) + list(self.cols))
        for label, row in zip(self.index, self.itertuples(index=False)):
            w.writerow(([label] if index else []) + ["" if missing(v) else v for v in row])
        if target is None:
            return f.getvalue()
        if hasattr(target, "write"):
            target.write(f.getvalue())
        elif str(target).endswith(".gz"):
            with gzip.open(target, "wt", newline="") as out:
                out.write(f.getvalue())
        else:
            with open(target, "w", newline="") as out:
                out.write(f.getvalue())

    def to_latex(self, target, **kw):
        target.write("%latex\n")
        self.to_csv(target, **kw)

    def to_html(self, target, **kw):
        target.write("<!--html-->\n")
        self.to_csv(target, **kw)


class Row(tuple):
    def __new__(cls, names, values):
        res = super().__new__(cls, values)
        res.names = names
        return res

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name in self.names:
            return self[self.names.index(name)]
        if name == "_fields":
            return tuple(self.names)
        raise AttributeError(name)

    def _asdict(self):
        return dict(zip(self.names, self))


class Groups:
    def __init__(self, frame, by):
        self.frame, self.by = frame, by

    def parts(self):
        at = positions(native(self.frame.cols[self.by]))
        return [(k, at[k]) for k in sorted(k for k in at if not missing(k))]

    def __iter__(self):
        for k, at in self.parts():
            yield k, self.frame.take(at)

    def __len__(self):
        return len(self.parts())

    def cumcount(self):
        res = [0] * len(self.frame)
        for _, at in self.parts():
            for n, i in enumerate(at):
                res[i] = n
        return Series(np.array(res, dtype=np.int64), self.frame.index)

    def size(self):
        p = self.parts()
        return Series(np.array([len(at) for _, at in p], dtype=np.int64), [k for k, _ in p])

    def sum(self, **kw):
        if kw or any(v.dtype.kind not in "if" for k, v in self.frame.cols.items() if k != self.by):
            raise Unsupported("GroupBy.sum")
        p = self.parts()
        return Frame({k: array([native(v[at].sum()) for _, at in p]) for k, v in self.frame.cols.items() if k != self.by}, index=Index([k for k, _ in p], self.by))

    def __getitem__(self, name):
        if not isinstance(name, str):
            raise Unsupported("GroupBy[...]")
        if name not in self.frame.cols:
            raise KeyError(name)
        return GroupedValues(self.frame.cols[self.by], self.frame.cols[name], self.by, name)

    def __getattr__(self, name):
        if not name.startswith("__") and name in self.frame.cols:
            return self[name]
        raise Unsupported("GroupBy." + name)


class GroupedValues:
    """One column of the groups of a frame, or the values of a series by a level of its index."""

    def __init__(self, keys, values, by, name):
        at = positions(native(keys))
        self.parts = [(k, Series(values[at[k]])) for k in sorted(k for k in at if not missing(k))]
        self.by, self.name = by, name

    def each(self, f):
        return Series(array([f(s) for _, s in self.parts]), Index([k for k, _ in self.parts], self.by), self.name)

    def nunique(self):
        return self.each(lambda s: s.nunique())

    def count(self):
        return self.each(lambda s: s.count())

    def mean(self):
        return self.each(lambda s: float(s.mean()))

    def sum(self):
        return self.each(lambda s: native(s.sum()))

    def min(self):
        return self.each(lambda s: native(s.min()))

    def max(self):
        return self.each(lambda s: native(s.max()))

    def value_counts(self, *a, **kw):
        if a or kw:
            raise Unsupported("value_counts with arguments")
        labels, counts = [], []
        for k, s in self.parts:
            for v, n in s.value_counts().items():
                labels.append((k, v))
                counts.append(n)
        return Series(np.array(counts, dtype=np.int64), Index(labels, (self.by, self.name)), self.name)

    def __getattr__(self, name):
        raise Unsupported("GroupBy." + name)


MISSING = {"", "#N/A", "#N/A N/A", "#NA", "-1.#IND", "-1.#QNAN", "-NaN", "-nan", "1.#IND", "1.#QNAN", "<NA>", "N/A", "NA", "NULL", "NaN", "n/a", "nan", "null"}


def parse(values):
    """The type pandas.read_csv gives to a column of texts."""
    gone = [v in MISSING for v in values]
    there = [v for v, g in zip(values, gone) if not g]
    try:
        if not any(gone) and values:
            if any("_" in v for v in values):
                raise ValueError
            return np.array([int(v) for v in values], dtype=np.int64)
    except (ValueError, OverflowError):
        pass
    try:
        if any("_" in v for v in there):
            raise ValueError
        if values:
            return np.array([np.nan if g else float(v) for v, g in zip(values, gone)], dtype=np.float64)
    except ValueError:
        pass
    if there and not any(gone) and all(v in ("True", "TRUE", "true", "False", "FALSE", "false") for v in there):
        return np.array([v.lower() == "true" for v in values], dtype=bool)
    return array([float("nan") if g else v for v, g in zip(values, gone)])


def read_csv(source, index_col=None, **kw):
    if kw or index_col not in (None, False):
        raise Unsupported("read_csv")
    if hasattr(source, "read"):
        text = source.read()
        text = text.decode() if isinstance(text, bytes) else text
    elif str(source).endswith(".gz"):
        with gzip.open(source, "rt", newline="") as f:
            text = f.read()
    else:
        with open(source, newline="") as f:
            text = f.read()
    rows = [r for r in csv.reader(io.StringIO(text)) if r]
    if not rows:
        raise ValueError("No columns to parse from file")
    head, rows = rows[0], rows[1:]
    return Frame({k or f"Unnamed: {i}": parse([r[i] for r in rows]) for i, k in enumerate(head)})


def to_datetime(values, unit=None, format=None, **kw):
    if kw:
        raise Unsupported("to_datetime")

    def one(v):
        if format is not None:
            return datetime.datetime.strptime(v, format)
        if unit == "s":
            return datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=float(v))
        raise Unsupported("to_datetime")
    return values.apply(one) if isinstance(values, Series) else one(values)


def concat(frames, ignore_index=False, **kw):
    frames = list(frames)
    if frames and not kw and all(isinstance(f, Series) for f in frames):
        names = {f.name for f in frames}
        labels = [x for f in frames for x in f.index]
        return Series(array([v for f in frames for v in native(f.a)]), range(len(labels)) if ignore_index else labels, names.pop() if len(names) == 1 else None)
    if not frames:
        raise ValueError("No objects to concatenate")
    if kw or any(list(f.cols) != list(frames[0].cols) for f in frames):
        raise Unsupported("concat")
    cols = {}
    for k in frames[0].cols:
        parts = [f.cols[k] for f in frames]
        cols[k] = np.concatenate(parts) if len({p.dtype for p in parts}) == 1 else array([v for p in parts for v in native(p)])
    labels = [x for f in frames for x in f.index]
    return Frame(cols, index=Index(range(len(labels)) if ignore_index else labels))


DataFrame = Frame
plot_hook = None  # called by Series.plot


def isna(v):
    return v.isna() if isinstance(v, Series) else missing(v)


isnull = isna
