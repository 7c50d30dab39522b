"""A small stand-in for pandas and numpy: the part of their behaviour the probe
and the code around it may use on small tables.  Anything else raises
HarnessError (the checker gives no answer rather than a wrong one)."""
import csv
import gzip
import io
import itertools
import math
import re
import sys
import types
from collections import namedtuple
from datetime import datetime, timedelta

from explore import HarnessError

nan = float("nan")


def isna(x):
    return x is None or (isinstance(x, float) and math.isnan(x))


def _num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def _div(a, b):
    if isna(a) or isna(b):
        return nan
    if b == 0:
        return nan if a == 0 else math.copysign(math.inf, a)
    return a / b


def _seq(v):
    if isinstance(v, Series):
        return list(v.values)
    return list(v)


UNSTABLE = False  # sorts by one column give equal rows in another order (the default sort is not stable)
ABSENT = set()    # what the real classes do not have either


class Unknown:
    def __getattr__(self, k):
        if k.startswith("__") and k.endswith("__"):
            raise AttributeError(k)
        if (type(self).__name__, k) in ABSENT:
            raise AttributeError(k)
        raise HarnessError("stand-in for pandas: %s.%s is not there" % (type(self).__name__, k))


def _binary(f, cmp=False):
    def op(self, o):
        if isinstance(o, Series):
            if o.index != self.index:
                raise HarnessError("operation on series of different indices")
            v = [f(a, b) for a, b in zip(self.values, o.values)]
        elif isinstance(o, (list, Array)):
            v = [f(a, b) for a, b in zip(self.values, o)]
        else:
            v = [f(a, o) for a in self.values]
        return Series(v, index=self.index, name=self.name)
    return op


def _arith(f):
    return _binary(lambda a, b: nan if isna(a) or isna(b) else f(a, b))


def _cmp(f):
    return _binary(lambda a, b: False if isna(a) or isna(b) else f(a, b))


class DType(str):
    """The type of a column: comparable with names and types."""
    def __eq__(self, o):
        if isinstance(o, type):
            o = {int: "int64", float: "float64", bool: "bool", str: "object", object: "object"}.get(o, o.__name__)
        return str.__eq__(self, {"int": "int64", "float": "float64", "O": "object"}.get(o, o))

    def __ne__(self, o):
        return not self == o

    __hash__ = str.__hash__

    @property
    def kind(self):
        return {"int64": "i", "float64": "f", "bool": "b"}.get(str(self), "O")


def _each(f):
    def op(self, o):
        if isinstance(o, (list, Series)):
            o = _seq(o)
            if len(o) != len(self):
                raise ValueError("operands could not be broadcast together")
            return Array(f(a, b) for a, b in zip(self, o))
        return Array(f(a, o) for a in self)
    return op


class Array(list):
    """A one-dimensional numpy array."""
    __hash__ = None
    __gt__ = _each(lambda a, b: a > b)
    __ge__ = _each(lambda a, b: a >= b)
    __lt__ = _each(lambda a, b: a < b)
    __le__ = _each(lambda a, b: a <= b)
    __add__ = __radd__ = __iadd__ = _each(lambda a, b: a + b)
    __sub__ = _each(lambda a, b: a - b)
    __rsub__ = _each(lambda a, b: b - a)
    __mul__ = __rmul__ = _each(lambda a, b: a * b)
    __truediv__ = _each(lambda a, b: _div(a, b))
    __and__ = _each(lambda a, b: bool(a) and bool(b))
    __or__ = _each(lambda a, b: bool(a) or bool(b))

    def __invert__(self):
        return Array(not x for x in self)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return type(self)(list.__getitem__(self, k))
        if isinstance(k, (list, Series)):
            k = _seq(k)
            if all(isinstance(x, bool) for x in k):
                if len(k) != len(self):
                    raise IndexError("boolean index did not match")
                return type(self)(x for x, m in zip(self, k) if m)
            return type(self)(list.__getitem__(self, i) for i in k)
        return list.__getitem__(self, k)

    def __setitem__(self, k, v):
        if isinstance(k, (list, Series)):
            k = _seq(k)
            if len(k) != len(self) or isinstance(v, (list, Series)):
                raise HarnessError("array[...] = ...")
            for i, m in enumerate(k):
                if m:
                    list.__setitem__(self, i, v)
        else:
            list.__setitem__(self, k, v)

    def tolist(self):
        return list(self)

    def astype(self, t):
        return Array(t(x) for x in self)

    def copy(self):
        return type(self)(self)

    def sum(self):
        return sum(self)

    def mean(self):
        return sum(self) / len(self) if self else nan

    def max(self):
        return max(self)

    def min(self):
        return min(self)

    @property
    def size(self):
        return len(self)

    @property
    def shape(self):
        return (len(self),)

    def cumsum(self):
        t, out = 0, Array()
        for x in self:
            t += x
            out.append(t)
        return out


class Values(Array):
    """series.values, series.to_numpy()"""
    def sum(self):
        return sum(x for x in self if not isna(x))

    def mean(self):
        return Series(self).mean()


class Dates:
    """series.dt"""
    def __init__(self, s):
        self.s = s

    def __getattr__(self, k):
        if k in ("day", "month", "year", "hour", "minute", "second"):
            return self.s._map(lambda x: getattr(x, k))
        if k in ("week", "weekofyear"):
            return self.s._map(lambda x: x.isocalendar()[1])
        raise HarnessError("stand-in for pandas: Series.dt.%s is not there" % k)

    def isocalendar(self):
        v = [x.isocalendar() for x in self.s.values]
        return DataFrame({k: [x[j] for x in v] for j, k in enumerate(("year", "week", "day"))}, index=self.s.index)


class Strings:
    def __init__(self, s):
        self.s = s

    def _m(self, f):
        return Series([f(x) for x in self.s.values], index=self.s.index, name=self.s.name)

    def split(self, sep=None, n=-1, expand=False):
        if expand:
            raise HarnessError("str.split(expand)")
        return self._m(lambda x: x.split(sep, n))

    def contains(self, t, case=True, regex=True):
        return self._m(lambda x: bool(re.search(t, x, 0 if case else re.I)) if regex else t in x)

    def slice(self, *a):
        return self._m(lambda x: x[slice(*a)])

    def __getitem__(self, k):
        return self._m(lambda x: x[k])

    def lower(self):
        return self._m(str.lower)

    def replace(self, a, b, regex=True):
        return self._m(lambda x: re.sub(a, b, x) if regex else x.replace(a, b))


class Series(Unknown):
    def __init__(self, data=(), index=None, name=None, dtype=None):
        if isinstance(data, Series):
            index = list(data.index) if index is None else index
            data = data.values
        elif isinstance(data, dict):
            index, data = list(data), list(data.values())
        self.values = Values(data)
        self.index = list(range(len(self.values))) if index is None else list(index)
        self.name = name
        if len(self.index) != len(self.values):
            raise ValueError("Length of values does not match length of index")

    # sizes
    def __len__(self):
        return len(self.values)

    @property
    def size(self):
        return len(self.values)

    @property
    def shape(self):
        return (len(self.values),)

    @property
    def empty(self):
        return not self.values

    @property
    def dtype(self):
        k = {type(x) for x in self.values}
        return DType("bool" if k == {bool} else "int64" if k == {int} else "float64" if k and k <= {int, float} else "object")

    # elements
    def __iter__(self):
        return iter(self.values)

    def __contains__(self, k):
        return k in self.index

    def __bool__(self):
        raise ValueError("The truth value of a Series is ambiguous.")

    def keys(self):
        return Index(self.index)

    def items(self):
        return zip(self.index, self.values)

    iteritems = items

    def _mask(self, k):
        k = _seq(k)
        if len(k) != len(self):
            raise HarnessError("mask of another length")
        return [i for i, m in enumerate(k) if m]

    def _take(self, at):
        return Series([self.values[i] for i in at], index=[self.index[i] for i in at], name=self.name)

    def __getitem__(self, k):
        if isinstance(k, Series) and k.dtype != "bool" and len(k):
            return self._take([self.index.index(x) for x in k.values])
        if isinstance(k, (Series, list)):
            if isinstance(k, list) and k and not isinstance(k[0], bool):
                return self._take([self.index.index(x) for x in k])
            return self._take(self._mask(k))
        if isinstance(k, slice):
            return self._take(range(len(self))[k])
        if k not in self.index:
            raise KeyError(k)
        return self.values[self.index.index(k)]

    def __setitem__(self, k, v):
        if isinstance(k, (Series, list)):
            for i in self._mask(k):
                self.values[i] = v
        elif k in self.index:
            self.values[self.index.index(k)] = v
        else:
            self.index.append(k)
            self.values.append(v)

    def get(self, k, default=None):
        return self[k] if k in self.index else default

    @property
    def loc(self):
        return _SLoc(self)

    @property
    def iloc(self):
        return _SILoc(self)

    # operations
    __eq__ = _cmp(lambda a, b: a == b)
    __ne__ = _binary(lambda a, b: isna(a) or isna(b) or a != b)
    __lt__ = _cmp(lambda a, b: a < b)
    __le__ = _cmp(lambda a, b: a <= b)
    __gt__ = _cmp(lambda a, b: a > b)
    __ge__ = _cmp(lambda a, b: a >= b)
    eq, ne, lt, le, gt, ge = __eq__, __ne__, __lt__, __le__, __gt__, __ge__
    __hash__ = None
    __add__ = _arith(lambda a, b: a + b)
    __radd__ = _arith(lambda a, b: b + a)
    __sub__ = _arith(lambda a, b: a - b)
    __rsub__ = _arith(lambda a, b: b - a)
    __mul__ = __rmul__ = _arith(lambda a, b: a * b)
    __truediv__ = _arith(_div)
    __rtruediv__ = _arith(lambda a, b: _div(b, a))
    __pow__ = _arith(lambda a, b: a ** b)
    __neg__ = lambda self: self * -1
    add, sub, mul, div, truediv = __add__, __sub__, __mul__, __truediv__, __truediv__
    __and__ = __rand__ = _binary(lambda a, b: bool(a) and bool(b))
    __or__ = __ror__ = _binary(lambda a, b: bool(a) or bool(b))

    def __invert__(self):
        return self._map(lambda x: not x)

    def _map(self, f):
        return Series([f(x) for x in self.values], index=self.index, name=self.name)

    def map(self, f):
        if isinstance(f, dict):
            return self._map(lambda x: f.get(x, nan))
        return self._map(f)

    def apply(self, f):
        return self._map(f)

    def astype(self, t):
        f = {"str": str, "int": int, "float": float, "int64": int, "float64": float, "bool": bool}.get(t, t)
        if f == "datetime64[ms]":
            return to_datetime(self, unit="ms")
        if f not in (str, int, float, bool):
            raise HarnessError("astype(%r)" % (t,))
        return self._map(f)

    def isin(self, xs):
        xs = set(_seq(xs))
        return self._map(lambda x: x in xs)

    def isna(self):
        return self._map(isna)

    isnull = isna

    def notna(self):
        return self._map(lambda x: not isna(x))

    notnull = notna

    def fillna(self, v):
        return self._map(lambda x: v if isna(x) else x)

    def dropna(self):
        return self._take([i for i, x in enumerate(self.values) if not isna(x)])

    def round(self, n=0):
        return self._map(lambda x: round(x, n) if isinstance(x, float) and math.isfinite(x) else x)

    def abs(self):
        return self._map(abs)

    def replace(self, a, b):
        return self._map(lambda x: b if x == a else x)

    def where(self, cond, other=nan):
        return Series([x if m else other for x, m in zip(self.values, _seq(cond))], index=self.index, name=self.name)

    def mask(self, cond, other=nan):
        return Series([other if m else x for x, m in zip(self.values, _seq(cond))], index=self.index, name=self.name)

    def copy(self, deep=True):
        return Series(list(self.values), index=self.index, name=self.name)

    def head(self, n=5):
        return self._take(range(len(self))[:n])

    def reset_index(self, drop=False):
        if not drop:
            raise HarnessError("Series.reset_index without drop")
        return Series(list(self.values), name=self.name)

    # figures
    def _known(self):
        return [x for x in self.values if not isna(x)]

    def sum(self):
        v = self._known()
        return sum(v) if v else 0

    def mean(self):
        v = self._known()
        return sum(v) / len(v) if v else nan

    def max(self):
        v = self._known()
        return max(v) if v else nan

    def min(self):
        v = self._known()
        return min(v) if v else nan

    def count(self):
        return len(self._known())

    def any(self):
        return any(self._known())

    def all(self):
        return all(self._known())

    def std(self):
        v = self._known()
        if len(v) < 2:
            return nan
        m = sum(v) / len(v)
        return math.sqrt(sum((x - m) ** 2 for x in v) / (len(v) - 1))

    def cumsum(self):
        t, out = 0, []
        for x in self.values:
            t += x
            out.append(t)
        return Series(out, index=self.index, name=self.name)

    def unique(self):
        return Values(dict.fromkeys(self.values))

    def nunique(self):
        return len(set(self._known()))

    def duplicated(self):
        seen, out = set(), []
        for x in self.values:
            out.append(x in seen)
            seen.add(x)
        return Series(out, index=self.index)

    def drop_duplicates(self):
        return self[~self.duplicated()]

    def value_counts(self):
        n = {}
        for x in self._known():
            n[x] = n.get(x, 0) + 1
        ks = sorted(n, key=lambda k: -n[k])
        return Series([n[k] for k in ks], index=ks, name=self.name)

    def sort_index(self, ascending=True):
        at = sorted(range(len(self)), key=lambda i: self.index[i], reverse=not ascending)
        return Series([self.values[i] for i in at], index=[self.index[i] for i in at], name=self.name)

    def reindex(self, labels, fill_value=nan):
        return Series([self.get(x, fill_value) for x in labels], index=list(labels), name=self.name)

    def idxmax(self):
        return self.index[self.values.index(self.max())]

    def to_list(self):
        return list(self.values)

    tolist = to_list

    def to_numpy(self):
        return Values(self.values)

    def to_dict(self):
        return dict(self.items())

    @property
    def str(self):
        return Strings(self)

    @property
    def dt(self):
        return Dates(self)

    def __repr__(self):
        return "Series(%r)" % (list(self.values),)


class _SLoc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        return self.s[k]

    def __setitem__(self, k, v):
        self.s[k] = v


class _SILoc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, k):
        if isinstance(k, slice):
            return self.s._take(range(len(self.s))[k])
        return self.s.values[k]


class Index(list):
    def to_list(self):
        return list(self)

    tolist = to_list

    def __eq__(self, o):
        return list.__eq__(self, o) if isinstance(o, list) else NotImplemented

    __hash__ = None

    @property
    def size(self):
        return len(self)


class Groups(list):
    """The groups of a data frame, or of one of its columns."""

    def __getitem__(self, k):
        if isinstance(k, str):
            return Groups((x, d[k]) for x, d in self)
        return list.__getitem__(self, k)

    def count(self):
        return Series([s.count() for _, s in self], index=[x for x, _ in self])

    def __getattr__(self, name):
        if name not in ("nunique", "mean", "sum", "max", "min") or self and not isinstance(list.__getitem__(self, 0)[1], Series):
            raise HarnessError("%s of groups" % name)
        return lambda: Series([getattr(s, name)() for _, s in self], index=[x for x, _ in self])


class DataFrame(Unknown):
    def __init__(self, data=None, columns=None, index=None):
        cols = {}
        if data is None:
            data = {}
        if isinstance(data, DataFrame):
            cols = {k: list(v) for k, v in data._c.items()}
            index = list(data._i) if index is None else index
        elif isinstance(data, dict):
            n = max([len(_seq(v)) for v in data.values() if not isinstance(v, (str, int, float))] or [0])
            for k, v in data.items():
                cols[k] = [v] * n if isinstance(v, (str, int, float)) else _seq(v)
            if columns is not None:
                cols = {k: cols.get(k, [nan] * n) for k in columns}
        else:
            data = list(data)
            if data and all(isinstance(r, dict) for r in data):
                if columns is None:
                    columns = dict.fromkeys(k for r in data for k in r)
                columns = list(columns)
                rows = [[r.get(k, nan) for k in columns] for r in data]
            else:
                rows = [list(r) for r in data]
                if columns is None:
                    columns = range(len(rows[0]) if rows else 0)
            columns = list(columns)
            if any(len(r) != len(columns) for r in rows):
                raise ValueError("%d columns passed, passed data had %d columns" % (len(columns), max(len(r) for r in rows)))
            cols = {k: [r[j] for r in rows] for j, k in enumerate(columns)}
        ns = {len(v) for v in cols.values()}
        if len(ns) > 1:
            raise ValueError("All arrays must be of the same length")
        object.__setattr__(self, "_c", cols)
        n = ns.pop() if ns else len(index) if index is not None else 0
        object.__setattr__(self, "_i", list(range(n)) if index is None else list(index))

    # sizes
    @property
    def columns(self):
        return Index(self._c)

    @columns.setter
    def columns(self, names):
        names = list(names)
        object.__setattr__(self, "_c", dict(zip(names, self._c.values())))

    @property
    def index(self):
        return Index(self._i)

    @property
    def shape(self):
        return (len(self._i), len(self._c))

    @property
    def size(self):
        return len(self._i) * len(self._c)

    @property
    def empty(self):
        return not self._i or not self._c

    @property
    def values(self):
        return [list(r) for r in zip(*self._c.values())]

    def __len__(self):
        return len(self._i)

    def __iter__(self):
        return iter(self._c)

    def __contains__(self, k):
        return k in self._c

    def __bool__(self):
        raise ValueError("The truth value of a DataFrame is ambiguous.")

    def keys(self):
        return self.columns

    def items(self):
        return [(k, self[k]) for k in self._c]

    # elements
    def __getattr__(self, k):
        c = self.__dict__.get("_c", {})
        if k in c:
            return self[k]
        return Unknown.__getattr__(self, k)

    def __setattr__(self, k, v):
        if k == "columns":
            object.__setattr__(self, k, v)
        elif k in self._c:
            self[k] = v
        else:
            raise HarnessError("DataFrame.%s = ..." % k)

    def _take(self, at):
        at = list(at)
        return DataFrame({k: [v[i] for i in at] for k, v in self._c.items()}, index=[self._i[i] for i in at])

    def _rows(self, k):
        if isinstance(k, slice):
            if k == slice(None):
                return list(range(len(self)))
            raise HarnessError("loc with a slice")
        if isinstance(k, (Series, list)):
            k = _seq(k)
            if k and not isinstance(k[0], bool):
                return [self._i.index(x) for x in k]
            if len(k) != len(self):
                raise HarnessError("mask of another length")
            return [i for i, m in enumerate(k) if m]
        if isinstance(k, bool):
            raise KeyError("%r: boolean label can not be used without a boolean index" % k)
        if k not in self._i:
            raise KeyError(k)
        return self._i.index(k)

    def __getitem__(self, k):
        if isinstance(k, (Series, list)):
            if isinstance(k, list) and k and isinstance(k[0], str):
                for x in k:
                    if x not in self._c:
                        raise KeyError(x)
                return DataFrame({x: list(self._c[x]) for x in k}, index=self._i)
            return self._take(self._rows(k))
        if isinstance(k, slice):
            return self._take(range(len(self))[k])
        if k not in self._c:
            raise KeyError(k)
        s = Series.__new__(Series)
        s.values, s.index, s.name = Values(self._c[k]), list(self._i), k
        return s

    def __setitem__(self, k, v):
        if isinstance(v, (str, int, float)) or v is None:
            v = [v] * len(self)
        v = _seq(v)
        if self._c and len(v) != len(self):
            raise ValueError("Length of values does not match length of index")
        if not self._c:
            self._i[:] = range(len(v))
        self._c[k] = v

    def __delitem__(self, k):
        del self._c[k]

    def pop(self, k):
        s = self[k]
        del self._c[k]
        return s

    def get(self, k, default=None):
        return self[k] if k in self._c else default

    def insert(self, at, k, v):
        names = list(self._c)
        self[k] = v
        names.insert(at, k)
        object.__setattr__(self, "_c", {x: self._c[x] for x in names})

    @property
    def loc(self):
        return _Loc(self)

    @property
    def iloc(self):
        return _ILoc(self)

    def _out(self, d, inplace):
        if not inplace:
            return d
        object.__setattr__(self, "_c", d._c)
        object.__setattr__(self, "_i", d._i)

    def set_index(self, k, inplace=False, drop=True):
        if not isinstance(k, str):
            raise HarnessError("set_index(%r)" % (k,))
        d = DataFrame(self, index=list(self._c[k]))
        if drop:
            del d._c[k]
        return self._out(d, inplace)

    def reset_index(self, drop=False, inplace=False):
        d = DataFrame(self, index=range(len(self)))
        if not drop:
            d.insert(0, "index", list(self._i))
        return self._out(d, inplace)

    def drop(self, labels=None, axis=0, columns=None, inplace=False):
        if columns is None and axis in (1, "columns"):
            columns = labels
        if columns is None:
            raise HarnessError("drop of rows")
        if isinstance(columns, str):
            columns = [columns]
        return self._out(DataFrame({k: v for k, v in self._c.items() if k not in columns}, index=self._i), inplace)

    def rename(self, columns=None, inplace=False):
        return self._out(DataFrame({columns.get(k, k): v for k, v in self._c.items()}, index=self._i), inplace)

    def copy(self, deep=True):
        return DataFrame(self)

    def head(self, n=5):
        return self._take(range(len(self))[:n])

    def tail(self, n=5):
        return self._take(range(len(self))[-n:] if n else [])

    def itertuples(self, index=True, name="Pandas"):
        names = (["Index"] if index else []) + list(self._c)
        t = namedtuple(name, names, rename=True) if name else lambda *a: a
        for i, r in zip(self._i, zip(*self._c.values())):
            yield t(*((i,) + r if index else r))

    def iterrows(self):
        for i, r in zip(self._i, zip(*self._c.values())):
            yield i, Series(list(r), index=list(self._c))

    def to_dict(self, orient="dict"):
        if orient == "records":
            return [dict(zip(self._c, r)) for r in zip(*self._c.values())]
        if orient == "list":
            return {k: list(v) for k, v in self._c.items()}
        raise HarnessError("to_dict(%r)" % orient)

    def sort_values(self, by, ascending=True, inplace=False, kind=None, ignore_index=False):
        by = [by] if isinstance(by, str) else list(by)
        asc = [ascending] * len(by) if isinstance(ascending, bool) else list(ascending)
        order = list(range(len(self)))
        for k, up in reversed(list(zip(by, asc))):
            v = self._c[k]
            known = [i for i in order if not isna(v[i])]
            known.sort(key=lambda i: v[i], reverse=not up)
            if UNSTABLE and len(by) == 1 and kind not in ("mergesort", "stable"):
                # equal rows come in any order: the other one
                known = [i for _, g in itertools.groupby(known, key=lambda i: v[i]) for i in reversed(list(g))]
            order = known + [i for i in order if isna(v[i])]
        d = self._take(order)
        if ignore_index:
            d = d.reset_index(drop=True)
        return self._out(d, inplace)

    def nlargest(self, n, columns):
        return self.sort_values(columns, ascending=False).head(n)

    def round(self, n=0):
        return DataFrame({k: Series(v).round(n).values for k, v in self._c.items()}, index=self._i)

    def fillna(self, x):
        return DataFrame({k: [x if isna(y) else y for y in v] for k, v in self._c.items()}, index=self._i)

    def isin(self, xs):
        return DataFrame({k: [y in xs for y in v] for k, v in self._c.items()}, index=self._i)

    def mean(self):
        return Series({k: Series(v).mean() for k, v in self._c.items()})

    def sum(self):
        return Series({k: Series(v).sum() for k, v in self._c.items()})

    def equals(self, o):
        return self._c == o._c and self._i == o._i

    def dropna(self):
        return self._take([i for i in range(len(self)) if not any(isna(v[i]) for v in self._c.values())])

    def drop_duplicates(self, subset=None):
        if subset is None:
            raise HarnessError("drop_duplicates of rows")
        subset = [subset] if isinstance(subset, str) else subset
        seen, at = set(), []
        for i in range(len(self)):
            k = tuple(self._c[x][i] for x in subset)
            if k not in seen:
                at.append(i)
            seen.add(k)
        return self._take(at)

    def groupby(self, k, sort=True):
        if not isinstance(k, str):
            raise HarnessError("groupby(%r)" % (k,))
        keys = dict.fromkeys(x for x in self._c[k] if not isna(x))
        if sort:
            keys = sorted(keys)
        return Groups((x, self._take([i for i, y in enumerate(self._c[k]) if y == x])) for x in keys)

    def _text(self, kind, index):
        rows = [([""] if index else []) + list(self._c)]
        for i, r in zip(self._i, zip(*self._c.values())):
            rows.append(([i] if index else []) + list(r))
        if kind == "csv":
            f = io.StringIO()
            csv.writer(f, lineterminator="\n").writerows([["" if isna(x) else x for x in r] for r in rows])
            return f.getvalue()
        if kind == "latex":
            return "\\begin{tabular}\n%s\\end{tabular}\n" % "".join(" & ".join(map(str, r)) + " \\\\\n" for r in rows)
        return "<table>\n%s</table>" % "".join("<tr>%s</tr>\n" % "".join("<td>%s</td>" % x for x in r) for r in rows)

    def _write(self, to, text):
        if to is None:
            return text
        if hasattr(to, "write"):
            to.write(text)
            return
        to = str(to)
        with (gzip.open(to, "wt") if to.endswith(".gz") else open(to, "w", newline="")) as f:
            f.write(text)

    def to_csv(self, to=None, index=True, **k):
        if set(k) - {"mode", "encoding"} or k.get("mode", "w") != "w":
            raise HarnessError("to_csv(%r)" % k)
        return self._write(to, self._text("csv", index))

    def to_latex(self, to=None, index=True):
        return self._write(to, self._text("latex", index))

    def to_html(self, to=None, index=True):
        return self._write(to, self._text("html", index))

    def __repr__(self):
        return "DataFrame(%r)" % (self._c,)

    def __eq__(self, o):
        raise HarnessError("comparison of data frames")

    __hash__ = None


class _Loc:
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        d = self.d
        if isinstance(k, tuple):
            rows, col = d._rows(k[0]), k[1]
            if isinstance(rows, int):
                return d._c[col][rows]
            t = d._take(rows)
            return t if isinstance(col, slice) else t[col]
        rows = d._rows(k)
        if isinstance(rows, int):
            return Series([v[rows] for v in d._c.values()], index=list(d._c))
        return d._take(rows)

    def __setitem__(self, k, v):
        d = self.d
        if not isinstance(k, tuple):
            raise HarnessError("loc[rows] = ...")
        rows, col = d._rows(k[0]), k[1]
        if col not in d._c:
            d._c[col] = [nan] * len(d)
        rows = [rows] if isinstance(rows, int) else rows
        vs = v if isinstance(v, (list, Series)) else [v] * len(rows)
        for i, x in zip(rows, vs):
            d._c[col][i] = x


class _ILoc:
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        d = self.d
        if isinstance(k, slice):
            return d._take(range(len(d))[k])
        if isinstance(k, int):
            if not -len(d) <= k < len(d):
                raise IndexError("single positional indexer is out-of-bounds")
            return Series([v[k] for v in d._c.values()], index=list(d._c))
        raise HarnessError("iloc[%r]" % (k,))


def _cell(x):
    try:
        return int(x)
    except ValueError:
        pass
    try:
        return float(x) if x != "" else nan
    except ValueError:
        return x


def read_csv(path, **k):
    if set(k) - {"compression", "index_col"} or k.get("index_col", False) is not False:
        raise HarnessError("read_csv(%r)" % k)
    if hasattr(path, "read"):
        rows = list(csv.reader(io.StringIO(path.read().decode(), newline="")))
    else:
        path = str(path)
        with (gzip.open(path, "rt", newline="") if path.endswith(".gz") else open(path, newline="")) as f:
            rows = list(csv.reader(f))
    if not rows:
        raise ValueError("No columns to parse from file")
    cols = {}
    for j, name in enumerate(rows[0]):
        v = [_cell(r[j]) for r in rows[1:]]
        if v and all(x in ("True", "False") for x in v):
            v = [x == "True" for x in v]
        elif any(isinstance(x, str) for x in v):
            v = [r[j] if r[j] != "" else nan for r in rows[1:]]
        elif any(isinstance(x, float) for x in v):
            v = [float(x) for x in v]
        cols[name] = v
    return DataFrame(cols)


def to_datetime(s, format=None, unit=None):
    def f(x):
        if isinstance(x, datetime):
            return x
        if unit is not None:
            return datetime(1970, 1, 1) + timedelta(seconds=x * {"s": 1, "ms": 0.001}[unit])
        return datetime.strptime(x, format) if format else datetime.fromisoformat(x)
    return s._map(f) if isinstance(s, Series) else Series([f(x) for x in s]) if isinstance(s, list) else f(s)


def concat(frames, ignore_index=False):
    frames = list(frames)
    cols = list(dict.fromkeys(k for d in frames for k in d._c))
    out = DataFrame({k: [x for d in frames for x in d._c.get(k, [nan] * len(d))] for k in cols}, index=None if ignore_index else [i for d in frames for i in d._i])
    return out


class _Np(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise HarnessError("stand-in for %s: %s is not there" % (self.__name__, k))


def install():
    pd, np = _Np("pandas"), _Np("numpy")
    pd.DataFrame, pd.Series, pd.read_csv, pd.to_datetime, pd.concat, pd.isna, pd.isnull = DataFrame, Series, read_csv, to_datetime, concat, isna, isna
    pd.Index, pd.NA, pd.unique = Index, nan, lambda s: Values(dict.fromkeys(s))
    np.zeros = lambda n: Array([0.0] * (n if isinstance(n, int) else n[0]))
    np.ones = lambda n: Array([1.0] * (n if isinstance(n, int) else n[0]))
    np.full = lambda n, v: Array([v] * n)
    np.array = lambda v: Array(v)
    np.asarray = np.array
    np.cumsum = lambda v: Array(v).cumsum()
    np.nan, np.inf, np.int64, np.float64 = nan, math.inf, int, float
    np.isnan = lambda v: Array(isna(x) for x in v) if isinstance(v, (list, Series)) else isna(v)
    np.concatenate = lambda vs, axis=0: Array(x for v in vs for x in v)
    np.unique = lambda v: Array(sorted(set(v)))
    np.mean, np.sum = lambda v: Array(v).mean(), lambda v: sum(v)
    np.arange = lambda *a: Array(range(*a))
    sys.modules["pandas"], sys.modules["numpy"] = pd, np
    return pd, np
