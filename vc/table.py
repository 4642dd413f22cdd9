"""Contract of astropy.table.Table as petrofit uses it, over symbolic values."""
from . import core, arr, units
from .core import SNum, Unsupported, And, TRUE, FALSE, num, zint, T, simp
from .arr import SArr, SSel, asarr
from .shim import use

TABLE = "Table columns are arrays of one length in a fixed order; t[name] is the column, t[i] the row of index i and t[i][name] the element of that column at i"


FILES, READ = {}, []
WRITES, DENY = [], []           # every write as (table, path, format, overwrite); paths that cannot be written


class Table:
    """named columns; every write is recorded in .written"""
    made = []

    def __init__(self, data=None, names=None, rows=None, **k):
        use("astropy.table.Table", TABLE)
        self.__dict__["_made"] = None
        if k:
            raise Unsupported("Table options %s" % sorted(k))
        self.written = []
        self.meta = {}
        if rows is not None:
            self.cols, self._made = None, (rows if getattr(rows, "_sym", None) is not None else list(rows) if isinstance(rows, (list, tuple)) else rows, None if names is None else list(names))
            Table.made.append(self)
            return
        if not isinstance(data, dict) or names is not None:
            raise Unsupported("Table(...)")
        self.cols = dict(data)

    def _c(self):
        if self.cols is None:
            raise Unsupported("use of a table built from rows")
        return self.cols

    @property
    def colnames(self):
        return list(self._c())

    def keys(self):
        return self.colnames

    columns = property(lambda self: dict(self._c()))

    def __vc_len__(self):
        return arr.dim_val(next(iter(self._c().values()))._shape[0])

    def __getitem__(self, key):
        c = self._c()
        if isinstance(key, str):
            if key not in c:
                raise KeyError(key)
            return c[key]
        if isinstance(key, SArr) and key.ndim == 0:
            key = key.get()
        if isinstance(key, bool) or isinstance(key, (int, SNum)) and num(key).k == "i":
            return Row(self, num(key))
        if isinstance(key, (list, tuple)) and key and all(isinstance(x, str) for x in key):
            return type(self)({x: c[x] for x in key})
        if isinstance(key, tuple) and len(key) == 1 and isinstance(key[0], SSel):
            key = key[0]
        if isinstance(key, SSel) or isinstance(key, SArr) and key.ndim == 1 and key._k == "b":
            use("astropy.table.Table[rows]", "indexing a table by a selection of rows gives a new table with that selection of every column")
            return type(self)({k: v[key] for k, v in c.items()})
        raise Unsupported("table index of type %s" % type(key).__name__)

    def __setitem__(self, key, value):
        self.written.append(key)
        raise Unsupported("a table is written to")

    def copy(self, *a, **k):
        return Table({k: v.copy() for k, v in self._c().items()})

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("Table.%s" % name)

    def write(self, path=None, *a, format=None, overwrite=False, **k):
        use("astropy.table.Table.write", "writing a table does not change it")
        if a or k:
            raise Unsupported("Table.write options")
        WRITES.append((self, path, format, overwrite))
        if path in DENY:
            raise OSError("File %s already exists" % path)
        FILES[path] = (type(self), dict(self.cols) if self.cols is not None else None, format)

    @classmethod
    def read(cls, path=None, *a, format=None, **k):
        use("astropy.table.Table.read", "reading a file that was written in the same format gives the rows and columns that were written")
        if a or k:
            raise Unsupported("Table.read options")
        if path not in FILES:
            raise FileNotFoundError(path)
        t, cols, f = FILES[path]
        if f != format or cols is None:
            raise Unsupported("read in another format than written")
        r = cls({n: v.copy() for n, v in cols.items()})
        READ.append((r, path))
        return r


class QTable(Table):
    pass


class Row:
    def __init__(self, table, i):
        self.table, self.i = table, i

    def __getitem__(self, key):
        c = self.table._c()
        if isinstance(key, str):
            if key not in c:
                raise KeyError(key)
            return c[key][self.i]
        raise Unsupported("row index of type %s" % type(key).__name__)

    @property
    def index(self):
        return self.i

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("Row.%s" % name)


class ProgressBar:
    def __init__(self, n=None, **k):
        use("astropy.utils.console.ProgressBar", "a progress bar has no effect on values; map(f, items) is the list of f(item) in order")

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def update(self, *a):
        pass

    @staticmethod
    def map(function, items, **k):
        from .loader import listcomp
        return listcomp(function, items)


def install(m):
    t = m["astropy.table"]
    t.Table, t.QTable, t.Row = Table, QTable, Row
    m["astropy.utils.console"].ProgressBar = ProgressBar
    return m
