"""Specification functions: each a single returned expression, evaluated
symbolically by pyvc/spec.py and natively by Python."""


def bij(names, inv, n):
    """the two name tables of an axis of length n are inverse to each other"""
    return ((names is None) == (inv is None)) and implies(
        names is not None,
        len(inv) == n
        and all(implies(inv[i] is not None,
                        inv[i] in names and names[inv[i]] == i)
                for i in range(n))
        and all(0 <= names[k] and names[k] < n and inv[names[k]] == k
                for k in names))


def wfaxis(a):
    return bij(a.names, a.namesInverse, axlen(a))


def axlen(a):
    return a._base._dims[0] if a._isPoint else a._base._dims[1]


def resolves(names, n, x):
    """the index an identifier (index or name) denotes on an axis of length
    n; -1 when it denotes none"""
    return (names[x] if names is not None and x in names else -1) \
        if isinstance(x, str) else \
        (asint(x) if 0 <= asint(x) and asint(x) < n else
         (asint(x) + n if -n <= asint(x) and asint(x) < 0 else -1))


def nresolves(names, n, x):
    """like resolves, for any scalar: an integral float counts as an index"""
    return resolves(names, n, x) if isinstance(x, (int, str)) else \
        (((asreal(x) if x >= 0 else asreal(x) + n) if x % 1 == 0 and -n <= x and x < n
          else -1) if isinstance(x, float) else -1)


def sstep(key):
    return 1 if key.step is None else key.step


def sfirst(key, names, n):
    """the index a slice starts at"""
    return nresolves(names, n, key.start) if key.start is not None else \
        (0 if sstep(key) > 0 else n - 1)


def slast(key, names, n):
    """the index a slice may not pass (inclusive)"""
    return nresolves(names, n, key.stop) if key.stop is not None else \
        (n - 1 if sstep(key) > 0 else 0)
