"""Native evaluation of specification texts (no z3 needed)."""
import ast
import math


class OldRename(ast.NodeTransformer):
    def __init__(self, names, inside=False):
        self.names, self.inside = names, inside

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == 'old' and \
                not self.inside:
            return OldRename(self.names, True).visit(n.args[0])
        return self.generic_visit(n)

    def visit_Name(self, n):
        if self.inside and n.id in self.names:
            return ast.copy_location(ast.Name('old_' + n.id, n.ctx), n)
        return n


class Lazy(ast.NodeTransformer):
    """implies(a, b) must not evaluate b when a is false"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'implies':
            return ast.copy_location(ast.BoolOp(ast.Or(), [
                ast.UnaryOp(ast.Not(), n.args[0]), n.args[1]]), n)
        return n


_cache = {}


def native_eval(text, env, names):
    key = (text, tuple(sorted(names)))
    if key not in _cache:
        t = ast.parse(text.strip(), mode='eval')
        t = Lazy().visit(OldRename(set(names)).visit(t))
        ast.fix_missing_locations(t)
        _cache[key] = compile(t, '<spec>', 'eval')
    return eval(_cache[key], env)


def iff(a, b):
    return bool(a) == bool(b)


def implies(a, b):
    return not a or b


def sumof(l, k):
    return sum(l[:k])


def countof(l, x, k):
    return sum(1 for y in l[:k] if y == x)


def asint(x):
    return x


def countin(s, k):
    return sum(i in s for i in range(k))


def cells(x):
    """elements of a list or of a data object with one vector"""
    if isinstance(x, (list, tuple)):
        return list(x)
    return [x[i] for i in range(len(x))]


def gridrows(x):
    return [[x[i, j] for j in range(len(x.features))]
            for i in range(len(x.points))]


def close(a, b):
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(close, a, b))
    return a == b or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b)) or (
        a != a and b != b)


def sqrt(x):
    return math.sqrt(x)


asreal = asstr = asint
HELPERS = dict(iff=iff, implies=implies, sumof=sumof, countof=countof, asint=asint,
               asreal=asreal, countin=countin, asstr=asstr, nan=float('nan'),
               inf=float('inf'), cells=cells, gridrows=gridrows, close=close,
               sqrt=sqrt)
