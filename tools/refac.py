"""apply one behaviour-preserving rewriting to the functions under contract
   python3-vt -B refac.py KIND   (in place in the tree NIMBLE_REPO)"""
import ast, copy, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))))
from pyvc import dsl
dsl.load_all()
REPO = os.environ['NIMBLE_REPO']
assert REPO.startswith('/tmp/')
KIND = sys.argv[1]
T = {}
for c in dsl.CONTRACTS.values():
    m, q = c.target.split(':')
    T.setdefault(m, set()).add(q)
cnt = 0

def bump():
    global cnt
    cnt += 1
    return cnt

class Local(ast.NodeTransformer):
    pass

def scope_nodes(fn):
    st = list(fn.body)
    while st:
        n = st.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))

def N(id, st=False):
    return ast.Name(id, ast.Store() if st else ast.Load())

def neg(e):
    return ast.UnaryOp(ast.Not(), e)

class Stmts(ast.NodeTransformer):
    """maps statement lists"""
    def __init__(self, f): self.f = f
    def block(self, b):
        out = []
        for s in b:
            r = self.f(s)
            out.extend(r if isinstance(r, list) else [r])
        return out
    def generic_visit(self, node):
        super().generic_visit(node)
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(node, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(node, fld, self.block(b))
        return node

def t_rename(fn):
    params = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg)}
    stores = {n.id for n in scope_nodes(fn) if isinstance(n, ast.Name)
              and isinstance(n.ctx, ast.Store)}
    bad = {x for n in ast.walk(fn) if isinstance(n, (ast.Nonlocal, ast.Global)) for x in n.names}
    inner = {n.id for g in ast.walk(fn) if isinstance(g, (ast.FunctionDef, ast.Lambda)) and g is not fn
             for n in ast.walk(g) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    ren = stores - params - bad - inner
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in ren:
            n.id += '_r'
        if isinstance(n, ast.ExceptHandler) and n.name in ren:
            n.name += '_r'

def t_invert(fn):
    def f(s):
        if isinstance(s, ast.If) and s.orelse:
            s.test, s.body, s.orelse = neg(s.test), s.orelse, s.body
        return s
    Stmts(f).visit(fn)

def t_ret(fn):
    def f(s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
            return [ast.Assign([N('_res', 1)], s.value), ast.Return(N('_res'))]
        return s
    Stmts(f).visit(fn)

def t_hoist(fn):
    def f(s):
        if isinstance(s, ast.If):
            v = f'_cond{bump()}'
            t = s.test
            s.test = N(v)
            return [ast.Assign([N(v, 1)], t), s]
        return s
    Stmts(f).visit(fn)

def t_comp2loop(fn):
    def f(s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 \
                and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            g = s.value.generators[0]
            v = f'_l{bump()}'
            body = [ast.Expr(ast.Call(ast.Attribute(N(v), 'append', ast.Load()), [s.value.elt], []))]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            # fresh loop variable names
            names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
            loop = ast.For(g.target, g.iter, body, [])
            class R(ast.NodeTransformer):
                def visit_Name(self, n):
                    if n.id in names: n.id += '_c'
                    return n
            it = g.iter
            loop.iter = ast.Constant(0)
            R().visit(loop)
            loop.iter = it
            return [ast.Assign([N(v, 1)], ast.List([], ast.Load())), loop, ast.Assign(s.targets, N(v))]
        return s
    Stmts(f).visit(fn)

def t_loop2comp(fn):
    class B(ast.NodeTransformer):
        def generic_visit(self, node):
            super().generic_visit(node)
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(node, fld, None)
                if not (isinstance(b, list) and b and isinstance(b[0], ast.stmt)): continue
                out, i = [], 0
                while i < len(b):
                    s = b[i]; nx = b[i+1] if i+1 < len(b) else None
                    if isinstance(s, ast.Assign) and isinstance(s.value, ast.List) and not s.value.elts and \
                       isinstance(s.targets[0], ast.Name) and isinstance(nx, ast.For) and not nx.orelse and len(nx.body) == 1:
                        L = s.targets[0].id; x = nx.body[0]; ifs = []
                        while isinstance(x, ast.If) and not x.orelse and len(x.body) == 1:
                            ifs.append(x.test); x = x.body[0]
                        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) \
                           and x.value.func.attr == 'append' and isinstance(x.value.func.value, ast.Name) and x.value.func.value.id == L \
                           and not any(isinstance(n, ast.Name) and n.id == L for t in ifs + x.value.args for n in ast.walk(t)):
                            bump()
                            out.append(ast.Assign(s.targets, ast.ListComp(x.value.args[0], [ast.comprehension(nx.target, nx.iter, ifs, 0)])))
                            i += 2; continue
                    out.append(s); i += 1
                setattr(node, fld, out)
            return node
    B().visit(fn)

def t_while(fn):
    def f(s):
        if isinstance(s, ast.For) and not s.orelse and not (isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id in ('zip', 'iter')):
            k = bump()
            return [ast.Assign([N(f'_it{k}', 1)], ast.Call(N('list'), [s.iter], [])),
                    ast.Assign([N(f'_k{k}', 1)], ast.Constant(0)),
                    ast.While(ast.Compare(N(f'_k{k}'), [ast.Lt()], [ast.Call(N('len'), [N(f'_it{k}')], [])]),
                       [ast.Assign([s.target], ast.Subscript(N(f'_it{k}'), N(f'_k{k}'), ast.Load())),
                        ast.AugAssign(N(f'_k{k}', 1), ast.Add(), ast.Constant(1))] + s.body, [])]
        return s
    Stmts(f).visit(fn)

def t_enum(fn):
    def f(s):
        if isinstance(s, ast.For):
            k = bump()
            s.target = ast.Tuple([N(f'_e{k}', 1), s.target], ast.Store())
            s.iter = ast.Call(N('enumerate'), [s.iter], [])
        return s
    Stmts(f).visit(fn)

def t_idx(fn):
    """for x in NAME -> for i in range(len(NAME)): x = NAME[i]"""
    def f(s):
        if isinstance(s, ast.For) and isinstance(s.iter, ast.Name) and not s.orelse:
            k = bump()
            it = s.iter
            s.body = [ast.Assign([s.target], ast.Subscript(it, N(f'_i{k}'), ast.Load()))] + s.body
            s.target = N(f'_i{k}', 1)
            s.iter = ast.Call(N('range'), [ast.Call(N('len'), [it], [])], [])
        return s
    Stmts(f).visit(fn)

def t_guard(fn):
    class B(ast.NodeTransformer):
        def generic_visit(self, node):
            super().generic_visit(node)
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(node, fld, None)
                if not (isinstance(b, list) and b and isinstance(b[0], ast.stmt)): continue
                for i in reversed(range(len(b) - 1)):
                    s = b[i]
                    if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
                        bump()
                        s.orelse = b[i+1:]
                        del b[i+1:]
            return node
    B().visit(fn)

def t_unelse(fn):
    """if c: return.. else: X  -> if c: return..; X"""
    def f(s):
        if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)):
            o = s.orelse; s.orelse = []
            bump()
            return [s] + o
        return s
    Stmts(f).visit(fn)

def t_ifexp(fn):
    def f(s):
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
            bump()
            return ast.If(s.value.test, [ast.Assign(s.targets, s.value.body)], [ast.Assign(copy.deepcopy(s.targets), s.value.orelse)])
        return s
    Stmts(f).visit(fn)

def t_demorgan(fn):
    class D(ast.NodeTransformer):
        def visit_If(self, n):
            self.generic_visit(n)
            if isinstance(n.test, ast.BoolOp):
                bump()
                n.test = neg(ast.BoolOp(ast.Or() if isinstance(n.test.op, ast.And) else ast.And(), [neg(x) for x in n.test.values]))
            return n
    D().visit(fn)

def t_aug(fn):
    class D(ast.NodeTransformer):
        def visit_AugAssign(self, n):
            if isinstance(n.target, ast.Name):
                bump()
                return ast.Assign([n.target], ast.BinOp(N(n.target.id), n.op, n.value))
            return n
    D().visit(fn)

def t_args(fn):
    """call arguments that are calls are put in variables first (simple statements)"""
    def f(s):
        if isinstance(s, (ast.Assign, ast.Expr, ast.Return)) and isinstance(s.value, ast.Call) and isinstance(s.value.func, (ast.Name, ast.Attribute)) \
           and (isinstance(s.value.func, ast.Name) or isinstance(s.value.func.value, ast.Name)):
            pre = []
            for i, a in enumerate(s.value.args):
                if isinstance(a, ast.Call):
                    v = f'_a{bump()}'
                    pre.append(ast.Assign([N(v, 1)], a)); s.value.args[i] = N(v)
                elif not isinstance(a, (ast.Name, ast.Constant)):
                    break
            return pre + [s]
        return s
    Stmts(f).visit(fn)

def t_helper(fn): pass

FN = {k[2:]: v for k, v in globals().items() if k.startswith('t_')}

def funcs(tree):
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef,)): yield tree, n, n.name
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef): yield n, m, f'{n.name}.{m.name}'

def isgen(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in scope_nodes(fn))

for mod, qs in sorted(T.items()):
    p = os.path.join(REPO, mod.replace('.', '/')) + '.py'
    if not os.path.exists(p):
        p = p[:-3] + '/__init__.py'
    if not os.path.exists(p):
        continue
    src = open(p).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    edits = []
    for par, fn, q in funcs(tree):
        if q not in qs: continue
        before = ast.dump(fn)
        if KIND == 'helper':
            if fn.decorator_list or isgen(fn) or fn.name.startswith('__') and fn.name != '__init__': continue
            if 'super()' in ast.unparse(fn) or fn.args.vararg or fn.args.kwarg or fn.args.kwonlyargs or fn.args.posonlyargs: continue
            h = copy.deepcopy(fn); h.name = f'_{fn.name.strip("_")}_impl'
            a = [x.arg for x in fn.args.args]
            if par is tree:
                call = ast.Call(N(h.name), [N(x) for x in a], [])
            else:
                call = ast.Call(ast.Attribute(N(a[0]), h.name, ast.Load()), [N(x) for x in a[1:]], [])
            h.args.defaults = []
            fn.body = [ast.Return(call)]
            new = [fn, h]
        else:
            FN[KIND](fn)
            new = [fn]
            if ast.dump(fn) == before: continue
        ast.fix_missing_locations(tree)
        for x in new: ast.fix_missing_locations(x)
        ind = ' ' * fn.col_offset
        text = '\n\n'.join(ast.unparse(x) for x in new)
        start = (fn.decorator_list[0].lineno if fn.decorator_list else fn.lineno) - 1
        edits.append((start, fn.end_lineno, [ind + l if l else l for l in text.split('\n')]))
        print(mod, q)
    for s, e, t in sorted(edits, reverse=True):
        lines[s:e] = t
    new = '\n'.join(lines)
    ast.parse(new)
    open(p, 'w').write(new)
