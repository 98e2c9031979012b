"""Behaviour-preserving rewrites of every function in a scratch copy: python tools/refactor.py ROOT. Checks must stay quiet afterwards.
- locals renamed, returned expressions stored first, if/else branches swapped, augmented assignments of plain names kept,
- module-level undecorated functions and methods split into a wrapper and a helper, comprehensions untouched."""
import ast, glob, sys, symtable

class Fn(ast.NodeTransformer):
    def __init__(self, names): self.names = names
    def visit_Name(self, n):
        if n.id in self.names: n.id = n.id + '_rf'
        return n
    def visit_FunctionDef(self, n): return n        # nested functions: only names, handled by skipping such functions
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n
    def visit_Return(self, n):
        self.generic_visit(n)
        if n.value is None or isinstance(n.value, (ast.Constant, ast.Name)): return n
        return [ast.Assign([ast.Name('result_rf', ast.Store())], n.value), ast.Return(ast.Name('result_rf', ast.Load()))]

def complex_fn(f):
    for x in ast.walk(f):
        if x is not f and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.ClassDef, ast.Yield, ast.YieldFrom)): return True
        if isinstance(x, ast.Name) and x.id in ('locals', 'super', '__class__'): return True
    return False

def transform(f):
    if complex_fn(f): return
    params = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs} | {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
    loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
    tr = Fn(loc)
    body = []
    for s in f.body:
        r = tr.visit(s)
        body.extend(r if isinstance(r, list) else [r])
    f.body = body

def split(container, f, meth):
    a = f.args
    if f.decorator_list or a.posonlyargs or a.kwonlyargs or (f.name.startswith('__') ) or complex_fn(f): return None
    if any(isinstance(x, ast.Name) and x.id.startswith('__') for x in ast.walk(f)): return None
    import copy
    h = copy.deepcopy(f); h.name = f.name + '_impl_rf'; h.args.defaults = []; 
    for x in h.args.args: x.annotation = None
    h.returns = None
    call = [ast.Name(x.arg, ast.Load()) for x in a.args]
    if meth:
        if not a.args or a.args[0].arg != 'self': return None
        fn = ast.Attribute(ast.Name('self', ast.Load()), h.name, ast.Load()); call = call[1:]
    else:
        fn = ast.Name(h.name, ast.Load())
    if a.vararg: call.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load()))
    kws = [ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []
    doc = [f.body[0]] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
    f.body = doc + [ast.Return(ast.Call(fn, call, kws))]
    return h

for p in sorted(glob.glob(sys.argv[1] + '/src/dga/*.py')):
    t = ast.parse(open(p, encoding='utf-8').read())
    for cont in [t] + [n for n in t.body if isinstance(n, ast.ClassDef)]:
        meth = cont is not t
        new = []
        for n in cont.body:
            if isinstance(n, ast.FunctionDef):
                transform(n)
                h = split(cont, n, meth)
                if h is not None: new.append(h)
            new.append(n)
        cont.body = new
    ast.fix_missing_locations(t)
    open(p, 'w', encoding='utf-8').write(ast.unparse(t) + '\n')
