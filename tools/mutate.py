"""Development aid: syntactic mutants of a source file against the checks.
   mutate.py list FILE | mutate.py run OUT WORKERS FILE... ; not used by any check."""
import ast
import warnings
warnings.simplefilter("ignore")
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = '/repo'
SKIP_CALLS = ('print', 'plt', 'plotting', 'hlp', 'logger', 'log_', 'warnings', 'ax')


def seg(src, node):
    return ast.get_source_segment(src, node)


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.split('\n')
    offs = [0]
    for ln in lines:
        offs.append(offs[-1] + len(ln.encode()) + 1)
    b = src.encode()

    def pos(node):
        return offs[node.lineno - 1] + node.col_offset, offs[node.end_lineno - 1] + node.end_col_offset
    out = []

    def add(node, new, why, rng=None):
        s, e = rng or pos(node)
        m = b[:s] + new.encode() + b[e:]
        try:
            ast.parse(m)
        except SyntaxError:
            return
        out.append((node.lineno, why, m.decode()))

    def text(node):
        s, e = pos(node)
        return b[s:e].decode()

    def skip(node):
        if isinstance(node, (ast.Assert, ast.Raise)):
            return True
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return True
        if isinstance(node, ast.Call):
            f = text(node.func)
            return any(f.startswith(x) or ('.' + x) in f for x in SKIP_CALLS) or 'plot' in f
        if isinstance(node, (ast.FunctionDef,)) and ('plot' in node.name or node.name.startswith('log')):
            return True
        if isinstance(node, ast.If) and text(node.test).startswith('__name__'):
            return True
        return False
    OPS = {ast.Add: ('+', '-'), ast.Sub: ('-', '+'), ast.Mult: ('*', '/'), ast.Div: ('/', '*'), ast.FloorDiv: ('//', '/'), ast.Mod: ('%', '//'), ast.Pow: ('**', '*'),
           ast.MatMult: ('@', '*')}
    CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}

    def visit(node, infstr=False):
        if skip(node) or isinstance(node, ast.JoinedStr):
            return
        if isinstance(node, ast.BinOp) and type(node.op) in OPS and not isinstance(node.left, (ast.JoinedStr,)):
            if not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)) and not (isinstance(node.right, ast.Constant) and isinstance(node.right.value, str)) \
                    and not isinstance(node.right, ast.JoinedStr):
                s, e = pos(node.left)[1], pos(node.right)[0]
                old, new = OPS[type(node.op)]
                mid = b[s:e].decode()
                if old in mid:
                    add(node, mid.replace(old, new, 1), f'{old} -> {new} in {text(node)[:70]}', (s, e))
        if isinstance(node, ast.AugAssign) and type(node.op) in OPS:
            s, e = pos(node.target)[1], pos(node.value)[0]
            old, new = OPS[type(node.op)]
            add(node, b[s:e].decode().replace(old, new, 1), f'aug {old} -> {new} in {text(node)[:70]}', (s, e))
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            s, e = pos(node.left)[1], pos(node.comparators[0])[0]
            par = b[s:e].decode()
            add(node, ')' * par.count(')') + ' ' + CMP[type(node.ops[0])] + ' ' + '(' * par.count('('), f'compare in {text(node)[:70]}', (s, e))
        if isinstance(node, ast.BoolOp):
            s, e = pos(node.values[0])[1], pos(node.values[1])[0]
            mid = b[s:e].decode()
            add(node, mid.replace('and', 'or') if 'and' in mid else mid.replace('or', 'and'), f'boolop in {text(node)[:70]}', (s, e))
        if isinstance(node, ast.Constant):
            v = node.value
            if v is True or v is False:
                add(node, str(not v), f'{v} -> {not v}')
            elif isinstance(v, int):
                add(node, str(v + 1), f'{v} -> {v + 1}')
                if v > 0:
                    add(node, str(v - 1), f'{v} -> {v - 1}')
            elif isinstance(v, float):
                add(node, repr(v * 1.1), f'{v} * 1.1')
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
            add(node, '(' + text(node.operand) + ')', f'drop unary in {text(node)[:50]}')
        if isinstance(node, ast.Call):
            f = text(node.func)
            if f in ('np.conj', 'np.flip', 'np.abs', 'np.squeeze', 'np.ascontiguousarray', 'np.real', 'np.copy') and node.args:
                add(node, '(' + text(node.args[0]) + ')', f'drop {f} in {text(node)[:60]}')
            if isinstance(node.func, ast.Attribute) and node.func.attr in ('conj', 'copy', 'conjugate') and not node.args:
                add(node, '(' + text(node.func.value) + ')', f'drop .{node.func.attr} in {text(node)[:60]}')
        if isinstance(node, ast.Attribute) and node.attr in ('real', 'imag') and isinstance(node.ctx, ast.Load):
            add(node, text(node.value) + ('.imag' if node.attr == 'real' else '.real'), f'real/imag in {text(node)[:60]}')
        if isinstance(node, ast.Slice):
            if node.lower is not None:
                s, e = pos(node.lower)
                add(node.lower, '', f'drop lower {text(node.lower)}', (s, e))
            if node.upper is not None:
                s, e = pos(node.upper)
                add(node.upper, '', f'drop upper {text(node.upper)}', (s, e))
        if isinstance(node, (ast.Expr, ast.AugAssign)) or (isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Attribute, ast.Subscript))):
            if not (isinstance(node, ast.Expr) and skip(node.value)):
                add(node, 'pass', f'delete {text(node)[:70]}')
        if isinstance(node, ast.If):
            add(node.test, 'True', f'if {text(node.test)[:50]} -> True')
            add(node.test, 'False', f'if {text(node.test)[:50]} -> False')
        if isinstance(node, ast.Call) and len(node.args) >= 2 and all(isinstance(a, ast.Name) for a in node.args[:2]):
            s, e = pos(node.args[0])[0], pos(node.args[1])[1]
            add(node, f'{node.args[1].id}, {node.args[0].id}', f'swap args in {text(node)[:60]}', (s, e))
        for field, child in ast.iter_fields(node):
            if isinstance(node, (ast.FunctionDef,)) and field in ('returns', 'decorator_list'):
                continue
            if field == 'annotation':
                continue
            for c in (child if isinstance(child, list) else [child]):
                if isinstance(c, ast.AST):
                    visit(c)
    visit(tree)
    seen, res = set(), []
    for m in out:
        if m[2] not in seen and m[2] != src:
            seen.add(m[2])
            res.append(m)
    return res


def checks_for(fname):
    cat = [json.loads(x) for x in open('/verif/properties.jsonl')]
    ids = []
    for d in cat:
        if fname in json.dumps(d) and os.path.exists(f'/verif/mc/{d["id"].lower()}.py'):
            ids.append(d['id'])
    drop = {'C03', 'C36', 'C05', 'C02', 'C39', 'C40', 'C41'} | ({'C38'} if 'plotting' not in fname else set())
    if fname not in ('dga_main.py', 'dga_max_ent.py', 'config.py'):
        drop |= {'C04', 'C37'}
    if fname != 'loggers.py':
        drop.add('C32')
    if len(set(ids) - drop):
        ids = [i for i in ids if i not in drop]
    cost = {}
    for i in ids:
        try:
            cost[i] = json.load(open(f'/verif/evidence/{i}.json'))['wall_s']
        except OSError:
            cost[i] = 50
        if i == 'C03':
            cost[i] = 100
    return sorted(ids, key=cost.get)


def test_mutant(work, rel, m, ids, verif, log):
    ln, why, text = m
    with open(f'{work}/{rel}', 'w') as f:
        f.write(text)
    res = None
    base = os.path.basename(rel)
    try:
        for i, every in [(i, '7') for i in ids] + [(i, '1') for i in ids]:
            try:
                r = subprocess.run(['./check.sh', i, 'quick'], cwd=verif, env={**os.environ, 'VERIF_REPO': work, 'VERIF_NPROC': '1', 'VERIF_EVERY': every},
                                   capture_output=True, text=True, timeout=900)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
            if rc != 0:
                res = f'{i}:{rc}'
                break
        if res is None:
            stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
            env = {**os.environ, 'PYTHONPATH': work + '/src:/opt/vp/plugin', 'MPLBACKEND': 'agg', 'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1'}
            for v in ('ALLOW_RUN_AS_ROOT', 'ALLOW_RUN_AS_ROOT_CONFIRM'):
                env['OMPI_' + v] = '1'
            env.update(OMPI_MCA_btl='self,vader', OMPI_MCA_btl_vader_single_copy_mechanism='none', OMPI_MCA_pml='ob1', OMPI_MCA_plm='isolated',
                       OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_hwloc_base_binding_policy='none')
            subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-p', 'vp_dgapy', '-W', 'ignore', '--tb=no', '--continue-on-collection-errors',
                            '-o', 'junit_family=xunit2', '--junitxml=' + work + '/j.xml', 'tests'], cwd=work, capture_output=True, env=env)
            subprocess.run(['python3', '/opt/vp/results.py', work + '/o.json', 'junit:' + work + '/j.xml'], capture_output=True)
            passed = json.load(open(work + '/o.json'))['passed']
            failed = [x for x in stable if x not in passed]
            res = 'killed by tests' if failed else 'SURVIVED'
    finally:
        shutil.copy(f'{REPO}/{rel}', f'{work}/{rel}')
    with open(log, 'a') as f:
        f.write(json.dumps([rel, ln, why, res]) + '\n')


def main():
    if sys.argv[1] == 'list':
        for f in sys.argv[2:]:
            m = mutants(f)
            print(f, len(m))
        return
    log, nw = sys.argv[2], int(sys.argv[3])
    done = set()
    if os.path.exists(log):
        done = {tuple(json.loads(x)[:3]) for x in open(log)}
    import queue
    q = queue.Queue()
    for rel in sys.argv[4:]:
        ids = checks_for(os.path.basename(rel))
        ids = os.environ.get('CHECKS', ' '.join(ids)).split()
        ms = mutants(f'{REPO}/{rel}')
        step = int(os.environ.get('EVERY', 1))
        ms = [m for m in ms if (rel, m[0], m[1]) not in done][::step]
        print(rel, len(ms), ids, flush=True)
        for m in ms:
            q.put((rel, m, ids))

    def worker(n):
        top = tempfile.mkdtemp(prefix=f'mut{n}_', dir='/tmp/w')
        work, verif = top + '/repo', top + '/verif'
        shutil.copytree(REPO, work, ignore=shutil.ignore_patterns('.git', '*.ipynb', '__pycache__'))
        os.mkdir(verif)
        shutil.copytree('/verif/mc', verif + '/mc', ignore=shutil.ignore_patterns('__pycache__'))
        for x in ('check.sh', 'known_findings.txt'):
            shutil.copy('/verif/' + x, verif)
        while True:
            try:
                rel, m, ids = q.get_nowait()
            except queue.Empty:
                break
            test_mutant(work, rel, m, ids, verif, log)
        shutil.rmtree(top, ignore_errors=True)
    with ThreadPoolExecutor(nw) as ex:
        list(ex.map(worker, range(nw)))


if __name__ == '__main__':
    main()
