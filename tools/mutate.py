"""Mutation campaign: how sharp are the checks?   python3-vt tools/mutate.py count | run NPAR [seed] [per_file] [files...]
Writes /tmp/mut/results.jsonl.  Works on scratch copies only."""
import ast, json, os, random, shutil, subprocess, sys, time, queue, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = 'moving_mesh_transport/'
S = P + 'solver_classes/'
W = '/tmp/mut'
# file -> checks in the order they are tried
MAP = {
    S + 'mesh.py': 'C01 C02 C03 C13 C05',
    S + 'mesh_functions.py': 'C11 C01',
    S + 'functions.py': 'C12 C17 C11 C10 C13 C16 C14 C05',
    S + 'matrices.py': 'C04 C05 C06',
    S + 'GMAT_sphere.py': 'C04',
    S + 'numerical_flux.py': 'C05 C07 C06',
    S + 'sources.py': 'C05 C08 C06',
    S + 'uncollided_solutions.py': 'C11 C05 C10',
    S + 'phi_class.py': 'C05 C15 C16',
    S + 'make_phi.py': 'C10 C18',
    S + 'opacity.py': 'C15 C05 C08 C22',
    S + 'build_problem.py': 'C13 C12 C05 C11 C10',
    S + 'mutables.py': 'C13',
    S + 'radiative_transfer.py': 'C16',
    S + 'rhs_class_1.py': 'C05 C08 C06 C07',
    S + 'cubic_spline.py': 'C21',
    P + 'solver_functions/main_functions.py': 'C10 C18 C19',
    P + 'solver_functions/run_functions.py': 'C14 C22 C20 C19',
    P + 'solver_functions/Chebyshev_matrix_reader.py': 'C04',
    P + 'solver.py': 'C14 C20 C19',
    P + 'loading_and_saving/load_bench.py': 'C20',
    P + 'loading_and_saving/load_parameters.py': 'C14',
    P + 'loading_and_saving/load_solution.py': 'C09 C19',
    P + 'loading_and_saving/save_output.py': 'C09 C19 C20',
}
DEAD = {
    S + 'mesh.py': 'smooth_wave_loc_array thick_wave_loc_and_deriv_finder thick_square_moving_func_2 recalculate_wavespeed thick_gaussian_static_init_func simple_thick_square_init_func square_source_static_func_sqrt_t simple_thick_square_init_func_2 thick_square_moving_init_func thick_square_init_func thin_square_init_func'.split(),
    S + 'mesh_functions.py': ['boundary_source_init_func_outside'],
}
DEAD.update(json.load(open(W + '/dead.json')) if os.path.exists(W + '/dead.json') else {})


def mutants(f, root='/repo'):
    src = open(os.path.join(root, f), newline='').read()
    tree = ast.parse(src)
    lines = src.split('\n')
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)
    enc = [l.encode() for l in lines]

    def pos(ln, col):
        return off[ln - 1] + len(enc[ln - 1][:col].decode())

    def seg(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    out = []
    dead = set(DEAD.get(f, ()))

    def add(n, a, b, new, what):
        if src[a:b] != new:
            out.append((f, n.lineno, a, b, new, what))

    def visit(n, infun):
        if isinstance(n, (ast.FunctionDef,)):
            if n.name in dead:
                return
            infun = n.name
            for c in n.body:
                visit(c, infun)
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Name) and n.value.func.id == 'print':
            return
        if isinstance(n, (ast.Import, ast.ImportFrom, ast.Assert, ast.Raise)):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).startswith('plt'):
            return
        if infun:
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)):
                a, b = seg(n)
                if infun != '__init__':
                    add(n, a, b, 'pass', 'delete statement')
            if isinstance(n, ast.AugAssign):
                a, b = seg(n.target)
                c, d = seg(n.value)
                op = src[b:c]
                for x, y in (('+=', '-='), ('-=', '+=')):
                    if x in op:
                        add(n, b, c, op.replace(x, y), x + '->' + y)
                add(n, b, c, ' = ', 'augmented to plain')
            if isinstance(n, ast.BinOp):
                l, r = seg(n.left)[1], seg(n.right)[0]
                op = src[l:r]
                for k, x, y in ((ast.Add, '+', '-'), (ast.Sub, '-', '+'), (ast.Mult, '*', '/'), (ast.Div, '/', '*')):
                    if isinstance(n.op, k) and op.count(x) == 1:
                        add(n, l, r, op.replace(x, y), f'{x} -> {y}')
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                l, r = seg(n.left)[1], seg(n.comparators[0])[0]
                op = src[l:r]
                for k, x, ys in ((ast.Lt, '<', ('<=', '>')), (ast.LtE, '<=', ('<', '>')), (ast.Gt, '>', ('>=', '<')), (ast.GtE, '>=', ('>', '<')), (ast.Eq, '==', ('!=',)), (ast.NotEq, '!=', ('==',))):
                    if isinstance(n.ops[0], k):
                        for y in ys:
                            add(n, l, r, op.replace(x, y, 1), f'{x} -> {y}')
            if isinstance(n, ast.BoolOp):
                l, r = seg(n.values[0])[1], seg(n.values[1])[0]
                op = src[l:r]
                x, y = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
                add(n, l, r, op.replace(x, y), f'{x} -> {y}')
            if isinstance(n, ast.Constant):
                a, b = seg(n)
                if n.value is True:
                    add(n, a, b, 'False', 'True -> False')
                elif n.value is False:
                    add(n, a, b, 'True', 'False -> True')
                elif isinstance(n.value, int):
                    add(n, a, b, str(n.value + 1), f'{n.value} -> {n.value + 1}')
                    if n.value == 1:
                        add(n, a, b, '0', '1 -> 0')
                elif isinstance(n.value, float):
                    add(n, a, b, repr(n.value * 1.5 if n.value else 1.0), f'{n.value} scaled')
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
                a, b = seg(n)
                add(n, a, b, '(' + src[seg(n.operand)[0]:b] + ')', 'drop minus')
            if isinstance(n, (ast.If, ast.While)):
                a, b = seg(n.test)
                add(n, a, b, 'not (' + src[a:b] + ')', 'negate condition')
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                pass
        for c in ast.iter_child_nodes(n):
            visit(c, infun)
    visit(tree, None)
    good = []
    for m in out:
        t = src[:m[2]] + m[4] + src[m[3]:]
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        good.append(m)
    return src, good


def run_one(slot, m, src):
    f, ln, a, b, new, what = m
    d = f'{W}/r{slot}'
    p = os.path.join(d, 'repo', f)
    open(p, 'w', newline='').write(src[:a] + new + src[b:])
    res = []
    killed = None
    for c in MAP[f].split():
        t = time.time()
        try:
            r = subprocess.run(['./run', c, 'quick'], cwd=d + '/verif', env=dict(os.environ, MC_REPO=d + '/repo', MC_PROCS='1'), capture_output=True, text=True, timeout=2400)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -9
        res.append((c, rc, round(time.time() - t)))
        if rc != 0:
            killed = c
            break
    open(p, 'w', newline='').write(src)
    return killed, res


def main():
    if sys.argv[1] == 'count':
        tot = 0
        for f in MAP:
            n = len(mutants(f)[1]); tot += n
            print(n, f)
        print(tot)
        return
    npar, seed, per = int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    files = [f for f in MAP if not sys.argv[5:] or any(x in f for x in sys.argv[5:])]
    done = set()
    if os.path.exists(W + '/results.jsonl'):
        for l in open(W + '/results.jsonl'):
            done.add(tuple(json.loads(l)['m'][:5]))
    work = []
    srcs = {}
    for f in files:
        srcs[f], ms = mutants(f)
        rng = random.Random(seed)
        rng.shuffle(ms)
        lines = {}
        pick = []
        for m in ms:                      # spread over lines
            if lines.get(m[1], 0) < 1 and m[:5] not in done:
                lines[m[1]] = lines.get(m[1], 0) + 1
                pick.append(m)
        work += pick[:per]
    random.Random(seed).shuffle(work)
    print(len(work), 'mutants', flush=True)
    q = queue.Queue()
    for m in work:
        q.put(m)
    lock = threading.Lock()

    def worker(slot):
        d = f'{W}/r{slot}'
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree('/repo', d + '/repo', symlinks=True)
        shutil.copytree(V, d + '/verif', symlinks=True, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence', 'replays'))
        while not os.path.exists(W + '/STOP'):
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            k, res = run_one(slot, m, srcs[m[0]])
            src = srcs[m[0]]
            with lock, open(W + '/results.jsonl', 'a') as g:
                line = src[:m[2]].rfind('\n') + 1
                end = src.find('\n', m[3])
                g.write(json.dumps(dict(m=m, killed=k, res=res, old=src[m[2]:m[3]][:200], line=src[line:end][:300])) + '\n')
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=worker, args=(i,)) for i in range(npar)]
    [t.start() for t in ts]
    [t.join() for t in ts]


if __name__ == '__main__':
    main()
