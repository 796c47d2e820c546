#!/usr/bin/env python3
"""mutate.py FILE OUT.jsonl [--runs N] [--only FUNC] [--jobs J]

Systematic small mutations of /repo's source, each tried against the quick
checks of the properties its function belongs to (reduced runs).  Reports the
survivors, to be looked at by hand: equivalent, outside the properties, or
missed.
"""
import argparse, ast, copy, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {
    'gather_excs': 'C20', 'raise_first_exc': 'C20', 'to_async_iter': 'C16 C03',
    'to_sync_iter': 'C16', 'threadsafe_async_cache': 'C01 C05 C06 C14 C15',
    'buffer_until_timeout': 'C15 C08', 'BufferAsyncCalls': 'C03 C07 C08 C15',
    'async_background_batcher': 'C15', 'AsyncBackgroundBatcher':
    'C04 C09 C10 C11', 'ensure_aw': 'C17', 'loop_in_thread': 'C17',
    '_get_loop_lock': 'C17', 'run_aw_threadsafe': 'C17', '_aw_to_coro': 'C17',
    '_obj_to_aiter': 'C03 C07', '_awaitable_to_aiter': 'C03 C07',
    'DaemonTask': 'C07 C04', 'split': 'C18', 'exhaust': 'C18',
    'BaseFileLock': 'C12 C02 C13', 'UnixFileLock': 'C12 C02 C13',
    'AcquireReturnProxy': 'C12 C02 C13', None: ''}


def sites(tree):
    """Yield (top-level name, description, mutate(tree copy))."""
    nodes = []
    for top in tree.body:
        name = getattr(top, 'name', None)
        for n in ast.walk(top):
            nodes.append((name, n))
    index = {id(n): i for i, (_, n) in enumerate(nodes)}

    def twin(new, n):
        k = 0
        for top in new.body:
            for m in ast.walk(top):
                if k == index[id(n)]:
                    return m
                k += 1

    def put(old, new):
        """Make node `old` become `new` in place."""
        old.__class__ = new.__class__
        old.__dict__.clear()
        old.__dict__.update(new.__dict__)

    out = []

    def add(name, n, what, fn):
        out.append((name, getattr(n, 'lineno', 0), what, n, fn))

    for name, n in nodes:
        if name is None:
            continue
        for field in ('body', 'orelse', 'finalbody'):
            body = getattr(n, field, None)
            if not isinstance(body, list):
                continue
            for i, s in enumerate(body):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    continue
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete,
                                  ast.Raise, ast.Break, ast.Continue, ast.Nonlocal)) \
                        or isinstance(s, ast.Return) and s.value is not None:
                    add(name, s, f'delete `{ast.unparse(s)[:70]}`',
                        lambda m: put(m, ast.Pass()))
                if i + 1 < len(body) and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) \
                        and isinstance(body[i + 1], (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)):
                    def swap(m, field=field, i=i):
                        b = getattr(m, field)
                        b[i], b[i + 1] = b[i + 1], b[i]
                    add(name, n, f'swap `{ast.unparse(s)[:40]}` and next', swap)
        if isinstance(n, (ast.If, ast.IfExp)):
            for v in (True, False):
                add(name, n, f'if {v} for `{ast.unparse(n.test)[:60]}`',
                    lambda m, v=v: setattr(m, 'test', ast.Constant(v)))
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
                  ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
                  ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
            add(name, n, f'op in `{ast.unparse(n)[:60]}`',
                lambda m: m.ops.__setitem__(0, sw[type(m.ops[0])]()))
        if isinstance(n, ast.BoolOp):
            add(name, n, f'and/or in `{ast.unparse(n)[:60]}`', lambda m: setattr(
                m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for i in range(len(n.values)):
                add(name, n, f'drop operand {i} of `{ast.unparse(n)[:60]}`',
                    lambda m, i=i: put(m, m.values[1 - i] if len(m.values) == 2 else
                                       ast.BoolOp(m.op, [v for j, v in enumerate(m.values) if j != i])))
        if isinstance(n, ast.Constant) and type(n.value) in (int, float, bool):
            new = (not n.value) if type(n.value) is bool else n.value + 1
            add(name, n, f'{n.value} -> {new}', lambda m, new=new: setattr(m, 'value', new))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(name, n, f'drop not in `{ast.unparse(n)[:60]}`', lambda m: put(m, m.operand))
        if isinstance(n, ast.Try):
            if n.finalbody:
                def after(m):
                    fb = m.finalbody
                    m.orelse = m.orelse + fb
                    m.finalbody = []
                    if not m.handlers:
                        put(m, ast.If(ast.Constant(True), m.body + m.orelse, []))
                add(name, n, 'finally only on success', after)
                def each(m):
                    m.handlers.append(ast.ExceptHandler(ast.Name('Exception', ast.Load()), None,
                                                        m.finalbody + [ast.Raise()]))
                    m.orelse = m.orelse + m.finalbody
                    m.finalbody = []
                add(name, n, 'finally not on BaseException', each)
            for i, h in enumerate(n.handlers):
                t = ast.unparse(h.type) if h.type else ''
                add(name, h, f'handler {t}: re-raise', lambda m: setattr(m, 'body', [ast.Raise()]))
                if t == 'Exception':
                    add(name, h, 'Exception -> BaseException', lambda m: setattr(m, 'type', ast.Name('BaseException', ast.Load())))
                if t == 'BaseException':
                    add(name, h, 'BaseException -> Exception', lambda m: setattr(m, 'type', ast.Name('Exception', ast.Load())))
                if isinstance(h.type, ast.Tuple):
                    for j in range(len(h.type.elts)):
                        add(name, h, f'drop {ast.unparse(h.type.elts[j])} from handler',
                            lambda m, j=j: m.type.elts.pop(j))
        if isinstance(n, (ast.With, ast.AsyncWith)):
            add(name, n, f'drop with `{ast.unparse(n.items[0])[:50]}`',
                lambda m: put(m, ast.If(ast.Constant(True), m.body, [])))
        if isinstance(n, ast.Call):
            for i in range(len(n.keywords)):
                if n.keywords[i].arg:
                    add(name, n, f'drop {n.keywords[i].arg}= in `{ast.unparse(n)[:60]}`',
                        lambda m, i=i: m.keywords.pop(i))
            if n.args and not isinstance(n.args[0], ast.Starred):
                add(name, n, f'`{ast.unparse(n)[:50]}` -> its first argument',
                    lambda m: put(m, m.args[0]))
            if len(n.args) == 2:
                add(name, n, f'swap args of `{ast.unparse(n)[:50]}`', lambda m: m.args.reverse())
        if isinstance(n, ast.AugAssign):
            add(name, n, f'+=/-= in `{ast.unparse(n)[:50]}`', lambda m: setattr(
                m, 'op', ast.Sub() if isinstance(m.op, ast.Add) else ast.Add()))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            add(name, n, f'+/- in `{ast.unparse(n)[:50]}`', lambda m: setattr(
                m, 'op', ast.Sub() if isinstance(m.op, ast.Add) else ast.Add()))
    for name, line, what, n, fn in out:
        def make(n=n, fn=fn):
            new = copy.deepcopy(tree)
            fn(twin(new, n))
            return ast.unparse(ast.fix_missing_locations(new))
        yield name, line, what, make


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('out')
    ap.add_argument('--runs', type=int, default=1500)
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=4)
    ap.add_argument('--lines', help='only these source lines')
    ap.add_argument('--again', help='only the survivors in this file')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    src = open('/repo/' + a.file).read()
    tree = ast.parse(src)
    base = ast.unparse(tree)
    work = []
    for name, line, what, make in sites(tree):
        if a.only and name not in a.only.split(','):
            continue
        try:
            code = make()
        except Exception as e:
            print('cannot', name, line, what, repr(e))
            continue
        if code != base:
            work.append((name, line, what, code))
    # no identical mutants
    seen, uniq = set(), []
    for w in work:
        if w[3] not in seen:
            seen.add(w[3])
            uniq.append(w)
    work = uniq
    print(len(work), 'mutants', flush=True)
    if a.list:
        for w in work:
            print(*w[:3])
        return
    if a.lines:
        work = [w for w in work if str(w[1]) in a.lines.split(',')]
    if a.again:
        left = set()
        for l in open(a.again):
            d = json.loads(l)
            if d['caught'] is None:
                left.add((d['name'], d['line'], d['what']))
        work = [w for w in work if w[:3] in left]
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out):
            d = json.loads(l)
            done.add((d['name'], d['line'], d['what']))
    out = open(a.out, 'a')

    def one(w):
        name, line, what, code = w
        if (name, line, what) in done:
            return
        res, tmp = {}, tempfile.mkdtemp(prefix='mut-')
        caught = None
        try:
            shutil.copytree('/repo/aiuti', tmp + '/repo/aiuti')
            with open(f'{tmp}/repo/{a.file}', 'w') as f:
                f.write(code)
            for p in PROPS.get(name, '').split():
                t0 = time.time()
                try:
                    q = subprocess.run(['/opt/venv/bin/python', HERE + '/check.py', 'run', p, '--runs',
                                        str(a.runs), '--workers', '2', '--detect'], capture_output=True, text=True,
                                       env=dict(os.environ, AIUTI_SIM_REPO=tmp + '/repo', VERIF_SEED='3'),
                                       timeout=400)
                    rc = q.returncode
                    msg = [x for x in q.stdout.splitlines() if x.startswith('violation at')]
                    msg = msg[0][:140] if msg else (q.stdout + q.stderr)[-160:] if rc else ''
                except subprocess.TimeoutExpired:
                    rc, msg = 'timeout', ''
                res[p] = [rc, round(time.time() - t0, 1), msg]
                if rc == 1:
                    caught = p
                    break
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        out.write(json.dumps({'name': name, 'line': line, 'what': what, 'caught': caught, 'res': res}) + '\n')
        out.flush()

    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, work))


main()
