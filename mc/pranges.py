"""Controlled scheduling of the parallel loops (numba.prange) of pydsge.

With compilation disabled, a prange loop is executed in order, which hides every
dependence between its iterations.  Here the iterations of such a loop become
coroutines that can be suspended before every statement, and a plan decides how they
are interleaved:

  None                  in order
  ("order", p)          iteration p[0] first, then p[1], ...
  ("preempt", i, j, n)  iteration i is preempted by iteration j after n statements
  ("preempt2", i, j, n, q)  ... and j is preempted again after q statements

Only functions that pydsge asks numba to compile with parallel=True are affected, and
only their outermost prange loops (as in numba).  Variables assigned within the body
are private to an iteration, `+=` on outer scalars is a reduction (as in numba).
Memory from numpy.empty is filled with nan under a plan, so that reading what another
iteration should have written is visible.
"""
import ast
import contextlib
import inspect
import itertools
import textwrap

import numpy as np

REC = []  # functions compiled with parallel=True
PLAN = None
STAT = {"loops": 0, "iters": 0, "steps": 0}


@contextlib.contextmanager
def recording():
    import numba

    old = {n: getattr(numba, n) for n in ("njit", "jit")}

    def wrap(orig):
        def f(*a, **k):
            r = orig(*a, **k)
            if not k.get("parallel"):
                return r
            if a and callable(a[0]):
                REC.append(a[0])
                return r

            def deco(g):
                REC.append(g)
                return r(g)

            return deco

        return f

    for n in old:
        setattr(numba, n, wrap(old[n]))
    try:
        yield
    finally:
        for n in old:
            setattr(numba, n, old[n])


def is_prange(node):
    if not isinstance(node, ast.For) or not isinstance(node.iter, ast.Call):
        return False
    f = node.iter.func
    return (f.id if isinstance(f, ast.Name) else getattr(f, "attr", "")) == "prange"


def assigned(stmts):
    """names bound by plain assignments, and by augmented ones"""
    plain, aug = set(), set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                aug.add(n.target.id)
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                plain.add(n.id)
    # an augmented target is a Store as well: count plain bindings separately
    tgt = {id(n.target) for s in stmts for n in ast.walk(s) if isinstance(n, ast.AugAssign)}
    plain = {n.id for s in stmts for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in tgt}
    return plain, aug


class Body(ast.NodeTransformer):
    """yields before every statement; continue of the parallel loop becomes return"""

    def block(self, stmts, top):
        out = []
        for s in stmts:
            out.append(ast.Expr(ast.Yield(None)))
            if isinstance(s, ast.Continue) and top:
                s = ast.Return(None)
            elif isinstance(s, (ast.For, ast.While)):
                s.body = self.block(s.body, False)
                s.orelse = self.block(s.orelse, top) if s.orelse else []
            elif isinstance(s, ast.If):
                s.body = self.block(s.body, top)
                s.orelse = self.block(s.orelse, top) if s.orelse else []
            out.append(s)
        return out


class Outer(ast.NodeTransformer):
    def __init__(self):
        self.no = 0

    def visit_For(self, node):
        if not is_prange(node):
            self.generic_visit(node)
            return node
        if not isinstance(node.target, ast.Name) or node.orelse:
            raise ValueError("unsupported loop")
        self.no += 1
        plain, aug = assigned(node.body)
        red = sorted(aug - plain - {node.target.id})
        name = "mc_iter_%d" % self.no
        body = [ast.Nonlocal(red)] if red else []
        body += Body().block(node.body, True) + [ast.Expr(ast.Yield(None))]
        fn = ast.FunctionDef(name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(node.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=body, decorator_list=[])
        if hasattr(fn, "type_params"):
            fn.type_params = []
        call = ast.Expr(ast.Call(ast.Name("mc_schedule", ast.Load()), [ast.Name(name, ast.Load()), ast.Call(ast.Name("range", ast.Load()), node.iter.args, [])], []))
        return [fn, call]


def schedule(body, rng):
    rng = list(rng)
    STAT["loops"] += 1
    STAT["iters"] = max(STAT["iters"], len(rng))
    n = len(rng)

    def run(g, limit=None):
        c = 0
        for _ in g:
            c += 1
            if limit is not None and c >= limit:
                return False
        STAT["steps"] = max(STAT["steps"], c)
        return True

    plan = PLAN
    if plan is None:
        for i in rng:
            run(body(i))
    elif plan[0] == "order":
        for p in [q for q in plan[1] if q < n] + list(range(len(plan[1]), n)):
            run(body(rng[p]))
    else:
        i, j, at = plan[1:4]
        rest = [q for q in range(n) if q not in (i, j)]
        if i >= n or j >= n:
            rest = range(n)
        else:
            a, b = body(rng[i]), body(rng[j])
            fin = run(a, at)
            if len(plan) > 4:
                finb = run(b, plan[4])
                if not fin:
                    run(a)
                if not finb:
                    run(b)
            else:
                run(b)
                if not fin:
                    run(a)
        for q in rest:
            run(body(rng[q]))


@contextlib.contextmanager
def installed(package="pydsge"):
    """transform the recorded functions of the package in place, for a while; yields their names"""
    old = {}
    for f in REC:
        f = getattr(f, "py_func", f)
        if not inspect.isfunction(f) or not (f.__module__ or "").startswith(package) or f in old:
            continue
        try:
            tree = ast.parse(textwrap.dedent(inspect.getsource(f)))
            fd = tree.body[0]
            fd.decorator_list = []
            t = Outer()
            body = []
            for s in fd.body:
                r = t.visit(s)
                body += r if isinstance(r, list) else [r]
            fd.body = body
            if not t.no or f.__code__.co_freevars:
                continue
            ast.fix_missing_locations(tree)
            ns = {}
            exec(compile(tree, f.__code__.co_filename, "exec"), f.__globals__, ns)
            old[f] = f.__code__
            f.__globals__["mc_schedule"] = schedule
            f.__code__ = ns[fd.name].__code__
        except (ValueError, OSError, SyntaxError, AttributeError):
            pass
    try:
        yield [f.__name__ for f in old]
    finally:
        for f, c in old.items():
            f.__code__ = c


@contextlib.contextmanager
def planned(plan):
    global PLAN
    e, el = np.empty, np.empty_like

    def filled(r):
        if r.dtype.kind in "fc":
            r.fill(np.nan)
        return r

    if plan is not None:
        np.empty = lambda *a, **k: filled(e(*a, **k))
        np.empty_like = lambda *a, **k: filled(el(*a, **k))
    PLAN = plan
    STAT.update(loops=0, iters=0, steps=0)
    try:
        yield
    finally:
        PLAN = None
        np.empty, np.empty_like = e, el


@contextlib.contextmanager
def unplanned():
    global PLAN
    p, st = PLAN, dict(STAT)
    PLAN = None
    try:
        yield
    finally:
        PLAN = p
        STAT.update(st)


def plans(iters, steps, deep=False):
    """all orders of up to four iterations (and the reversed and rotated ones of more), all single preemptions"""
    if iters <= 4:
        for p in itertools.permutations(range(iters)):
            if p != tuple(range(iters)):
                yield ("order", p)
    else:
        yield ("order", tuple(range(iters))[::-1])
        for i in range(1, iters):
            yield ("order", tuple(range(i, iters)) + tuple(range(i)))
    for i, j in itertools.permutations(range(min(iters, 4)), 2):
        for n in range(1, steps + 1):
            yield ("preempt", i, j, n)
            if deep:
                for q in range(1, steps + 1):
                    yield ("preempt2", i, j, n, q)


def explore(api, act, observe, what, deep=False):
    """execute act() under all plans; observe() -> [(name, value)] must always be the same as in serial execution"""
    from common import Fail, fclose

    act()
    want = observe()
    with installed() as names:
        try:
            with planned(None):
                act()
                iters, steps, loops = STAT["iters"], STAT["steps"], STAT["loops"]
        except NameError:
            # bodies that cannot be executed as functions are not judged
            api.outcome("not transformed")
            return
        if not loops:
            api.outcome("no parallel loop")
            return
        for plan in plans(iters, steps, deep):
            try:
                with planned(plan):
                    act()
            except Exception as e:
                raise Fail("schedule", "%s: %s under schedule %s of the parallel loop: %s" % (what, type(e).__name__, plan, e), plan)
            api.transitions += 1
            for (name, g), (_, w) in zip(observe(), want):
                if not fclose(g, w):
                    raise Fail("schedule", "%s: under schedule %s of the iterations of the parallel loop, %s is %s instead of %s" % (what, plan, name, np.asarray(g).tolist(), np.asarray(w).tolist()), plan)
            api.states += 1
    api.outcome("parallel loops", iters, steps)
