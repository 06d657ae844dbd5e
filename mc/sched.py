"""Controlled two-(or more-)thread scheduler.  kymatio is imported through a loader that adds scheduling points to its functions:
at every function entry ('call'), before every statement ('line'), and after every attribute, subscript and call evaluated
inside an expression ('op', which includes the other two).

A plan is (first, [k1, k2, ...]): thread `first` runs until it has executed k1 units, then the next thread runs until it has
executed k2 units, and so on; when the list is exhausted each thread in turn runs to completion.  Exactly one thread runs at
any time, except that a thread which blocks on a lock for BLOCK seconds lets the others go on (a legal execution too).
"""
import ast, builtins, importlib.abc, importlib.machinery, sys, threading

BLOCK = 1.0
_tls = threading.local()
LEVELS = {'call': 0, 'line': 1, 'op': 2}


def _point(level):
    hook = getattr(_tls, 'hook', None)
    if hook is not None and hook[0].level >= level:
        hook[0].step(hook[1])


def _mc_call_():
    _point(0)


def _mc_line_():
    _point(1)


def _mc_op_(v):
    _point(2)
    return v


class Instrument(ast.NodeTransformer):
    """Adds scheduling points inside function and lambda bodies."""
    def __init__(self):
        self.inside = 0

    def call(self, name, node, *args):
        return ast.copy_location(ast.Call(ast.copy_location(ast.Name(name, ast.Load()), node), list(args), []), node)

    def op(self, node):
        return self.call('_mc_op_', node, node)

    def block(self, stmts, entry=False):
        out = []
        for k, s in enumerate(stmts):
            doc = entry and k == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, str)
            if not doc and not isinstance(s, (ast.Global, ast.Nonlocal)):
                out.append(ast.copy_location(ast.Expr(self.call('_mc_line_', s)), s))
            s = self.visit(s)
            out.append(s)
        if entry:
            first = next((k for k, s in enumerate(out) if not (k == 0 and isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))), len(out))
            out.insert(first, ast.copy_location(ast.Expr(self.call('_mc_call_', stmts[0])), stmts[0]))
        return out

    def generic_visit(self, node):
        if not self.inside:
            return super().generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, f, self.block(v))
        for f, v in ast.iter_fields(node):
            if f in ('body', 'orelse', 'finalbody') and isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                continue
            if isinstance(v, list):
                setattr(node, f, [self.visit(x) if isinstance(x, ast.AST) else x for x in v])
            elif isinstance(v, ast.AST):
                setattr(node, f, self.visit(v))
        return node

    def visit_FunctionDef(self, node):
        # decorators and defaults are evaluated outside
        self.inside += 1
        node.body = self.block(node.body, entry=True)
        self.inside -= 1
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        inside, self.inside = self.inside, 0
        node.body = [self.visit(s) for s in node.body]
        self.inside = inside
        return node

    def visit_Lambda(self, node):
        self.inside += 1
        node.body = self.op(self.visit(node.body))
        self.inside -= 1
        return node

    def _wrap(self, node):
        node = self.generic_visit(node)
        if self.inside and isinstance(getattr(node, 'ctx', ast.Load()), ast.Load):
            return self.op(node)
        return node

    visit_Attribute = visit_Subscript = visit_Call = _wrap

    def visit_AugAssign(self, node):
        node = self.generic_visit(node)
        if self.inside:
            node.value = self.op(node.value)
        return node

    def visit_JoinedStr(self, node):
        return node


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimize=-1):
        tree = Instrument().visit(ast.parse(data, path))
        return compile(ast.fix_missing_locations(tree), path, 'exec', dont_inherit=True)

    def get_code(self, fullname):
        # never from (or to) a byte-code cache
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'kymatio' and not name.startswith('kymatio.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path, target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    assert not any(m.split('.')[0] == 'kymatio' for m in sys.modules)
    builtins._mc_call_, builtins._mc_line_, builtins._mc_op_ = _mc_call_, _mc_line_, _mc_op_
    sys.meta_path.insert(0, Finder())


class Run:
    def __init__(self, bodies, plan, unit='line', on_step=None):
        self.bodies, self.level, self.on_step = bodies, LEVELS[unit], on_step
        n = len(bodies)
        first, self.points = plan[0], list(plan[1])
        self.order = plan[2] if len(plan) > 2 else [(first + i) % n for i in range(n)]
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.steps = [0] * n
        self.done = [False] * n
        self.current = first
        self.free = False                 # a blocked thread was overtaken: no further control
        self.results = [None] * n
        self.switches = 0
        self.lock = threading.Lock()

    def target(self):
        return self.points[0] if self.points else None

    def pick(self, me):
        """The next thread after `me` (cyclically) that is not finished."""
        n = len(self.bodies)
        for d in range(1, n + 1):
            j = (me + d) % n
            if not self.done[j] and j != me:
                return j
        return None

    def step(self, me):
        self.steps[me] += 1
        if self.on_step is not None:
            self.on_step(me, self.steps[me])
        if self.free or self.current != me:
            return
        if self.points and self.steps[me] >= self.points[0]:
            nxt = self.pick(me)
            self.points.pop(0)
            if nxt is None:
                return
            self.switches += 1
            self.current = nxt
            self.sem[nxt].release()
            self.wait(me)

    def wait(self, me):
        last = None
        while not self.sem[me].acquire(timeout=BLOCK):
            now = (list(self.steps), list(self.done), self.current)
            if now == last:
                self.free = True          # the running thread is blocked: let everybody go
                for s in self.sem:
                    s.release()
                return
            last = now

    def main(self, me):
        self.wait(me)
        _tls.hook = (self, me)
        try:
            try:
                self.results[me] = ('ok', self.bodies[me]())
            finally:
                _tls.hook = None
        except BaseException as e:
            self.results[me] = ('error', '%s: %s' % (type(e).__name__, e))
        self.done[me] = True
        if not self.free:
            nxt = self.pick(me)
            if nxt is not None:
                if self.points:
                    self.points.pop(0)
                self.current = nxt
                self.sem[nxt].release()

    def go(self):
        ts = [threading.Thread(target=self.main, args=(i,), daemon=True) for i in range(len(self.bodies))]
        for t in ts:
            t.start()
        self.sem[self.current].release()
        for t in ts:
            t.join(60)
            if t.is_alive():
                return None
        return self.results
