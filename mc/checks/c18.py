"""Cache directory: all interleavings of the file-system calls of concurrent callers, all crash points, all environments."""
import builtins, io, itertools, json, os, shutil, stat as statmod, sys, tempfile, threading
from ..core import Violation, digest

LEVEL = 'model_checking'
RULE = ('(a) every combination of explicit base, KYMATIO_CACHE, HOME, name, create and initial tree; (b) for 2 and 3 concurrent callers in a scratch directory, every interleaving of their file-system calls '
        '(the functions of module os and open), in the order of the number of preemptions, up to the preemption bound of the case if it has one; cases that reach their cap are counted as capped_cases with the number of preemptions covered completely, each caller writing a file into its directory right after its call; '
        '(c) the same with one caller stopped for ever before any one of its file-system calls; (d) a process killed before each of its file-system calls, then a later call. '
        'State = directory tree + position of every caller; transition = one file-system call of the real get_cache_dir')
ASSUMPTIONS = ['scheduling points are the file-system functions of the os module and open(); each is atomic', 'local file system, not a network one', 'HOME is never unset while creating, to stay inside the scratch directory']

FS = ['stat', 'lstat', 'mkdir', 'rmdir', 'open', 'close', 'replace', 'rename', 'renames', 'listdir', 'scandir', 'access', 'unlink', 'remove', 'chmod', 'link', 'symlink', 'readlink', 'utime', 'chdir', 'umask', 'getcwd', 'fsync', 'truncate', 'mkfifo', 'mknod']


def cases(tier, seed):
    deep = tier == 'thorough'
    for c in all_cases(deep):
        if c['kind'] == 'schedules':
            c['cap'] = 400000 if deep else 4000
        yield c


def all_cases(deep):
    for base in (None, 'base', 'deep/er/base', 'rel'):
        for env in (None, '', 'envbase', 'env/nested'):
            yield dict(kind='env', base=base, env=env)
    # callers: (base, name); tree: directories that exist beforehand
    B = 'b'
    groups = [[(B, 'a'), (B, 'a')], [(B, ''), (B, '')], [(B, ''), (B, 'a')], [(B, 'a'), (B, 'c')], [('b/c', 'd'), ('b/c', 'd')], [('b', 'c/d'), ('b', 'c')], [('b/c', 'd'), ('b', 'e')],
              [(B, 'a'), (B, 'a/x')]]
    for g in groups:
        for tree in ([], ['b'], ['b/a', 'b/c']):
            for crash in (False, True):
                yield dict(kind='schedules', callers=g, tree=tree, crash=crash, bound=None if deep or len(g[0][0] + g[0][1]) < 4 or tree else 4, cost=20)
    for g in [[(B, 'a')] * 3, [(B, '')] * 3, [(B, 'a'), (B, 'c'), (B, '')], [(B, 'a'), (B, 'a'), (B, 'a/x')]]:
        for tree in ([], ['b']):
            yield dict(kind='schedules', callers=g, tree=tree, crash=False, bound=(5 if deep else 2) if not tree else (7 if deep else 3), cost=30)
            if deep:
                yield dict(kind='schedules', callers=g, tree=tree, crash=True, bound=3, cost=30)
    for g in groups[:6] + [[('b/c', 'd/e'), ('b/c', 'd/e')]]:
        for tree in ([], ['b']):
            yield dict(kind='kill', callers=g, tree=tree)


class Stopped(BaseException):
    pass


class Scheduler:
    """Callers run one at a time; before each file-system call they hand control back."""
    def __init__(self, n):
        self.n = n
        self.go = [threading.Semaphore(0) for _ in range(n)]
        self.back = threading.Semaphore(0)
        self.status = ['new'] * n
        self.pos = [0] * n
        self.last = [None] * n
        self.me = {}
        self.kill = False
        self.active = True

    def point(self, name):
        if not self.active:
            return
        i = self.me.get(threading.get_ident())
        if i is None or self.kill:
            return
        self.pos[i] += 1
        self.last[i] = name
        self.back.release()
        if not self.go[i].acquire(timeout=60):
            os._exit(3)
        if self.kill:
            raise Stopped()

    def body(self, i, fn):
        self.me[threading.get_ident()] = i
        self.go[i].acquire()
        try:
            if not self.kill:
                fn()
        except Stopped:
            pass
        finally:
            self.status[i] = 'done'
            self.back.release()

    def start(self, fns):
        self.ts = [threading.Thread(target=self.body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in self.ts:
            t.start()
        for i in range(self.n):          # run to the first file-system call
            self.step(i)

    def step(self, i):
        self.go[i].release()
        if not self.back.acquire(timeout=60):
            raise RuntimeError('caller does not reach a file-system call')

    def enabled(self):
        return [i for i in range(self.n) if self.status[i] != 'done']


class Patch:
    """File-system functions of the os module announce themselves to sched.point first."""
    def __init__(self, point):
        self.point = point

    def __enter__(self):
        self.saved = []
        def wrap(mod, name, orig):
            def f(*a, **k):
                self.point(name)
                return orig(*a, **k)
            f.__name__ = name
            self.saved.append((mod, name, orig))
            setattr(mod, name, f)
        for n in FS:
            if n != 'getcwd':
                wrap(os, n, getattr(os, n))
        o = builtins.open
        wrap(builtins, 'open', o)
        wrap(io, 'open', o)
        import posixpath
        for m in (posixpath, sys.modules['genericpath']):     # C shortcuts of os.path, where they exist
            for n in ('exists', 'isdir', 'isfile', 'lexists'):
                g = getattr(m, n, None)
                if g is not None and not hasattr(g, '__code__'):
                    wrap(m, n, g)
        return self

    def __exit__(self, *a):
        for mod, name, orig in reversed(self.saved):
            setattr(mod, name, orig)


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        out[os.path.relpath(d, root)] = ('dir', statmod.S_IMODE(os.lstat(d).st_mode))
        for f in fs + [x for x in ds if os.path.islink(os.path.join(d, x))]:
            p = os.path.join(d, f)
            out[os.path.relpath(p, root)] = ('file', os.lstat(p).st_mode, open(p, 'rb').read() if os.path.isfile(p) else b'')
    return out


def parents(rel):
    rel = os.path.normpath(rel)
    out = set()
    while rel not in ('', '.', '/'):
        out.add(rel)
        rel = os.path.dirname(rel)
    return out


class Scratch:
    def __init__(self, tree):
        self.tree = tree

    def __enter__(self):
        self.top = tempfile.mkdtemp(prefix='kymatio-c18-', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
        self.home, self.root = self.top + '/home', self.top + '/root'
        os.mkdir(self.home)
        os.mkdir(self.root)
        for t in self.tree:
            os.makedirs(os.path.join(self.root, t), exist_ok=True)
            with open(os.path.join(self.root, t, 'precious.dat'), 'w') as f:
                f.write('keep ' + t)
        with open(self.root + '/neighbour', 'w') as f:
            f.write('x')
        self.saved = (os.getcwd(), os.environ.get('HOME'), os.environ.pop('KYMATIO_CACHE', None), os.umask(0o022))
        os.environ['HOME'] = self.home
        os.chdir(self.root)
        return self

    def __exit__(self, *a):
        os.chdir(self.saved[0])
        os.umask(self.saved[3])
        for k, v in (('HOME', self.saved[1]), ('KYMATIO_CACHE', self.saved[2])):
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v
        assert self.top.startswith(('/dev/shm/kymatio-c18-', tempfile.gettempdir() + '/kymatio-c18-'))
        shutil.rmtree(self.top, ignore_errors=True)


def norm(p):
    return os.path.normpath(os.path.abspath(p))


def run_env(case, rep):
    from kymatio.caching import get_cache_dir, find_cache_base_dir
    names = ('', 'mnist', 'a/b', 'fsdd_v1.0', 'with space', 'a/b/c/d', '\u00e9t\u00e9')
    for home, name, create, exists, default in itertools.product(('home', 'home2/sub'), names, (True, False), ('none', 'base', 'full'), (False, True)):
        with Scratch(['other', 'other/sub']) as s:
            os.environ['HOME'] = s.top + '/' + home
            base = case['base'] if case['base'] in (None, 'rel') else s.root + '/' + case['base']
            env = case['env'] if not case['env'] else s.root + '/' + case['env']
            if env is not None:
                os.environ['KYMATIO_CACHE'] = env
            expected_base = base if base is not None else env if env is not None else s.top + '/' + home + '/kymatio_cache'
            if expected_base == '' and name == '':
                continue                      # the empty path: nothing is specified
            want = os.path.join(expected_base, name)
            pre = {'none': None, 'base': expected_base or '.', 'full': want}[exists]
            if pre is not None:
                os.makedirs(pre, exist_ok=True)
                with open(os.path.join(pre, 'old.dat'), 'w') as f:
                    f.write('old')
            kw = {} if default and create else dict(create=create)
            if not (default and name == ''):
                kw['name'] = name
            if not (default and base is None):
                kw['cache_base_dir'] = base
            what = 'get_cache_dir(%s), KYMATIO_CACHE=%r, HOME=%r, existing=%s' % (', '.join('%s=%r' % i for i in kw.items()), env, home, exists)
            before, there = snapshot(s.top), os.path.isdir(want)
            b = find_cache_base_dir(base)
            if not isinstance(b, str) or norm(b) != norm(expected_base):
                raise Violation('%s: find_cache_base_dir gives %r instead of %r' % (what, b, expected_base))
            if snapshot(s.top) != before:
                raise Violation('%s: find_cache_base_dir changed the file system' % what)
            envs = dict(os.environ)
            try:
                got = get_cache_dir(**kw)
                err = None
            except ValueError as e:
                err = e
            if not create and not there:
                if err is None:
                    raise Violation('%s: returned %r although the directory does not exist' % (what, got))
            else:
                if err is not None:
                    raise Violation('%s: raised %r' % (what, err))
                if norm(got) != norm(want):
                    raise Violation('%s: returned %r instead of %r' % (what, got, want))
                if not os.path.isdir(got):
                    raise Violation('%s: the returned directory does not exist' % what)
            after = snapshot(s.top)
            allowed = {os.path.relpath(os.path.join(s.root, want), s.top)} if create else set()
            for p in list(allowed):
                allowed |= parents(p)
            check_tree(before, after, allowed, what)
            if dict(os.environ) != envs or norm(os.getcwd()) != norm(s.root):
                raise Violation('%s: the environment or the working directory changed' % what)
            # again: same answer, nothing changes
            if create:
                got2 = get_cache_dir(**kw)
                got3 = get_cache_dir(name, base, False)
                if got2 != got or norm(got3) != norm(got) or snapshot(s.top) != after:
                    raise Violation('%s: a second call returns %r / %r or changes the tree' % (what, got2, got3))
            rep.eval()
            rep.state([sorted(after), case])
            rep.transitions += 1
    rep.sample(dict(case=case, last=what))


def check_tree(before, after, allowed, what):
    for p, v in before.items():
        if after.get(p) != v:
            raise Violation('%s: %s was removed or modified' % (what, p))
    extra = set(after) - set(before) - allowed
    if extra:
        raise Violation('%s: created %s' % (what, sorted(extra)))
    for p in set(after) - set(before):
        if after[p][0] != 'dir':
            raise Violation('%s: %s is not a directory' % (what, p))


def execute(case, prefix, rep, s):
    """One schedule. prefix: list of choices (caller index, or ['stop', i]); afterwards the current caller continues.
    Returns (choices made, enabled sets at each point, result or Violation)."""
    from kymatio.caching import get_cache_dir
    n = len(case['callers'])
    sch = Scheduler(n)
    results = [None] * n

    def body(i):
        base, name = case['callers'][i]
        def f():
            try:
                p = get_cache_dir(name, base)
            except Stopped:
                raise
            except BaseException as e:
                results[i] = ('raised', '%s: %s' % (type(e).__name__, e))
                return
            results[i] = ('ok', p)
            try:
                with open(os.path.join(p, 'data%d' % i), 'x') as fh:
                    fh.write('from %d' % i)
            except Stopped:
                raise
            except BaseException as e:
                results[i] = ('unusable', '%s: %s' % (type(e).__name__, e))
        return f
    choices, menus = [], []
    stopped = set()
    cur = None
    with Patch(sch.point):
        sch.start([body(i) for i in range(n)])
        while True:
            en = [i for i in sch.enabled() if i not in stopped]
            if not en:
                break
            k = len(choices)
            menus.append((tuple(en), cur if cur in en else None, not stopped))
            if k < len(prefix):
                c = prefix[k]
            else:
                c = cur if cur in en else en[0]
            choices.append(c)
            if isinstance(c, (list, tuple)):
                if c[1] not in en:
                    raise RuntimeError('schedule diverged')
                stopped.add(c[1])
                continue
            if c not in en:
                raise RuntimeError('schedule diverged')
            cur = c
            sch.step(c)
            rep.transitions += 1
        sch.active = False
    # judge before the stopped callers are released
    trace = [c if isinstance(c, int) else 'stop%d' % c[1] for c in choices]
    viol = None
    what = 'callers %s, existing %s, schedule %s' % (json.dumps(case['callers']), case['tree'], trace)
    try:
        after = snapshot(s.root)
        rep.state([sorted(after.items(), key=repr), sorted(stopped), results])
        for i, (base, name) in enumerate(case['callers']):
            want = os.path.join(base, name)
            if i in stopped and results[i] is None:
                continue
            if results[i] is None or results[i][0] != 'ok':
                raise Violation('%s: caller %d %s' % (what, i, results[i]))
            if norm(results[i][1]) != norm(os.path.join(s.root, want)):
                raise Violation('%s: caller %d got %r' % (what, i, results[i][1]))
            if i not in stopped:
                p = os.path.relpath(norm(os.path.join(want, 'data%d' % i)), s.root)
                if p not in after or after[p][2] != b'from %d' % i:
                    raise Violation('%s: the file of caller %d is gone' % (what, i))
        # a later call completes whatever was interrupted
        for i, (base, name) in enumerate(case['callers']):
            p = get_cache_dir(name, base)
            q = get_cache_dir(name, base, create=False)
            if not os.path.isdir(p) or norm(p) != norm(q):
                raise Violation('%s: a later call fails' % what)
        after = snapshot(s.root)
        allowed = set()
        for i, (base, name) in enumerate(case['callers']):
            allowed |= parents(os.path.join(base, name))
        data = {p for p in after if os.path.basename(p).startswith('data')}
        if not stopped:
            check_tree(s.before, {p: v for p, v in after.items() if p not in data}, allowed, what)
        else:
            for p, v in s.before.items():
                if after.get(p) != v:
                    raise Violation('%s: %s was removed or modified' % (what, p))
    except Violation as e:
        viol = e
    except (OSError, ValueError) as e:
        viol = Violation('%s: a later call raised %s: %s' % (what, type(e).__name__, e))
    sch.kill = True
    for i in range(n):
        sch.go[i].release()
    for t in sch.ts:
        t.join(60)
    return choices, menus, viol


def run_schedules(case, rep):
    bound = case['bound']
    # schedules in the order of their number of preemptions; a case stops at `cap` schedules and says so
    buckets, count = {0: [[]]}, 0
    while any(buckets.values()):
        used = min(b for b in buckets if buckets[b])
        if count >= case['cap']:
            rep.add('capped_cases')
            rep.add('capped_cases_with_all_schedules_of_%d_preemptions_covered' % (used - 1))
            break
        prefix = buckets[used].pop()
        count += 1
        with Scratch(case['tree']) as s:
            s.before = snapshot(s.root)
            choices, menus, viol = execute(case, prefix, rep, s)
        if viol:
            raise viol
        rep.traces += 1
        rep.eval()
        # siblings: deviations at the points after the prefix
        pre = used
        for k in range(len(prefix), len(choices)):
            en, cur, may_stop = menus[k]
            for alt in en:
                cost = 1 if cur is not None and alt != cur else 0
                if alt != choices[k] and (bound is None or pre + cost <= bound):
                    buckets.setdefault(pre + cost, []).append(choices[:k] + [alt])
            if case['crash'] and may_stop:
                for alt in en:
                    buckets.setdefault(pre, []).append(choices[:k] + [['stop', alt]])
        rep.add('schedules')
    rep.sample(dict(case=case, last_schedule=choices, file_system_calls=len(choices)))


def run_kill(case, rep):
    """A process dies (os._exit) just before its k-th file-system call, for every k; then the other callers and the same call again."""
    from kymatio.caching import get_cache_dir
    k = 0
    while True:
        with Scratch(case['tree']) as s:
            before = snapshot(s.root)
            base, name = case['callers'][0]
            pid = os.fork()
            if pid == 0:
                n = [0]
                def point(_):
                    if n[0] == k:
                        os._exit(42)
                    n[0] += 1
                try:
                    with Patch(point):
                        get_cache_dir(name, base)
                finally:
                    os._exit(0 if True else 1)
            _, st = os.waitpid(pid, 0)
            died = os.waitstatus_to_exitcode(st) == 42
            mid = snapshot(s.root)
            rep.state([sorted(mid), k])
            what = 'callers %s, existing %s, first caller killed before file-system call %d' % (json.dumps(case['callers']), case['tree'], k)
            for i in (1, 0):
                b, nme = case['callers'][i]
                try:
                    p = get_cache_dir(nme, b)
                except OSError as e:
                    raise Violation('%s: later call %d raised %s' % (what, i, e))
                if norm(p) != norm(os.path.join(s.root, b, nme)) or not os.path.isdir(p):
                    raise Violation('%s: later call %d returned %r' % (what, i, p))
            after = snapshot(s.root)
            for p, v in before.items():
                if after.get(p) != v:
                    raise Violation('%s: %s was removed or modified' % (what, p))
            rep.transitions += 3
            rep.traces += 1
            rep.eval()
        if not died:
            break
        k += 1
        if k > 200:
            raise Violation('more than 200 file-system calls')
    rep.add('crash_points', k)
    rep.sample(dict(case=case, crash_points=k))


def run_case(case, rep):
    import kymatio.caching
    {'env': run_env, 'schedules': run_schedules, 'kill': run_kill}[case['kind']](case, rep)
