"""Life-cycle histories of PyTorch scattering modules."""
import copy, io, itertools, json, pickle
import numpy as np
from ..core import Violation, SEED, digest
from .. import fe as F

LEVEL = 'model_checking'
RULE = ('transition = one torch.nn.Module life-cycle operation (double, float, to, train/eval, call under grad/no_grad/inference mode, backward, state_dict into fresh/used/double modules, own state_dict, deepcopy, copy.copy, pickle, '
        'torch.save, Sequential, apply, requires_grad_) executed on the real module; every history up to the depth is executed, plus a breadth-first search with de-duplication on (dtype, training flag, all buffers); '
        'after each history the module must compute the NumPy coefficients in its current precision, hold its filters as buffers and exchange state_dicts strictly; plus, under torch.compile, functional_call, checkpoint, shared memory and hooks, every (state of the filters, batch shape) in one sequence')
ASSUMPTIONS = ['CPU only', 'single-precision filters: 2e-5 relative', 'the de-duplicated search merges states with equal dtype, training flag, buffers and reachable attributes']

CONFIGS = [('1d', dict(J=3, shape=[17], Q=2)), ('1d', dict(J=2, shape=[16], Q=1, T='global', out_type='dict')), ('1d', dict(J=2, shape=[8], Q=1, T=0, out_type='list', max_order=1)),
           ('jtfs', dict(J=2, J_fr=1, shape=[16], Q=2)), ('jtfs', dict(J=3, J_fr=1, shape=[16], Q=2, format='joint', T='global', out_type='dict')),
           ('2d', dict(J=2, L=2, shape=[5, 4])), ('2d', dict(J=1, L=3, shape=[4, 4], pre_pad=True, out_type='list')),
           ('3d', dict(J=1, L=1, shape=[4, 3, 5])), ('3d', dict(J=1, L=2, shape=[3, 3, 3], rotation_covariant=False, integral_powers=[1., 2.], max_order=1))]
OPS = ('double', 'float', 'to64', 'train_eval', 'call', 'call_nograd', 'call_inference', 'backward', 'load_fresh', 'load_used', 'load_double', 'load_self', 'deepcopy', 'copy', 'pickle', 'save', 'sequential', 'apply', 'requires_grad', 'cpu')


TOOLS = ('compile eager', 'compile eager dynamic', 'compile aot_eager', 'functional_call', 'checkpoint', 'share_memory', 'hooks')


def cases(tier, seed):
    deep = tier == 'thorough'
    for i, (t, c) in enumerate(CONFIGS):
        depth = (4 if t != 'jtfs' and i in (0, 5, 7) else 3) if deep else (3 if i in (0, 7) else 2)
        for o in OPS:
            yield dict(t=t, cfg=c, first=o, depth=depth, cost=depth ** 3)
        yield dict(t=t, cfg=c, first=None, depth=20 if deep else 8, cost=30)
        for tool in TOOLS:
            if deep or not tool.startswith('compile') or i in (0, 3, 5, 7) and 'dynamic' not in tool:
                yield dict(t=t, cfg=c, first='tool', tool=tool, depth=1, cost=400 if 'aot' in tool else 100 if 'compile' in tool else 40)


class World:
    def __init__(self, case, ref):
        import torch
        torch.set_num_threads(1)
        self.torch, self.t, self.cfg, self.ref = torch, case['t'], case['cfg'], ref
        self.M = F.build(self.t, 'torch', self.cfg)
        self.dtype = torch.float32
        self.wrap = None
        self.trail = []

    def fresh(self):
        return F.build(self.t, 'torch', self.cfg)

    def what(self):
        return '%s %s after %s' % (self.t, json.dumps(self.cfg), self.trail)

    def x(self, grad=False):
        return self.torch.tensor(self.ref[0], dtype=self.dtype, requires_grad=grad)

    def check(self, M, w):
        x = self.x()
        got = F.canon(M(x), 'torch', w)
        for k, v in got:
            if v.dtype != (np.float64 if self.dtype == self.torch.float64 else np.float32) and self.t != '3d':
                raise Violation('%s: output dtype %s' % (w, v.dtype))
        if self.t == '3d':
            powers = self.cfg.get('integral_powers', (.5, 1., 2.))
            for i, p in enumerate(powers):
                F.same([('S', got[0][1][..., i])], [('S', self.ref[1][0][1][..., i])], *((5e-5, 1e-5) if p >= 1 else (2e-3, 2e-2)), '%s power %s' % (w, p))
        else:
            F.same(got, self.ref[1], 2e-5, 2e-5, w)

    def op(self, o, rep):
        torch, M = self.torch, self.M
        self.trail.append(o)
        rep.transitions += 1
        w = self.what()
        if o == 'double':
            r = M.double()
            self.dtype = torch.float64
        elif o == 'float':
            M.float()
            self.dtype = torch.float32
        elif o == 'to64':
            M.to(torch.float64)
            self.dtype = torch.float64
        elif o == 'train_eval':
            M.train(not M.training)
        elif o == 'call':
            self.check(M, w)
        elif o == 'call_nograd':
            with torch.no_grad():
                self.check(M, w)
        elif o == 'call_inference':
            with torch.inference_mode():
                self.check(M, w)
        elif o == 'backward':
            x = self.x(True)
            tot = 0
            for v in leaves(M(x)):
                tot = tot + (v * v).sum()
            tot.backward()
            if x.grad is None or not torch.isfinite(x.grad).all() or float(x.grad.abs().max()) == 0:
                raise Violation('%s: no finite, non-zero gradient' % w)
        elif o in ('load_fresh', 'load_used', 'load_double'):
            N = self.fresh()
            if o == 'load_used':
                N(torch.tensor(self.ref[0], dtype=torch.float32))
            if o == 'load_double':
                N = N.double()
            self.load(N, M.state_dict(), w)
            self.dtype = torch.float64 if o == 'load_double' else torch.float32
            self.M = N
        elif o == 'load_self':
            self.load(M, {k: v.clone() for k, v in M.state_dict().items()}, w)
        elif o == 'deepcopy':
            self.M = copy.deepcopy(M)
        elif o == 'copy':
            self.M = copy.copy(M)
        elif o == 'pickle':
            self.M = pickle.loads(pickle.dumps(M))
        elif o == 'save':
            b = io.BytesIO()
            torch.save(M.state_dict(), b)
            b.seek(0)
            N = self.fresh().to(self.dtype)
            self.load(N, torch.load(b), w)
            self.M = N
        elif o == 'sequential':
            seq = torch.nn.Sequential(torch.nn.Identity(), M)
            self.check(seq, w + ' (inside nn.Sequential)')
            seq.to(self.dtype)
            N = torch.nn.Sequential(torch.nn.Identity(), self.fresh().to(self.dtype))
            self.load(N, seq.state_dict(), w + ' (nested state_dict)')
            self.check(N, w + ' (nested state_dict)')
        elif o == 'apply':
            M.apply(lambda m: None)
            M.zero_grad()
        elif o == 'requires_grad':
            M.requires_grad_(True)
        elif o == 'cpu':
            M.cpu()

    def load(self, N, sd, w):
        try:
            r = N.load_state_dict(sd, strict=True)
        except RuntimeError as e:
            raise Violation('%s: state_dict of a module with the same settings is refused: %s' % (w, str(e)[:500]))

    def finish(self, rep):
        w = self.what()
        M = self.M
        if list(M.parameters()):
            raise Violation('%s: the module has parameters' % w)
        bufs = dict(M.named_buffers())
        if not bufs:
            raise Violation('%s: the module has no buffers' % w)
        for k, v in bufs.items():
            if v.requires_grad:
                raise Violation('%s: buffer %s requires a gradient' % (w, k))
            if v.is_floating_point() and v.dtype != self.dtype:
                raise Violation('%s: buffer %s has dtype %s, the module was converted to %s' % (w, k, v.dtype, self.dtype))
        self.check(M, w)
        after = dict(M.named_buffers())
        if set(after) != set(bufs) or any(after[k].shape != bufs[k].shape for k in bufs):
            raise Violation('%s: a call changes the set or the shapes of the buffers' % w)
        N = self.fresh()
        if set(N.state_dict()) != set(M.state_dict()):
            raise Violation('%s: state_dict keys changed' % w)
        rep.eval()
        rep.traces += 1

    def fingerprint(self):
        from .c12 import walk
        return digest([str(self.dtype), self.M.training, {k: v.numpy() for k, v in self.M.named_buffers()}, walk(self.M)])


def leaves(y):
    if isinstance(y, dict):
        return list(y.values())
    if isinstance(y, list):
        return [d['coef'] for d in y]
    return [y]


def tools(case, rep, ref, sh):
    """The module under the tools of PyTorch: every sequence (shape of the batch) x (state of the module) gives the eager outputs."""
    import torch
    from torch.utils.checkpoint import checkpoint
    torch.set_num_threads(1)
    t, cfg, tool = case['t'], case['cfg'], case['tool']
    E, M = F.build(t, 'torch', cfg), F.build(t, 'torch', cfg)
    seen = []
    if tool.startswith('compile'):
        torch._dynamo.reset()
        call = torch.compile(M, backend=tool.split()[1], dynamic=True if tool.endswith('dynamic') else None)
    elif tool == 'functional_call':
        call = lambda x: torch.func.functional_call(M, {k: v.clone() for k, v in M.state_dict().items()}, (x,))
    elif tool == 'checkpoint':
        call = lambda x: checkpoint(M, x.requires_grad_(True), use_reentrant=False)
    elif tool == 'share_memory':
        M.share_memory()
        call = M
    else:
        M.register_forward_hook(lambda m, i, o: seen.append('after'))
        M.register_forward_pre_hook(lambda m, i: seen.append('before'))
        call = M

    rng = np.random.default_rng([SEED, 140])
    n = 0
    for state in ('new', 'double', 'float', 'other filters', 'reset'):
        if state == 'other filters':
            # the filters are the state: they move from one module to another with the state_dict
            with torch.no_grad():
                for i, b in enumerate(E.buffers()):
                    b.mul_(1 + i % 3)
            M.load_state_dict(E.state_dict())
        for m in (E, M):
            if state in ('double', 'float'):
                getattr(m, state)()
            elif state == 'reset':
                m.load_state_dict(F.build(t, 'torch', cfg).state_dict())
        dt = torch.float64 if state == 'double' else torch.float32
        for bs in ((2,), (3,), (2, 2), (), (2,)):
            if t == '3d' and bs == ():
                continue
            w = '%s %s under %s, %s, batch %s' % (t, json.dumps(cfg), tool, state, bs)
            x = torch.tensor(rng.standard_normal(bs + sh), dtype=dt)
            xe, xt = x.clone().requires_grad_(True), x.clone().requires_grad_(True)
            ye, yt = E(xe), call(xt)
            rt = 1e-9 if dt == torch.float64 else 1e-5
            if t == '3d':
                rt = 1e-4
            F.same(F.canon(yt, 'torch', w), F.canon(ye, 'torch', w), rt, rt, w)
            n += 1
            if tool == 'hooks' and seen != ['before', 'after'] * n:
                raise Violation('%s: the hooks ran as %s' % (w, seen[-4:]))
            if t == '3d' and min(cfg.get('integral_powers', (.5,))) < 1:
                g = None
            elif state in ('new', 'other filters') and tool != 'compile eager dynamic':
                g = [torch.autograd.grad(sum((v * v).sum() for v in leaves(y)), u)[0].double().numpy() for y, u in ((ye, xe), (yt, xt))]
                if not np.abs(g[0] - g[1]).max() <= 1e-4 * np.abs(g[0]).max():
                    raise Violation('%s: the gradient differs from the eager one by %.3g of %.3g' % (w, np.abs(g[0] - g[1]).max(), np.abs(g[0]).max()))
            rep.transitions += 1
            rep.eval((t, json.dumps(cfg), tool, state, bs))
    rep.traces += 1
    rep.sample(dict(config=cfg, tool=tool, calls=n))


def run_case(case, rep):
    t, cfg = case['t'], case['cfg']
    from .c10 import prepad_size
    sh = tuple(cfg['shape'])
    if cfg.get('pre_pad'):
        sh = tuple(prepad_size(n, cfg['J']) for n in sh)
    x = np.random.default_rng([SEED, 14]).standard_normal((2,) + sh)
    ref = (x, F.canon(F.build(t, 'numpy', cfg)(x)))
    if case['first'] == 'tool':
        tools(case, rep, ref, sh)
    elif case['first'] is not None:
        for n in range(case['depth']):
            for rest in itertools.product(OPS, repeat=n):
                w = World(case, ref)
                for o in (case['first'],) + rest:
                    w.op(o, rep)
                if n <= 1:
                    rep.state(w.fingerprint())
                w.finish(rep)
    else:
        frontier, seen = [()], set()
        depth = 0
        for d in range(case['depth']):
            new = []
            for h in frontier:
                for o in OPS:
                    w = World(case, ref)
                    for q in h + (o,):
                        w.op(q, rep)
                    fp = w.fingerprint()
                    w.finish(rep)
                    if fp not in seen:
                        seen.add(fp)
                        rep.state(fp)
                        new.append(h + (o,))
            frontier, depth = new, d + 1
            if not new:
                rep.add('closed_searches')
                break
        rep.maximum('search_depth', depth)
    if case['first'] != 'tool':
        rep.sample(dict(config=cfg, last_history=w.trail, dtype=str(w.dtype)))
