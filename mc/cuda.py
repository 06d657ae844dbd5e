"""A small CUDA device on the host: runs the CUDA C source of kymatio's kernels thread by thread.

`Device` stands in for the libraries `cupy` (compilation and launch of kernels) and `skcuda.cublas`, which need a GPU.
The kernel source itself is kymatio's: it is compiled by g++ behind a header with the CUDA built-ins, and every thread
of every launch is executed. For each launch the device establishes
  * that every word of the output is written by exactly one thread (hence that the order of the threads is irrelevant),
  * that nothing outside the buffers is written, and nothing read from outside influences the result (buffers are copied
    between guards made of NaNs),
  * that inputs are not modified, that the geometry of the launch is admissible, and that the launch goes to the
    caller's current stream.
Inside `with device:` tensors present themselves as CUDA tensors."""
import contextlib
import ctypes
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import types
import numpy as np
from .core import Violation

HEADER = r'''
#include <math.h>
#include <string.h>
#include <stdint.h>
struct float2 { float x, y; }; struct double2 { double x, y; };
static inline float2 make_float2(float x, float y) { float2 r = {x, y}; return r; }
static inline double2 make_double2(double x, double y) { double2 r = {x, y}; return r; }
static inline float normf(int n, const float *p) { double s = 0; for (int i = 0; i < n; i++) s = hypot(s, (double)p[i]); return (float)s; }
static inline double norm(int n, const double *p) { double s = 0; for (int i = 0; i < n; i++) s = hypot(s, p[i]); return s; }
struct kymatio_dim3 { unsigned x, y, z; };
static kymatio_dim3 blockIdx, blockDim, gridDim, threadIdx;
#define __global__
#define __device__
#define __host__
#define __restrict__
#define __forceinline__ inline
#define __launch_bounds__(...)
static inline void __syncthreads() {}
template<class T> static inline T __ldg(const T *p) { return *p; }
'''
FOOTER = r'''
typedef void (*kymatio_kernel)(intptr_t, intptr_t, intptr_t, intptr_t, intptr_t, intptr_t);
extern "C" void kymatio_launch(kymatio_kernel f, const unsigned *g, const unsigned *b, const intptr_t *a, int reverse,
                               uint32_t *out, long words, uint32_t mark, uint32_t *result, int *count, long *executed)
{
  gridDim.x = g[0]; gridDim.y = g[1]; gridDim.z = g[2];
  blockDim.x = b[0]; blockDim.y = b[1]; blockDim.z = b[2];
  long blocks = (long)g[0] * g[1] * g[2], threads = (long)b[0] * b[1] * b[2];
  for (long i = 0; i < blocks; i++)
    for (long t = 0; t < threads; t++) {
      long I = reverse ? blocks - 1 - i : i, T = reverse ? threads - 1 - t : t;
      blockIdx.x = I % g[0]; blockIdx.y = I / g[0] % g[1]; blockIdx.z = I / g[0] / g[1];
      threadIdx.x = T % b[0]; threadIdx.y = T / b[0] % b[1]; threadIdx.z = T / b[0] / b[1];
      f(a[0], a[1], a[2], a[3], a[4], a[5]);
      ++*executed;
      if (count)            // which words did this thread write?
        for (long w = 0; w < words; w++)
          if (out[w] != mark) { count[w]++; result[w] = out[w]; out[w] = mark; }
    }
}
'''
MARK = 0x7ff8dead      # a NaN in single precision and, repeated, in double precision
GUARD = 4096           # words on each side of a buffer


class CompileError(Exception):
    pass


class Device:
    """`audit`: count the writes of each thread (otherwise threads run without inspection)."""

    def __init__(self):
        self.scratch = tempfile.mkdtemp(prefix='kymatio-cuda-')
        self.compiled = {}
        self.tensors = {}
        self.launches = self.threads = self.compilations = self.words = 0
        self.stream = 0x1000
        self.index = 0
        self.handle = 0xb1a5
        self.handle_stream = {}
        self.audit = True

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    # the libraries ----------------------------------------------------------
    def memoize(self, for_each_device=False):
        def decorator(f):
            memo = {}

            def g(*args, **kwargs):
                key = (self.index if for_each_device else None, args, frozenset(kwargs.items()))
                if key not in memo:
                    memo[key] = f(*args, **kwargs)
                return memo[key]
            return g
        return decorator

    def compile(self, code, **kw):
        code = code.decode() if isinstance(code, bytes) else code
        h = hashlib.sha1(code.encode()).hexdigest()
        if h not in self.compiled:
            src = os.path.join(self.scratch, h + '.cpp')
            with open(src, 'w') as f:
                f.write(HEADER + code + FOOTER)
            p = subprocess.run(['g++', '-O1', '-w', '-shared', '-fPIC', '-o', src[:-3] + 'so', src], capture_output=True, text=True)
            if p.returncode:
                raise CompileError(p.stderr[:1500])
            self.compiled[h] = ctypes.CDLL(src[:-3] + 'so')
            self.compilations += 1
            os.unlink(src)
        lib = self.compiled[h]
        return types.SimpleNamespace(get_function=lambda name: Function(self, lib, name))

    def install(self, new_api=True):
        cupy = types.ModuleType('cupy')
        util = types.ModuleType('cupy._util' if new_api else 'cupy.util')
        util.memoize = self.memoize
        setattr(cupy, '_util' if new_api else 'util', util)
        cupy.memoize = self.memoize
        cupy.cuda = types.ModuleType('cupy.cuda')
        cupy.cuda.compile_with_cache = self.compile
        cupy.RawModule = lambda code, **kw: self.compile(code)
        cupy.RawKernel = lambda code, name, **kw: self.compile(code).get_function(name)
        skcuda = types.ModuleType('skcuda')
        skcuda.cublas = types.ModuleType('skcuda.cublas')
        skcuda.cublas.cublasSetStream = lambda handle, stream: self.handle_stream.__setitem__(handle, getattr(stream, 'value', stream))
        skcuda.cublas.cublasGetStream = lambda handle: self.handle_stream.get(handle)
        skcuda.cublas.cublasCdgmm = lambda *a: self.dgmm(np.complex64, *a)
        skcuda.cublas.cublasZdgmm = lambda *a: self.dgmm(np.complex128, *a)
        sys.modules.update({'cupy': cupy, util.__name__: util, 'cupy.cuda': cupy.cuda, 'skcuda': skcuda, 'skcuda.cublas': skcuda.cublas})

    # memory -----------------------------------------------------------------
    def region(self, pointer):
        """A guarded copy of the tensor which lives at this address."""
        t = self.tensors.get(pointer)
        if t is None:
            raise Violation('a kernel received an address which is not that of a tensor')
        n = t.numel() * t.element_size()
        buf = np.full(2 * GUARD + (n + 3) // 4, MARK, np.uint32)
        inner = buf[GUARD:GUARD + (n + 3) // 4]
        ctypes.memmove(inner.ctypes.data, pointer, n)
        return t, n, buf, inner

    def back(self, pointer, n, inner):
        ctypes.memmove(pointer, inner.ctypes.data, n)

    @staticmethod
    def check_guards(buf, what):
        if (buf[:GUARD] != MARK).any() or (buf[-GUARD:] != MARK).any():
            raise Violation('%s writes outside its buffer' % what)

    def dgmm(self, dtype, handle, mode, m, n, a, lda, x, incx, c, ldc):
        size = np.dtype(dtype).itemsize
        if handle != self.handle:
            raise Violation('cublas called with a handle which is not the current one')
        if self.handle_stream.get(handle) != self.stream:
            raise Violation('cublas runs on stream %s, but the current stream of the caller is %s' % (self.handle_stream.get(handle), self.stream))
        left = {'l': True, 'L': True, 0: True, 'r': False, 'R': False, 1: False}[mode]
        if m <= 0 or n <= 0 or lda < m or ldc < m:
            raise Violation('cublas: invalid sizes m=%s n=%s lda=%s ldc=%s' % (m, n, lda, ldc))

        def view(p, count):
            t = self.tensors.get(p)
            if t is None:
                raise Violation('cublas received an address which is not that of a tensor')
            if count * size > t.numel() * t.element_size():
                raise Violation('cublas reads or writes outside a buffer (%d elements of %d bytes, tensor of %d bytes)' % (count, size, t.numel() * t.element_size()))
            return np.frombuffer((ctypes.c_char * (count * size)).from_address(p), dtype)
        A, X, C = view(a, lda * (n - 1) + m), view(x, abs(incx) * ((m if left else n) - 1) + 1), view(c, ldc * (n - 1) + m)
        if a == c:
            raise Violation('cublas overwrites its input')
        i, j = np.arange(m)[None, :], np.arange(n)[:, None]
        with np.errstate(all='ignore'):
            C[(j * ldc + i)] = A[j * lda + i] * X[(i if left else j) * incx]
        self.launches += 1
        self.words += C.size

    # the tensors ------------------------------------------------------------
    def __enter__(self):
        import torch
        from torch.overrides import TorchFunctionMode
        device = self
        is_cuda = torch.Tensor.is_cuda.__get__

        class Mode(TorchFunctionMode):
            def __torch_function__(self, func, types, args=(), kwargs=None):
                if func == is_cuda:
                    return True
                y = func(*args, **(kwargs or {}))
                if func is torch.Tensor.data_ptr:
                    device.tensors[y] = args[0]
                elif func in (torch.empty, torch.empty_like, torch.Tensor.new_empty) and y.is_floating_point():
                    # uninitialised memory
                    y.fill_(float('nan'))
                return y
        self.stack = contextlib.ExitStack()
        patch = lambda o, k, v: self.stack.enter_context(patched(o, k, v))
        patch(torch.cuda, 'FloatTensor', torch.FloatTensor)
        patch(torch.cuda, 'DoubleTensor', torch.DoubleTensor)
        patch(torch.cuda, 'current_stream', lambda *a: types.SimpleNamespace(cuda_stream=self.stream, _as_parameter_=ctypes.c_void_p(self.stream)))
        patch(torch.cuda, 'current_blas_handle', lambda: self.handle)
        patch(torch.cuda, 'is_available', lambda: True)
        patch(torch.cuda, 'current_device', lambda: self.index)
        self.stack.enter_context(Mode())
        return self

    def __exit__(self, *a):
        self.stack.close()
        self.tensors.clear()


@contextlib.contextmanager
def patched(o, k, v):
    old = getattr(o, k)
    setattr(o, k, v)
    try:
        yield
    finally:
        setattr(o, k, old)


class Function:
    def __init__(self, device, lib, name):
        self.device, self.lib, self.name, self.index = device, lib, name, device.index
        self.pointer = ctypes.cast(getattr(lib, name), ctypes.c_void_p)

    def __call__(self, grid=None, block=None, args=(), shared_mem=0, stream=None):
        d = self.device
        grid, block = [tuple(int(v) for v in tuple(g) + (1,) * (3 - len(tuple(g)))) for g in (grid, block)]
        what = 'kernel %s, grid %s, block %s' % (self.name, grid, block)
        if min(grid) < 1 or min(block) < 1 or max(block[:2]) > 1024 or block[2] > 64 or block[0] * block[1] * block[2] > 1024 or grid[0] >= 2 ** 31 or max(grid[1:]) > 65535:
            raise Violation('%s: CUDA rejects this geometry (invalid configuration)' % what)
        if self.index != d.index:
            raise Violation('%s: compiled for device %s, launched on device %s' % (what, self.index, d.index))
        if getattr(stream, 'ptr', None) != d.stream:
            raise Violation('%s: launched on stream %s, but the current stream of the caller is %s' % (what, getattr(stream, 'ptr', None), d.stream))
        pointers = [i for i, a in enumerate(args) if a in d.tensors and a > 65536]
        if len(pointers) < 2:
            raise Violation('%s: the arguments %s do not contain an input and an output' % (what, args))
        regions = {i: d.region(args[i]) for i in pointers}
        o = pointers[-1]
        t, n, buf, inner = regions[o]
        saved = {i: regions[i][3].copy() for i in pointers if i != o}
        inner[:] = MARK
        result, count = np.full(inner.shape, MARK, np.uint32), np.zeros(inner.shape, np.int32)
        real = (ctypes.c_ssize_t * 6)(*([regions[i][3].ctypes.data if i in regions else int(a) for i, a in enumerate(args)] + [0] * (6 - len(args))))
        executed = ctypes.c_long(0)
        threads = grid[0] * grid[1] * grid[2] * block[0] * block[1] * block[2]
        audit = d.audit and threads * len(inner) < 2 ** 31
        launch = self.lib.kymatio_launch
        launch.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int, ctypes.c_void_p, ctypes.c_long, ctypes.c_uint32, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p]
        g, b = (ctypes.c_uint * 3)(*grid), (ctypes.c_uint * 3)(*block)
        launch(self.pointer, g, b, real, d.launches % 2, inner.ctypes.data, len(inner), MARK, result.ctypes.data, count.ctypes.data if audit else None, ctypes.byref(executed))
        if executed.value != threads:
            raise Violation('%s: %d threads executed instead of %d' % (what, executed.value, threads))
        for i in pointers:
            d.check_guards(regions[i][2], what)
            if i != o and not np.array_equal(regions[i][3], saved[i]):
                raise Violation('%s: modifies its input' % what)
        if audit:
            if (count != 1).any():
                w = int(np.flatnonzero(count != 1)[0])
                raise Violation('%s: word %d of %d of the output is written by %d threads' % (what, w, len(count), count[w]))
            inner[:] = result
        elif (inner == MARK).any():
            raise Violation('%s: word %d of %d of the output is not written' % (what, int(np.flatnonzero(inner == MARK)[0]), len(inner)))
        d.back(args[o], n, inner)
        d.launches += 1
        d.threads += threads
        d.words += len(inner)
