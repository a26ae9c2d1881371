"""A stand-in for cupy on a machine without a GPU.

Arrays live in their own class, which like cupy's never turns into a numpy array by itself and refuses arithmetic with numpy arrays.
Functions are numpy's.  CUDA kernels given as source (RawModule, RawKernel) are compiled as C++ and run one thread after another in an
order chosen by the harness; their array arguments check every index, memory from empty() holds NaN and so does whatever is read
out of bounds.  solve() of a singular matrix gives NaN instead of an error, as on a GPU.
"""
import ctypes, hashlib, os, re, subprocess, sys, tempfile, types
import numpy as np

ORDER = [0]               # order of the GPU threads: 0 ascending, 1 descending, n > 1: strided
OOB = []                  # (kernel, times) reads and writes out of bounds since reset()
NGPU = [1]                # devices


def reset(order=0, ngpu=1):
    ORDER[0] = order
    NGPU[0] = ngpu
    del OOB[:]


def unwrap(x):
    if isinstance(x, ndarray):
        return x._a
    if isinstance(x, tuple):
        return tuple(unwrap(v) for v in x)
    if isinstance(x, list):
        return [unwrap(v) for v in x]
    if isinstance(x, dict):
        return {k: unwrap(v) for k, v in x.items()}
    return x


def wrap(x):
    if isinstance(x, (np.ndarray, np.generic)):
        return ndarray(np.asarray(x))
    if isinstance(x, tuple):
        return tuple(wrap(v) for v in x)
    if isinstance(x, list):
        return [wrap(v) for v in x]
    return x


class ndarray(np.lib.mixins.NDArrayOperatorsMixin):
    __array_priority__ = 100

    def __init__(self, a):
        self._a = a

    def __array__(self, *a, **k):
        raise TypeError("Implicit conversion to a NumPy array is not allowed. Please use `.get()` to construct a NumPy array explicitly.")

    def get(self, *a, **k):
        return np.array(self._a)

    def set(self, a, *k):
        self._a[...] = a

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        for x in inputs:
            if isinstance(x, np.ndarray) or isinstance(x, (list, tuple)):
                raise TypeError("Unsupported type %s" % type(x))
        out = kw.get("out")
        if out is not None:
            for o in out:
                if not isinstance(o, ndarray):
                    raise TypeError("output is not a cupy array")
            kw["out"] = unwrap(out)
        r = getattr(ufunc, method)(*[unwrap(x) for x in inputs], **{k: unwrap(v) for k, v in kw.items()})
        return out[0] if out is not None and len(out) == 1 else wrap(r)

    def __array_function__(self, func, types_, args, kw):
        mine = getattr(linalg, func.__name__, None) if func.__module__ == "numpy.linalg" else getattr(module, func.__name__, None)
        if mine is not None:
            return mine(*args, **kw)
        return wrap(func(*unwrap(args), **unwrap(kw)))

    def __getitem__(self, i):
        return wrap(self._a[unwrap(i)])

    def __setitem__(self, i, v):
        if isinstance(v, np.ndarray):
            raise TypeError("Unsupported type %s" % type(v))
        self._a[unwrap(i)] = unwrap(v)

    def __len__(self):
        return len(self._a)

    def __iter__(self):
        return iter([wrap(v) for v in self._a])

    def __bool__(self):
        return bool(self._a)

    def __int__(self):
        return int(self._a)

    def __float__(self):
        return float(self._a)

    def __index__(self):
        return self._a.__index__()

    def __repr__(self):
        return "cupy" + repr(self._a)

    def __format__(self, f):
        return format(self._a if self._a.ndim else self._a[()], f)

    def __reduce__(self):
        return (ndarray, (self._a,))

    def __copy__(self):
        return ndarray(self._a.copy())

    def __deepcopy__(self, memo):
        return ndarray(self._a.copy())

    def __matmul__(self, o):
        return np.matmul(self, o)

    def item(self, *a):
        return self._a.item(*a)

    def tolist(self):
        return self._a.tolist()

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = getattr(self._a, name)
        if callable(v):
            return lambda *a, **k: wrap(v(*unwrap(a), **unwrap(k)))
        return v if isinstance(v, (int, tuple, np.dtype)) or name in ("flags", "data") else wrap(v)


class Module(types.ModuleType):
    """Functions and constants of numpy, on our arrays."""

    def __init__(self, name, base):
        super().__init__(name)
        self.__dict__["_base"] = base
        self.__dict__["__path__"] = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        v = getattr(self._base, name)
        if isinstance(v, type) or not callable(v):
            return v

        def f(*a, **k):
            out = k.get("out")
            r = v(*unwrap(a), **unwrap(k))
            return out if isinstance(out, ndarray) else wrap(r)
        f.__name__ = name
        return f


module = Module("cupy", np)
linalg = Module("cupy.linalg", np.linalg)


def asarray(x, dtype=None, *a, **k):
    if isinstance(x, ndarray):
        return x if dtype is None or x._a.dtype == np.dtype(dtype) else ndarray(x._a.astype(dtype))
    return array(x, dtype)


def array(x, dtype=None, *a, **k):
    return ndarray(np.array(unwrap(x), dtype=dtype))


def empty(shape, dtype=float, *a, **k):
    r = np.zeros(unwrap(shape), dtype=dtype)
    r[...] = np.nan if r.dtype.kind == "f" else 123456789 if r.dtype.itemsize > 2 else 1
    return ndarray(r)


def empty_like(x, dtype=None, shape=None, **k):
    return empty(x.shape if shape is None else shape, x.dtype if dtype is None else dtype)


def solve(a, b):
    a, b = unwrap(a), unwrap(b)
    try:
        return wrap(np.linalg.solve(a, b))
    except np.linalg.LinAlgError:
        out = np.full(b.shape, np.nan)
        for i in np.ndindex(a.shape[:-2]):
            try:
                out[i] = np.linalg.solve(a[i], b[i])
            except np.linalg.LinAlgError:
                pass
        return wrap(out)


def corder(name):
    """cupy joins arrays into an array in C order, numpy in the order of its arguments."""
    def f(*a, **k):
        return ndarray(np.ascontiguousarray(getattr(np, name)(*unwrap(a), **unwrap(k))))
    f.__name__ = name
    return f


# ---------------------------------------------------------------- CUDA
PRELUDE = r'''
#include <math.h>
#include <stdint.h>
#include <limits>
#define __global__
#define __device__
#define __host__
#define __shared__ static
#define __restrict__
#define __forceinline__ inline
struct vr_dim3 { unsigned x, y, z; };
static vr_dim3 threadIdx, blockIdx, blockDim, gridDim;
static long vr_oob = 0;
template <class T> struct vr_poison { static T get() { return std::numeric_limits<T>::has_quiet_NaN ? std::numeric_limits<T>::quiet_NaN() : (T)123456789; } };
template <class T> struct vr_bare { typedef T type; };
template <class T> struct vr_bare<const T> { typedef T type; };
template <class T> struct VrP {
    T* p; long n;
    template <class I> T& operator[](I i) const {
        if ((long)i < 0 || (long)i >= n) { static typename vr_bare<T>::type d; d = vr_poison<typename vr_bare<T>::type>::get(); vr_oob++; return d; }
        return p[(long)i];
    }
    T& operator*() const { return (*this)[0]; }
    template <class I> VrP<T> operator+(I i) const { VrP<T> r; r.p = p + (long)i; r.n = n - (long)i; return r; }
    template <class U> operator VrP<const U>() const { VrP<const U> r; r.p = p; r.n = n; return r; }
};
template <class T, class U> T atomicAdd(T* p, U v) { T o = *p; *p += v; return o; }
template <class T> T __ldg(const T* p) { return *p; }
static inline double __dmul_rn(double a, double b) { return a * b; }
static inline double __dadd_rn(double a, double b) { return a + b; }
#ifndef min
template <class T> T min(T a, T b) { return a < b ? a : b; }
template <class T> T max(T a, T b) { return a > b ? a : b; }
#endif
'''
SIG = re.compile(r"__global__\s+(?:static\s+)?void\s+(\w+)\s*\(([^)]*)\)")
_libs = {}


def compile_source(code):
    key = hashlib.sha256((PRELUDE + code).encode()).hexdigest()[:24]
    if key in _libs:
        return _libs[key]
    kernels = {}

    def sig(m):
        params = []
        for prm in m.group(2).split(","):
            prm = re.sub(r"\b__restrict__\b|\brestrict\b", "", prm).strip()
            if not prm:
                continue
            if "*" in prm:
                t, name = prm.rsplit("*", 1)
                params.append((t.strip(), name.strip(), True))
            else:
                t, name = prm.rsplit(None, 1)
                params.append((t.strip(), name.strip(), False))
        kernels[m.group(1)] = params
        return "__global__ void %s(%s)" % (m.group(1), ", ".join(("VrP<%s> %s" if ptr else "%s %s") % (t, n) for t, n, ptr in params))
    body = SIG.sub(sig, code)
    launch = ""
    for name, params in kernels.items():
        dec = "".join(("VrP<%s> a%d; a%d.p = (%s*)args[%d]; a%d.n = sizes[%d] / (long)sizeof(%s);\n" % (t, i, i, t, i, i, i, t)) if ptr else
                      "%s a%d = *(%s*)args[%d];\n" % (re.sub(r"\bconst\b", "", t), i, re.sub(r"\bconst\b", "", t), i) for i, (t, n, ptr) in enumerate(params))
        call = "%s(%s)" % (name, ", ".join("a%d" % i for i in range(len(params))))
        launch += '''
extern "C" long vr_launch_%s(void** args, long* sizes, const unsigned* g, const unsigned* b, long order) {
    %s
    vr_oob = 0;
    gridDim.x = g[0]; gridDim.y = g[1]; gridDim.z = g[2]; blockDim.x = b[0]; blockDim.y = b[1]; blockDim.z = b[2];
    long nb = (long)b[0] * b[1] * b[2], n = nb * g[0] * g[1] * g[2];
    long stride = 1;
    if (order > 1 && n > 1) { stride = (order * 7919) %% n; if (stride == 0) stride = 1;
        for (;;) { long x = n, y = stride; while (y) { long t = x %% y; x = y; y = t; } if (x == 1) break; stride = stride %% n + 1; } }
    for (long k = 0; k < n; k++) {
        long t = order == 0 ? k : order == 1 ? n - 1 - k : (long)(((__int128)k * stride) %% n);
        long bl = t / nb, th = t %% nb;
        blockIdx.x = bl %% g[0]; blockIdx.y = (bl / g[0]) %% g[1]; blockIdx.z = bl / ((long)g[0] * g[1]);
        threadIdx.x = th %% b[0]; threadIdx.y = (th / b[0]) %% b[1]; threadIdx.z = th / ((long)b[0] * b[1]);
        %s;
    }
    return vr_oob;
}
''' % (name, dec, call)
    d = tempfile.mkdtemp(prefix="vr-cuda-")
    try:
        src, lib = os.path.join(d, "k.cpp"), os.path.join(d, "k.so")
        with open(src, "w") as f:
            f.write(PRELUDE + body + launch)
        r = subprocess.run(["g++", "-O1", "-ffp-contract=off", "-w", "-shared", "-fPIC", "-o", lib, src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise RuntimeError("the CUDA source does not compile: " + r.stdout.decode()[:2000])
        _libs[key] = (ctypes.CDLL(lib), kernels)
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    return _libs[key]


class Kernel:
    def __init__(self, lib, params, name):
        self.fn = getattr(lib, "vr_launch_" + name)
        self.fn.restype = ctypes.c_long
        self.params, self.name = params, name

    def __call__(self, grid, block, args, **kw):
        if len(args) != len(self.params):
            raise TypeError("kernel %s takes %d arguments, %d were given" % (self.name, len(self.params), len(args)))
        keep, ptrs, sizes = [], [], []
        for a, (t, n, ptr) in zip(args, self.params):
            if isinstance(a, ndarray):
                if not ptr:
                    raise TypeError("argument %s of kernel %s is an array" % (n, self.name))
                x = a._a
                ptrs.append(x.ctypes.data)
                # the kernel sees memory from the first element on, in whatever order it is stored
                sizes.append(x.nbytes if x.flags.c_contiguous else
                             int(sum((s - 1) * st for s, st in zip(x.shape, x.strides))) + x.itemsize if x.size else 0)
                keep.append(x)
                continue
            if ptr or isinstance(a, np.ndarray):
                raise TypeError("Unsupported type %s" % type(a))
            # padded to 8 bytes: the kernel reads as many as its parameter has
            b = np.zeros(2, np.int64)
            v = np.asarray(a if isinstance(a, np.generic) else np.int64(a) if isinstance(a, (int, np.bool_)) else np.float64(a))
            b.view(np.uint8)[:v.nbytes] = np.frombuffer(v.tobytes(), np.uint8)
            keep.append(b)
            ptrs.append(b.ctypes.data)
            sizes.append(0)
        g, b = [tuple(int(v) for v in x) + (1,) * (3 - len(x)) for x in (grid, block)]
        if any(v < 1 for v in g + b) or b[0] * b[1] * b[2] > 1024:
            raise RuntimeError("CUDA_ERROR_INVALID_VALUE: grid %s block %s" % (g, b))
        n = self.fn((ctypes.c_void_p * len(ptrs))(*ptrs), (ctypes.c_long * len(sizes))(*sizes), (ctypes.c_uint * 3)(*g), (ctypes.c_uint * 3)(*b),
                    ctypes.c_long(ORDER[0]))
        if n:
            OOB.append((self.name, n))


class RawModule:
    def __init__(self, code=None, options=(), **kw):
        self.lib, self.kernels = compile_source(code)

    def get_function(self, name):
        if name not in self.kernels:
            raise RuntimeError("CUDA_ERROR_NOT_FOUND: named symbol not found")
        return Kernel(self.lib, self.kernels[name], name)


def RawKernel(code, name, options=(), **kw):
    return RawModule(code).get_function(name)


class _Pool:
    def free_all_blocks(self, *a):
        pass


class _Stream:
    def synchronize(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class _Device:
    def __init__(self, *a):
        pass
    mem_info = (16 << 30, 16 << 30)
    id = 0

    def synchronize(self):
        pass

    def use(self):
        pass

    __enter__ = _Stream.__enter__
    __exit__ = _Stream.__exit__


def install():
    """Make `import cupy` give this module.  (Before redrock is imported, as redrock.igm imports it once.)"""
    if "cupy" in sys.modules and sys.modules["cupy"] is module:
        return module
    cuda = types.ModuleType("cupy.cuda")
    runtime = types.ModuleType("cupy.cuda.runtime")
    runtime.getDeviceCount = lambda: NGPU[0]
    runtime.getDevice = lambda: 0
    runtime.deviceGetPCIBusId = lambda n: "0000:%02d:00.0" % pci()
    runtime.deviceSynchronize = lambda: None
    cuda.Device, cuda.runtime = _Device, runtime
    cuda.Stream = type("Stream", (_Stream,), dict(null=_Stream()))
    cuda.is_available = lambda: True
    linalg.solve = solve
    linalg.LinAlgError = np.linalg.LinAlgError
    d = dict(ndarray=ndarray, asarray=asarray, array=array, empty=empty, empty_like=empty_like, linalg=linalg, cuda=cuda, RawModule=RawModule,
             RawKernel=RawKernel, is_available=lambda: True, get_default_memory_pool=_Pool, get_default_pinned_memory_pool=_Pool,
             asnumpy=lambda x, *a, **k: x.get() if isinstance(x, ndarray) else np.asarray(x), isscalar=np.isscalar,
             ascontiguousarray=lambda x, dtype=None: ndarray(np.ascontiguousarray(unwrap(x), dtype=dtype)), get_array_module=lambda *a: module
             if any(isinstance(x, ndarray) for x in a) else np, shape=np.shape, ndim=np.ndim, __version__="13.3.0")
    for k in ("concatenate", "append", "hstack", "vstack", "dstack", "column_stack", "stack", "tile", "repeat"):
        d[k] = corder(k)
    for k, v in d.items():
        setattr(module, k, v)
    sys.modules.update({"cupy": module, "cupy.cuda": cuda, "cupy.cuda.runtime": runtime, "cupy.linalg": linalg})
    return module


def pci():
    """PCI bus number of the device of the calling (emulated) process."""
    import threading
    return getattr(threading.current_thread(), "vr_gpu", 0)
