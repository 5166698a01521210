"""A stand-in for CuPy on the host, to run the package's GPU route: arrays are numpy arrays, kernels are the package's
own .cu files compiled for the host (lib/cudasim) and executed thread by thread."""
import ctypes
import os
import subprocess
import sys
import types
import numpy as np

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'cudasim')


class Fault(Exception):
    """A kernel broke a rule every schedule must keep (bounds, synchronisation, barriers)."""


class Config:
    threads = 8         # MaxThreadsPerBlock of the device
    order = 0           # schedule of the next launches
    launches = 0
    kernels = {}        # (directory, name) -> library


class ndarray(np.ndarray):
    def get(self):
        return np.array(self).view(np.ndarray)


def wrap(v):
    if type(v) is np.ndarray:
        return v.view(ndarray)
    if isinstance(v, (tuple, list)) and any(type(x) is np.ndarray for x in v):
        return type(v)(wrap(x) for x in v)
    return v


def build(src, out, single, block):
    """Compile one .cu file to a library with a launcher per kernel."""
    obj = out + '.o'
    flags = ['g++', '-O1', '-fPIC', '-I', HERE, f'-DBLOCK_SIZE={block}'] + (['-DUSEFLOAT'] if single else [])
    # names of the kernels
    subprocess.run(flags + ['-x', 'c++', '-include', HERE + '/cudasim.h', '-c', src, '-o', obj], check=True,
                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    names = [ln.split()[2] for ln in subprocess.check_output(['nm', '--defined-only', obj], text=True).splitlines()
             if ln.split()[1] == 'T' and not ln.split()[2].startswith('_')]
    w = out + '_launch.cpp'
    with open(w, 'w') as f:
        f.write(f'''#include "cudasim.h"
#include "{src}"
#include <utility>
template <typename... A, size_t... I>
__attribute__((no_sanitize("thread"))) static void call_(void (*f)(A...), void **a, std::index_sequence<I...>) {{ f(*(typename std::remove_reference<A>::type *) a[I]...); }}
template <typename... A>
__attribute__((no_sanitize("thread"))) static void call(void (*f)(A...), void **a) {{ call_(f, a, std::index_sequence_for<A...>()); }}
template <typename... A> static int count(void (*)(A...)) {{ return sizeof...(A); }}
''')
        for n in names:
            f.write(f'extern "C" void sim_run_{n}(void **a) {{ call({n}, a); }}\n'
                    f'extern "C" int sim_nargs_{n}() {{ return count({n}); }}\n')
    subprocess.run(flags + ['-std=c++17', '-fsanitize=thread', '-fno-threadsafe-statics', '-c', w, '-o', obj], check=True)
    subprocess.run(['g++', '-O1', '-fPIC', '-I', HERE, '-std=c++17', '-c', HERE + '/rt.cpp', '-o', out + '_rt.o'], check=True)
    subprocess.run(['g++', '-shared', '-Wl,-Bsymbolic', obj, out + '_rt.o', '-o', out + '.so'], check=True)
    return out + '.so'


class Kernel:
    def __init__(self, lib, name):
        self.lib, self.name = lib, name
        self.run = getattr(lib, 'sim_run_' + name)
        self.nargs = getattr(lib, 'sim_nargs_' + name)()

    def __call__(self, grid=None, block=None, args=None, **kw):
        if len(args) != self.nargs:
            raise Fault(f'{self.name} launched with {len(args)} arguments instead of {self.nargs}')
        keep, lim = [], []
        for a in args:
            if isinstance(a, np.ndarray):
                if not a.flags.c_contiguous:
                    raise Fault(f'{self.name}: array argument is not contiguous')
                lim += [a.ctypes.data, a.ctypes.data + a.nbytes]
                keep.append(ctypes.c_void_p(a.ctypes.data))
            elif isinstance(a, np.generic):
                keep.append(ctypes.create_string_buffer(a.tobytes() + bytes(16)))
            elif isinstance(a, bool):
                keep.append(ctypes.c_bool(a))
            elif isinstance(a, int):
                keep.append(ctypes.c_longlong(a))
            elif isinstance(a, float):
                keep.append(ctypes.c_double(a))
            else:
                raise Fault(f'{self.name}: argument of type {type(a)}')
        ptr = (ctypes.c_void_p * len(keep))(*[ctypes.addressof(k) for k in keep])
        rng = (ctypes.c_size_t * max(1, len(lim)))(*lim)
        Config.launches += 1
        if grid[0] < 1 or not 1 <= block[0] <= 1024:
            raise Fault(f'{self.name}: launched with grid {grid} and block {block}')
        if self.lib.sim_launch(self.run, ptr, int(grid[0]), int(block[0]), rng, len(lim) // 2, ctypes.c_long(Config.order)):
            raise Fault(f'{self.name}: {self.lib.sim_message().decode()}')


class RawModule:
    def __init__(self, path=None, **kw):
        d, f = os.path.split(os.path.normpath(path))
        self.lib = Config.kernels[f.replace('.cubin', '')]

    def get_function(self, name):
        return Kernel(self.lib, name)


class Device:
    compute_capability = '80'

    def __init__(self, i=0):
        self.id = i

    def use(self):
        pass

    @property
    def attributes(self):
        return {'MultiProcessorCount': 4, 'MaxThreadsPerBlock': Config.threads}


def install(cuda_dir, scratch, block):
    """Compile the kernels of cuda_dir and register the module cupy."""
    jobs = []
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for n in ('kick_and_drift', 'reconstruct'):
            for p in ('double', 'single'):
                jobs.append((f'{n}_{p}', ex.submit(build, f'{cuda_dir}/{n}.cu', f'{scratch}/{n}_{p}', p == 'single', block)))
        for n, j in jobs:
            lib = ctypes.CDLL(j.result())
            lib.sim_message.restype = ctypes.c_char_p
            Config.kernels[n] = lib
    cp = types.ModuleType('cupy')
    for n in dir(np):
        a = getattr(np, n)
        if n.startswith('__') or isinstance(a, types.ModuleType):
            continue
        if callable(a) and not isinstance(a, (type, np.ufunc)):
            def f(*x, _a=a, **k):
                return wrap(_a(*x, **k))
            f.__name__ = n
            setattr(cp, n, f)
        else:
            setattr(cp, n, a)
    def empty(*a, _e=np.empty, **k):        # uninitialised memory of the device
        v = _e(*a, **k)
        v.view(np.uint8).fill(0xff) if v.size and v.ndim else None
        return wrap(v)
    cp.empty = empty
    cp.ndarray = ndarray
    cp.RawModule = RawModule
    cp.asnumpy = lambda a: a.get() if hasattr(a, 'get') else np.asarray(a)
    cp.cuda = types.SimpleNamespace(Device=Device, runtime=types.SimpleNamespace(
        getDeviceProperties=lambda d: {'name': 'host'}, CUDARuntimeError=RuntimeError))
    cp.testing = np.testing
    sys.modules['cupy'] = cp
    sys.modules['cupy.testing'] = np.testing
    return cp
