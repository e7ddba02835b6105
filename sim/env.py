"""Process set-up: seams first, then bloscpack from /repo, then monitoring."""
import ctypes
import gc
import io
import os
import sys
import threading
import warnings

REPO = os.environ.get('BP_REPO', '/repo')
PKG = os.path.join(REPO, 'bloscpack') + os.sep

from . import world as worldmod
from .world import World, SimAbort
from . import simfs

bp = None
_ready = False


class MemoryViolation(SimAbort):
    pass


def setup():
    global bp, _ready
    if _ready:
        return
    _ready = True
    warnings.simplefilter('ignore')
    sys.dont_write_bytecode = True
    import numpy
    import blosc
    from . import ref            # binds the real codec functions first
    blosc.set_nthreads(1)
    simfs.install()
    _install_native(blosc, numpy)
    from . import sched
    sched.install_locks()
    sys.path.insert(0, REPO)
    import bloscpack
    import bloscpack.cli
    import bloscpack.append
    import bloscpack.memory_io
    import bloscpack.numpy_io
    f = os.path.abspath(bloscpack.__file__)
    if not f.startswith(PKG):
        raise worldmod.HarnessError('bloscpack imported from %s' % f)
    bp = bloscpack
    _install_monitoring()


_libc_memset = ctypes.memset
native_state = {}          # process-wide settings of the native library


def _install_native(blosc, numpy):
    r_comp, r_dec = blosc.compress, blosc.decompress
    r_cptr, r_dptr = blosc.compress_ptr, blosc.decompress_ptr

    def compress(bytesobj, *a, **k):
        w = World.cur
        if w is not None:
            w.event('compress', '', len(bytesobj))
        return r_comp(bytesobj, *a, **k)

    def decompress(bytes_like, *a, **k):
        w = World.cur
        if w is not None:
            w.event('decompress', '', len(bytes_like))
            if w.alloc_limit is not None and \
                    int.from_bytes(bytes(memoryview(bytes_like)[4:8]), 'little') > w.alloc_limit:
                w.alloc_refused += 1
                raise MemoryError('simulated: not that much memory')
        return r_dec(bytes_like, *a, **k)

    def compress_ptr(address, items, *a, **k):
        w = World.cur
        if w is not None:
            w.event('compress', 'ptr', items)
        return r_cptr(address, items, *a, **k)

    def decompress_ptr(bytes_like, address):
        w = World.cur
        if w is not None:
            w.event('decompress', 'ptr', len(bytes_like))
            mem = getattr(w, 'mem', None)
            if mem is not None:
                _check_dest(w, mem, bytes_like, address)
        return r_dptr(bytes_like, address)

    def set_nthreads(n):
        w = World.cur
        if w is None:
            return 1
        old = native_state.get('nthreads', blosc.ncores)
        native_state['nthreads'] = n
        w.nthreads_calls = getattr(w, 'nthreads_calls', []) + [n]
        return old

    def state_fn(name):
        real = getattr(blosc, name)

        def fn(v):
            native_state[name] = v
            return real(v)
        fn.__wrapped__ = real
        setattr(blosc, name, fn)
        if hasattr(blosc.toplevel, name):
            setattr(blosc.toplevel, name, fn)
    for name in ('set_blocksize', 'set_releasegil'):
        if hasattr(blosc, name):
            state_fn(name)

    for name, fn in (('compress', compress), ('decompress', decompress),
                     ('compress_ptr', compress_ptr),
                     ('decompress_ptr', decompress_ptr),
                     ('set_nthreads', set_nthreads)):
        fn.__wrapped__ = getattr(blosc, name)
        setattr(blosc, name, fn)
        if hasattr(blosc.toplevel, name):
            setattr(blosc.toplevel, name, fn)

    r_empty = numpy.empty

    def _size(a, k):
        shape = a[0] if a else k.get('shape')
        dt = a[1] if len(a) > 1 else k.get('dtype', float)
        try:
            n = numpy.dtype(dt).itemsize
            for s in (shape if isinstance(shape, (list, tuple)) else [shape]):
                n *= max(0, int(s))
        except (TypeError, ValueError):
            return 0
        return n

    def empty(*a, **k):
        w = World.cur
        if w is None:
            return r_empty(*a, **k)
        w.event('alloc', 'empty')
        if w.alloc_limit is not None and _size(a, k) > w.alloc_limit:
            w.alloc_refused += 1
            raise MemoryError('simulated: not that much memory')
        arr = r_empty(*a, **k)
        mem = getattr(w, 'mem', None)
        if mem is not None and not arr.dtype.hasobject:
            ptr = arr.__array_interface__['data'][0]
            if arr.nbytes and arr.nbytes <= 1 << 28:
                ctypes.memset(ptr, 0xA5, arr.nbytes)
                w.poisoned = getattr(w, 'poisoned', 0) + 1
            mem.append((ptr, arr.nbytes, arr))
        return arr
    empty.__wrapped__ = r_empty
    numpy.empty = empty
    for nm in ('zeros', 'empty_like', 'zeros_like', 'full'):
        def mk(real):
            def fn(*a, **k):
                arr = real(*a, **k)
                w = World.cur
                if w is not None:
                    mem = getattr(w, 'mem', None)
                    if mem is not None:
                        mem.append((arr.__array_interface__['data'][0],
                                    arr.nbytes, arr))
                return arr
            fn.__wrapped__ = real
            return fn
        setattr(numpy, nm, mk(getattr(numpy, nm)))


def _check_dest(w, mem, buf, address):
    b = bytes(memoryview(buf)[:16])
    if len(b) < 16:
        w.mem_short = getattr(w, 'mem_short', 0) + 1
        return
    nbytes = int.from_bytes(b[4:8], 'little')
    inside = False
    regions = mem
    if not any(p <= address <= p + z for p, z, _ in mem):
        regions = _arrays_in_frames()
    for ptr, size, _ in regions:
        if ptr <= address <= ptr + size:
            inside = True
            if address + nbytes <= ptr + size:
                w.mem_checked = getattr(w, 'mem_checked', 0) + 1
                return
    if inside:
        msg = 'native decompression of %d bytes outside the destination array' % nbytes
        w.mem_violation = msg
        raise MemoryViolation(msg)


def _arrays_in_frames():
    """Arrays the calling code holds, however they were allocated."""
    import numpy
    out, seen = [], set()

    def add(v):
        while isinstance(v, numpy.ndarray) and id(v) not in seen:
            seen.add(id(v))
            out.append((v.__array_interface__['data'][0], v.nbytes, v))
            v = v.base
    f = sys._getframe(2)
    for _ in range(8):
        if f is None:
            break
        for v in list(f.f_locals.values()):
            add(v)
            if type(v).__module__.startswith('bloscpack'):
                for x in list(getattr(v, '__dict__', {}).values()):
                    add(x)
        f = f.f_back
    return out


_TOOL = 3


def _install_monitoring():
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, 'bpsim')

    def on_jump(code, off, dest):
        if not code.co_filename.startswith(PKG):
            return mon.DISABLE
        w = World.cur
        if w is not None:
            w.step()
    mon.register_callback(_TOOL, mon.events.JUMP, on_jump)
    mon.set_events(_TOOL, mon.events.JUMP)


class Captured(object):
    """Context manager that makes a World current and captures stdout."""

    def __init__(self, world):
        self.world = world

    def __enter__(self):
        self.prev = World.cur
        self.old_out, self.old_err = sys.stdout, sys.stderr
        self.out = io.StringIO()
        self.err = io.StringIO()
        sys.stdout, sys.stderr = self.out, self.err
        World.cur = self.world
        return self

    def __exit__(self, *exc):
        World.cur = self.prev
        sys.stdout, sys.stderr = self.old_out, self.old_err
        return False
