"""Calling Fortran routines through ctypes: every argument by reference."""
import ctypes, numpy as np
_lib = {}


def lib(path):
    if path not in _lib:
        _lib[path] = ctypes.CDLL(path, mode=ctypes.RTLD_GLOBAL)
    return _lib[path]


class F:
    def __init__(self, path):
        self.L = lib(path)

    def __call__(self, name, *args):
        keep, ptrs = [], []
        for a in args:
            if isinstance(a, np.ndarray):
                p = a.ctypes.data_as(ctypes.c_void_p)
            elif isinstance(a, (bool, np.bool_)):
                v = ctypes.c_int64(1 if a else 0)
                keep.append(v)
                p = ctypes.byref(v)
            elif isinstance(a, (int, np.integer)):
                v = ctypes.c_int64(int(a))
                keep.append(v)
                p = ctypes.byref(v)
            elif isinstance(a, (float, np.floating)):
                v = ctypes.c_double(float(a))
                keep.append(v)
                p = ctypes.byref(v)
            else:
                p = a
            keep.append(a)
            ptrs.append(p)
        fn = getattr(self.L, name if name.endswith("_") or name.startswith("f_") or name.startswith("__") else name + "_")
        fn.restype = None
        fn(*ptrs)
