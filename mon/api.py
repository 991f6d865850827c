"""
Boundary instrumentation: every reference to a public petrofit function inside the loaded
petrofit modules is replaced by a recording wrapper, so that calls petrofit makes to itself are
observed exactly like calls made by a workload.  Only names exported in petrofit's __all__ lists
are used; nothing inside a function body is looked at.
"""
import sys, copy, inspect, functools, hashlib
import numpy as np

from . import core


class Event:
    __slots__ = ("name", "args", "result", "exc", "mutated", "depth")


_state = {"depth": 0, "busy": False}


def snapshot(o, depth=0):
    """Value of an argument at call time, detached from the caller's object."""
    if isinstance(o, np.ndarray):
        return o.copy()
    if isinstance(o, list):
        return [snapshot(v, depth + 1) for v in o] if depth < 3 else list(o)
    if isinstance(o, tuple):
        return tuple(snapshot(v, depth + 1) for v in o) if depth < 3 else o
    if isinstance(o, dict):
        return {k: snapshot(v, depth + 1) for k, v in o.items()}
    return o


def fingerprint(o, depth=0):
    """Digest of everything a caller can see in an argument."""
    from astropy.modeling import Model
    from astropy.table import Table
    from astropy.nddata import NDData, Cutout2D
    from photutils.segmentation import SegmentationImage, SourceCatalog
    import petrofit
    if depth > 4:
        return "..."
    if isinstance(o, np.ma.MaskedArray):
        return ("ma", fingerprint(np.asarray(o.data)), fingerprint(np.ma.getmaskarray(o)))
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            return ("obj", o.shape, tuple(fingerprint(v, depth + 1) for v in o.ravel()))
        a = np.ascontiguousarray(o)
        return ("arr", a.dtype.str, o.shape, hashlib.blake2b(a.tobytes(), digest_size=12).hexdigest(),
                str(getattr(o, "unit", "")))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__,) + tuple(fingerprint(v, depth + 1) for v in o)
    if isinstance(o, dict):
        return ("dict",) + tuple((repr(k), fingerprint(v, depth + 1)) for k, v in o.items())
    if isinstance(o, NDData):
        return ("nd", fingerprint(np.asarray(o.data)), fingerprint(o.mask, depth + 1),
                fingerprint(getattr(o.uncertainty, "array", None), depth + 1), str(o.unit))
    if isinstance(o, Cutout2D):
        return ("cut", fingerprint(o.data), repr(o.position_original))
    if isinstance(o, SegmentationImage):
        return ("segm", fingerprint(o.data))
    if isinstance(o, SourceCatalog):
        return ("cat", repr(o.label), fingerprint(np.asarray(o.data_ma.data) if o.isscalar else None),
                fingerprint(getattr(o, "_data", None), depth + 1))
    if isinstance(o, Table):
        return ("table",) + tuple((c, fingerprint(np.asarray(o[c]))) for c in o.colnames)
    if isinstance(o, petrofit.Petrosian):
        return ("petro",) + tuple(fingerprint(getattr(o, k), depth + 1) for k in
                                  ("r_list", "area_list", "flux_list", "area_err", "flux_err", "eta", "epsilon",
                                   "epsilon_fraction", "total_flux_fraction", "interp_kind", "interp_num",
                                   "petrosian_list", "petrosian_err"))
    if isinstance(o, Model):
        return ("model", type(o).__name__, fingerprint(np.array(o.parameters)),
                tuple(o.param_names), repr(dict(o.fixed)), repr(dict(o.bounds)), repr(dict(o.tied)),
                fingerprint(getattr(o, "psf", None), depth + 1), repr(getattr(o, "oversample", None)),
                repr(getattr(o, "psf_oversample", None)))
    if isinstance(o, type) or callable(o):
        return ("callable", getattr(o, "__name__", "?"))
    if hasattr(o, "to_header") and hasattr(o, "wcs"):
        return ("wcs", repr(o.to_header()))
    if o is None or isinstance(o, (str, int, float, complex, bool, np.generic, slice)):
        return (type(o).__name__, repr(o))
    if hasattr(o, "items"):
        return ("map",) + tuple((repr(k), repr(v)) for k, v in o.items())
    return ("other", type(o).__name__)


def _wrap(M, name, fn, cb, want_fp):
    try:
        sig = inspect.signature(fn)
    except (TypeError, ValueError):
        sig = None

    @functools.wraps(fn)
    def wrapper(*a, **k):
        if _state["busy"]:
            return fn(*a, **k)
        ev = Event()
        ev.name, ev.result, ev.exc, ev.mutated = name, None, None, ()
        bound = None
        try:
            if sig is not None:
                bound = sig.bind(*a, **k)
                bound.apply_defaults()
                live = bound.arguments
            else:
                live = dict(enumerate(a), **k)
            ev.args = {n: snapshot(v) for n, v in live.items()}
            before = {n: fingerprint(v) for n, v in live.items()} if want_fp else None
        except TypeError:
            return fn(*a, **k)          # not a valid call; let the function say so
        _state["depth"] += 1
        ev.depth = _state["depth"]
        try:
            ev.result = fn(*a, **k)
            return ev.result
        except Exception as e:
            ev.exc = e
            raise
        finally:
            _state["depth"] -= 1
            if not isinstance(sys.exc_info()[1], core.CaseTimeout):
                _state["busy"] = True
                try:
                    if want_fp:
                        ev.mutated = tuple(n for n, v in live.items() if fingerprint(v) != before[n])
                    M.event(name)
                    cb(ev)
                except core.CaseTimeout:
                    raise
                except Exception as e:
                    M.inconclusive.append("monitor of %s failed: %r" % (name, e))
                    raise core.OracleError("monitor of %s failed: %r" % (name, e)) from e
                finally:
                    _state["busy"] = False
    wrapper.__verif_original__ = fn
    return wrapper


def modules():
    return [m for n, m in list(sys.modules.items())
            if m is not None and (n == "petrofit" or n.startswith("petrofit."))]


def install(M, hooks):
    """hooks: {public name or 'Class.attr': callback} ; key '*' = every public function, fingerprinted."""
    import petrofit as pf
    public = {}
    for m in modules():
        for n in getattr(m, "__all__", []):
            if hasattr(m, n):
                public[n] = getattr(m, n)
    star = hooks.get("*")
    todo = {n: cb for n, cb in hooks.items() if n != "*"}
    if star:
        for n, f in public.items():
            if inspect.isfunction(f) and n not in todo:
                todo[n] = star
    for name, cb in todo.items():
        fp = cb is star and star is not None
        if "." in name:
            cls, attr = name.split(".")
            c = public.get(cls)
            if c is None or attr not in c.__dict__:
                continue
            old = c.__dict__[attr]
            if isinstance(old, property):
                new = property(_wrap(M, name, old.fget, cb, fp), old.fset, old.fdel, old.__doc__)
            elif isinstance(old, (staticmethod, classmethod)):
                new = type(old)(_wrap(M, name, old.__func__, cb, fp))
            else:
                new = _wrap(M, name, old, cb, fp)
            setattr(c, attr, new)
            continue
        f = public.get(name)
        if f is None or not inspect.isfunction(f):
            continue
        w = _wrap(M, name, f, cb, fp)
        for m in modules():
            for n, v in list(vars(m).items()):
                if v is f:
                    setattr(m, n, w)
