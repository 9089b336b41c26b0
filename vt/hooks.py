"""What a call means inside instrumented code."""
import base64
import binascii
import builtins
import collections
import copy
import functools
import hmac as std_hmac
import os
import secrets
import sys
import types
import warnings
import cbor2
from . import sym, cborm, strm, textm  # noqa: F401
from .sym import (SymBytes, SymStr, SymInt, SymBool, SymDict, Control, Proxy, is_proxy, has_sym, deep_conc,
                  mkbytes, mkbool, mkint, mkstr, isbytes, isstr)

FUNC = {}      # id(callable) -> replacement
METH = {}      # method name -> [(class of self, replacement(self, ...))]
CLSM = {}      # (id(class), method name) -> replacement
_keep = []
OWN = ("pycose", "vt", "_vt_")


def hook(obj, fn=None):
    if fn is None:
        def deco(g):
            hook(obj, g)
            return g
        return deco
    FUNC[id(obj)] = fn
    _keep.append(obj)
    return fn


def hook_method(cls, name, fn):
    METH.setdefault(name, []).append((cls, fn))


def hook_classmethod(cls, name, fn):
    CLSM[(id(cls), name)] = fn
    _keep.append(cls)


PASS = set()


def passthru(*objs):
    for o in objs:
        PASS.add(id(o))
        _keep.append(o)


passthru(list, tuple, enumerate, zip, reversed, iter, next, any, all, sum, isinstance, issubclass, hasattr, getattr,
         setattr, delattr, callable, id, print, repr, object, property, classmethod, staticmethod, slice, range,
         copy.copy, copy.deepcopy, builtins.bool, divmod, abs, warnings.warn, functools.wraps, functools.partial,
         collections.OrderedDict.__init__, format)
WRAPCB = {id(o) for o in (map, filter, sorted, min, max, functools.reduce, functools.partial)}


def owned(mod):
    return mod is not None and mod.split(".")[0].startswith(OWN)


def wrap_cb(f):
    if callable(f) and (id(f) in FUNC or isinstance(f, (types.BuiltinFunctionType, types.MethodType))):
        return lambda *a, **k: pc_call(f, *a, **k)
    return f


LIST_OK = {"append", "extend", "insert", "pop", "index", "remove", "sort", "reverse", "count", "copy", "clear",
           "__len__", "__iter__"}


def builtin_method(f, s, name, a, k):
    ts = type(s)
    if ts is dict:
        if a and is_proxy(a[0]) and name in ("get", "__getitem__", "__contains__"):
            return getattr(SymDict(s), name)(*a, **k)
        # values may be symbolic as long as the keys are not
        if name in ("get", "setdefault", "pop", "__setitem__", "__getitem__", "__delitem__", "__contains__") and \
                a and not has_sym(a[0]):
            return f(*a, **k)
        if name == "update" and (not a or type(a[0]) is dict and not any(has_sym(x) for x in a[0])):
            return f(*a, **k)
        if name in ("items", "keys", "values", "copy", "clear", "popitem"):
            return f(*a, **k)
        return NotImplemented
    if issubclass(ts, list):
        return f(*a, **k) if name in LIST_OK else NotImplemented
    if issubclass(ts, (set, frozenset)):
        if a and is_proxy(a[0]) and name == "__contains__":
            return pc_in(a[0], s)
        return NotImplemented
    if ts in (bytes, bytearray):
        if name == "join":
            parts = list(a[0])
            out = []
            for i, p in enumerate(parts):
                if not isbytes(p):
                    raise TypeError("sequence item %d: expected a bytes-like object, %s found" % (i, sym.type_name(p)))
                if i:
                    out += sym.atoms_of(bytes(s))
                out += sym.atoms_of(p)
            return mkbytes(out)
        if (name in textm.COMMON or name in textm.MORE) and s and any(is_proxy(x) for x in a):
            return getattr(SymBytes(sym.atoms_of(bytes(s))), name)(*a, **k)
        return NotImplemented
    if ts is str:
        if name == "join":
            parts = list(a[0])
            if any(type(p) is SymStr for p in parts):
                out = []
                for i, p in enumerate(parts):
                    if i:
                        out += sym.atoms_of(s)
                    out += sym.atoms_of(p)
                return mkstr(out)
            return s.join(parts)
        if name == "format":
            return f(*a, **k)
        if (name in textm.COMMON or name in textm.MORE) and s and s.isascii() and any(is_proxy(x) for x in a):
            return getattr(SymStr(sym.atoms_of(s)), name)(*a, **k)
        return NotImplemented
    if ts is int and name == "to_bytes":
        a = [int(x) if type(x) is SymInt else x for x in a]
        k = {n: int(x) if type(x) is SymInt else x for n, x in k.items()}
        return f(*a, **k)
    return NotImplemented


def plain(v, depth=4):
    """Arguments for library code: engine dicts become real dicts."""
    return deep_conc(v)


def native(f, a, k):
    if not has_sym(a) and not has_sym(k) and not any(type(x) in (SymDict, sym.SymSet) for x in a):
        return f(*a, **k)
    name = getattr(f, "__qualname__", repr(type(f)))
    a = tuple(deep_conc(x, "native " + name) for x in a)
    k = {n: deep_conc(x, "native " + name) for n, x in k.items()}
    r = f(*a, **k)
    return cborm.wrap(r) if type(r) is dict else r


def pc_call(f, *a, **k):
    h = FUNC.get(id(f))
    if h is not None:
        return h(*a, **k)
    t = type(f)
    if t is types.FunctionType:
        if owned(f.__module__):
            return f(*a, **k)
        if id(f) in PASS:
            return f(*a, **k)
        return native(f, a, k)
    if t is types.MethodType:
        s = f.__self__
        name = f.__func__.__name__ if hasattr(f.__func__, "__name__") else ""
        if is_proxy(s) or type(s) in (SymDict, sym.SymSet):
            return f(*a, **k)
        if isinstance(s, type):
            h = CLSM.get((id(s), name))
            if h is not None:
                return h(*a, **k)
        hs = METH.get(name)
        if hs:
            for c, h in hs:
                if isinstance(s, c):
                    return h(s, *a, **k)
        fn = f.__func__
        if owned(getattr(fn, "__module__", None)):
            return f(*a, **k)
        # library mixins (MutableMapping.update, ...) running on our objects
        if isinstance(s, type) and owned(s.__module__) or owned(type(s).__module__):
            return f(*a, **k)
        return native(f, a, k)
    if t is types.BuiltinFunctionType:
        s = f.__self__
        name = f.__name__
        if s is not None and not isinstance(s, types.ModuleType):
            if is_proxy(s) or type(s) in (SymDict, sym.SymSet):
                return f(*a, **k)
            if isinstance(s, type):
                h = CLSM.get((id(s), name))
                if h is not None:
                    return h(*a, **k)
            hs = METH.get(name)
            if hs:
                for c, h in hs:
                    if isinstance(s, c):
                        return h(s, *a, **k)
            r = builtin_method(f, s, name, a, k)
            if r is not NotImplemented:
                return r
            if isinstance(s, type) and owned(s.__module__):
                return f(*a, **k)
            return native(f, a, k)
        if id(f) in WRAPCB:
            return f(*[wrap_cb(x) for x in a], **{n: wrap_cb(x) for n, x in k.items()})
        if id(f) in PASS:
            return f(*a, **k)
        return native(f, a, k)
    if isinstance(f, type):
        if id(f) in WRAPCB:
            return f(*[wrap_cb(x) for x in a], **{n: wrap_cb(x) for n, x in k.items()})
        if owned(f.__module__) or id(f) in PASS or issubclass(f, (BaseException, Proxy, SymDict, sym.SymSet)):
            return f(*a, **k)
        if f is type:
            return f(*a, **k)
        return native(f, a, k)
    if t is functools.partial:
        return pc_call(f.func, *f.args, *a, **{**f.keywords, **k})
    if owned(getattr(f, "__module__", None)) or owned(t.__module__):
        return f(*a, **k)
    # method descriptors such as dict.get, wrappers, library objects
    name = getattr(f, "__name__", None)
    if a and (is_proxy(a[0]) or type(a[0]) in (SymDict, sym.SymSet)) and name and t in (types.MethodDescriptorType,
                                                                          types.WrapperDescriptorType):
        return getattr(a[0], name)(*a[1:], **k)
    if t is types.MethodWrapperType:
        return f(*a, **k)
    if isinstance(f, functools._lru_cache_wrapper):
        if owned(getattr(f, "__module__", None)):
            return f(*a, **k)
    if t.__module__ in ("typing", "abc", "attr", "attr._make", "enum", "operator") or not callable(f):
        return f(*a, **k)
    return native(f, a, k)


def pc_in(a, b):
    if is_proxy(a):
        if isinstance(b, (set, frozenset)) or type(b) is dict or type(b) is types.MappingProxyType \
                or type(b) in (type({}.keys()),):
            for x in (sorted(b, key=_stable) if isinstance(b, frozenset) or type(b) is set else b):
                if same_kind(a, x) and a == x:
                    return True
            return False
        if type(b) in (bytes, bytearray):
            if isbytes(a):
                return a in SymBytes(sym.atoms_of(b)) if b else a == b""
            return any(bool(a == x) for x in b)
        if type(b) is str:
            if not b:
                return bool(a == "")
            return a in SymStr(sym.atoms_of(b))
    return a in b


def _stable(x):
    return type(x).__name__, getattr(x, "__qualname__", None) or repr(x)


def same_kind(a, x):
    c = a.__class__
    if c in (int, bool):
        return isinstance(x, (int, float)) or type(x) is SymInt
    return isinstance(x, c)


def pc_is(a, b):
    if type(a) is SymBool and isinstance(b, bool):
        return bool(a) is bool(b)
    if type(b) is SymBool and isinstance(a, bool):
        return bool(a) is bool(b)
    return a is b


def pc_reraise():
    e = sys.exc_info()[1]
    if isinstance(e, Control):
        raise e


def inject(ns):
    ns["_pc0_call"] = pc_call
    ns["_pc0_in"] = pc_in
    ns["_pc0_is"] = pc_is
    ns["_pc0_dict"] = sym.sdict
    ns["_pc0_set"] = sym.SymSet
    ns["_pc0_reraise"] = pc_reraise


# -- builtins -------------------------------------------------------------------

@hook(len)
def _len(x):
    if type(x) in (SymBytes, SymStr):
        return mkint(sym.rope_len(x._r))
    return len(x)


@hook(type)
def _type(x, *a, **k):
    if a or k:
        return type(x, *a, **k)
    if is_proxy(x):
        return x.__class__
    if type(x) is SymDict:
        return dict
    if type(x) is sym.SymSet:
        return set
    return type(x)


_MISSING = object()


@hook(int)
def _int(x=0, base=_MISSING):
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return int(x)
    if type(x) in (SymBytes, SymStr):
        return strm.parse_int(x, None if base is _MISSING else int(base))
    return int(x) if base is _MISSING else int(x, base)


def _from_bytes(data, byteorder="big", *, signed=False):
    if type(data) is SymBytes:
        if signed:
            return int.from_bytes(sym.concretize(data, "signed int"), byteorder, signed=True)
        if byteorder not in ("big", "little"):
            raise ValueError("byteorder must be either 'little' or 'big'")
        return sym.from_bytes_int(data, byteorder)
    if isinstance(data, (list, tuple)) and has_sym(data):
        return _from_bytes(_bytes(data), byteorder, signed=signed)
    if is_proxy(data):
        raise TypeError("cannot convert '%s' object to bytes" % sym.type_name(data))
    return int.from_bytes(data, byteorder, signed=signed)


hook_classmethod(int, "from_bytes", _from_bytes)
hook_classmethod(bytes, "fromhex", lambda s: bytes.fromhex(sym.concretize(s, "fromhex")))
hook_classmethod(dict, "fromkeys", SymDict.fromkeys)


@hook(bytes)
def _bytes(*a, **k):
    if not a:
        return bytes(**k)
    x = a[0]
    if type(x) is SymBytes:
        return x
    if type(x) is SymInt:
        return bytes(int(x))
    if type(x) is SymStr:
        if len(a) < 2 and not k:
            raise TypeError("string argument without an encoding")
        return x.encode()
    if isinstance(x, (list, tuple, map, filter)) or hasattr(x, "__next__"):
        xs = list(x)
        if any(is_proxy(v) for v in xs):
            out = []
            for v in xs:
                if type(v) is SymInt:
                    if bool(v < 0) or bool(v > 255):
                        raise ValueError("bytes must be in range(0, 256)")
                    out += sym.atoms_of(v.to_bytes(1, "big"))
                else:
                    out += sym.atoms_of(bytes([v]))
            return mkbytes(out)
        return bytes(xs)
    return bytes(*a, **k)


@hook(str)
def _str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if type(x) is SymStr:
            return x
        if type(x) is SymBytes:
            return repr(x)
        return str(x)
    if a and type(a[0]) is SymBytes:
        return a[0].decode(*a[1:], **k)
    return str(*a, **k)


@hook(dict)
def _dict(*a, **k):
    return SymDict(*a, **k)


@hook(memoryview)
def _mv(x):
    return x if type(x) is SymBytes else memoryview(x)


@hook(bytearray)
def _ba(*a, **k):
    return bytearray(*[deep_conc(x, "bytearray") for x in a], **k)


@hook(set)
def _set(*a):
    return sym.SymSet(*a)


@hook(frozenset)
def _frozenset(*a):
    return frozenset(list(sym.SymSet(*a)))


@hook(pow)
def _pow(*a):
    return pow(*[int(x) if type(x) is SymInt else x for x in a])


@hook(chr)
def _chr(x):
    if type(x) is SymInt and x._bv and x._e.size() == 8 and bool(x < 128):
        return mkstr([sym.Var(x._e, 1, 1)])
    return chr(int(x))


@hook(ord)
def _ord(x):
    if type(x) in (SymStr, SymBytes):
        return SymBytes(x._r)[0]
    return ord(x)


@hook(binascii.hexlify)
def _hexlify(x, *a):
    return strm.hexlify(x) if type(x) is SymBytes and not a else binascii.hexlify(deep_conc(x), *a)


hook(binascii.b2a_hex, _hexlify)


@hook(binascii.unhexlify)
def _unhexlify(x):
    return binascii.unhexlify(deep_conc(x, "unhexlify"))


hook(binascii.a2b_hex, _unhexlify)


@hook(base64.b64encode)
def _b64e(s, altchars=None):
    if type(s) is SymBytes and altchars is None:
        return strm.b64encode(s)
    return base64.b64encode(deep_conc(s), altchars)


@hook(base64.urlsafe_b64encode)
def _ub64e(s):
    if type(s) is SymBytes:
        return strm.b64encode(s, url=True)
    return base64.urlsafe_b64encode(s)


@hook(base64.b64decode)
def _b64d(s, altchars=None, validate=False):
    if type(s) in (SymBytes, SymStr):
        if altchars is not None and bytes(altchars) in (b"-_",) and not validate:
            return _ub64d(s)
        if altchars is None:
            return strm.b64decode(s)
    return base64.b64decode(deep_conc(s), altchars, validate)


@hook(base64.urlsafe_b64decode)
def _ub64d(s):
    if type(s) is SymBytes:
        s = SymStr(s._r)
    if type(s) is SymStr:
        s = s.replace("-", "+").replace("_", "/")
        return _b64d(s)
    return base64.urlsafe_b64decode(s)


@hook(std_hmac.compare_digest)
def _cmpd(a, b):
    if isbytes(a) and isbytes(b):
        return mkbool(sym._beq(a, b))
    return std_hmac.compare_digest(deep_conc(a), deep_conc(b))


hook(secrets.compare_digest, _cmpd)


@hook(os.urandom)
def _urandom(n):
    n = int(n) if type(n) is SymInt else n
    if not isinstance(n, int):
        return os.urandom(n)
    v = sym.fresh_bytes("urandom", n)
    if n >= 8:
        # no collisions, as for the other ideal primitives
        old = sym.CTX.recs.setdefault("urandom", [])
        for o in old:
            sym.CTX.add(sym.Not(sym._beq(o, v)))
        old.append(v)
    return v


@hook(secrets.token_bytes)
def _token(n=32):
    return _urandom(n)


# -- cbor2 ------------------------------------------------------------------------
import _cbor2  # noqa: E402
for _m in (cbor2, _cbor2):
    hook(_m.dumps, cborm.dumps)
    hook(_m.loads, cborm.loads)
    passthru(_m.CBORTag)

try:
    import certvalidator
    passthru(certvalidator.CertificateValidator)  # the cases replace its methods
except ImportError:
    pass
