"""Symbolic side of the harness API: the same case functions, with inputs that
are solver variables and assertions that are solver queries."""
import re
import z3
from . import sym, cborm, stubs, keymat
from .sym import (SymBool, SymInt, SymBytes, SymStr, SymDict, is_proxy, mkbool, mkint, bexpr, And, Or, Not,
                  Implies, isbytes, isstr)
from .registry import Result

CURVE = {"P256": "NIST256p", "P384": "NIST384p", "P521": "NIST521p", "SECP256K1": "SECP256k1"}


class Cex:
    def __init__(self, label, values):
        self.label, self.values = label, values


class SymE:
    symbolic = True

    def __init__(self, ctx, tier):
        self.ctx = ctx
        self.tier = tier
        self.notes = []
        self.inputs = []      # (kind, name, data...)
        self.cexs = []
        self.names = {}

    def named(self, name, what):
        """one variable per name: a second use of a name must be the same variable"""
        if self.names.setdefault(name, what) != what:
            raise AssertionError("input name %r used for two variables" % name)

    # -- inputs
    def bytes(self, name, lo, hi=None):
        self.named(name, ("b", lo, hi))
        v = sym.new_bytes(name, lo, lo if hi is None else hi)
        if is_proxy(v):
            self.inputs.append(("b", name, v))
        return v

    def str(self, name, lo, hi=None):
        self.named(name, ("s", lo, hi))
        v = sym.new_str(name, lo, lo if hi is None else hi)
        if is_proxy(v):
            self.inputs.append(("b", name, v))
        return v

    def int(self, name, lo=None, hi=None):
        self.named(name, ("i", lo, hi))
        e = z3.Int(name)
        if lo is not None:
            self.ctx.add(e >= lo)
        if hi is not None:
            self.ctx.add(e <= hi)
        self.inputs.append(("i", name, e))
        return SymInt(e)

    def bool(self, name):
        e = z3.Bool(name)
        self.inputs.append(("z", name, e))
        return SymBool(e)

    def choice(self, name, options):
        self.named(name, ("c", len(options)))
        e = z3.Int(name)
        self.ctx.add(z3.And(e >= 0, e < len(options)))
        self.inputs.append(("i", name, e))
        return options[self.ctx.fork_value(e)]

    def bound(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def tamper(self, name, base, ext=4):
        """any byte string up to ext bytes longer than base"""
        self.named(name, object())
        cap = sym.low_rope(sym.atoms_of(base))[2]
        v = sym.new_bytes(name, 0, cap + ext)
        self.inputs.append(("t", name, base, v))
        return v

    def random(self, name, n):
        """n random bytes, different from all other random strings"""
        from . import hooks
        return hooks._urandom(n)

    def flip(self, name, base):
        """any byte string as long as base"""
        self.named(name, object())
        _, ln, cap = sym.low_rope(sym.atoms_of(base))
        v = sym.fresh_bytes_len(name, sym.simp_int(ln) if not isinstance(ln, int) else ln, cap)
        if is_proxy(v):
            self.inputs.append(("t", name, base, v))
        return v

    def wire(self, name, obj, maxlen=40):
        """some encoding of obj other than the one the library produces"""
        self.named(name, object())
        v = sym.new_bytes(name, 1, maxlen)
        t = cborm.to_term(obj)
        cborm.WIRE[v._r[0].tag] = t
        self.ctx.add(Not(sym._beq(v, cborm.term_to_value(t))))
        return v

    # -- control
    def assume(self, c):
        self.ctx.assume(c)

    def check(self, c, label):
        ctx = self.ctx
        ctx.checks_reached += 1
        ctx.stats.checks += 1
        c = bexpr(c)
        if not isinstance(c, bool):
            c = z3.simplify(c)
            if z3.is_true(c):
                c = True
            elif z3.is_false(c):
                c = False
        if c is True:
            ctx.stats.discharged += 1
            return
        neg = True if c is False else z3.Not(c)
        s = ctx.solver
        s.push()
        try:
            if neg is not True:
                s.add(neg)
            r = ctx.query()
            if r == z3.unsat:
                ctx.stats.discharged += 1
            elif r == z3.unknown:
                raise sym.Abort("solver gave up on check: " + label)
            else:
                vals = [self.values(ctx.last)]
                for k in range(ctx.opts.more_models):
                    diff = self.differ(ctx.last)
                    if diff is None:
                        break
                    s.add(diff)
                    if ctx.query() != z3.sat:
                        break
                    vals.append(self.values(ctx.last))
                self.cexs.append(Cex(label, vals))
        finally:
            s.pop()
        if c is False:
            raise sym.PathEnd("check failed")
        if ctx.alt_dump is not None and r == z3.unsat:
            ctx.alt_dump(s, neg, label)
        ctx.add(c)

    def same_text(self, a, b):
        """two printed texts are equal whatever the values in them"""
        pa, pb = (re.split("\u27e6(\\d+)\u27e7", x) for x in (a, b))
        if pa[::2] != pb[::2]:
            return False
        vals = self.ctx.printed if len(pa) > 1 else []
        return self.all(*[self.eq(vals[int(x)], vals[int(y)]) for x, y in zip(pa[1::2], pb[1::2])])

    def note(self, label, v):
        if type(v) in (SymBool, SymInt, SymStr) or isinstance(v, (bool, int, str)) or v is None:
            self.notes.append((label, v))

    def run(self, fn, *a, **k):
        try:
            v = fn(*a, **k)
        except z3.Z3Exception as e:
            raise sym.Abort("engine: %s" % e)
        except Exception as e:
            self.notes.append(("run", type(e).__name__))
            return Result(False, None, e)
        self.notes.append(("run", v if type(v) in (bool, SymBool) else "ok"))
        return Result(True, v)

    # -- model -> concrete inputs
    def _bytes(self, m, v):
        return sym.decode_bytes(m, sym.atoms_of(v))

    def values(self, m):
        out = {}
        for i in self.inputs:
            k, name = i[0], i[1]
            if k == "b":
                out[name] = {"h": self._bytes(m, i[2]).hex()}
            elif k == "i":
                out[name] = m.eval(i[2], model_completion=True).as_long()
            elif k == "z":
                out[name] = int(z3.is_true(m.eval(i[2], model_completion=True)))
            elif k == "t":
                b, t = self._bytes(m, i[2]), self._bytes(m, i[3])
                n = min(len(b), len(t))
                out[name + ".n"] = n
                out[name + ".x"] = {"h": bytes(x ^ y for x, y in zip(b, t)).hex()}
                out[name + ".e"] = {"h": t[n:].hex()}
        return out

    def differ(self, m):
        ds = []
        for i in self.inputs:
            if i[0] == "b":
                ds.append(Not(sym._beq(i[2], self._bytes(m, i[2]))))
            elif i[0] in ("i",):
                ds.append(i[2] != m.eval(i[2], model_completion=True))
            elif i[0] == "t":
                ds.append(Not(sym._beq(i[3], self._bytes(m, i[3]))))
        ds = [d for d in ds if d is not False]
        return Or(*ds) if ds else None

    def note_values(self, m):
        out = []
        for lab, v in self.notes:
            if type(v) is SymBool:
                v = z3.is_true(m.eval(v._e, model_completion=True))
            elif type(v) is SymInt:
                v = m.eval(v._e, model_completion=True).as_long()
            elif type(v) is SymStr:
                v = self._bytes(m, v).decode("latin-1")
            out.append([lab, v])
        return out

    # -- logic without forking
    def all(self, *cs):
        return mkbool(And(*[bexpr(c) for c in cs]))

    def any(self, *cs):
        return mkbool(Or(*[bexpr(c) for c in cs]))

    def not_(self, c):
        return mkbool(Not(bexpr(c)))

    def implies(self, a, b):
        return mkbool(Implies(bexpr(a), bexpr(b)))

    def iff(self, a, b):
        a, b = bexpr(a), bexpr(b)
        if isinstance(a, bool):
            return mkbool(b if a else Not(b))
        if isinstance(b, bool):
            return mkbool(a if b else Not(a))
        return mkbool(a == b)

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return mkbool(deq(a, b))

    def b2i(self, b):
        return sym.from_bytes_int(b) if is_proxy(b) else int.from_bytes(b, "big")

    def xor(self, a, b):
        """of two strings of the same fixed length"""
        return (sym.from_bytes_int(a) ^ sym.from_bytes_int(b)).to_bytes(len(a), "big")

    # -- oracles
    def cbor(self, o):
        return cborm.dumps(o)

    def tag(self, n, o):
        return CTag(n, o)

    def raw(self, b):
        return Raw(b)

    def decode(self, b):
        return cborm.loads(b)

    def hash(self, name, data, size=None):
        import hashlib
        if name.startswith("shake"):
            return stubs.hash_value("%s/%d" % (name, size), size, data)
        return stubs.hash_value(name, hashlib.new(name).digest_size, data)

    def hmac(self, name, key, data):
        import hashlib
        return stubs.hmac_value(name, hashlib.new(name).digest_size, key, data)

    def cbcmac(self, key, data):
        n = sym.mkint(sym.simp_int(sym.lenx(data))) % 16
        k = (16 - int(n)) % 16
        return stubs.cbcmac(key, bytes(16), data + bytes(k))

    def seal(self, kind, taglen, key, nonce, aad, pt):
        return stubs.aead_seal((kind, taglen), taglen, key, nonce, aad, pt)

    def is_seal(self, kind, taglen, key, nonce, aad, pt, ct):
        out = []
        for r in stubs.find("aead"):
            if r.params == (kind, taglen):
                out.append(And(*[sym._beq(x, y) for x, y in zip(r.inputs, (key, nonce, aad, pt))],
                               sym._beq(r.out, ct)))
        return mkbool(Or(*out)) if out else False

    def keywrap(self, kek, data):
        return stubs.kw_seal(kek, data)

    def hkdf(self, name, length, salt, info, ikm):
        return stubs.hkdf_value(name, length, salt, info, ikm)

    def ecdh(self, crv, d, x, y):
        from .concenv import ConcE
        return ConcE.ecdh(self, crv, *[sym.deep_conc(v, "ecdh") for v in (d, x, y)])

    def _scheme(self, scheme, pub):
        if scheme[0] in ("ecdsa", "ecdsa-der"):
            return tuple(scheme), (CURVE[pub[0]], int.from_bytes(pub[1], "big"), int.from_bytes(pub[2], "big"))
        if scheme[0] in ("ed25519", "ed448"):
            return (scheme[0],), pub[0]
        pk = (int.from_bytes(pub[0], "big"), int.from_bytes(pub[1], "big"))
        if scheme[0] == "pkcs1":
            return ("pkcs1", scheme[1]), pk
        import hashlib
        salt = scheme[2] if len(scheme) > 2 else hashlib.new(scheme[1]).digest_size
        return ("pss", scheme[1], scheme[1], salt), pk

    def sig_valid(self, scheme, pub, data, sig):
        s, p = self._scheme(scheme, pub)
        return mkbool(stubs.sig_ok(s, p, data, sig))

    def sign_where(self, scheme, priv, data, cond):
        s = self.sign_ref(scheme, priv, data)
        self.assume(cond(s))
        return s

    def sign_ref(self, scheme, priv, data):
        from .concenv import ConcE
        if scheme[0] in ("ecdsa", "ecdsa-der"):
            for d, x, y in keymat.EC2[priv[0]]:
                if d == priv[1]:
                    pub, n = (priv[0], x, y), 2 * len(x) + (8 if scheme[0] == "ecdsa-der" else 0)
        elif scheme[0] in ("ed25519", "ed448"):
            for d, x in keymat.OKP[{"ed25519": "Ed25519", "ed448": "Ed448"}[scheme[0]]]:
                if d == priv[0]:
                    pub, n = (x,), 64 if scheme[0] == "ed25519" else 114
        else:
            pub, n = (priv["n"], priv["e"]), len(priv["n"])
        s, p = self._scheme(scheme, pub)
        return stubs.sig_make(s, p, data, n, deterministic=scheme[0] not in ("ecdsa", "ecdsa-der", "pss"))

    def oaep_open(self, hash_, priv, ct):
        pk = (int.from_bytes(priv["n"], "big"), int.from_bytes(priv["e"], "big"))
        for r in stubs.find("oaep"):
            if r.params == (("oaep", hash_, hash_, None), pk) and stubs.decide(sym._beq(r.out, ct)):
                return r.inputs[0]
        return None

    def mat(self, kind, crv=None, i=0):
        return keymat.RSA[i] if kind == "RSA" else getattr(keymat, kind)[crv][i]


class CTag:
    def __init__(self, tag, value):
        self.tag, self.value = tag, value


CTag.__name__ = "CBORTag"


class Raw:
    def __init__(self, b):
        self.b = b


def deq(a, b):
    """deep equality as a formula"""
    if isbytes(a) or isbytes(b):
        return sym._beq(a, b) if isbytes(a) and isbytes(b) else False
    if isstr(a) or isstr(b):
        return bexpr(a == b) if isstr(a) and isstr(b) else False
    if type(a) is SymBool or type(b) is SymBool or isinstance(a, bool) or isinstance(b, bool):
        if not (isinstance(a, bool) and isinstance(b, bool)):
            return False
        if type(a) is not SymBool and type(b) is not SymBool:
            return a == b
        x, y = bexpr(a), bexpr(b)
        if isinstance(x, bool):
            return y if x else Not(y)
        if isinstance(y, bool):
            return x if y else Not(x)
        return x == y
    if type(a) is SymInt or type(b) is SymInt:
        return bexpr(a == b) if isinstance(a, int) and isinstance(b, int) else False
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        cs = []
        for k, v in a.items():
            if k not in b:
                return False
            c = deq(v, b[k])
            if c is False:
                return False
            cs.append(c)
        return And(*cs)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        cs = []
        for x, y in zip(a, b):
            c = deq(x, y)
            if c is False:
                return False
            cs.append(c)
        return And(*cs)
    if type(a).__name__ == "CBORTag" and type(b).__name__ == "CBORTag":
        return False if a.tag != b.tag else deq(a.value, b.value)
    if a is None or b is None:
        return a is b
    return type(a) is type(b) and bool(a == b)
