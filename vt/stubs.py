"""Ideal cryptography.

Each primitive is a record: (kind, parameters, inputs) -> output bytes, where the
output is a fresh bit-vector.  For any two records of one path
    same kind/parameters and equal inputs  =>  equal outputs
    otherwise                              =>  different outputs (already in the first 8 bytes)
Verification, decryption and unwrapping succeed exactly on outputs of a record
with the same key and parameters (closed world): no forgeries, no collisions.
Asymmetric key material is concrete and handled by the real libraries; only
signing, verifying, OAEP and key derivation over symbolic data are modelled.
"""
import hashlib
import hmac as std_hmac
import z3
from . import sym, hooks
from .sym import (SymBytes, mkbytes, mkbool, isbytes, And, Or, Not, Implies)
from .hooks import hook, hook_method, hook_classmethod

from cryptography.exceptions import InvalidSignature, InvalidTag
from cryptography.hazmat.primitives import hashes, constant_time, hmac as c_hmac, keywrap, ciphers, padding as sympad
from cryptography.hazmat.primitives.ciphers import aead, algorithms as calgs, modes as cmodes
from cryptography.hazmat.primitives.kdf import hkdf
from cryptography.hazmat.primitives.asymmetric import ec, ed25519, ed448, x25519, x448, rsa, padding
from ecdsa import keys as ek, curves as ecurves, ellipticcurve


def B(x, name="data"):
    """cryptography's byte-likeness check."""
    if not isbytes(x):
        raise TypeError("%s must be bytes-like" % name)
    return x


def beq(a, b):
    return sym._beq(a, b)


def hname(alg):
    """Name of a hash given as cryptography object/class or hashlib constructor."""
    if isinstance(alg, type) and issubclass(alg, hashes.HashAlgorithm):
        return alg.name
    if isinstance(alg, hashes.HashAlgorithm):
        n = alg.name
        if n.startswith("shake"):
            return n.replace("shake1", "shake_1").replace("shake2", "shake_2") + "/%d" % alg.digest_size
        return n
    n = getattr(alg, "__name__", None) or getattr(alg, "name", None) or str(alg)
    return n.replace("openssl_", "")


def dsize(alg):
    if isinstance(alg, (type, hashes.HashAlgorithm)):
        return alg.digest_size
    return hashlib.new(hname(alg)).digest_size


class Rec:
    __slots__ = ("params", "inputs", "out", "aux")


def find(kind):
    return sym.CTX.recs.setdefault(kind, [])


def ieq(a, b):
    return And(*[beq(x, y) for x, y in zip(a, b)])


def prefix_differs(a, b, n=8):
    """outputs differ, already within the first n bytes"""
    da, la, ca = sym.low_rope(sym.atoms_of(a))
    db, lb, cb = sym.low_rope(sym.atoms_of(b))
    if not (isinstance(la, int) and isinstance(lb, int)):
        return Not(beq(a, b))
    m = min(n, la, lb)
    pa = z3.Extract(8 * ca - 1, 8 * (ca - m), da)
    pb = z3.Extract(8 * cb - 1, 8 * (cb - m), db)
    return pa != pb


def ideal(kind, params, inputs, make, deterministic=True):
    """Output of primitive `kind` on these inputs."""
    recs = find(kind)
    conds = []
    for r in recs:
        c = ieq(r.inputs, inputs) if r.params == params else False
        if c is not False and not isinstance(c, bool):
            c = z3.simplify(c)
            if z3.is_true(c):
                c = True
            elif z3.is_false(c):
                c = False
        if r.aux == "nd":
            c = False
        if c is True and deterministic:
            return r
        conds.append(c)
    r = Rec()
    r.params, r.inputs, r.aux = params, tuple(inputs), (None if deterministic else "nd")
    r.out = make()
    for p, c in zip(recs, conds):
        if deterministic:
            if c is not False:
                sym.CTX.add(Implies(c, beq(p.out, r.out)))
                sym.CTX.add(Or(c, prefix_differs(p.out, r.out)))
            else:
                sym.CTX.add(prefix_differs(p.out, r.out))
        else:
            sym.CTX.add(prefix_differs(p.out, r.out))
    recs.append(r)
    return r


# -- hashes ---------------------------------------------------------------------

def hash_value(name, size, data):
    return ideal("hash", (name, size), [data], lambda: sym.fresh_bytes("hash", size)).out


class HashObj:
    def __init__(self, name, size):
        self._n, self._s, self._d, self._done = name, size, b"", False

    def update(self, data):
        self._d = self._d + B(data)

    def finalize(self):
        return hash_value(self._n, self._s, self._d)

    digest = finalize

    def hexdigest(self):
        return self.finalize().hex()

    def copy(self):
        h = HashObj(self._n, self._s)
        h._d = self._d
        return h


@hook(hashes.Hash)
def _Hash(algorithm, backend=None):
    if not isinstance(algorithm, hashes.HashAlgorithm):
        raise TypeError("Expected instance of hashes.HashAlgorithm.")
    return HashObj(hname(algorithm), algorithm.digest_size)


def _hl(name, size):
    def f(data=b"", **k):
        h = HashObj(name, size)
        h.update(data)
        return h
    return f


for _n in ("sha1", "sha224", "sha256", "sha384", "sha512"):
    hook(getattr(hashlib, _n), _hl(_n, hashlib.new(_n).digest_size))


@hook(hashlib.new)
def _hnew(name, data=b"", **k):
    return _hl(name, hashlib.new(name).digest_size)(data)


# -- MACs -----------------------------------------------------------------------

def hmac_value(hash_, size, key, data):
    return ideal("hmac", (hash_,), [key, data], lambda: sym.fresh_bytes("hmac", size)).out


class HmacObj:
    def __init__(self, name, size, key):
        self._n, self._s, self._k, self._d = name, size, key, b""

    def update(self, data):
        self._d = self._d + B(data)

    def finalize(self):
        return hmac_value(self._n, self._s, self._k, self._d)

    digest = finalize

    def verify(self, signature):
        B(signature, "signature")
        if not sym.CTX.branch(sym.bexpr(mkbool(beq(signature, self.finalize())))):
            raise InvalidSignature("Signature did not match digest.")

    def copy(self):
        h = HmacObj(self._n, self._s, self._k)
        h._d = self._d
        return h


@hook(c_hmac.HMAC)
def _HMAC(key, algorithm, backend=None):
    if not isinstance(algorithm, hashes.HashAlgorithm):
        raise TypeError("Expected instance of hashes.HashAlgorithm.")
    B(key, "key")
    return HmacObj(hname(algorithm), algorithm.digest_size, key)


def _std(key, msg=None, digestmod=""):
    n = digestmod if isinstance(digestmod, str) else hname(digestmod)
    h = HmacObj(n, hashlib.new(n).digest_size, key)
    if msg is not None:
        h.update(msg)
    return h


hook(std_hmac.new, _std)
hook(std_hmac.HMAC, _std)
hook(std_hmac.digest, lambda key, msg, digest: _std(key, msg, digest).digest())
hook(constant_time.bytes_eq, lambda a, b: mkbool(beq(B(a, "a"), B(b, "b"))))


def cbc_value(key, iv, data):
    """AES-CBC ciphertext: (everything but the last block, last block)."""
    n = len(data)
    r = ideal("cbc", (), [key, iv, data], lambda: sym.fresh_bytes("cbc", n) if n else b"")
    return r.out


def cbcmac(key, iv, data):
    """last block of the AES-CBC encryption (data a multiple of 16)"""
    return ideal("cbclast", (), [key, iv, data], lambda: sym.fresh_bytes("cbcmac", 16)).out


class CipherObj:
    def __init__(self, alg, mode):
        self.alg, self.mode = alg, mode

    def encryptor(self):
        return CbcEnc(self.alg.key, self.mode.initialization_vector)

    def decryptor(self):
        raise sym.Abort("CBC decryption is not modelled")


class CbcEnc:
    """Buffers everything; the ciphertext is delivered on update()."""

    def __init__(self, key, iv):
        self.key, self.iv, self.data = key, iv, b""
        self.given = 0

    def update(self, data):
        B(data)
        self.data = self.data + data
        ln = sym.simp_int(sym.lenx(self.data))
        if not isinstance(ln, int):
            if not sym.CTX.branch(ln % 16 == 0):
                raise sym.Abort("partial CBC update")
        elif ln % 16:
            raise sym.Abort("partial CBC update")
        if self.given:
            raise sym.Abort("CBC update in pieces")
        self.given = 1
        last = cbcmac(self.key, self.iv, self.data)
        if not sym.CTX.branch(sym.bexpr(mkbool(ln >= 16)) if not isinstance(ln, int) else ln >= 16):
            return b""
        rest = ln - 16
        cap = sym.rope_cap(sym.atoms_of(self.data))
        body = ideal("cbcbody", (), [self.key, self.iv, self.data],
                     lambda: sym.fresh_bytes_len("cbcbody", sym.simp_int(rest), cap)).out
        return body + last

    def finalize(self):
        if sym.CTX.branch(sym.bexpr(mkbool(sym.lenx(self.data) % 16 != 0))):
            raise ValueError("The length of the provided data is not a multiple of the block length.")
        return b""


@hook(calgs.AES)
def _AES(key):
    B(key, "key")
    if not sym.is_proxy(key):
        return calgs.AES(key)
    n = sym.simp_int(sym.lenx(key))
    n = sym.mkint(n)
    if not (n == 16 or n == 24 or n == 32):
        raise ValueError("Invalid key size (%s) for AES." % "?")
    return AesAlg(key)


class AesAlg:
    block_size = 128
    name = "AES"

    def __init__(self, key):
        self.key = key


@hook(cmodes.CBC)
def _CBC(iv):
    return CbcMode(B(iv, "initialization_vector"))


class CbcMode:
    def __init__(self, iv):
        self.initialization_vector = iv


@hook(ciphers.Cipher)
def _Cipher(algorithm, mode, backend=None):
    if isinstance(algorithm, calgs.AES):
        algorithm = AesAlg(algorithm.key)
    if not isinstance(mode, CbcMode) or not isinstance(algorithm, AesAlg):
        raise sym.Abort("cipher mode is not modelled")
    if len(mode.initialization_vector) != 16:
        raise ValueError("Invalid IV size for CBC.")
    return CipherObj(algorithm, mode)


# -- AEAD -----------------------------------------------------------------------

def keylen_ok(key, what):
    B(key, "key")
    n = sym.mkint(sym.simp_int(sym.lenx(key)))
    if not (n == 16 or n == 24 or n == 32):
        raise ValueError("%s key must be 128, 192, or 256 bits." % what)


def aead_seal(params, taglen, key, nonce, aad, pt):
    pl = sym.simp_int(sym.lenx(pt))
    cap = sym.rope_cap(sym.atoms_of(pt))

    def make():
        body = sym.fresh_bytes_len("ct", pl, cap)
        return body + sym.fresh_bytes("tag", taglen)
    recs = find("aead")
    for r in recs:
        if r.params == params:
            c = And(ieq(r.inputs, [key, nonce, aad, pt]))
            if c is True:
                return r.out
    r = Rec()
    r.params, r.inputs, r.aux = params, (key, nonce, aad, pt), taglen
    r.out = make()
    tag = r.out[-taglen:]
    for p in recs:
        c = ieq(p.inputs, r.inputs) if p.params == params else False
        ptag = p.out[-p.aux:]
        if c is not False:
            sym.CTX.add(Implies(c, beq(p.out, r.out)))
        sym.CTX.add(Or(c, prefix_differs(ptag, tag, min(p.aux, taglen))))
    recs.append(r)
    return r.out


def aead_open(params, taglen, key, nonce, aad, ct):
    for r in find("aead"):
        if r.params != params:
            continue
        c = And(beq(r.out, ct), beq(r.inputs[0], key), beq(r.inputs[1], nonce), beq(r.inputs[2], aad))
        if sym.CTX.branch(c if isinstance(c, bool) else z3.simplify(c)):
            return r.inputs[3]
    raise InvalidTag()


class Aead:
    def __init__(self, params, taglen, key, nmin, nmax, what):
        self.params, self.taglen, self.key = params, taglen, key
        self.nmin, self.nmax, self.what = nmin, nmax, what

    def _check(self, nonce, data, aad):
        B(nonce, "nonce")
        B(data, "data")
        if aad is None:
            aad = b""
        B(aad, "associated_data")
        n = sym.mkint(sym.simp_int(sym.lenx(nonce)))
        if n < self.nmin or n > self.nmax:
            raise ValueError("Nonce must be between %d and %d bytes" % (self.nmin, self.nmax))
        return aad

    def encrypt(self, nonce, data, associated_data):
        aad = self._check(nonce, data, associated_data)
        return aead_seal(self.params, self.taglen, self.key, nonce, aad, data)

    def decrypt(self, nonce, data, associated_data):
        aad = self._check(nonce, data, associated_data)
        return aead_open(self.params, self.taglen, self.key, nonce, aad, data)


@hook(aead.AESGCM)
def _AESGCM(key):
    keylen_ok(key, "AESGCM")
    return Aead(("gcm", 16), 16, key, 8, 128, "AESGCM")


@hook(aead.AESCCM)
def _AESCCM(key, tag_length=16):
    keylen_ok(key, "AESCCM")
    if not isinstance(tag_length, int):
        raise TypeError("tag_length must be an integer")
    if tag_length not in (4, 6, 8, 10, 12, 14, 16):
        raise ValueError("Invalid tag_length")
    return Aead(("ccm", tag_length), tag_length, key, 7, 13, "AESCCM")


hook_classmethod(aead.AESGCM, "generate_key", lambda bit_length: hooks._urandom(bit_length // 8))
hook_classmethod(aead.AESCCM, "generate_key", lambda bit_length: hooks._urandom(bit_length // 8))


# -- key wrap -------------------------------------------------------------------

def kw_seal(kek, data):
    ln = sym.simp_int(sym.lenx(data))
    if not isinstance(ln, int):
        ln = len(data)
    return ideal("kw", (), [kek, data], lambda: sym.fresh_bytes("wrapped", ln + 8)).out


@hook(keywrap.aes_key_wrap)
def _kw(wrapping_key, key_to_wrap, backend=None):
    B(wrapping_key), B(key_to_wrap)
    n = sym.mkint(sym.simp_int(sym.lenx(wrapping_key)))
    if not (n == 16 or n == 24 or n == 32):
        raise ValueError("The wrapping key must be a valid AES key length")
    n = sym.mkint(sym.simp_int(sym.lenx(key_to_wrap)))
    if n < 16:
        raise ValueError("The key to wrap must be at least 16 bytes")
    if n % 8 != 0:
        raise ValueError("The key to wrap must be a multiple of 8 bytes")
    return kw_seal(wrapping_key, key_to_wrap)


@hook(keywrap.aes_key_unwrap)
def _kuw(wrapping_key, wrapped_key, backend=None):
    B(wrapping_key), B(wrapped_key)
    n = sym.mkint(sym.simp_int(sym.lenx(wrapped_key)))
    if n < 24:
        raise keywrap.InvalidUnwrap("Must be at least 24 bytes")
    if n % 8 != 0:
        raise keywrap.InvalidUnwrap("The wrapped key must be a multiple of 8 bytes")
    n = sym.mkint(sym.simp_int(sym.lenx(wrapping_key)))
    if not (n == 16 or n == 24 or n == 32):
        raise ValueError("The wrapping key must be a valid AES key length")
    for r in find("kw"):
        c = And(beq(r.inputs[0], wrapping_key), beq(r.out, wrapped_key))
        if sym.CTX.branch(c if isinstance(c, bool) else z3.simplify(c)):
            return r.inputs[1]
    raise keywrap.InvalidUnwrap()


# -- HKDF -----------------------------------------------------------------------

def hkdf_value(hash_, length, salt, info, ikm):
    return ideal("hkdf", (hash_, length), [salt or b"", info, ikm], lambda: sym.fresh_bytes("hkdf", length)).out


class HkdfObj:
    def __init__(self, a):
        self.a = a

    def derive(self, key_material):
        B(key_material, "key_material")
        h, n, salt, info = self.a
        return hkdf_value(h, n, salt, info, key_material)

    def verify(self, key_material, expected_key):
        raise sym.Abort("HKDF.verify")


@hook(hkdf.HKDF)
def _HKDF(algorithm, length, salt, info, backend=None):
    if not isinstance(algorithm, hashes.HashAlgorithm):
        raise TypeError("Expected instance of hashes.HashAlgorithm.")
    if salt is not None:
        B(salt, "salt")
    if info is None:
        info = b""
    B(info, "info")
    length = int(length)
    if length > 255 * algorithm.digest_size:
        raise ValueError("Cannot derive keys larger than %d octets." % (255 * algorithm.digest_size))
    return HkdfObj((hname(algorithm), length, salt, info))


# -- signatures -----------------------------------------------------------------

def sig_make(scheme, pub, data, siglen, deterministic=True):
    return ideal("sig", (scheme, pub), [data], lambda: sym.fresh_bytes("sig", siglen), deterministic).out


def same_scheme(asked, made):
    """a verifier that takes the PSS salt length from the signature accepts every length"""
    return asked == made or (asked[0] == "pss" == made[0] and asked[3] == "auto" and asked[:3] == made[:3])


def sig_ok(scheme, pub, data, sig):
    """formula: sig is a signature made under (scheme, pub) over data"""
    out = []
    for r in find("sig"):
        if r.params[1] == pub and same_scheme(scheme, r.params[0]):
            out.append(And(beq(r.inputs[0], data), beq(r.out, sig)))
    return Or(*out) if out else False


def decide(c):
    return sym.CTX.branch(c if isinstance(c, bool) else z3.simplify(c))


_memo = {}


def memo(key, f):
    v = _memo.get(key)
    if v is None:
        v = _memo[key] = f()
    return v


def _sk_from_exp(secexp, curve=ecurves.NIST192p, hashfunc=hashlib.sha1):
    secexp = secexp if type(secexp) is int else sym.concretize(secexp, "private exponent")
    return memo(("sk", secexp, curve.name, hname(hashfunc)),
                lambda: ek.SigningKey.from_secret_exponent(secexp, curve=curve, hashfunc=hashfunc))


hook_classmethod(ek.SigningKey, "from_secret_exponent", _sk_from_exp)


@hook(ellipticcurve.Point)
def _Point(curve, x, y, order=None):
    x, y = sym.deep_conc(x), sym.deep_conc(y)
    return memo(("pt", curve.p(), curve.b(), x, y), lambda: ellipticcurve.Point(curve, x, y, order))


def _vk_from_point(point, curve=ecurves.NIST192p, hashfunc=hashlib.sha1, validate_point=True):
    return memo(("vk", point.x(), point.y(), point.curve().p(), curve.name, hname(hashfunc), validate_point),
                lambda: ek.VerifyingKey.from_public_point(point, curve, hashfunc, validate_point))


hook_classmethod(ek.VerifyingKey, "from_public_point", _vk_from_point)


def _pub(vk):
    return (vk.curve.name, int(vk.pubkey.point.x()), int(vk.pubkey.point.y()))


def _ecdsa_sign(self, data, *a, hashfunc=None, **k):
    h = hashfunc
    for x in a:
        if callable(x) and hname(x).startswith("sha"):
            h = x
    h = h or self.default_hashfunc
    enc = [k["sigencode"]] if k.get("sigencode") is not None else [x for x in a if callable(x) and ecoding(x)]
    kind = ecoding(enc[0]) if enc else "string"
    return sig_make(ecscheme(kind, h), _pub(self.verifying_key), B(data),
                    2 * self.curve.baselen + (8 if kind == "der" else 0))


def ecoding(f):
    n = getattr(f, "__name__", "")
    return n.split("_", 1)[1] if n.startswith(("sigencode_", "sigdecode_")) else None


def ecscheme(kind, h):
    if kind == "string":
        return ("ecdsa", hname(h))
    if kind == "der":
        return ("ecdsa-der", hname(h))
    raise sym.Abort("signature encoding is not modelled")


hook_method(ek.SigningKey, "sign", _ecdsa_sign)
hook_method(ek.SigningKey, "sign_deterministic", _ecdsa_sign)


def _ecdsa_verify(self, signature, data, hashfunc=None, sigdecode=None, allow_truncate=True):
    h = hashfunc or self.default_hashfunc
    B(signature), B(data)
    s = ecscheme("string" if sigdecode is None else ecoding(sigdecode), h)
    if decide(sig_ok(s, _pub(self), data, signature)):
        return True
    raise ek.BadSignatureError("Signature verification failed")


hook_method(ek.VerifyingKey, "verify", _ecdsa_verify)


def _prehash_sign(self, digest, *a, **k):
    raise sym.Abort("digest signing is not modelled")


for _m in ("sign_digest", "sign_digest_deterministic", "sign_number"):
    hook_method(ek.SigningKey, _m, _prehash_sign)
for _m in ("verify_digest",):
    hook_method(ek.VerifyingKey, _m, _prehash_sign)


def _raw(pk):
    from cryptography.hazmat.primitives.serialization import Encoding, PublicFormat
    return pk.public_bytes(Encoding.Raw, PublicFormat.Raw)


def _ed_sign(name, n):
    def f(self, data):
        return sig_make((name,), _raw(self.public_key()), B(data), n)
    return f


def _ed_verify(name):
    def f(self, signature, data):
        B(signature), B(data)
        if not decide(sig_ok((name,), _raw(self), data, signature)):
            raise InvalidSignature()
    return f


def edkey(cls, n):
    """from_private_bytes / from_public_bytes on symbolic bytes: only the length matters"""
    def f(data):
        B(data)
        return cls(sym.concretize(data, "edwards key bytes"))
    return f


for _cls, _pcls, _nm, _n in ((ed25519.Ed25519PrivateKey, ed25519.Ed25519PublicKey, "ed25519", 64),
                             (ed448.Ed448PrivateKey, ed448.Ed448PublicKey, "ed448", 114)):
    hook_method(_cls, "sign", _ed_sign(_nm, _n))
    hook_method(_pcls, "verify", _ed_verify(_nm))


def pad_id(pad, alg):
    h = hname(alg)
    if isinstance(pad, padding.PKCS1v15):
        return ("pkcs1", h)
    if isinstance(pad, padding.PSS):
        return ("pss", h, hname(pad._mgf._algorithm), salt_len(pad._salt_length, alg))
    if isinstance(pad, padding.OAEP):
        return ("oaep", hname(pad._algorithm), hname(pad._mgf._algorithm), pad._label)
    raise sym.Abort("padding")


def salt_len(n, alg):
    if isinstance(n, int):
        return n
    if n is padding.PSS.DIGEST_LENGTH:
        return alg.digest_size
    if n is padding.PSS.AUTO:
        return "auto"
    return "max"


def _rsapub(pk):
    n = pk.public_numbers()
    return (n.n, n.e)


def _rsa_sign(self, data, padding, algorithm):
    pk = memo(("rsapub", id(self)), lambda: (_rsapub(self.public_key()), self))[0]
    pid = pad_id(padding, algorithm)
    if pid[-1] == "auto":
        raise ValueError("PSS salt length can only be set to AUTO when verifying")
    n = (pk[0].bit_length() + 7) // 8
    if pid[-1] == "max":
        pid = pid[:3] + (n - algorithm.digest_size - 2,)
    return sig_make(pid, pk, B(data), n, deterministic=pid[0] == "pkcs1")


def _rsa_verify(self, signature, data, padding, algorithm):
    B(signature), B(data)
    pid, pk = pad_id(padding, algorithm), _rsapub(self)
    if pid[-1] == "max":
        pid = pid[:3] + ((pk[0].bit_length() + 7) // 8 - algorithm.digest_size - 2,)
    if not decide(sig_ok(pid, pk, data, signature)):
        raise InvalidSignature()


hook_method(rsa.RSAPrivateKey, "sign", _rsa_sign)
hook_method(rsa.RSAPublicKey, "verify", _rsa_verify)


def _rsa_encrypt(self, plaintext, padding):
    pk = _rsapub(self)
    pid = pad_id(padding, hashes.SHA256)
    n = (pk[0].bit_length() + 7) // 8
    B(plaintext)
    ln = sym.mkint(sym.simp_int(sym.lenx(plaintext)))
    hl = hashes.Hash(padding._algorithm)._ctx and padding._algorithm.digest_size if False else padding._algorithm.digest_size
    if ln > n - 2 * hl - 2:
        raise ValueError("Encryption failed")
    r = ideal("oaep", (pid, pk), [plaintext], lambda: sym.fresh_bytes("oaep", n), deterministic=False)
    return r.out


def _rsa_decrypt(self, ciphertext, padding):
    pk = memo(("rsapub", id(self)), lambda: (_rsapub(self.public_key()), self))[0]
    pid = pad_id(padding, hashes.SHA256)
    B(ciphertext)
    for r in find("oaep"):
        if r.params == (pid, pk) and decide(beq(r.out, ciphertext)):
            return r.inputs[0]
    raise ValueError("Decryption failed")


hook_method(rsa.RSAPublicKey, "encrypt", _rsa_encrypt)
hook_method(rsa.RSAPrivateKey, "decrypt", _rsa_decrypt)


def _rsa_priv(self, backend=None, **k):
    key = ("rsapriv", self.p, self.q, self.d, self.dmp1, self.dmq1, self.iqmp,
           self.public_numbers.n, self.public_numbers.e)
    return memo(key, lambda: self.private_key())


hook_method(rsa.RSAPrivateNumbers, "private_key", _rsa_priv)


# -- elliptic-curve keys: concrete numbers, deterministic "random" keys -------------

def _derive(private_value, curve, backend=None):
    v = private_value if type(private_value) is int else sym.concretize(private_value, "private value")
    return memo(("ec", v, curve.name), lambda: ec.derive_private_key(v, curve))


hook(ec.derive_private_key, _derive)


def counter(name):
    c = sym.CTX.counters
    c[name] = c.get(name, 0) + 1
    return c[name]


def _gen_ec(curve, backend=None):
    i = counter("ecgen")
    v = int.from_bytes(hashlib.sha512(b"ec%d" % i).digest(), "big") % (2 ** 250) + 2
    return memo(("ec", v, curve.name), lambda: ec.derive_private_key(v, curve))


hook(ec.generate_private_key, _gen_ec)


def _gen_raw(cls, n):
    def f():
        return cls.from_private_bytes(hashlib.shake_256(b"k%d" % counter("rawgen")).digest(n))
    return f


for _c, _n in ((ed25519.Ed25519PrivateKey, 32), (ed448.Ed448PrivateKey, 57), (x25519.X25519PrivateKey, 32),
               (x448.X448PrivateKey, 56)):
    hook_classmethod(_c, "generate", _gen_raw(_c, _n))


def _gen_rsa(public_exponent, key_size, backend=None):
    return memo(("rsagen", key_size, counter("rsagen") % 2), lambda: rsa.generate_private_key(public_exponent, key_size))


hook(rsa.generate_private_key, _gen_rsa)
