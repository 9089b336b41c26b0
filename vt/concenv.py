"""Concrete side of the harness API: fixed values, real code, real cryptography,
and oracles written independently of the code under test (RFC 8949 encoder, CBC-MAC
and key wrap from single AES blocks, HKDF from HMAC, signatures through a second
library)."""
import hashlib
import hmac as _hmac
import struct
from .registry import Result, Ns
from . import keymat


class Skip(Exception):
    """An assumption does not hold for these values."""


class CTag:
    def __init__(self, tag, value):
        self.tag, self.value = tag, value


class Raw:
    def __init__(self, b):
        self.b = b


def head(mj, n):
    if n < 24:
        return bytes([mj << 5 | n])
    for k, (ai, f) in enumerate(((24, ">B"), (25, ">H"), (26, ">I"), (27, ">Q"))):
        if n < 1 << (8 << k):
            return bytes([mj << 5 | ai]) + struct.pack(f, n)
    raise OverflowError


def cbor(o):
    """RFC 8949 shortest definite-length encoding, maps in insertion order."""
    if isinstance(o, Raw):
        return o.b
    if o is None:
        return b"\xf6"
    if o is True or o is False:
        return b"\xf5" if o else b"\xf4"
    if type(o).__name__ == "undefined_type":
        return b"\xf7"
    if isinstance(o, int) and not -(1 << 64) <= o < 1 << 64:
        n = o if o >= 0 else -1 - o
        return bytes([0xc2 if o >= 0 else 0xc3]) + cbor(n.to_bytes((n.bit_length() + 7) // 8, "big"))
    if isinstance(o, int):
        return head(0, o) if o >= 0 else head(1, -1 - o)
    if isinstance(o, (bytes, bytearray)):
        return head(2, len(o)) + bytes(o)
    if isinstance(o, str):
        u = o.encode()
        return head(3, len(u)) + u
    if isinstance(o, (list, tuple)):
        return head(4, len(o)) + b"".join(cbor(x) for x in o)
    if isinstance(o, dict):
        return head(5, len(o)) + b"".join(cbor(k) + cbor(v) for k, v in o.items())
    if type(o).__name__ in ("CTag", "CBORTag"):
        return head(6, o.tag) + cbor(o.value)
    if isinstance(o, float):
        # the form cbor2 chooses: infinities and NaN in two bytes, everything else in eight
        if o != o or o in (float("inf"), float("-inf")):
            return b"\xf9" + (b"\x7e\0" if o != o else b"\x7c\0" if o > 0 else b"\xfc\0")
        return b"\xfb" + struct.pack(">d", o)
    raise TypeError("oracle: cannot encode %r" % type(o))


def noncanon(o):
    """a valid but longer encoding of the outermost item"""
    if isinstance(o, dict):
        return bytes([5 << 5 | 24, len(o)]) + b"".join(cbor(k) + cbor(v) for k, v in o.items())
    if isinstance(o, (list, tuple)):
        return bytes([4 << 5 | 24, len(o)]) + b"".join(cbor(k) for k in o)
    raise TypeError


def aes_block(key, block):
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
    e = Cipher(algorithms.AES(key), modes.ECB()).encryptor()
    return e.update(block) + e.finalize()


def aes_block_dec(key, block):
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
    e = Cipher(algorithms.AES(key), modes.ECB()).decryptor()
    return e.update(block) + e.finalize()


def xor(a, b):
    return bytes(x ^ y for x, y in zip(a, b))


class ConcE:
    symbolic = False

    def __init__(self, values, tier):
        self.values = values
        self.tier = tier
        self.notes = []
        self.violations = []
        self.checks = 0
        self.missing = []

    def same_text(self, a, b):
        return a == b

    # -- inputs
    def _get(self, name, default):
        if name in self.values:
            v = self.values[name]
            return bytes.fromhex(v["h"]) if isinstance(v, dict) else v
        self.missing.append(name)
        return default

    def bytes(self, name, lo, hi=None):
        if lo == 0 and hi in (None, 0):
            return b""
        return self._get(name, bytes(lo))

    def str(self, name, lo, hi=None):
        if lo == 0 and hi in (None, 0):
            return ""
        return self._get(name, b"a" * lo).decode("latin-1")

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo if lo is not None else (hi if hi is not None and hi < 0 else 0))

    def bool(self, name):
        return bool(self._get(name, 0))

    def choice(self, name, options):
        return options[self._get(name, 0)]

    def bound(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def tamper(self, name, base, ext=4):
        n = self._get(name + ".n", len(base))
        d = self._get(name + ".x", bytes(len(base)))
        d = d[:len(base)] + bytes(max(0, len(base) - len(d)))
        return xor(base, d)[:n] + self._get(name + ".e", b"")

    def random(self, name, n):
        import os
        return os.urandom(n)

    def wire(self, name, obj, maxlen=40):
        return noncanon(obj)

    def flip(self, name, base):
        d = self._get(name + ".x", b"\1" + bytes(max(0, len(base) - 1)))
        d = d[:len(base)] + bytes(max(0, len(base) - len(d)))
        return xor(base, d)

    # -- control
    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, label):
        self.checks += 1
        if not c:
            self.violations.append(label)

    def note(self, label, v):
        if isinstance(v, (bool, int, str)) or v is None:
            self.notes.append([label, v])

    def run(self, fn, *a, **k):
        try:
            v = fn(*a, **k)
        except Exception as e:
            self.notes.append(["run", type(e).__name__])
            return Result(False, None, e)
        self.notes.append(["run", v if isinstance(v, bool) else "ok"])
        return Result(True, v)

    # -- logic without forking
    def all(self, *cs):
        return all(cs)

    def any(self, *cs):
        return any(cs)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def eq(self, a, b):
        return deq(a, b)

    def xor(self, a, b):
        return xor(a, b)

    def b2i(self, b):
        return int.from_bytes(b, "big")

    # -- oracles
    def cbor(self, o):
        return cbor(o)

    def tag(self, n, o):
        return CTag(n, o)

    def raw(self, b):
        return Raw(b)

    def decode(self, b):
        import cbor2
        return cbor2.loads(b)

    def hash(self, name, data, size=None):
        if name.startswith("shake"):
            return hashlib.new(name, data).digest(size)
        return hashlib.new(name, data).digest()

    def hmac(self, name, key, data):
        return _hmac.new(key, data, name).digest()

    def cbcmac(self, key, data):
        """CBC-MAC with zero IV over data zero-padded to whole blocks"""
        data = data + bytes(-len(data) % 16)
        c = bytes(16)
        for i in range(0, len(data), 16):
            c = aes_block(key, xor(c, data[i:i + 16]))
        return c

    def seal(self, kind, taglen, key, nonce, aad, pt):
        """an AEAD ciphertext made outside the code under test"""
        from cryptography.hazmat.primitives.ciphers.aead import AESGCM, AESCCM
        c = AESGCM(key) if kind == "gcm" else AESCCM(key, tag_length=taglen)
        return c.encrypt(nonce, pt, aad)

    def is_seal(self, kind, taglen, key, nonce, aad, pt, ct):
        try:
            return self.seal(kind, taglen, key, nonce, aad, pt) == ct
        except Exception:
            return False

    def keywrap(self, kek, data):
        """RFC 3394 by hand"""
        n = len(data) // 8
        a, r = b"\xa6" * 8, [data[8 * i:8 * i + 8] for i in range(n)]
        for j in range(6):
            for i in range(n):
                b = aes_block(kek, a + r[i])
                a = xor(b[:8], struct.pack(">Q", n * j + i + 1))
                r[i] = b[8:]
        return a + b"".join(r)

    def hkdf(self, name, length, salt, info, ikm):
        hl = hashlib.new(name).digest_size
        prk = _hmac.new(salt or bytes(hl), ikm, name).digest()
        t, out, i = b"", b"", 1
        while len(out) < length:
            t = _hmac.new(prk, t + info + bytes([i]), name).digest()
            out += t
            i += 1
        return out[:length]

    def ecdh(self, crv, d, x, y):
        from cryptography.hazmat.primitives.asymmetric import ec
        c = {"P256": ec.SECP256R1, "P384": ec.SECP384R1, "P521": ec.SECP521R1, "SECP256K1": ec.SECP256K1}[crv]()
        k = ec.derive_private_key(int.from_bytes(d, "big"), c)
        p = ec.EllipticCurvePublicNumbers(int.from_bytes(x, "big"), int.from_bytes(y, "big"), c).public_key()
        return k.exchange(ec.ECDH(), p)

    def sig_valid(self, scheme, pub, data, sig):
        """scheme: ('ecdsa', hash) | ('ed25519',) | ('ed448',) | ('pss', hash) | ('pkcs1', hash)"""
        from cryptography.hazmat.primitives.asymmetric import ec, ed25519, ed448, rsa, padding, utils
        from cryptography.hazmat.primitives import hashes
        from cryptography.exceptions import InvalidSignature
        try:
            if scheme[0] in ("ed25519", "ed448"):
                c = ed25519.Ed25519PublicKey if scheme[0] == "ed25519" else ed448.Ed448PublicKey
                c.from_public_bytes(pub[0]).verify(sig, data)
                return True
            h = getattr(hashes, scheme[1].upper())()
            if scheme[0] == "ecdsa":
                crv, x, y = pub
                c = {"P256": ec.SECP256R1, "P384": ec.SECP384R1, "P521": ec.SECP521R1, "SECP256K1": ec.SECP256K1}[crv]()
                if len(sig) != 2 * len(x):
                    return False
                n = len(sig) // 2
                der = utils.encode_dss_signature(int.from_bytes(sig[:n], "big"), int.from_bytes(sig[n:], "big"))
                ec.EllipticCurvePublicNumbers(int.from_bytes(x, "big"), int.from_bytes(y, "big"), c).public_key() \
                    .verify(der, data, ec.ECDSA(h))
                return True
            n, e = pub
            pk = rsa.RSAPublicNumbers(int.from_bytes(e, "big"), int.from_bytes(n, "big")).public_key()
            salt = scheme[2] if len(scheme) > 2 else h.digest_size
            pad = padding.PKCS1v15() if scheme[0] == "pkcs1" else padding.PSS(padding.MGF1(h), salt)
            pk.verify(sig, data, pad, h)
            return True
        except (InvalidSignature, ValueError):
            return False

    def sign_where(self, scheme, priv, data, cond, tries=6000):
        """a signature with cond, by a scheme that is not deterministic"""
        for _ in range(tries):
            s = self.sign_ref(scheme, priv, data)
            if cond(s):
                return s
        raise Skip()

    def sign_ref(self, scheme, priv, data):
        """a signature made outside the code under test"""
        from cryptography.hazmat.primitives.asymmetric import ec, ed25519, ed448, rsa, padding, utils
        from cryptography.hazmat.primitives import hashes
        if scheme[0] in ("ed25519", "ed448"):
            c = ed25519.Ed25519PrivateKey if scheme[0] == "ed25519" else ed448.Ed448PrivateKey
            return c.from_private_bytes(priv[0]).sign(data)
        h = getattr(hashes, scheme[1].upper())()
        if scheme[0] in ("ecdsa", "ecdsa-der"):
            crv, d = priv
            c = {"P256": ec.SECP256R1, "P384": ec.SECP384R1, "P521": ec.SECP521R1, "SECP256K1": ec.SECP256K1}[crv]()
            der = ec.derive_private_key(int.from_bytes(d, "big"), c).sign(data, ec.ECDSA(h))
            if scheme[0] == "ecdsa-der":
                return der
            r, s = utils.decode_dss_signature(der)
            return r.to_bytes(len(d), "big") + s.to_bytes(len(d), "big")
        i = {k: int.from_bytes(v, "big") for k, v in priv.items()}
        k = rsa.RSAPrivateNumbers(i["p"], i["q"], i["d"], i["dp"], i["dq"], i["qinv"],
                                  rsa.RSAPublicNumbers(i["e"], i["n"])).private_key(unsafe_skip_rsa_key_validation=True)
        salt = scheme[2] if len(scheme) > 2 else h.digest_size
        pad = padding.PKCS1v15() if scheme[0] == "pkcs1" else padding.PSS(padding.MGF1(h), salt)
        return k.sign(data, pad, h)

    def oaep_open(self, hash_, priv, ct):
        from cryptography.hazmat.primitives.asymmetric import rsa, padding
        from cryptography.hazmat.primitives import hashes
        h = getattr(hashes, hash_.upper())
        i = {k: int.from_bytes(v, "big") for k, v in priv.items()}
        k = rsa.RSAPrivateNumbers(i["p"], i["q"], i["d"], i["dp"], i["dq"], i["qinv"],
                                  rsa.RSAPublicNumbers(i["e"], i["n"])).private_key()
        try:
            return k.decrypt(ct, padding.OAEP(padding.MGF1(h()), h(), None))
        except ValueError:
            return None

    def mat(self, kind, crv=None, i=0):
        return keymat.RSA[i] if kind == "RSA" else getattr(keymat, kind)[crv][i]


def deq(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return len(a) == len(b) and all(k in b and deq(v, b[k]) for k, v in a.items())
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(deq(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None:
        return type(a) is type(b) and a == b
    if type(a).__name__ in ("CTag", "CBORTag") and type(b).__name__ in ("CTag", "CBORTag"):
        return a.tag == b.tag and deq(a.value, b.value)
    return type(a) is type(b) and a == b


def run_case(case, params, values, tier):
    """One concrete execution; returns a JSON-able outcome."""
    import traceback
    E = ConcE(values, tier)
    out = {"error": None, "skipped": False}
    try:
        case.fn(E, Ns(), **params)
    except Skip:
        out["skipped"] = True
    except Exception as e:
        out["error"] = type(e).__name__
        out["trace"] = traceback.format_exc()[-2000:]
    out.update(notes=E.notes, violations=E.violations, checks=E.checks, missing=E.missing)
    return out
