"""Shared pieces of the cases: algorithm tables (from the RFCs / IANA registry) and keys."""

# algorithm -> (signature scheme, key kind, curve)
SIG = {
    "Es256": (("ecdsa", "sha256"), "EC2", "P256"),
    "Es384": (("ecdsa", "sha384"), "EC2", "P384"),
    "Es512": (("ecdsa", "sha512"), "EC2", "P521"),
    "Es256K": (("ecdsa", "sha256"), "EC2", "SECP256K1"),
    "EdDSA": (("ed25519",), "OKP", "Ed25519"),
    "Ps256": (("pss", "sha256"), "RSA", None),
    "Ps384": (("pss", "sha384"), "RSA", None),
    "Ps512": (("pss", "sha512"), "RSA", None),
    "RsaPkcs1Sha1": (("pkcs1", "sha1"), "RSA", None),
    "RsaPkcs1Sha256": (("pkcs1", "sha256"), "RSA", None),
    "RsaPkcs1Sha384": (("pkcs1", "sha384"), "RSA", None),
    "RsaPkcs1Sha512": (("pkcs1", "sha512"), "RSA", None),
}
ED448 = (("ed448",), "OKP", "Ed448")

# algorithm -> (hash, tag bytes)
HMACS = {"HMAC25664": ("sha256", 8), "HMAC256": ("sha256", 32), "HMAC384": ("sha384", 48), "HMAC512": ("sha512", 64)}
# algorithm -> (key bytes, tag bytes)
AESMACS = {"AESMAC12864": (16, 8), "AESMAC25664": (32, 8), "AESMAC128128": (16, 16), "AESMAC256128": (32, 16)}
# algorithm -> (kind, key bytes, tag bytes, nonce bytes)
AEADS = {
    "A128GCM": ("gcm", 16, 16, 12), "A192GCM": ("gcm", 24, 16, 12), "A256GCM": ("gcm", 32, 16, 12),
    "AESCCM1664128": ("ccm", 16, 8, 13), "AESCCM1664256": ("ccm", 32, 8, 13),
    "AESCCM6464128": ("ccm", 16, 8, 7), "AESCCM6464256": ("ccm", 32, 8, 7),
    "AESCCM16128128": ("ccm", 16, 16, 13), "AESCCM16128256": ("ccm", 32, 16, 13),
    "AESCCM64128128": ("ccm", 16, 16, 7), "AESCCM64128256": ("ccm", 32, 16, 7),
}
KWS = {"A128KW": 16, "A192KW": 24, "A256KW": 32}
OAEPS = {"RsaesOaepSha1": "sha1", "RsaesOaepSha256": "sha256", "RsaesOaepSha512": "sha512"}
# algorithm -> (hash, static?, key-wrap algorithm or None)
ECDHS = {
    "EcdhEsHKDF256": ("sha256", False, None), "EcdhEsHKDF512": ("sha512", False, None),
    "EcdhSsHKDF256": ("sha256", True, None), "EcdhSsHKDF512": ("sha512", True, None),
    "EcdhEsA128KW": ("sha256", False, "A128KW"), "EcdhEsA192KW": ("sha256", False, "A192KW"),
    "EcdhEsA256KW": ("sha256", False, "A256KW"), "EcdhSsA128KW": ("sha256", True, "A128KW"),
    "EcdhSsA192KW": ("sha256", True, "A192KW"), "EcdhSsA256KW": ("sha256", True, "A256KW"),
}
# IANA COSE algorithm identifiers
ALG_ID = {
    "RsaPkcs1Sha1": -65535, "A128CTR": -65534, "A192CTR": -65533, "A256CTR": -65532, "A128CBC": -65531,
    "RsaPkcs1Sha512": -259, "RsaPkcs1Sha384": -258, "RsaPkcs1Sha256": -257, "Es256K": -47, "Shake256": -45,
    "Sha512": -44, "Sha384": -43, "RsaesOaepSha512": -42, "RsaesOaepSha256": -41, "RsaesOaepSha1": -40,
    "Ps512": -39, "Ps384": -38, "Ps256": -37, "Es512": -36, "Es384": -35, "EcdhSsA256KW": -34,
    "EcdhSsA192KW": -33, "EcdhSsA128KW": -32, "EcdhEsA256KW": -31, "EcdhEsA192KW": -30, "EcdhEsA128KW": -29,
    "EcdhSsHKDF512": -28, "EcdhSsHKDF256": -27, "EcdhEsHKDF512": -26, "EcdhEsHKDF256": -25, "Shake128": -18,
    "Sha512Trunc256": -17, "Sha256": -16, "Sha256Trunc64": -15, "Sha1": -14, "DirectHKDFAES256": -13,
    "DirectHKDFAES128": -12, "DirectHKDFSHA512": -11, "DirectHKDFSHA256": -10, "EdDSA": -8, "Es256": -7,
    "Direct": -6, "A256KW": -5, "A192KW": -4, "A128KW": -3, "A128GCM": 1, "A192GCM": 2, "A256GCM": 3,
    "HMAC25664": 4, "HMAC256": 5, "HMAC384": 6, "HMAC512": 7, "AESCCM1664128": 10, "AESCCM1664256": 11,
    "AESCCM6464128": 12, "AESCCM6464256": 13, "AESMAC12864": 14, "AESMAC25664": 15, "AESMAC128128": 25,
    "AESMAC256128": 26, "AESCCM16128128": 30, "AESCCM16128256": 31, "AESCCM64128128": 32, "AESCCM64128256": 33,
}


def alg(P, name):
    return getattr(P.alg, name)


def sig_key(E, P, name, i=0, public=False, params=None, ed448=False):
    """(COSE key, scheme, public material, private material) for a signature algorithm"""
    scheme, kind, crv = ED448 if ed448 else SIG[name]
    if kind == "EC2":
        d, x, y = E.mat("EC2", crv, i)
        key = P.EC2Key(crv=getattr(P.crv, crv), x=x, y=y, d=b"" if public else d, optional_params=params)
        return key, scheme, (crv, x, y), (crv, d)
    if kind == "OKP":
        d, x = E.mat("OKP", crv, i)
        key = P.OKPKey(crv=getattr(P.crv, crv), x=x, d=b"" if public else d, optional_params=params)
        return key, scheme, (x,), (d,)
    m = E.mat("RSA", None, i)
    if public:
        key = P.RSAKey(n=m["n"], e=m["e"], optional_params=params)
    else:
        key = P.RSAKey(n=m["n"], e=m["e"], d=m["d"], p=m["p"], q=m["q"], dp=m["dp"], dq=m["dq"], qinv=m["qinv"],
                       optional_params=params)
    return key, scheme, (m["n"], m["e"]), m


def ec_key(E, P, crv, i=0, public=False, params=None):
    d, x, y = E.mat("EC2", crv, i)
    return P.EC2Key(crv=getattr(P.crv, crv), x=x, y=y, d=b"" if public else d, optional_params=params)


def sym_key(P, k, alg=None, ops=None, base_iv=None):
    params = {}
    if alg is not None:
        params[P.kp.KpAlg] = alg
    if ops is not None:
        params[P.kp.KpKeyOps] = ops
    if base_iv is not None:
        params[P.kp.KpBaseIV] = base_iv
    return P.SymmetricKey(k=k, optional_params=params)


def headers(E, P, name, lo=0, hi=6, labels=None):
    """A header bucket in one of several shapes with symbolic contents; (library dict, wire dict)."""
    shape = E.choice(name + ".shape", labels or ["empty", "kid", "kid+ct", "unknown", "text"])
    H = P.headers
    if shape == "empty":
        return {}, {}
    if shape == "kid":
        v = E.bytes(name + ".kid", lo, hi)
        return {H.KID: v}, {4: v}
    if shape == "kid+ct":
        v = E.bytes(name + ".kid", lo, hi)
        c = E.int(name + ".ct", 0, 70000)
        return {H.KID: v, H.ContentType: c}, {4: v, 3: c}
    if shape == "unknown":
        n = E.int(name + ".label", 100, 400)
        v = E.bytes(name + ".val", lo, hi)
        return {n: v}, {n: v}
    t = E.str(name + ".text", 1, 3)
    v = E.int(name + ".num", -300, 300)
    E.assume(E.not_(E.any(*[E.eq(t.upper(), s) for s in ("ALG", "KID", "IV")])))
    return {t: v}, {t: v}


def merge(a, b):
    out = dict(a)
    out.update(b)
    return out


def _pem(k, private):
    from cryptography.hazmat.primitives.serialization import (Encoding, PrivateFormat, PublicFormat, NoEncryption)
    if private:
        return k.private_bytes(Encoding.PEM, PrivateFormat.PKCS8, NoEncryption()).decode()
    return k.public_key().public_bytes(Encoding.PEM, PublicFormat.SubjectPublicKeyInfo).decode()


def pem_ec(crv, d, private):
    from cryptography.hazmat.primitives.asymmetric import ec
    c = {"P256": ec.SECP256R1, "P384": ec.SECP384R1, "P521": ec.SECP521R1, "SECP256K1": ec.SECP256K1}[crv]()
    return _pem(ec.derive_private_key(int.from_bytes(d, "big"), c), private)


def pem_okp(crv, d, private):
    from cryptography.hazmat.primitives.asymmetric import ed25519, ed448, x25519, x448
    c = {"Ed25519": ed25519.Ed25519PrivateKey, "Ed448": ed448.Ed448PrivateKey, "X25519": x25519.X25519PrivateKey,
         "X448": x448.X448PrivateKey}[crv]
    return _pem(c.from_private_bytes(d), private)


def pem_rsa(m, private):
    from cryptography.hazmat.primitives.asymmetric import rsa

    def i(f):
        return int.from_bytes(m[f], "big")
    pub = rsa.RSAPublicNumbers(e=i("e"), n=i("n"))
    return _pem(rsa.RSAPrivateNumbers(p=i("p"), q=i("q"), d=i("d"), dmp1=i("dp"), dmq1=i("dq"), iqmp=i("qinv"),
                                      public_numbers=pub).private_key(), private)


def big(E, name, n):
    """a byte string of n bytes of which the first and the last are symbolic"""
    return E.bytes(name + "_first", 1) + bytes(i * 7 & 0xff for i in range(n - 2)) + E.bytes(name + "_last", 1)
