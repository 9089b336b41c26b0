"""Header parameters: lookup, names and numbers, values, strictness; type gates; local attributes."""
from vt.registry import case
from . import lib

HEADERS = {"Reserved": (0, "RESERVED"), "Algorithm": (1, "ALG"), "Critical": (2, "CRITICAL"),
           "ContentType": (3, "CONTENT_TYPE"), "KID": (4, "KID"), "IV": (5, "IV"), "PartialIV": (6, "PARTIAL_IV"),
           "CounterSignature": (7, "COUNTER_SIGN"), "CounterSignature0": (9, "COUNTER_SIGN0"),
           "KIDContext": (10, "KID_CONTEXT"), "X5bag": (32, "X5_BAG"), "X5chain": (33, "X5_CHAIN"),
           "X5t": (34, "X5_T"), "X5u": (35, "X5_U"), "EphemeralKey": (-1, "EPHEMERAL_KEY"),
           "StaticKey": (-2, "STATIC_KEY"), "StaticKeyID": (-3, "STATIC_KEY_ID"), "Salt": (-20, "SALT"),
           "PartyUID": (-21, "PARTY_U_ID"), "PartyUNonce": (-22, "PARTY_U_NONCE"),
           "PartyUOther": (-23, "PARTY_U_OTHER"), "PartyVID": (-24, "PARTY_V_ID"),
           "PartyVNonce": (-25, "PARTY_V_NONCE"), "PartyVOther": (-26, "PARTY_V_OTHER")}
ALG_NAME = {
    "RsaPkcs1Sha1": "RS1", "RsaPkcs1Sha512": "RS512", "RsaPkcs1Sha384": "RS384", "RsaPkcs1Sha256": "RS256",
    "Shake256": "SHAKE-256", "Sha512": "SHA-512", "Sha384": "SHA-384", "RsaesOaepSha512": "RSAES_OAEP_SHA_512",
    "RsaesOaepSha256": "RSAES_OAEP_SHA_256", "RsaesOaepSha1": "RSAES_OAEP_SHA_1", "Ps512": "PS512", "Ps384": "PS384",
    "Ps256": "PS256", "Es512": "ES512", "Es384": "ES384", "EcdhSsA256KW": "ECDH_SS_A256KW",
    "EcdhSsA192KW": "ECDH_SS_A192KW", "EcdhSsA128KW": "ECDH_SS_A128KW", "EcdhEsA256KW": "ECDH_ES_A256KW",
    "EcdhEsA192KW": "ECDH_ES_A192KW", "EcdhEsA128KW": "ECDH_ES_A128KW", "EcdhSsHKDF512": "ECDH_SS_HKDF_512",
    "EcdhSsHKDF256": "ECDH_SS_HKDF_256", "EcdhEsHKDF512": "ECDH_ES_HKDF_512", "EcdhEsHKDF256": "ECDH_ES_HKDF_256",
    "Shake128": "SHAKE-128", "Sha512Trunc256": "SHA-512/256", "Sha256": "SHA-256", "Sha256Trunc64": "SHA-256/64",
    "Sha1": "SHA-1", "DirectHKDFAES256": "DIRECT_HKDF_AES_256", "DirectHKDFAES128": "DIRECT_HKDF_AES_128",
    "DirectHKDFSHA256": "DIRECT_HKDF_SHA_256", "EdDSA": "EDDSA", "Es256": "ES256", "Direct": "DIRECT",
    "A256KW": "A256KW", "A192KW": "A192KW", "A128KW": "A128KW", "A128GCM": "A128GCM", "A192GCM": "A192GCM",
    "A256GCM": "A256GCM", "HMAC25664": "HMAC_256_64", "HMAC256": "HMAC_256", "HMAC384": "HMAC_384",
    "HMAC512": "HMAC_512", "AESCCM1664128": "AES_CCM_16_64_128", "AESCCM1664256": "AES_CCM_16_64_256",
    "AESCCM6464128": "AES_CCM_64_64_128", "AESCCM6464256": "AES_CCM_64_64_256", "AESMAC12864": "AES_MAC_128_64",
    "AESMAC25664": "AES_MAC_256_64", "AESMAC128128": "AES_MAC_128_128", "AESMAC256128": "AES_MAC_256_128",
    "AESCCM16128128": "AES_CCM_16_128_128", "AESCCM16128256": "AES_CCM_16_128_256",
    "AESCCM64128128": "AES_CCM_64_128_128", "AESCCM64128256": "AES_CCM_64_128_256",
}
ALGS = {k: (lib.ALG_ID[k], v) for k, v in ALG_NAME.items()}
CURVES = {"P256": (1, "P_256", 32, "KtyEC2"), "P384": (2, "P_384", 48, "KtyEC2"), "P521": (3, "P_521", 66, "KtyEC2"),
          "X25519": (4, "X25519", 32, "KtyOKP"), "X448": (5, "X448", 56, "KtyOKP"),
          "Ed25519": (6, "ED25519", 32, "KtyOKP"), "Ed448": (7, "ED448", 57, "KtyOKP"),
          "SECP256K1": (8, "SECP256K1", 32, "KtyEC2")}
KTYS = {"KtyOKP": (1, "OKP"), "KtyEC2": (2, "EC2"), "KtyRSA": (3, "RSA"), "KtySymmetric": (4, "SYMMETRIC")}
OPS = {"SignOp": (1, "SIGN"), "VerifyOp": (2, "VERIFY"), "EncryptOp": (3, "ENCRYPT"), "DecryptOp": (4, "DECRYPT"),
       "WrapOp": (5, "WRAP"), "UnwrapOp": (6, "UNWRAP"), "DeriveKeyOp": (7, "DERIVE_KEY"),
       "DeriveBitsOp": (8, "DERIVE_BITS"), "MacCreateOp": (9, "MAC_CREATE"), "MacVerifyOp": (10, "MAC_VERIFY")}
COMMON = {"KpKty": (1, "KTY"), "KpKid": (2, "KID"), "KpAlg": (3, "ALG"), "KpKeyOps": (4, "KEY_OPS"),
          "KpBaseIV": (5, "BASE_IV")}
PARAMS = {
    "EC2KeyParam": {"EC2KpCurve": (-1, "CURVE"), "EC2KpX": (-2, "X"), "EC2KpY": (-3, "Y"), "EC2KpD": (-4, "D")},
    "OKPKeyParam": {"OKPKpCurve": (-1, "CURVE"), "OKPKpX": (-2, "X"), "OKPKpD": (-4, "D")},
    "RSAKeyParam": {"RSAKpN": (-1, "N"), "RSAKpE": (-2, "E"), "RSAKpD": (-3, "D"), "RSAKpP": (-4, "P"),
                    "RSAKpQ": (-5, "Q"), "RSAKpDP": (-6, "DP"), "RSAKpDQ": (-7, "DQ"), "RSAKpQInv": (-8, "QINV"),
                    "RSAKpOther": (-9, "OTHER"), "RSAKpRi": (-10, "R_I"), "RSAKpDi": (-11, "D_I"),
                    "RSAKpTi": (-12, "T_I")},
    "SymmetricKeyParam": {"SymKpK": (-1, "K")},
    "KeyParam": {},
}


def registry(P, which):
    """(base class, {class name: (number, name)}, module)"""
    if which == "headers":
        return P.headers.CoseHeaderAttribute, HEADERS, P.headers
    if which == "algorithms":
        return P.alg.CoseAlgorithm, ALGS, P.alg
    if which == "curves":
        return P.crv.CoseCurve, {k: v[:2] for k, v in CURVES.items()}, P.crv
    if which == "key types":
        return P.kty.KTY, KTYS, P.kty
    if which == "key operations":
        return P.ops.KeyOps, OPS, P.ops
    return getattr(P.kp, which), dict(COMMON, **PARAMS[which]), P.kp


REGS = ["headers", "algorithms", "curves", "key types", "key operations"] + sorted(PARAMS)
# registered beyond the tables above, with no meaning of their own
EXTRA = {"curves": {0: "RESERVED"}, "key types": {0: "RESERVED"}, "algorithms": {-11: "DIRECT_HKDF_SHA_512"}}


PLAIN = ["KID", "IV", "PartialIV", "KIDContext", "CounterSignature0", "StaticKeyID", "Salt", "PartyUID", "PartyVOther",
         "X5t", "X5u"]


@case("H01", kind=["sign1", "mac0", "enc0", "recipient", "signer"])
def lookup(E, P, kind):
    """get_attr for any parameter: the value from whichever bucket has it (falsy values and None-defaults included),
    the default if neither has it, and the library's exception if both have it."""
    H = P.headers
    c = {"sign1": P.Sign1Message, "mac0": P.Mac0Message, "enc0": P.Enc0Message, "recipient": P.KeyWrap,
         "signer": P.CoseSignature}[kind]
    a = getattr(H, E.choice("attr", PLAIN if E.tier == "thorough" else PLAIN[:5]))
    other = getattr(H, E.choice("other", PLAIN[-2:]) if a.__name__ not in PLAIN[-2:] else "KID")
    v, w = E.bytes("v", 0, 3), E.bytes("w", 0, 3)
    d = E.choice("default", ["omitted", "none", "value", "falsy"])
    dv = E.bytes("default.v", 1, 2) if d == "value" else b""
    where = E.choice("where", ["phdr", "uhdr", "both", "neither"])
    ph, uh = {other: w}, {}
    if where in ("phdr", "both"):
        ph[a] = v
    if where in ("uhdr", "both"):
        uh[a] = w
    msg = c(phdr=ph, uhdr=uh)
    args = {"omitted": (), "none": (None,), "value": (dv,), "falsy": (b"",)}[d]
    r = E.run(msg.get_attr, a, *args)
    if where == "both":
        E.check(r.raised("CoseException"), "a parameter in both buckets is malformed")
    elif where == "neither":
        E.check(r.ok, "absent")
        E.check(r.value is None if d in ("omitted", "none") else E.eq(r.value, dv), "the default")
    else:
        E.check(r.ok, "present")
        E.check(E.eq(r.value, v if where == "phdr" else w), "the value of its bucket")
    r = E.run(msg.get_attr, other, *args)
    E.check(r.ok, "another parameter")
    E.check(E.eq(r.value, w), "is found on its own")


@case("H01", kind=["sign1", "mac0", "enc0", "recipient", "signer", "received"])
def lookup_values(E, P, kind):
    """As before for parameters with any value, nil included: present is present whatever the value."""
    H = P.headers
    c = {"sign1": P.Sign1Message, "mac0": P.Mac0Message, "enc0": P.Enc0Message, "recipient": P.KeyWrap,
         "signer": P.CoseSignature}.get(kind)
    n = E.int("n", 1, 3)
    values = [None, False, 0, b"", "", [], {}, n]
    if kind == "received":
        values.remove([])
        values.remove({})
    where = E.choice("where", ["phdr", "uhdr", "both", "neither"])
    a = E.choice("a", list(range(len(values)))) if where != "neither" else 0
    b = E.choice("b", [0, 3, len(values) - 1]) if where == "both" else 0
    attr = getattr(H, E.choice("attr", ["PartyUNonce", "CounterSignature"] + ([] if E.tier == "quick" else
                                                                               ["Salt", "StaticKeyID", "X5t"])))
    ph = {attr: values[a]} if where in ("phdr", "both") else {}
    uh = {attr: values[b if where == "both" else a]} if where in ("uhdr", "both") else {}
    if kind == "received":
        wire = [{k.identifier: v for k, v in h.items()} for h in (ph, uh)]
        msg = P.CoseMessage.decode(E.cbor(E.tag(18, [E.cbor(wire[0]) if wire[0] else b"", wire[1], b"", b"s"])))
    else:
        msg = c(phdr=ph, uhdr=uh)
    r = E.run(msg.get_attr, attr, *E.choice("default", [(), ("default",)]))
    if where == "both":
        E.check(r.raised("CoseException"), "a parameter in both buckets is malformed")
    elif where == "neither":
        E.check(r.ok and r.value in (None, "default"), "the default")
    else:
        E.check(r.ok and type(r.value) is type(values[a]) and E.eq(r.value, values[a]), "the value of its bucket")


@case("H01", kind=["sign1", "mac0", "enc0"])
def duplicate_algorithm(E, P, kind):
    """A message with the algorithm in both buckets is neither protected nor accepted, even if both agree."""
    H = P.headers
    aid = {"sign1": [-7, -8], "mac0": [5, 4], "enc0": [1, 3]}[kind]
    a, b = E.choice("a", aid), E.choice("b", aid)
    v = E.bytes("v", 0, 3)
    body = {"sign1": [v, b"s"], "mac0": [v, b"t"], "enc0": [v]}[kind]
    t = {"sign1": 18, "mac0": 17, "enc0": 16}[kind]
    uh = {1: b}
    if kind == "enc0":
        uh[5] = bytes(12)
    msg = P.CoseMessage.decode(E.cbor(E.tag(t, [E.cbor({1: a}), uh] + body)))
    msg.key = lib.sig_key(E, P, "Es256")[0] if kind == "sign1" else P.SymmetricKey(k=bytes(16))
    f = {"sign1": "verify_signature", "mac0": "verify_tag", "enc0": "decrypt"}[kind]
    E.check(E.run(getattr(msg, f)).raised("CoseException"), "not accepted")
    E.check(E.run(msg.encode).raised("CoseException"), "not protected")


@case("H02", reg=REGS)
def numbers(E, P, reg):
    """For every integer in -2^64..2^64-1 the registry yields the parameter class with that number, or reports it as
    unknown; with unknown ones allowed, the integer itself."""
    base, table, mod = registry(P, reg)
    n = E.int("n", -2 ** 64, 2 ** 64 - 1)
    known = [v[0] for v in table.values()] + list(EXTRA.get(reg, {}))
    r = E.run(base.from_id, n)
    isk = E.any(*[E.eq(n, k) for k in known])
    if r.ok:
        E.check(isk, "only registered numbers are known")
        E.check(E.eq(r.value.identifier, n), "the class has that number")
        back = E.run(base.from_id, r.value)
        E.check(back.ok and back.value is r.value, "a class is its own spelling")
        name = E.run(base.from_id, r.value.fullname)
        E.check(name.ok and name.value is r.value, "its name resolves to the same class")
    else:
        E.check(E.not_(isk), "registered numbers are known")
        E.check(r.raised("CoseException"), "the library's exception")
        E.check(E.eq(base.from_id(n, True), n), "kept as it is if unknown ones are allowed")


@case("H02", reg=REGS)
def names(E, P, reg):
    """Every spelling of a parameter's name, whatever the case of its letters, resolves to the parameter; every other
    string (up to 4 characters) is unknown."""
    base, table, mod = registry(P, reg)
    cls = E.choice("cls", sorted(table))
    number, name = table[cls]
    t = E.str("name", len(name))
    E.assume(E.eq(t.upper(), name))
    r = E.run(base.from_id, t)
    E.check(r.ok, "known by name")
    E.check(r.value is getattr(mod, cls), "the same class")
    E.check(base.from_id(number) is r.value, "as by number")


@case("H02", reg=["headers", "algorithms", "curves", "EC2KeyParam"])
def unknown_names(E, P, reg):
    """Any string of up to 5 characters resolves to the parameter of that name, or is unknown and, where allowed, kept."""
    base, table, mod = registry(P, reg)
    t = E.str("name", 0, E.bound(4, 8))
    known = [v[1] for v in table.values()] + list(EXTRA.get(reg, {}).values())
    isk = E.any(*[E.eq(t.upper(), k) for k in known])
    r = E.run(base.from_id, t)
    if r.ok:
        E.check(isk, "only registered names are known")
        E.check(E.eq(r.value.fullname, t.upper()), "its class has that name")
    else:
        E.check(E.not_(isk), "registered names are known")
        E.check(r.raised("CoseException"), "the library's exception")
        E.check(E.eq(base.from_id(t, True), t), "kept as it is if unknown ones are allowed")


@case("H02", how=["decode", "construct", "key"], bucket=["phdr", "uhdr"])
def algorithm_values(E, P, how, bucket):
    """An algorithm in a header or key is a registered one, by number or name in any case: every other number and
    name is refused, and never kept."""
    base, table, mod = registry(P, "algorithms")
    H = P.headers
    if E.choice("type", ["int", "str"]) == "int":
        v = E.int("n", -2 ** 64, 2 ** 64 - 1)
        isk = E.any(*[E.eq(v, x) for x in [x[0] for x in table.values()] + [-11]])
    else:
        v = E.str("t", 0, E.bound(5, 7))
        isk = E.any(*[E.eq(v.upper(), x[1]) for x in table.values()])
    if how == "decode":
        w = {1: v}
        r = E.run(P.CoseMessage.decode, E.cbor(E.tag(17, [E.cbor(w) if bucket == "phdr" else b"",
                                                          w if bucket == "uhdr" else {}, b"p", b"t"])))
        got = getattr(r.value, bucket) if r.ok else None
    elif how == "construct":
        r = E.run(P.Mac0Message, **{bucket: {H.Algorithm if bucket == "phdr" else "ALG": v}})
        got = getattr(r.value, bucket) if r.ok else None
    elif how == "key":
        r = E.run(P.CoseKey.from_dict, {1: 4, 3: v, -1: bytes(16)} if bucket == "phdr" else
                  {"KTY": "SYMMETRIC", "ALG": v, "K": bytes(16)})
        if r.ok:
            E.check(isk, "a registered algorithm")
            E.check(E.eq(r.value.alg.identifier, v) if isinstance(v, int) else E.eq(r.value.alg.fullname, v.upper()), "its class")
        else:
            E.check(E.not_(isk), "registered ones are taken")
        return
    E.check(E.iff(r.ok, isk), "a registered algorithm")
    if r.ok:
        a = got[H.Algorithm]
        E.check(E.eq(a.identifier, v) if isinstance(v, int) else E.eq(a.fullname, v.upper()), "its class")


@case("H02", kind=["bytes", "none", "list", "nested list", "bool", "float", "map", "other registry"])
def odd_spellings(E, P, kind):
    """Things that are no numbers, names or classes of the registry (lists of them, booleans and fractions equal to a
    number included) are unknown, and kept only where unknown ones are."""
    reg = E.choice("reg", ["algorithms", "key operations", "headers"] if E.tier == "quick" else REGS)
    base, table, mod = registry(P, reg)
    cls = E.choice("cls", sorted(table)[:4])
    n = E.int("n", -70, 70)
    v = {"bytes": E.bytes("b", 0, 3), "none": None, "other registry": P.kty.KTY, "list": [n],
         "nested list": [[table[cls][0]], getattr(mod, cls), n], "bool": E.choice("t", [False, True]),
         "float": float(table[cls][0]), "map": {table[cls][0]: n}}[kind]
    r = E.run(base.from_id, v)
    E.check(r.raised("CoseException") or kind == "other registry", "unknown")
    if kind != "other registry":
        r = E.run(base.from_id, v, True)
        E.check(r.ok and E.eq(r.value, v) and type(r.value) is type(v), "kept where allowed")


BADREF = ["bool", "list", "nested", "nil", "float", "map", "bytes"]


@case("H02", where=["phdr", "uhdr", "signer", "recipient", "alg", "alg name", "kty", "crv", "op", "op name"])
def odd_references(E, P, where):
    """An algorithm, key type, curve or key operation that is no number or name (a list of known ones, a boolean equal
    to a known number) is refused in headers at any level and in keys."""
    n = E.int("n", -50, 50)
    kind = E.choice("kind", BADREF)
    v = {"bool": E.choice("t", [True, False]), "list": [n], "nested": [[n]], "nil": None, "float": 1.0, "map": {n: n},
         "bytes": E.bytes("b", 0, 2)}[kind]
    if where == "op" or where == "op name":
        m = {1: 4, -1: bytes(16), 4 if where == "op" else "KEY_OPS": E.choice("ops", [[v], [9, v], [v, 10], v])}
        E.assume(m.get(4, m.get("KEY_OPS")) is not v or kind != "list")
        E.check(not E.run(P.CoseKey.decode, E.cbor(m)).ok, "refused")
        return
    if where in ("kty", "crv", "alg", "alg name"):
        m = {"kty": {1: v, -1: bytes(16)}, "crv": {1: 1, -1: v, -2: bytes(32)}, "alg": {1: 4, 3: v, -1: bytes(16)},
             "alg name": {"KTY": 4, "ALG": v, "K": bytes(16)}}[where]
        E.check(not E.run(P.CoseKey.from_dict, m).ok, "refused")
        E.check(not E.run(P.CoseKey.decode, E.cbor(m)).ok, "refused")
        if where == "alg":
            key = P.SymmetricKey(k=bytes(16))
            E.check(not E.run(setattr, key, "alg", v).ok and not E.run(key.__setitem__, 3, v).ok and key.alg is None,
                    "not assigned")
        return
    body = [E.cbor({1: v}) if where == "phdr" else b"", {1: v} if where == "uhdr" else {}, b"p"]
    if where in ("phdr", "uhdr"):
        w = E.tag(18, body + [b"s"])
    elif where == "signer":
        w = E.tag(98, body + [[[E.cbor({1: v}), {}, b"s"]]])
    else:
        w = E.tag(96, body + [[[b"", {1: v}, b""]]])
    E.check(not E.run(P.CoseMessage.decode, E.cbor(w)).ok, "refused")


@case("H02", key=["message", "key"])
def boolean_labels(E, P, key):
    """A boolean is no label: it is not taken for the parameter with the equal number."""
    t = E.choice("t", [False, True])
    if key == "message":
        bucket = E.choice("bucket", ["phdr", "uhdr"])
        w = {t: -7}
        r = E.run(P.CoseMessage.decode, E.cbor(E.tag(18, [E.cbor(w) if bucket == "phdr" else b"",
                                                          w if bucket == "uhdr" else {}, b"p", b"s"])))
        if r.ok:
            E.check(P.headers.Algorithm not in getattr(r.value, bucket) and r.value.get_attr(P.headers.Algorithm) is None,
                    "not the algorithm")
            E.check(list(getattr(r.value, bucket))[0] is t, "the boolean")
        E.check(not E.run(P.CoseMessage.decode, E.cbor(E.tag(18, [E.cbor(w), {}, b"p", b"s"])),
                          allow_unknown_attributes=False).ok, "unknown")
        return
    r = E.run(P.SymmetricKey, bytes(16), {t: -7})
    if r.ok:
        E.check(r.value.alg is None and r.value.kty is P.kty.KtySymmetric, "no parameter of that number")


@case("H04", part=[0, 1, 2, 3, 4, 5, 6, 7])
def algorithm_table(E, P, part):
    """Every algorithm is known under its IANA number and encodes as that number, or as its name on request."""
    H = P.headers
    cls = E.choice("cls", sorted(ALGS)[part::8])
    number, name = ALGS[cls]
    A = getattr(P.alg, cls)
    tstr = E.choice("tstr", [False, True])
    bucket = E.choice("bucket", ["phdr", "uhdr"])
    v = E.bytes("v", 0, 2)
    d = {H.Algorithm: E.choice("spelling", [A, number, name] if E.tier == "thorough" else [A, number]), H.KID: v}
    ph, uh = (d, {}) if bucket == "phdr" else ({}, d)
    msg = P.Sign1Message(phdr=ph, uhdr=uh, payload=v, alg_tstr_encoding=tstr)
    m = E.decode(msg.encode(tag=False, sign=False))
    w = {1: name if tstr else number, 4: v}
    E.check(E.eq(m, [E.cbor(w) if bucket == "phdr" else b"", w if bucket == "uhdr" else {}, v]), "encoded algorithm")
    got = P.CoseMessage.decode(E.cbor(E.tag(18, m + [b"s"])))
    E.check(got.get_attr(H.Algorithm) is A, "decodes to the algorithm")


@case("H04", what=["header", "key operations", "curves"])
def other_tables(E, P, what):
    """Header parameters, key operations and curves encode as their IANA numbers; curves have their key type and
    coordinate size."""
    v = E.bytes("v", 0, 2)
    if what == "header":
        cls = E.choice("cls", sorted(k for k in HEADERS if k not in (
            "Algorithm", "Critical", "ContentType", "EphemeralKey", "StaticKey")))
        d = {E.choice("spelling", [getattr(P.headers, cls), HEADERS[cls][1], HEADERS[cls][0]]): v}
        m = E.decode(P.Sign1Message(phdr=d, uhdr=d, payload=v).encode(tag=False, sign=False))
        E.check(E.eq(m, [E.cbor({HEADERS[cls][0]: v}), {HEADERS[cls][0]: v}, v]), "encoded header parameter")
    elif what == "key operations":
        cls = E.choice("cls", sorted(OPS))
        k = P.SymmetricKey(k=bytes(16), optional_params={P.kp.KpKeyOps: [getattr(P.ops, cls)], 900: v})
        m = E.decode(k.encode())
        E.check(E.eq(m, {1: 4, 4: [OPS[cls][0]], 900: v, -1: bytes(16)}), "encoded key operation")
    else:
        cls = E.choice("cls", sorted(CURVES))
        c = getattr(P.crv, cls)
        number, name, size, kty = CURVES[cls]
        E.check(c.key_type is getattr(P.kty, kty) and c.size == size, "key type and size")
        if kty == "KtyEC2":
            d, x, y = E.mat("EC2", cls, 0)
            key = P.EC2Key(crv=E.choice("spelling", [c, number, name]), x=x, y=y, optional_params={900: v})
            E.check(E.eq(E.decode(key.encode()), {1: 2, 900: v, -1: number, -2: x, -3: y}), "encoded curve")
        else:
            x = E.bytes("x", size)
            key = P.OKPKey(crv=E.choice("spelling", [c, number, name]), x=x, optional_params={900: v})
            E.check(E.eq(E.decode(key.encode()), {1: 1, 900: v, -1: number, -2: x}), "encoded curve")


@case("H03", kind=["sign1", "mac0", "enc0", "recipient", "signer"])
def spellings(E, P, kind):
    """Numbers, names in any case and classes as labels and algorithm values give the same message: the same bytes are
    sent, the same bytes protected."""
    H = P.headers
    A, n, name = {"sign1": ("EdDSA", -8, "EDDSA"), "mac0": ("HMAC256", 5, "HMAC_256"), "enc0": ("A128GCM", 1, "A128GCM"),
                  "recipient": ("A128KW", -3, "A128KW"), "signer": ("EdDSA", -8, "EDDSA")}[kind]
    v, c = E.bytes("v", 0, 3), E.int("c", 0, 70000)
    iv = E.bytes("iv", 12)
    ref = {H.Algorithm: getattr(P.alg, A), H.KID: v}
    refu = {H.IV: iv, H.ContentType: c}
    t, u = E.str("alg", len(name)), E.str("kid", 3)
    ct = E.str("ct", len("CONTENT_TYPE"))
    E.assume(E.all(E.eq(t.upper(), name), E.eq(u.upper(), "KID"), E.eq(ct.upper(), "CONTENT_TYPE")))
    alt = {E.choice("sa", [1, "ALG", "aLg", H.Algorithm]): E.choice("va", [n, t, getattr(P.alg, A)]),
           E.choice("sk", [4, u, H.KID]): v}
    altu = {E.choice("si", [5, "iv", H.IV]): iv, E.choice("sc", [3, ct, H.ContentType]): c}
    outs = []
    for ph, uh in ((ref, refu), (alt, altu)):
        if kind == "sign1":
            outs.append(P.Sign1Message(phdr=ph, uhdr=uh, payload=v, key=lib.sig_key(E, P, "EdDSA")[0]).encode())
        elif kind == "mac0":
            outs.append(P.Mac0Message(phdr=ph, uhdr=uh, payload=v, key=P.SymmetricKey(k=bytes(32))).encode())
        elif kind == "enc0":
            outs.append(P.Enc0Message(phdr=ph, uhdr=uh, payload=v, key=P.SymmetricKey(k=bytes(16))).encode())
        elif kind == "recipient":
            uh = lib.merge(ph, uh)
            r = P.KeyWrap(uhdr=uh, payload=bytes(16), key=P.SymmetricKey(k=bytes(16)))
            outs.append(P.EncMessage(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: iv}, payload=v,
                                     recipients=[r]).encode())
        else:
            s = P.CoseSignature(phdr=ph, uhdr=uh, key=lib.sig_key(E, P, "EdDSA")[0])
            outs.append(P.SignMessage(payload=v, signers=[s]).encode())
    E.check(E.eq(outs[0], outs[1]), "the spelling does not matter")


KINDS5 = {2: "crit", 3: "uint/tstr", 4: "bstr", 5: "bstr", 6: "bstr", 9: "bstr", 10: "bstr"}


def legal(kind, t, E, v):
    if kind == "bstr":
        return t == "bytes"
    if kind == "uint/tstr":
        return t == "str" or (t == "int" and (v >= 0))
    return t in ("list of int", "list of str", "list of int and str")


@case("H05", how=["decode", "construct"], where=["phdr", "uhdr"])
def header_values(E, P, how, where):
    """Values of the parameters with a defined type are checked in both buckets, decoding and constructing: legal
    values are accepted and kept, others raise ValueError."""
    H = P.headers
    lab = E.choice("label", sorted(KINDS5))
    t = E.choice("type", ["bytes", "int", "str", "none", "empty list", "list of int", "list of str",
                          "list of int and str", "list of bytes", "list with bytes", "map", "bool", "list with bool",
                          "float"])
    b, n, s = E.bytes("b", 0, 3), E.int("n", -1000, 70000), E.str("s", 0, 3)
    v = {"bytes": b, "int": n, "str": s, "none": None, "empty list": [], "list of int": [n], "list of str": [s, s],
         "list of int and str": [n, s], "list of bytes": [b], "list with bytes": [n, b], "map": {n: b},
         "bool": True, "list with bool": [n, True], "float": 1.0}[t]
    d = {lab: v}
    kw = {"allow_unknown_attributes": False} if E.choice("strict", [False, True]) else {}
    if how == "decode":
        prot, uh = (E.cbor(d), {}) if where == "phdr" else (b"", d)
        r = E.run(P.CoseMessage.decode, E.cbor(E.tag(18, [prot, uh, b"", b""])), **kw)
    else:
        r = E.run(P.Sign1Message, **{where: d}, **kw)
    ok = legal(KINDS5[lab], t, E, n)
    E.check(E.iff(r.ok, ok), "accepted exactly if legal")
    if r.ok:
        got = getattr(r.value, where)
        E.check(len(got) == 1, "one parameter")
        back = list(got.values())[0]
        E.check(E.eq(back, v), "the value is kept")
    else:
        E.check(r.raised("ValueError"), "ValueError")


@case("H06", kind=["sign1", "mac0", "enc0", "sign", "enc"])
def strictness(E, P, kind):
    """With unknown parameters disallowed, decoding fails exactly if some bucket (of the message, a signer or a
    recipient) has a label that is not registered; with them allowed they are kept under their label."""
    n = E.int("n", -2 ** 64, 2 ** 64 - 1)
    v = E.bytes("v", 0, 2)
    table = [x[0] for x in HEADERS.values()]
    E.assume(E.not_(E.any(*[E.eq(n, k) for k in (1, 2, 3, 7, 32, 33, 34, 35, -1, -2)])))
    known = E.any(*[E.eq(n, k) for k in table])
    bucket = E.choice("bucket", ["protected", "unprotected"])
    inner = kind in ("sign", "enc") and E.choice("inner", [False, True])
    prot, uh = (E.cbor({n: v}), {}) if bucket == "protected" else (b"", {n: v})
    ip, iu = prot, uh
    if inner:
        prot, uh = b"", {}
    else:
        ip, iu = b"", {}
    body = {"sign1": [prot, uh, b"", b""], "mac0": [prot, uh, b"", b""], "enc0": [prot, uh, b""],
            "sign": [prot, uh, b"", [[ip, iu, b""]]],
            "enc": [prot, uh, b"", [[ip, lib.merge(iu, {1: -40}), b"w"]]]}[kind]
    tag = {"sign1": 18, "mac0": 17, "enc0": 16, "sign": 98, "enc": 96}[kind]
    wire = E.cbor(E.tag(tag, body))
    allow = E.choice("allow", ["default", True, False])
    kw = {} if allow == "default" else {"allow_unknown_attributes": allow}
    r = E.run(P.CoseMessage.decode, wire, **kw)
    E.check(E.iff(r.ok, E.any(known, allow is not False)), "refused exactly if unknown and disallowed")
    if not r.ok:
        E.check(r.raised("CoseException"), "the library's exception")
        return
    m = r.value
    if inner:
        m = m.signers[0] if kind == "sign" else m.recipients[0]
    h = m.phdr if bucket == "protected" else m.uhdr
    keys = [k for k in h if k is not P.headers.Algorithm]
    E.check(len(keys) == 1, "kept")
    E.check(E.eq(h[keys[0]], v), "with its value")
    E.check(E.eq(keys[0] if isinstance(keys[0], int) else keys[0].identifier, n), "under its label")


@case("H06", how=["message", "recipient", "signer"])
def strict_constructor(E, P, how):
    """The same for messages, recipients and signers constructed with unknown parameters disallowed."""
    n = E.int("n", -2 ** 64, 2 ** 64 - 1)
    E.assume(E.not_(E.any(*[E.eq(n, k) for k in (1, 2, 3, -1, -2)])))
    known = E.any(*[E.eq(n, v[0]) for v in HEADERS.values()])
    c = {"message": P.Mac0Message, "recipient": P.KeyWrap, "signer": P.CoseSignature}[how]
    bucket = E.choice("bucket", ["phdr", "uhdr"])
    allow = E.choice("allow", [None, True, False])
    kw = {bucket: {n: b"v"}}
    if allow is not None:
        kw["allow_unknown_attributes"] = allow
    r = E.run(c, **kw)
    E.check(E.iff(r.ok, E.any(known, allow is not False)), "refused exactly if unknown and disallowed")
    E.check(r.ok or r.raised("CoseException"), "the library's exception")


@case("T01", kind=["sign1", "sign", "mac0", "mac", "enc0", "enc", "recipient", "signer"])
def type_gates(E, P, kind):
    """Header maps, external data, payloads and keys of another type are refused when constructing and assigning, and
    leave the message as it was."""
    H = P.headers
    c = {"sign1": P.Sign1Message, "sign": P.SignMessage, "mac0": P.Mac0Message, "mac": P.MacMessage,
         "enc0": P.Enc0Message, "enc": P.EncMessage, "recipient": P.KeyWrap, "signer": P.CoseSignature}[kind]
    v = E.bytes("v", 0, 3)
    msg = c(phdr={H.KID: v}, uhdr={H.KIDContext: v})
    msg.external_aad, msg.payload = v, v
    k = P.SymmetricKey(k=bytes(16))
    msg.key = k
    bad = {"int": E.int("i", -5, 5), "str": E.str("s", 0, 2), "bytes": E.bytes("b", 0, 2), "list": [1], "none": None,
           "map": {4: v}, "bytearray": bytearray(b"x"), "memoryview": memoryview(b"x"), "tuple": (b"x",), "bool": False,
           "float": 0.0, "pairs": [(4, b"x")], "set": {4}, "key map": {1: 4, -1: bytes(16)}, "class": P.SymmetricKey,
           "empty list": []}
    what = E.choice("what", ["phdr", "uhdr", "external_aad", "payload", "key", "phdr_update", "uhdr_update"])
    t = E.choice("type", sorted(bad))
    okt = {"phdr": ["map"], "uhdr": ["map"], "external_aad": ["bytes"], "payload": ["bytes", "none"],
           "key": ["none"], "phdr_update": ["map"], "uhdr_update": ["map"]}[what]
    okt += ["key map"] if "map" in okt else []
    if what.endswith("update"):
        r = E.run(getattr(msg, what), bad[t])
    else:
        r = E.run(setattr, msg, what, bad[t])
    E.check(r.ok == (t in okt), "accepted exactly with the right type")
    if not r.ok:
        E.check(r.raised("CoseInvalidKey" if what == "key" else "TypeError"), "TypeError or the invalid key exception")
        E.check(E.eq([msg.phdr, msg.uhdr, msg.external_aad, msg.payload],
                     [{H.KID: v}, {H.KIDContext: v}, v, v]) and msg.key is k, "nothing changed")


@case("T01", kind=["sign1", "sign", "mac0", "mac", "enc0", "enc"], what=["phdr", "uhdr", "phdr_update", "uhdr_update"])
def refused_on_received(E, P, kind, what):
    """A refused header change on a received message keeps the received protected bytes, whatever their encoding."""
    H = P.headers
    tag, n = {"sign1": (18, 4), "sign": (98, 4), "mac0": (17, 4), "mac": (97, 5), "enc0": (16, 3), "enc": (96, 4)}[kind]
    kid = E.bytes("kid", 0, 2)
    aid = {"sign1": -8, "sign": -8, "mac0": 5, "mac": 5, "enc0": 1, "enc": 1}[kind]
    pr = E.wire("prot", {1: aid, 4: kid})
    body = [pr, {10: kid}, b"p", b"s", [[b"", {1: -6}, b""]]][:n]
    if kind == "enc":
        body = [pr, {10: kid}, b"p", [[b"", {1: -6}, b""]]]
    elif kind == "sign":
        body = [pr, {10: kid}, b"p", [[pr, {10: kid}, b"s"]]]
    msg = P.CoseMessage.decode(E.cbor(E.tag(tag, body)))
    part = msg
    if kind == "sign" and E.choice("part", ["body", "signer"]) == "signer":
        part = msg.signers[0]
    bad = {"int": E.int("i", -5, 5), "str": E.str("s", 0, 2), "bytes": E.bytes("b", 0, 2), "list": [(H.KID, b"x")],
           "none": None}[E.choice("type", ["int", "str", "bytes", "list", "none"])]
    if what.endswith("update"):
        r = E.run(getattr(part, what), bad)
    else:
        r = E.run(setattr, part, what, bad)
    E.check(r.raised("TypeError"), "refused")
    E.check(E.eq(part.phdr_encoded, pr), "the received bytes are kept")
    E.check(E.eq([part.phdr[H.KID], part.uhdr[H.KIDContext]], [kid, kid]), "the headers are kept")


@case("T01", kind=["mac", "enc", "recipient", "sign"])
def list_gates(E, P, kind):
    """Recipient lists contain only recipients, signers come in a list, signatures are byte strings."""
    v = E.bytes("v", 0, 2)
    if kind == "sign":
        msg = P.SignMessage(payload=b"")
        s = P.CoseSignature()
        t = E.choice("type", ["list", "tuple", "none", "one"])
        r = E.run(setattr, msg, "signers", {"list": [s], "tuple": (s,), "none": None, "one": s}[t])
        E.check(r.ok == (t == "list") and (r.ok or r.raised("CoseException")), "only lists")
        # a refused list leaves the message and the signers of another message as they were
        key, scheme, pub, priv = lib.sig_key(E, P, "EdDSA")
        own = P.CoseSignature(phdr={P.headers.Algorithm: P.alg.EdDSA}, key=key)
        other = P.SignMessage(payload=v, signers=[own])
        old = P.CoseSignature()
        msg = P.SignMessage(payload=b"", signers=[old])
        bad = {"recipient": P.KeyWrap(), "message": P.Sign1Message(), "bytes": v, "none": None, "map": {},
               "list": [own]}[E.choice("bad", ["recipient", "message", "bytes", "none", "map", "list"])]
        ss = [own, own]
        ss[E.choice("pos", [0, 1])] = bad
        E.check(E.run(setattr, msg, "signers", ss).raised("TypeError"), "signers only")
        E.check(E.run(P.SignMessage, payload=b"", signers=ss).raised("TypeError"), "constructor likewise")
        E.check(len(msg.signers) == 1 and msg.signers[0] is old, "a refused list changes nothing")
        E.check(E.sig_valid(scheme, pub, E.cbor(["Signature", b"", E.cbor({1: -8}), b"", v]), own.compute_signature()),
                "and its signers stay with their message")
        for m in (s, P.Sign1Message()):
            bad = E.choice("sig", [None, "x", 3, [b"x"]])
            E.check(E.run(setattr, m, "signature", bad).raised("TypeError"), "signatures are bytes")
            m.signature = v
            E.check(E.eq(m.signature, v), "and are kept")
        return
    c = {"mac": P.MacMessage, "enc": P.EncMessage, "recipient": P.KeyWrap}[kind]
    good = P.KeyWrap(uhdr={P.headers.KID: v})
    items = {"recipient": good, "message": P.Enc0Message(), "bytes": v, "none": None, "signer": P.CoseSignature()}
    t, pos = E.choice("item", sorted(items)), E.choice("pos", [0, 1])
    rs = [good, good]
    rs[pos] = items[t]
    r = E.run(c, recipients=rs)
    E.check(r.ok == (t == "recipient") and (r.ok or r.raised("TypeError")), "constructor")
    msg = c(recipients=[good])
    r = E.run(setattr, msg, "recipients", rs)
    E.check(r.ok == (t == "recipient") and (r.ok or r.raised("TypeError")), "assignment")
    E.check(len(msg.recipients) == (2 if r.ok else 1), "a refused list changes nothing")
    msg.recipients = None
    E.check(msg.recipients == [], "None clears the list")


@case("L01", kind=["sign1", "mac0", "enc0", "enc", "mac", "sign"])
def local_attributes(E, P, kind):
    """Local attributes never enter the encoding or the header lookup, whatever they are."""
    H = P.headers
    v = E.bytes("v", 0, 3)
    out = []
    for local in (False, True):
        if kind == "sign1":
            m = P.Sign1Message(phdr={H.Algorithm: P.alg.EdDSA}, payload=v, key=lib.sig_key(E, P, "EdDSA")[0])
        elif kind == "sign":
            s = P.CoseSignature(phdr={H.Algorithm: P.alg.EdDSA}, key=lib.sig_key(E, P, "EdDSA")[0])
            m = P.SignMessage(payload=v, signers=[s])
        elif kind in ("mac0", "mac"):
            rs = {"recipients": [P.DirectEncryption(uhdr={H.Algorithm: P.alg.Direct})]} if kind == "mac" else {}
            c = P.Mac0Message if kind == "mac0" else P.MacMessage
            m = c(phdr={H.Algorithm: P.alg.HMAC256}, payload=v, key=P.SymmetricKey(k=bytes(32)), **rs)
        else:
            rs = {"recipients": [P.DirectEncryption(uhdr={H.Algorithm: P.alg.Direct})]} if kind == "enc" else {}
            c = P.Enc0Message if kind == "enc0" else P.EncMessage
            m = c(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: bytes(12)}, payload=v,
                  key=P.SymmetricKey(k=bytes(16)), **rs)
        if local:
            x = E.bytes("local", 0, 3)
            parts = [m] + list(getattr(m, "recipients", [])) + list(getattr(m, "signers", []))
            for p in parts:
                p.local_attrs = {H.KID: x, H.StaticKey: x, H.SuppPubOther: x, 900: x, H.PartialIV: x}
                E.check(p.get_attr(H.KID) is None, "not a header parameter")
        out.append(m.encode())
    E.check(E.eq(out[0], out[1]), "the encoding does not depend on local attributes")


@case("L01", kind=["sign1", "mac0", "enc0", "enc", "mac", "sign", "recipient", "signer"])
def instances(E, P, kind):
    """Instances made with default arguments share nothing: changing one leaves the other as it was."""
    H = P.headers
    c = {"sign1": P.Sign1Message, "sign": P.SignMessage, "mac0": P.Mac0Message, "mac": P.MacMessage,
         "enc0": P.Enc0Message, "enc": P.EncMessage, "recipient": P.KeyWrap, "signer": P.CoseSignature}[kind]
    a, b = c(), c()
    v = E.bytes("v", 0, 3)
    a.phdr_update({H.KID: v})
    a.uhdr_update({H.IV: v})
    a.uhdr[H.KIDContext] = v
    a.local_attrs = {H.SuppPubOther: v}
    a.external_aad = v + b"x"
    if hasattr(a, "recipients"):
        a.recipients.append(P.KeyWrap())
    if hasattr(a, "signers"):
        a.signers.append(P.CoseSignature())
    for m in (b, c()):
        E.check(m.phdr == {} and m.uhdr == {} and m.local_attrs == {} and m.external_aad == b"", "the other is empty")
        E.check(not getattr(m, "recipients", []) and not getattr(m, "signers", []), "and has no parts")


@case("L01", kind=["sign1", "mac0", "enc0", "enc", "mac", "sign", "recipient", "signer"])
def same_argument(E, P, kind):
    """Two instances given the same header maps keep maps of their own: changing one, or the argument, leaves the other
    as it was; maps assigned by property are copied at any depth."""
    H = P.headers
    c = {"sign1": P.Sign1Message, "sign": P.SignMessage, "mac0": P.Mac0Message, "mac": P.MacMessage,
         "enc0": P.Enc0Message, "enc": P.EncMessage, "recipient": P.KeyWrap, "signer": P.CoseSignature}[kind]
    v, w = E.bytes("v", 0, 2), E.bytes("w", 0, 2)
    ph, uh, loc = {H.KID: v, 600: [v, [w]], "x": {1: [v]}}, {H.IV: v, 700: {"y": [w]}}, {900: v}
    how = E.choice("how", ["constructor", "setters"])
    if how == "constructor":
        a, b = c(phdr=ph, uhdr=uh), c(phdr=ph, uhdr=uh)
    else:
        a, b = c(), c()
        for m in (a, b):
            m.phdr, m.uhdr = ph, uh
    for m in (a, b):
        m.local_attrs = loc
    act = E.choice("act", ["one", "argument"])
    x, y, z = (a.phdr, a.uhdr, a.local_attrs) if act == "one" else (ph, uh, loc)
    deep = E.choice("deep", [False, True]) if how == "setters" else False
    if deep:
        x[600][1].append(b"changed")
        x["x"][1].append(b"changed")
        y[700]["y"].append(b"changed")
    else:
        x[H.KID], x[601] = b"changed", b"changed"
        y[H.IV], y[701] = b"changed", b"changed"
    if act == "one" and not deep:
        a.local_attrs = {901: b"changed"}
        a.local_attrs = {900: b"changed"}
    else:
        z[901] = b"changed"
    for m in ([b] if act == "one" else [a, b]):
        E.check(E.eq([m.phdr, m.uhdr], [{H.KID: v, 600: [v, [w]], "x": {1: [v]}}, {H.IV: v, 700: {"y": [w]}}]), "headers")
        E.check(E.eq(m.local_attrs, {900: v}), "local attributes")


@case("L01", what=["context", "party", "pub"])
def context_instances(E, P, what):
    """KDF contexts, party and supplementary information made with default arguments share nothing."""
    C = P.ctx
    v = E.bytes("v", 0, 3)
    if what == "context":
        a, b = [C.CoseKDFContext(P.alg.A128GCM, C.SuppPubInfo(16, b"")) for _ in range(2)]
        f, g = E.choice("party", ["party_u_info", "party_v_info"]), E.choice("field", ["identity", "nonce", "other"])
        setattr(getattr(a, f), g, v)
        c = C.CoseKDFContext(P.alg.A128GCM, C.SuppPubInfo(16, b""))
        for x in (b, c):
            E.check(E.eq(x.encode(), E.cbor([1, [None] * 3, [None] * 3, [128, b""]])), "nothing shared")
        want = [[None] * 3, [None] * 3]
        want[f == "party_v_info"][["identity", "nonce", "other"].index(g)] = v
        E.check(E.eq(a.encode(), E.cbor([1, want[0], want[1], [128, b""]])), "only the one that was changed")
    elif what == "party":
        a, b = C.PartyInfo(), C.PartyInfo()
        a.identity = v
        E.check(E.eq(b.encode(), [None] * 3) and E.eq(C.PartyInfo().encode(), [None] * 3), "nothing shared")
    else:
        a, b = C.SuppPubInfo(16), C.SuppPubInfo(24)
        a.protected[4] = v
        E.check(E.eq(b.encode(), [192, b""]) and E.eq(C.SuppPubInfo(32).encode(), [256, b""]), "nothing shared")


@case("L01", n=[2, 3])
def decoded_instances(E, P, n):
    """Messages decoded one after the other from different bytes are independent of each other and of the library's
    later use."""
    H = P.headers
    vs = [E.bytes("v%d" % i, 0, 3) for i in range(n)]
    ms = [P.CoseMessage.decode(E.cbor(E.tag(96, [E.cbor({1: 1, 4: v}), {5: v}, v, [[b"", {1: -3, 4: v}, v + b"."]]])))
          for v in vs]
    ms[0].phdr_update({H.KID: b"changed"})
    ms[0].recipients[0].uhdr_update({H.KID: b"changed"})
    ms[0].recipients = []
    for m, v in list(zip(ms, vs))[1:]:
        E.check(E.eq([m.phdr, m.uhdr, m.payload], [{H.Algorithm: P.alg.A128GCM, H.KID: v}, {H.IV: v}, v]), "message")
        E.check(len(m.recipients) == 1, "recipients")
        r = m.recipients[0]
        E.check(E.eq([r.uhdr, r.payload], [{H.Algorithm: P.alg.A128KW, H.KID: v}, v + b"."]), "recipient")


@case("D01", kind=["sign1", "sign"])
def detached(E, P, kind):
    """Exactly one of the attached and the detached payload is used: with both, or neither, signing and verifying
    raise; an empty byte string is a payload."""
    H = P.headers
    key, scheme, pub, priv = lib.sig_key(E, P, "EdDSA")
    att, det = E.choice("attached", [False, True]), E.choice("detached", [False, True])
    p, q = E.bytes("p", 0, 3), E.bytes("q", 0, 3)
    kw = {"payload": p if att else None}
    arg = {"detached_payload": q} if det else {}
    if kind == "sign1":
        m = s = P.Sign1Message(phdr={H.Algorithm: P.alg.EdDSA}, key=key, **kw)
    else:
        s = P.CoseSignature(phdr={H.Algorithm: P.alg.EdDSA}, key=key)
        m = P.SignMessage(signers=[s], **kw)
    prot = E.cbor({1: -8})
    body = p if att else q
    tbs = E.cbor(["Signature1", prot, b"", body] if kind == "sign1" else ["Signature", b"", prot, b"", body])
    s.signature = E.sign_ref(scheme, priv, tbs)
    r = E.run(m.encode, **arg)
    w = E.run(s.verify_signature, **arg)
    z = E.run(s.compute_signature, **arg)
    if att == det:
        E.check(all(x.raised("CoseException") for x in (r, w, z)), "refused")
    else:
        E.check(r.ok and w.ok and z.ok, "works")
        E.check(w.value, "verifies")
        E.check(E.sig_valid(scheme, pub, tbs, z.value), "signs that payload")
        E.check(E.eq(E.decode(r.value).value[2], p) if att else E.decode(r.value).value[2] is None, "as sent")
