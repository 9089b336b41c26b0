"""COSE keys: usage restrictions, encoding, validity."""
from vt.registry import case
from . import lib
from .h_headers import OPS, ALGS, CURVES

OPN = {v[0]: k for k, v in OPS.items()}
IV12 = bytes(12)


def use(E, P, what, key, alg_name):
    """the operation applied with the key; anything else it needs is in order"""
    H = P.headers
    A = getattr(P.alg, alg_name)
    aid = lib.ALG_ID[alg_name]
    if what == "sign":
        return P.Sign1Message(phdr={H.Algorithm: A}, payload=b"p", key=key).compute_signature()
    if what == "verify":
        m = P.Sign1Message(phdr={H.Algorithm: A}, payload=b"p", key=key)
        m.signature = b"s" * 64
        return m.verify_signature()
    if what == "signer sign":
        s = P.CoseSignature(phdr={H.Algorithm: A}, key=key)
        P.SignMessage(payload=b"p", signers=[s])
        return s.compute_signature()
    if what == "signer verify":
        s = P.CoseSignature(phdr={H.Algorithm: A}, key=key, signature=b"s" * 64)
        P.SignMessage(payload=b"p", signers=[s])
        return s.verify_signature()
    if what == "mac":
        return P.Mac0Message(phdr={H.Algorithm: A}, payload=b"p", key=key).compute_tag()
    if what == "mac verify":
        m = P.Mac0Message(phdr={H.Algorithm: A}, payload=b"p", key=key)
        m.auth_tag = b"t" * 8
        return m.verify_tag()
    if what in ("mac direct", "mac direct verify"):
        r = P.DirectEncryption(uhdr={H.Algorithm: P.alg.Direct})
        m = P.MacMessage(phdr={H.Algorithm: A}, payload=b"p", key=key, recipients=[r])
        if what == "mac direct":
            return m.compute_tag()
        m.auth_tag = b"t" * 8
        return m.verify_tag()
    if what == "encrypt":
        return P.Enc0Message(phdr={H.Algorithm: A}, uhdr={H.IV: IV12}, payload=b"p", key=key).encrypt()
    if what == "encrypt direct":
        r = P.DirectEncryption(uhdr={H.Algorithm: P.alg.Direct})
        return P.EncMessage(phdr={H.Algorithm: A}, uhdr={H.IV: IV12}, payload=b"p", key=key,
                            recipients=[r]).encrypt()
    k = bytes(range(16))
    if what in ("decrypt", "decrypt direct"):
        ctx = "Encrypt0" if what == "decrypt" else "Encrypt"
        ct = E.seal("gcm", 16, k, IV12, E.cbor([ctx, E.cbor({1: aid}), b""]), b"p")
        if what == "decrypt":
            return P.Enc0Message(phdr={H.Algorithm: A}, uhdr={H.IV: IV12}, payload=ct, key=key).decrypt()
        r = P.DirectEncryption(uhdr={H.Algorithm: P.alg.Direct})
        return P.EncMessage(phdr={H.Algorithm: A}, uhdr={H.IV: IV12}, payload=ct, key=key,
                            recipients=[r]).decrypt(r)
    if what == "wrap":
        r = P.KeyWrap(uhdr={H.Algorithm: A}, payload=k, key=key)
        return P.EncMessage(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: IV12}, payload=b"p",
                            recipients=[r]).encode()
    if what == "unwrap oaep":
        r = P.KeyWrap(uhdr={H.Algorithm: A}, payload=k, key=lib.sig_key(E, P, "Ps256")[0])
        m = P.CoseMessage.decode(P.EncMessage(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: IV12}, payload=b"p",
                                              recipients=[r]).encode())
        m.recipients[0].key = key
        return m.decrypt(m.recipients[0])
    if what == "unwrap":
        ct = E.seal("gcm", 16, k, IV12, E.cbor(["Encrypt", E.cbor({1: 1}), b""]), b"p")
        m = P.CoseMessage.decode(E.cbor(E.tag(96, [E.cbor({1: 1}), {5: IV12}, ct,
                                                   [[b"", {1: aid}, E.keywrap(k, k)]]])))
        m.recipients[0].key = key
        return m.decrypt(m.recipients[0])
    # key agreement: one key is the restricted one, the other side's key has no restrictions
    other = lib.ec_key(E, P, "P256", 1)
    wrap, static = "wrap" in what, alg_name.startswith("EcdhSs")
    c = P.KeyAgreementWithKeyWrap if wrap else P.DirectKeyAgreement
    if what in ("derive", "derive wrap", "derive peer", "derive wrap peer"):
        own, peer = (other, key) if "peer" in what else (key, other)
        r = c(phdr={H.Algorithm: A}, payload=k if wrap else b"", key=own if static or "peer" not in what else None)
        r.local_attrs = {H.StaticKey: peer}
        return P.EncMessage(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: IV12}, payload=b"p",
                            recipients=[r]).encode()
    # receiving: the receiver's own key, or the sender's key as it is in the message
    label = H.StaticKey if static else H.EphemeralKey
    a, b = lib.ec_key(E, P, "P256", 0), other
    inmsg = key if "peer" in what else lib.ec_key(E, P, "P256", 0, public=True)
    r = c(phdr={H.Algorithm: A}, uhdr={label: inmsg}, payload=k if wrap else b"", key=a)
    r.local_attrs = {H.StaticKey: lib.ec_key(E, P, "P256", 1, public=True)}
    m = P.CoseMessage.decode(P.EncMessage(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: IV12}, payload=b"p",
                                          recipients=[r]).encode())
    m.recipients[0].key = b if "peer" in what else key
    return m.decrypt(m.recipients[0])


# operation -> (algorithm, another algorithm, operations that permit it)
SIGNS = {"sign": [1], "verify": [2], "signer sign": [1], "signer verify": [2]}
SYMS = {"mac": ("HMAC256", "HMAC25664", [9]), "mac verify": ("HMAC256", "HMAC25664", [10]),
        "mac direct": ("HMAC256", "HMAC512", [9]), "mac direct verify": ("HMAC256", "HMAC384", [10]),
        "encrypt": ("A128GCM", "A256GCM", [3]), "encrypt direct": ("A128GCM", "A192GCM", [3]),
        "decrypt": ("A128GCM", "A256GCM", [4]), "decrypt direct": ("A128GCM", "A192GCM", [4]),
        "wrap": ("A128KW", "A256KW", [3, 5]), "unwrap": ("A128KW", "A192KW", [4, 6])}
AGREE = {"derive": ("EcdhSsHKDF256", "EcdhEsHKDF256"), "derive wrap": ("EcdhSsA128KW", "EcdhEsA128KW")}
# the same for the other side's key and for receiving
AGREED = [w + x for w in ("derive", "derive wrap") for x in (" peer", " receive", " receive peer")]


def gated(E, P, what, key_of, alg_name, permitted):
    """alg and key_ops in the key: symbolic numbers"""
    n, has_alg = E.choice("restrictions", [(None, False), (None, True), (0, False), (1, False), (1, True), (2, False)])
    if E.tier == "thorough" and n == 2:
        has_alg = E.choice("both", [False, True])
    ops = None
    if n is not None:
        ops = [E.int("op%d" % i, 1, 10) for i in range(n)]
    alg = E.int("key.alg", -260, 40) if has_alg else None
    params = {}
    if ops is not None:
        params[4] = ops
    if has_alg:
        if n and E.tier == "quick":
            E.assume(E.any(E.eq(alg, lib.ALG_ID[alg_name]), E.eq(alg, -260), E.eq(alg, 26)))
        E.assume(E.any(*[E.eq(alg, v[0]) for v in ALGS.values()]))
        params[3] = alg
    # what else the key carries has no influence
    if E.choice("other parameters", [False, True]) if n in (None, 1) or E.tier == "thorough" else n == 0:
        params.update({2: E.bytes("kid", 1, 2), 5: E.bytes("base", 1, 2), 99: [1]})
    key = key_of(params)
    r = E.run(use, E, P, what, key, alg_name)
    alg_ok = E.eq(alg, lib.ALG_ID[alg_name]) if has_alg else True
    ops_ok = True if not n else E.any(*[E.eq(o, p) for o in ops for p in permitted])
    E.check(E.iff(r.ok, E.all(alg_ok, ops_ok)), "permitted exactly if the key's algorithm and operations permit it")
    if not r.ok:
        E.check(E.implies(E.not_(alg_ok), r.raised("CoseIllegalAlgorithm")), "CoseIllegalAlgorithm")
        E.check(E.implies(alg_ok, r.raised("CoseIllegalKeyOps")), "CoseIllegalKeyOps")


@case("K01", what=sorted(SIGNS), alg=["Es256", "EdDSA"], thorough={"alg": ["Es256", "EdDSA", "Ps256"]})
def sign_usage(E, P, what, alg):
    """Signing needs a key without operations or with 'sign', verifying 'verify', and an algorithm in the key must be
    the message's; for every pair of operation numbers and every registered algorithm in the key."""
    gated(E, P, what, lambda ps: lib.sig_key(E, P, alg, params=ps)[0], alg, SIGNS[what])


@case("K01", what=sorted(SYMS))
def symmetric_usage(E, P, what):
    """The same for MACs, content encryption and key wrapping."""
    alg, other, permitted = SYMS[what]
    gated(E, P, what, lambda ps: P.SymmetricKey(k=bytes(range(16)), optional_params=ps), alg, permitted)


@case("K01", what=["wrap", "unwrap oaep"])
def oaep_usage(E, P, what):
    """The same for RSA key transport."""
    gated(E, P, what, lambda ps: lib.sig_key(E, P, "Ps256", params=ps)[0], "RsaesOaepSha256",
          [3, 5] if what == "wrap" else [4, 6])


@case("K01", what=sorted(AGREE))
def agreement_usage(E, P, what):
    """The same for key agreement (derive key or derive bits)."""
    gated(E, P, what, lambda ps: lib.ec_key(E, P, "P256", 0, params=ps), AGREE[what][0], [7, 8])


@case("K01", what=AGREED, static=[True, False])
def agreed_usage(E, P, what, static):
    """The same for the receiver's key when sending, and for the receiver's own key and the sender's key in the message
    when receiving; static and ephemeral senders."""
    name = {True: ["EcdhSsHKDF256", "EcdhSsA128KW"], False: ["EcdhEsHKDF512", "EcdhEsA256KW"]}[static]["wrap" in what]
    n = 1 if "receive" in what and "peer" not in what else 0
    gated(E, P, what, lambda ps: lib.ec_key(E, P, "P256", n, public=n == 0 and "peer" in what, params=ps), name, [7, 8])


def keys_of_all_kinds(E, P):
    return {"EC2 P256": lib.ec_key(E, P, "P256"), "EC2 P384": lib.ec_key(E, P, "P384"),
            "EC2 P521": lib.ec_key(E, P, "P521"), "EC2 SECP256K1": lib.ec_key(E, P, "SECP256K1"),
            "OKP Ed25519": lib.sig_key(E, P, "EdDSA")[0], "OKP Ed448": lib.sig_key(E, P, "EdDSA", ed448=True)[0],
            "OKP X25519": P.OKPKey(crv=P.crv.X25519, x=E.mat("OKP", "X25519", 0)[1], d=E.mat("OKP", "X25519", 0)[0]),
            "RSA": lib.sig_key(E, P, "Ps256")[0], "symmetric": P.SymmetricKey(k=bytes(range(16))), "none": None}


FITS = {"Es256": ["EC2 P256"], "Es384": ["EC2 P384"], "Es512": ["EC2 P521"], "EdDSA": ["OKP Ed25519", "OKP Ed448"],
        "Ps256": ["RSA"], "RsaPkcs1Sha256": ["RSA"], "HMAC256": ["symmetric"], "A128GCM": ["symmetric"],
        "AESMAC12864": ["symmetric"], "A128KW": ["symmetric"], "RsaesOaepSha256": ["RSA"], "EcdhSsHKDF256": ["EC2 P256"],
        "EcdhSsA128KW": ["EC2 P256"]}


@case("K01", alg=sorted(FITS))
def key_kinds(E, P, alg):
    """Every operation refuses keys of another type or curve than its algorithm's, and a missing key."""
    ops = {"E": SIGNS, "P": SIGNS, "R": SIGNS}.get(alg[0], {}) if not alg.startswith("Ecdh") else {}
    if alg in ("HMAC256", "AESMAC12864"):
        ops = ["mac", "mac verify", "mac direct", "mac direct verify"]
    elif alg == "A128GCM":
        ops = ["encrypt", "decrypt", "encrypt direct", "decrypt direct"]
    elif alg == "RsaesOaepSha256":
        ops = ["wrap", "unwrap oaep"]
    elif alg == "A128KW":
        ops = ["wrap", "unwrap"]
    elif alg == "EcdhSsHKDF256":
        ops = ["derive"]
    elif alg == "EcdhSsA128KW":
        ops = ["derive wrap"]
    what = E.choice("what", sorted(ops))
    kinds = keys_of_all_kinds(E, P)
    kind = E.choice("kind", sorted(kinds))
    r = E.run(use, E, P, what, kinds[kind], alg)
    E.check(r.ok == (kind in FITS[alg]), "accepted exactly with a key of the algorithm's kind")


def sample_key(E, P, kind, params=None, few=False):
    """(key, wire map without the optional parameters) with symbolic contents where the type allows"""
    if kind == "symmetric":
        k = E.bytes("k", E.choice("klen", [16, 24, 32]) if not few else 24)
        return P.SymmetricKey(k=k, optional_params=params), {1: 4, -1: k}
    if kind.startswith("OKP"):
        crv = E.choice("crv", ["Ed25519", "X25519", "Ed448", "X448"]) if not few else "X448"
        n = CURVES[crv][2]
        x, d = E.bytes("x", n), E.bytes("d", n)
        part = E.choice("part", ["x", "d", "both"])
        w = {1: 1, -1: CURVES[crv][0]}
        kw = {}
        if part in ("x", "both"):
            kw["x"] = w[-2] = x
        if part in ("d", "both"):
            kw["d"] = w[-4] = d
        return P.OKPKey(crv=getattr(P.crv, crv), optional_params=params, **kw), w
    if kind == "EC2":
        crv = E.choice("crv", ["P256", "P384", "P521", "SECP256K1"]) if not few else "P384"
        d, x, y = E.mat("EC2", crv, 1)
        part = E.choice("part", ["public", "private"])
        w = {1: 2, -1: CURVES[crv][0], -2: x, -3: y}
        if part == "private":
            w[-4] = d
        return P.EC2Key(crv=getattr(P.crv, crv), x=x, y=y, d=d if part == "private" else b"",
                        optional_params=params), w
    if kind == "EC2 symbolic":
        crv = E.choice("crv", ["P256", "P384"])
        n = CURVES[crv][2]
        x, y = E.bytes("x", n), E.bytes("y", n)
        return P.EC2Key(crv=getattr(P.crv, crv), x=x, y=y, optional_params=params), {1: 2, -1: CURVES[crv][0],
                                                                                      -2: x, -3: y}
    names = ["e", "n", "d", "p", "q", "dp", "dq", "qinv", "r_i", "d_i", "t_i"]
    label = dict(n=-1, e=-2, d=-3, p=-4, q=-5, dp=-6, dq=-7, qinv=-8, r_i=-10, d_i=-11, t_i=-12)
    part = E.choice("part", ["public", "two primes"])
    have = names[:2] if part == "public" else names[:8]
    vals = {f: E.bytes("rsa." + f, 1, 2) for f in have}
    w = {1: 3}
    for f in have:
        w[label[f]] = vals[f]
    return P.RSAKey(optional_params=params, **vals), w


RSA_NAMES = {-1: ("RSAKpN", "N"), -2: ("RSAKpE", "E"), -3: ("RSAKpD", "D"), -4: ("RSAKpP", "P"), -5: ("RSAKpQ", "Q"),
             -6: ("RSAKpDP", "DP"), -7: ("RSAKpDQ", "DQ"), -8: ("RSAKpQInv", "QINV")}
RSA_MULTI = RSA_NAMES | {-9: ("RSAKpOther", "OTHER"), -10: ("RSAKpRi", "R_I"), -11: ("RSAKpDi", "D_I"),
                         -12: ("RSAKpTi", "T_I")}
KEYKINDS = ["symmetric", "OKP", "EC2", "EC2 symbolic", "RSA"]


@case("K02", kind=KEYKINDS)
def key_round_trip(E, P, kind):
    """A key encodes as the map of its IANA labels and values, decodes to an equal key of the same type, and encodes
    to the same bytes again; optional and unknown parameters keep their values."""
    K = P.kp
    kid, base, n = E.bytes("kid", 0, 2), E.bytes("base", 0, 2), E.int("n", 100, 70000)
    params = {K.KpKid: kid, K.KpAlg: P.alg.Es256, K.KpKeyOps: [P.ops.SignOp, P.ops.VerifyOp], K.KpBaseIV: base, n: kid,
              "text": [n]}
    key, w = sample_key(E, P, kind, params)
    want = {2: kid, 3: -7, 4: [1, 2], 5: base, n: kid, "text": [n]}
    want.update(w)
    out = key.encode()
    m = E.decode(out)
    E.check(E.eq(m, want), "labels and values")
    E.check(E.eq(out, E.cbor(m)), "deterministic encoding")
    back = P.CoseKey.decode(out)
    E.check(type(back) is type(key), "same type")
    E.check(E.eq(dict(back), dict(key)), "equal")
    E.check(E.eq(E.decode(back.encode()), want), "the same map again")
    E.check(E.eq([back.kid, back.base_iv], [kid, base]) and back.alg is P.alg.Es256
            and back.key_ops == [P.ops.SignOp, P.ops.VerifyOp], "its parameters")


@case("K02", kind=["symmetric", "OKP", "EC2", "RSA"], style=["class", "number", "name", "lower", "title"])
def key_spellings(E, P, kind, style):
    """Keys from maps with classes, numbers or names (in any letter case) as labels and values are equal; the caller's
    map is left alone."""
    K = P.kp
    letters = {"lower": str.lower, "title": str.title}.get(style, str)
    style = "name" if style in ("lower", "title") else style
    key, w = sample_key(E, P, kind)
    kid = E.bytes("kid", 1, 3)
    common = {1: ("KpKty", "KTY"), 2: ("KpKid", "KID"), 3: ("KpAlg", "ALG"), 4: ("KpKeyOps", "KEY_OPS"),
              5: ("KpBaseIV", "BASE_IV")}
    own = {"symmetric": {-1: ("SymKpK", "K")},
           "OKP": {-1: ("OKPKpCurve", "CURVE"), -2: ("OKPKpX", "X"), -4: ("OKPKpD", "D")},
           "EC2": {-1: ("EC2KpCurve", "CURVE"), -2: ("EC2KpX", "X"), -3: ("EC2KpY", "Y"), -4: ("EC2KpD", "D")},
           "RSA": RSA_NAMES}[kind]
    full = dict(w)
    full.update({2: kid, 3: 1, 4: [3, 4]})
    spell = {}
    for k, v in full.items():
        c, name = (common | own)[k]
        lab = {"class": getattr(K, c), "number": k, "name": letters(name)}[style]
        if k == 1 and style != "number":
            t = {1: "OKP", 2: "EC2", 3: "RSA", 4: "SYMMETRIC"}[v]
            v = getattr(P.kty, {"OKP": "KtyOKP", "EC2": "KtyEC2", "RSA": "KtyRSA", "SYMMETRIC": "KtySymmetric"}[t]) \
                if style == "class" else letters(t)
        if k == 3 and style != "number":
            v = P.alg.A128GCM if style == "class" else letters("A128GCM")
        if k == 4 and style != "number":
            v = [P.ops.EncryptOp, P.ops.DecryptOp] if style == "class" else [letters("ENCRYPT"), "decrypt"]
        if k == -1 and kind in ("OKP", "EC2") and style != "number":
            c, r = [(c, r) for c, r in CURVES.items() if r[0] == v][0]
            v = getattr(P.crv, c) if style == "class" else letters(r[1])
        spell[lab] = v
    n = len(spell)
    got = P.CoseKey.from_dict(spell)
    E.check(E.eq(E.decode(got.encode()), full), "the same key")
    E.check(len(spell) == n, "the map still has its entries")
    E.check(type(got) is type(key), "of the same type")


@case("K02", style=["class", "number", "name", "lower"])
def rsa_multi_prime(E, P, style):
    """An RSA key with more than two primes keeps every parameter when it is encoded, decoded and read."""
    K = P.kp
    vals = {k: E.bytes("v%d" % -k, 1, 2) for k in RSA_MULTI if k != -9}
    vals[-9] = [{-10: E.bytes("o", 1, 2), -11: b"d", -12: b"t"}]

    def lab(k):
        c, name = RSA_MULTI[k]
        return {"class": getattr(K, c), "number": k, "name": name, "lower": name.lower()}[style]
    kid = E.bytes("kid", 0, 2)
    want = {1: 3, 2: kid} | vals
    args = {"n": -1, "e": -2, "d": -3, "p": -4, "q": -5, "dp": -6, "dq": -7, "qinv": -8, "other": -9, "r_i": -10,
            "d_i": -11, "t_i": -12}
    if E.choice("made", ["map", "constructor"]) == "map":
        key = P.CoseKey.from_dict({lab(k): v for k, v in vals.items()} | {"KTY": 3, "KID": kid})
    else:
        key = P.RSAKey(optional_params={2: kid}, **{a: vals[k] for a, k in args.items()})
    E.check(E.eq(E.decode(key.encode()), want), "every parameter")
    back = P.CoseKey.decode(key.encode())
    E.check(E.eq(dict(back), dict(key)) and type(back) is P.RSAKey, "equal")
    for a, k in args.items():
        E.check(E.eq([getattr(back, a), back[lab(k)]], [vals[k], vals[k]]), "reads back " + a)
    E.check(E.run(back.__delitem__, lab(E.choice("deleted", sorted(vals)))).raised("CoseInvalidKey"),
            "no parameter of it can be deleted")


@case("K02", style=["class", "number", "name"])
def falsy_values(E, P, style):
    """Values that are false in a condition are values: a compressed y of false, an empty kid or base IV, and unknown
    parameters, with every spelling of the labels, from the map and from the constructor's parameters."""
    K = P.kp
    names = {1: ("KpKty", "KTY"), 2: ("KpKid", "KID"), 5: ("KpBaseIV", "BASE_IV"), -1: ("EC2KpCurve", "CURVE"),
             -2: ("EC2KpX", "X"), -3: ("EC2KpY", "Y")}

    def lab(k):
        return {"class": getattr(K, names[k][0]), "number": k, "name": names[k][1]}[style] if k in names else k
    d, x, y = E.mat("EC2", "P256", E.choice("i", [0, 1]))
    sign = E.choice("sign", [False, True])
    kid, base = E.bytes("kid", 0, 2), E.bytes("base", 0, 2)
    u = E.choice("unknown", [0, b"", "", False, None])
    extra = {2: kid, 5: base, 99: u}
    m = {1: 2, -1: 1, -2: x, -3: sign}
    m.update(extra)
    k = P.CoseKey.from_dict({lab(l): v for l, v in m.items()})
    E.check(E.eq(k.y, y) if sign == bool(y[-1] & 1) else E.not_(E.eq(k.y, y)), "y of the given sign")
    E.check(len(k.y) == 32 and bool(k.y[-1] & 1) == sign, "with that sign")
    got = E.decode(k.encode())
    E.check(E.eq([got[2], got[5], got[99]], [kid, base, u]), "every parameter")
    k = P.SymmetricKey(k=b"0123456789abcdef", optional_params={lab(l): v for l, v in extra.items()})
    E.check(E.eq(E.decode(k.encode()), {1: 4, -1: b"0123456789abcdef", 2: kid, 5: base, 99: u}), "from the constructor")


@case("K02", kind=["EC2", "OKP", "symmetric"])
def key_mapping(E, P, kind):
    """Reading and setting parameters through classes, numbers and names is the same."""
    K = P.kp
    key, w = sample_key(E, P, kind)
    kid = E.bytes("kid", 0, 3)
    lab = E.choice("set", [K.KpKid, 2, "KID", "kid"])
    key[lab] = kid
    for g in (K.KpKid, 2, "KID", "kid"):
        E.check(E.eq(key[g], kid), "read")
        E.check(g in key, "member")
    E.check(E.eq(key.kid, kid), "property")
    E.check(len(key) == len(w) + 1, "one entry")
    for absent in (K.KpBaseIV, 5, "BASE_IV", 777):
        E.check(absent not in key and E.run(key.__getitem__, absent).raised("KeyError"), "absent")
    n = E.int("n", 100, 1000)
    key[n] = kid
    E.check(E.eq(E.decode(key.encode()), dict(w) | {2: kid, n: kid}), "encoded")


@case("K03", tier_=["q"])
def symmetric_validity(E, P, tier_):
    """A symmetric key is 16, 24 or 32 bytes; any other value is refused, constructing, decoding and assigning."""
    t = E.choice("type", ["bytes", "str", "int", "none"])
    v = {"bytes": E.bytes("k", 0, 40), "str": E.str("s", 16), "int": 16, "none": None}[t]
    good = E.any(*[E.eq(len(v), n) for n in (16, 24, 32)]) if t == "bytes" else False
    r = E.run(P.SymmetricKey, k=v)
    E.check(E.iff(r.ok, good), "constructed exactly with a legal key")
    if t == "bytes":
        E.check(r.ok or r.raised("CoseInvalidKey"), "CoseInvalidKey")
        r = E.run(P.CoseKey.decode, E.cbor({1: 4, -1: v}))
        E.check(E.iff(r.ok, good), "decoded exactly with a legal key")
        if r.ok:
            E.check(E.eq(r.value.k, v), "the key it carried")
    else:
        E.check(r.raised("ValueError"), "ValueError")
    key = P.SymmetricKey(k=b"o" * 16)
    r = E.run(setattr, key, "k", v)
    E.check(E.iff(r.ok, good), "assigned exactly if legal")
    if r.ok:
        E.check(E.eq(key.k, v), "the new key")
    else:
        E.check(key.k == b"o" * 16, "the old key")


@case("K03", part=["public", "two primes", "multi prime", "one more", "one less"])
def rsa_validity(E, P, part):
    """An RSA key has n and e only, or all two-prime parameters, or all multi-prime parameters: every other selection
    of the parameters is refused."""
    two = ["e", "n", "d", "p", "q", "dp", "dq", "qinv"]
    multi = ["r_i", "d_i", "t_i"]
    if part == "public":
        vals = {f: E.bytes(f, 0, 1) for f in ("n", "e", "d", "p")}
    elif part == "two primes":
        vals = {f: E.bytes(f, 1) for f in two}
        for f in ("n", "d", "q", "qinv"):
            vals[f] = E.bytes(f + "_", 0, 1)
    elif part == "multi prime":
        vals = {f: E.bytes(f, 1) for f in two}
        vals.update({f: E.bytes(f + "_", 0, 1) for f in multi})
        vals["other"] = E.choice("other", [None, [], [{-10: b"x"}]])
    elif part == "one more":
        vals = {"n": b"n", "e": b"e", E.choice("f", two[2:] + multi): E.bytes("v", 0, 2)}
    else:
        vals = {f: b"v" for f in two}
        vals[E.choice("f", two)] = E.bytes("v", 0, 2)
    has = {f: (len(vals[f]) > 0 if f in vals and vals[f] is not None else False) for f in two + multi + ["other"]}
    no = [E.not_(has[f]) for f in multi + ["other"]]
    pub = E.all(has["n"], has["e"], *([E.not_(has[f]) for f in two[2:]] + no))
    priv = E.all(*([has[f] for f in two] + no))
    mp = E.all(*[has[f] for f in two + multi + ["other"]])
    r = E.run(P.RSAKey, **vals)
    E.check(E.iff(r.ok, E.any(pub, priv, mp)), "constructed exactly with one of the three selections")
    E.check(r.ok or r.raised("CoseInvalidKey"), "CoseInvalidKey")
    if r.ok:
        for f in two:
            E.check(E.eq(getattr(r.value, f), vals.get(f, b"")), "the value it was given")


@case("K03", kind=["OKP", "EC2"])
def curve_validity(E, P, kind):
    """OKP and EC2 keys need a curve of their type and at least one value; every curve number in -300..300."""
    n = E.int("crv", -300, 300)
    d, x, y = E.mat("EC2", "P256", 0)
    empty = E.choice("values", [False, True])
    mine = [v[0] for v in CURVES.values() if v[3] == ("KtyOKP" if kind == "OKP" else "KtyEC2")]
    if kind == "OKP":
        kw = {} if empty else {"x": E.bytes("x", 1, 2)}
        r = E.run(P.OKPKey, crv=n, **kw)
    else:
        kw = {} if empty else {"x": E.bytes("x", 1, 2), "y": E.bytes("y", 1, 2)}
        r = E.run(P.EC2Key, crv=n, **kw)
    ok = E.any(*[E.eq(n, m) for m in mine])
    E.check(E.iff(r.ok, E.all(ok, not empty)), "constructed exactly with a curve of the type and a value")
    E.check(r.ok or r.raised("CoseUnsupportedCurve", "CoseInvalidKey", "CoseException"), "the library's exception")
    if r.ok:
        E.check(E.eq(r.value.crv.identifier, n), "that curve")
        m = E.int("crv2", -300, 300)
        s = E.run(setattr, r.value, "crv", m)
        E.check(E.iff(s.ok, E.any(*[E.eq(m, k) for k in mine])), "assigned exactly if of the type")
        E.check(E.eq(r.value.crv.identifier, m if s.ok else n), "the new or the old curve")


@case("K03", kind=["OKP", "EC2", "symmetric", "RSA"])
def key_type_values(E, P, kind):
    """Values of another type are refused by every setter and leave the key as it was; a key type that contradicts the
    class is refused; an unknown key type does not decode."""
    key, w = sample_key(E, P, kind, few=E.tier == "quick")
    before = dict(key)
    attrs = {"OKP": ["x", "d"], "EC2": ["x", "y", "d"], "symmetric": ["k"],
             "RSA": ["n", "e", "d", "p", "q", "dp", "dq", "qinv"]}[kind] + ["kid", "base_iv"]
    a = E.choice("attr", attrs)
    bad = E.choice("bad", [None, "text", 5, [b"x"], bytearray(b"xxxxxxxxxxxxxxxx")])
    r = E.run(setattr, key, a, bad)
    E.check(r.raised("TypeError", "ValueError"), "refused")
    E.check(E.eq(dict(key), before), "as it was")
    t = E.int("kty", -3, 9)
    m = dict(w)
    m[1] = t
    r = E.run(type(key).from_dict, m)
    E.check(E.iff(r.ok, E.eq(t, w[1])), "its own type only")
    E.check(r.ok or r.raised("CoseIllegalKeyType", "CoseException"), "the library's exception")


def any_key(E, P, kind):
    """a key of the kind, (key, wire map)"""
    if kind == "symmetric":
        k = E.bytes("k", 16)
        return P.SymmetricKey(k=k), {1: 4, -1: k}
    if kind == "OKP":
        x, d = E.bytes("x", 32), E.bytes("d", 32)
        return P.OKPKey(crv=P.crv.X25519, x=x, d=d), {1: 1, -1: 4, -2: x, -4: d}
    if kind == "EC2":
        d, x, y = E.mat("EC2", "P384", 1)
        return P.EC2Key(crv=P.crv.P384, x=x, y=y, d=d), {1: 2, -1: 2, -2: x, -3: y, -4: d}
    n, e = E.bytes("rsa.n", 1, 2), E.bytes("rsa.e", 1, 2)
    return P.RSAKey(n=n, e=e), {1: 3, -1: n, -2: e}


def spellings(P, c, number, name):
    return [getattr(P.kp, c), number, name, name.lower()]


@case("K03", kind=["OKP", "EC2", "symmetric", "RSA"], how=["setter", "item"])
def assigned_type(E, P, kind, how):
    """A key's type can be assigned only its own type, in any spelling, and stays that type; the key encodes as before."""
    key, w = any_key(E, P, kind)
    before = dict(key)
    style = E.choice("style", ["number", "class", "name", "lower"])
    t = E.int("t", -3, 9) if style == "number" else E.choice("t", [1, 2, 3, 4])
    name = None if style == "number" else {1: "OKP", 2: "EC2", 3: "RSA", 4: "SYMMETRIC"}[t]
    v = t if style == "number" else name if style == "name" else name.lower() if style == "lower" else \
        getattr(P.kty, "Kty" + (name if t != 4 else "Symmetric"))
    if how == "setter":
        r = E.run(setattr, key, "kty", v)
    else:
        r = E.run(key.__setitem__, E.choice("label", spellings(P, "KpKty", 1, "KTY")), v)
    E.check(E.iff(r.ok, E.eq(t, w[1])), "assigned exactly if its own type")
    E.check(r.ok or r.raised("CoseIllegalKeyType", "CoseException"), "the library's exception")
    E.check(E.eq(dict(key), before) and key.kty is before[P.kp.KpKty], "still of its type")
    E.check(E.eq(E.decode(key.encode()), w), "encodes as before")


@case("K03", kind=["OKP", "EC2", "symmetric", "RSA"], how=["setter", "item", "update", "setdefault"])
def assigned_values(E, P, kind, how):
    """Values of key parameters are taken by property, by item and by the other mapping operations exactly if they are
    non-empty byte strings (of a legal length); what is refused leaves the key as it was, and the key encodes to one
    that decodes again."""
    key, w = any_key(E, P, kind)
    before = dict(key)
    own = {"OKP": {-2: ("OKPKpX", "x"), -4: ("OKPKpD", "d")}, "symmetric": {-1: ("SymKpK", "k")},
           "EC2": {-2: ("EC2KpX", "x"), -3: ("EC2KpY", "y"), -4: ("EC2KpD", "d")},
           "RSA": {k: (c, n.lower()) for k, (c, n) in RSA_MULTI.items()}}[kind]
    n = E.choice("n", sorted(own) + [2, 5])
    c, name = (own | {2: ("KpKid", "kid"), 5: ("KpBaseIV", "base_iv")})[n]
    lo = {2: 0, 5: 0}.get(n, 0)
    t = E.choice("type", ["bytes", "text", "int", "nil", "list", "bytearray", "memoryview", "tuple"])
    v = {"bytes": E.bytes("v", lo, 18 if kind == "symmetric" and n < 0 else 2), "text": E.str("s", 0, 2),
         "int": E.int("i", -2, 2), "nil": None, "list": E.choice("list", [[], [{-10: b"x"}]]),
         "bytearray": bytearray(b"x" * 16), "memoryview": memoryview(b"x" * 16), "tuple": (120,) * 16}[t]
    if how == "setter":
        r = E.run(setattr, key, name, v)
    else:
        label = E.choice("label", spellings(P, c, n, name.upper()))
        if how == "setdefault" and n in w:
            r = E.run(key.setdefault, label, v)
            E.check(r.ok and E.eq(r.value, w[n]) and E.eq(dict(key), before), "present: as it was")
            return
        r = E.run(key.__setitem__, label, v) if how == "item" else E.run(key.setdefault, label, v) if how == "setdefault" \
            else E.run(key.update, {label: v})
    if n == -9 and kind == "RSA":
        good = t == "list" and len(v) > 0
    elif t != "bytes":
        good = False
    elif n > 0:
        good = True
    elif kind == "symmetric":
        good = E.eq(len(v), 16)
    else:
        good = len(v) > 0
    E.check(E.iff(r.ok, good), "assigned exactly if legal")
    if r.ok:
        E.check(E.eq(dict(key), before | {getattr(P.kp, c): v}) and E.eq(getattr(key, name), v), "the new value")
        E.check(E.eq(E.decode(key.encode()), w | {n: v}), "encoded")
    else:
        E.check(r.raised("TypeError", "ValueError", "CoseInvalidKey"), "refused")
        E.check(E.eq(dict(key), before), "as it was")


@case("K03", kind=["OKP", "EC2", "symmetric", "RSA"])
def assigned_references(E, P, kind):
    """Item assignment of an algorithm, a curve or key operations resolves any spelling like the property does, and
    refuses what is unknown or of another key type; unknown labels keep any value."""
    key, w = any_key(E, P, kind)
    before = dict(key)
    what = E.choice("what", ["alg", "crv", "other"] if kind in ("OKP", "EC2") else ["alg", "other"])
    if what == "other":
        n = E.int("n", 100, 300)
        v = E.choice("kind of value", [b"", None, "x", [1], E.bytes("v", 0, 2)])
        key[n] = v
        E.check(E.eq(E.decode(key.encode()), w | {n: v}), "kept")
        return
    if what == "alg":
        label = E.choice("label", spellings(P, "KpAlg", 3, "ALG"))
        table, ns = ALGS, P.alg
    else:
        label = E.choice("label", spellings(P, {"OKP": "OKPKpCurve", "EC2": "EC2KpCurve"}[kind], -1, "CURVE"))
        table, ns = CURVES, P.crv
    style = E.choice("style", ["number", "class", "name"])
    if style == "number":
        v = n = E.int("v", -300, 300)
        known = E.any(*[E.eq(n, r[0]) for r in table.values() if what == "alg" or r[3] == "Kty" + kind]
                      + [E.eq(n, -11) if what == "alg" else False])
    else:
        c = E.choice("c", sorted(table)[::5 if what == "alg" else 1])
        n = table[c][0]
        v = getattr(ns, c) if style == "class" else table[c][1].lower()
        known = what == "alg" or table[c][3] == "Kty" + kind
    r = E.run(key.__setitem__, label, v)
    E.check(E.iff(r.ok, known), "assigned exactly if known and of the type")
    if r.ok:
        E.check(E.eq(key[label].identifier, n) and getattr(key, what) is key[label], "resolved")
        E.check(E.eq(E.decode(key.encode()), w | {3 if what == "alg" else -1: n}), "encoded")
    else:
        E.check(r.raised("CoseException", "CoseUnsupportedCurve"), "the library's exception")
        E.check(E.eq(dict(key), before), "as it was")


@case("K03", kind=["OKP", "EC2", "symmetric", "RSA"])
def optional_own_parameters(E, P, kind):
    """What the checks of a key type cover cannot be slipped in as an optional parameter, in any spelling."""
    own = {"symmetric": {-1: ("SymKpK", "K")},
           "OKP": {-1: ("OKPKpCurve", "CURVE"), -2: ("OKPKpX", "X"), -4: ("OKPKpD", "D")},
           "EC2": {-1: ("EC2KpCurve", "CURVE"), -2: ("EC2KpX", "X"), -3: ("EC2KpY", "Y"), -4: ("EC2KpD", "D")},
           "RSA": RSA_MULTI}[kind]
    n = E.choice("n", sorted(own))
    c, name = own[n]
    v = E.bytes("v", 0, 3) if not (n == -1 and kind in ("OKP", "EC2")) else E.int("v", -3, 9)
    ps = {2: E.bytes("kid", 0, 2), E.choice("label", spellings(P, c, n, name)): v}
    r = E.run(sample_key, E, P, kind, ps, True)
    E.check(r.raised("CoseInvalidKey", "CoseException"), "refused")


@case("K03", kind=["OKP", "EC2", "symmetric", "RSA"], how=["decode", "construct"])
def common_value_types(E, P, kind, how):
    """The key identifier and base IV of a key are byte strings and its operations a list, however the key is made."""
    n, c, name = E.choice("n", [(2, "KpKid", "KID"), (5, "KpBaseIV", "BASE_IV"), (4, "KpKeyOps", "KEY_OPS")])
    t = E.choice("type", ["bytes", "text", "int", "nil", "list", "bool", "map"])
    v = {"bytes": E.bytes("v", 0, 3), "text": E.str("s", 0, 3), "int": E.int("i", -20, 20), "nil": None, "bool": True,
         "list": E.choice("list", [[b"x"], [b""], [[]]]), "map": {1: b"x"}}[t]
    label = E.choice("label", spellings(P, c, n, name)[:1 if how == "decode" else None])
    if how == "construct":
        r = E.run(sample_key, E, P, kind, {label: v}, True)
    else:
        key, w = any_key(E, P, kind)
        r = E.run(P.CoseKey.decode, E.cbor(w | {n: v}))
    E.check(r.ok == (t == "bytes" and n != 4), "a byte string")
    E.check(r.ok or r.raised("TypeError", "ValueError", "CoseException"), "refused")


@case("K03", how=["decode", "from_dict"])
def unknown_key_type(E, P, how):
    """Maps without a key type or with an unknown one give the library's exception, whatever else they have."""
    t = E.int("kty", -300, 300)
    v = E.bytes("v", 0, 2)
    has = E.choice("has", [False, True])
    E.assume(E.not_(E.any(*[E.eq(t, k) for k in (1, 2, 3, 4)])))
    m = {2: v, -1: v}
    if has:
        m[1] = t
    r = E.run(P.CoseKey.decode, E.cbor(m)) if how == "decode" else E.run(P.CoseKey.from_dict, m)
    E.check(r.raised("CoseIllegalKeyType"), "CoseIllegalKeyType")


@case("K04", kind=["symmetric", "OKP", "EC2", "RSA"])
def deletion(E, P, kind):
    """Deleting a parameter, by class, number or name, removes exactly it (EC2 private keys: both coordinates
    together) or is refused; what is left is always a key that encodes and decodes."""
    K = P.kp
    kid = E.bytes("kid", 0, 2)
    key, w = sample_key(E, P, kind, {K.KpKid: kid}, few=E.tier == "quick")
    own = {"symmetric": {-1: ("SymKpK", "K")},
           "OKP": {-1: ("OKPKpCurve", "CURVE"), -2: ("OKPKpX", "X"), -4: ("OKPKpD", "D")},
           "EC2": {-1: ("EC2KpCurve", "CURVE"), -2: ("EC2KpX", "X"), -3: ("EC2KpY", "Y"), -4: ("EC2KpD", "D")},
           "RSA": RSA_NAMES}[kind]
    labels = {1: ("KpKty", "KTY"), 2: ("KpKid", "KID")} | own
    have = {1: w[1], 2: kid}
    have.update(w)
    for step in range(E.bound(2, 3)):
        n = E.choice("n%d" % step, sorted(labels))
        c, name = labels[n]
        by = "number" if kind == "RSA" and step else E.choice("by%d" % step, ["class", "number", "name"])
        lab = {"class": getattr(K, c), "number": n, "name": name}[by]
        r = E.run(key.__delitem__, lab)
        left = {k: v for k, v in have.items() if k != n}
        if kind == "EC2" and -4 in have and n in (-2, -3):
            left = {k: v for k, v in have.items() if k not in (-2, -3)}
        if kind == "symmetric":
            forbidden = n in (1, -1)
        elif kind == "OKP":
            forbidden = n in (1, -1) or (n in (-2, -4) and not (-2 in left or -4 in left))
        elif kind == "RSA":
            forbidden = n != 2
        else:
            forbidden = n in (1, -1) or (n != 2 and -4 not in left and not (-2 in left))
        if n not in have:
            E.check(not r.ok, "absent parameters cannot be deleted")
        else:
            E.check(r.ok == (not forbidden), "deleted exactly if the rest is a key")
        if r.ok:
            have = left
        else:
            E.check(r.raised("CoseInvalidKey", "KeyError"), "refused")
        E.check(E.eq(E.decode(key.encode()), have), "what is left")
        back = E.run(P.CoseKey.decode, key.encode())
        E.check(back.ok, "is still a key")


@case("K04", kind=["symmetric", "OKP", "EC2", "RSA"], how=["pop", "popitem", "clear"])
def removal(E, P, kind, how):
    """The other ways to take parameters out of a key obey the same rules: what is left encodes to a key that decodes."""
    K = P.kp
    kid = E.bytes("kid", 0, 2)
    key, w = sample_key(E, P, kind, {K.KpKid: kid} if E.choice("has kid", [True, False]) else {}, few=E.tier == "quick")
    own = {"symmetric": ["SymKpK"], "OKP": ["OKPKpCurve", "OKPKpX", "OKPKpD"],
           "EC2": ["EC2KpCurve", "EC2KpX", "EC2KpY", "EC2KpD"], "RSA": [c for c, n in RSA_NAMES.values()]}[kind]
    for step in range(1 if how == "clear" else E.bound(2, 3)):
        before = dict(key)
        if how == "pop":
            c = E.choice("c%d" % step, ["KpKty", "KpKid"] + own)
            lab = getattr(K, c)
            lab = E.choice("by%d" % step, [lab] if step and E.tier == "quick" else [lab, lab.identifier, lab.fullname])
            default = E.choice("default%d" % step, [(), (None,)]) if step == 0 else ()
            r = E.run(key.pop, lab, *default)
            if getattr(K, c) not in before:
                E.check(r.ok and r.value is None if default else not r.ok, "absent")
                E.check(E.eq(dict(key), before), "as it was")
            elif r.ok:
                E.check(E.eq(r.value, before[getattr(K, c)]), "what it was")
                E.check(getattr(K, c) not in key, "taken out")
            else:
                E.check(r.raised("CoseInvalidKey", "KeyError") and E.eq(dict(key), before), "refused, as it was")
            E.check(r.ok or c != "KpKid" or c not in before, "the identifier can be taken out")
        else:
            r = E.run(getattr(key, how))
        E.check(E.run(lambda: P.CoseKey.decode(key.encode())).ok, "is still a key")


@case("K05", crv=["P256", "P384", "P521", "SECP256K1"])
def ec2_consistency(E, P, crv):
    """A private EC2 key with public coordinates is accepted exactly if they are its public point; missing coordinates
    are computed (full width), and a compressed y gives the point with that sign."""
    d, x, y = E.mat("EC2", crv, 1)
    n = len(x)
    how = E.choice("how", ["x,y,d", "x,d", "y,d", "d", "x,bool,d", "x", "x,bool"])
    C = getattr(P.crv, crv)
    xs, ys = E.flip("x", x), E.flip("y", y)
    kw = {}
    sign = None
    if "bool" in how:
        sign = E.choice("sign", [False, True])
        kw["y"] = sign
    if how.startswith("x"):
        kw["x"] = xs if how.endswith("d") else x
    if "y" in how.split(","):
        kw["y"] = ys
    if how.endswith("d"):
        kw["d"] = d
    route = E.choice("route", ["constructor", "decode"])
    if route == "constructor":
        r = E.run(P.EC2Key, crv=C, **kw)
    else:
        m = {1: 2, -1: CURVES[crv][0]}
        for f, l in (("x", -2), ("y", -3), ("d", -4)):
            if f in kw:
                m[l] = kw[f]
        r = E.run(P.CoseKey.decode, E.cbor(m))
    odd = bool(y[-1] & 1)
    good = True
    if how.startswith("x") and how.endswith("d"):
        good = E.all(good, E.eq(xs, x))
    if "y" in how.split(","):
        good = E.all(good, E.eq(ys, y))
    if sign is not None and how.endswith("d"):
        good = E.all(good, sign == odd)
    E.check(E.iff(r.ok, good), "accepted exactly if consistent")
    if r.ok:
        k = r.value
        E.check(E.eq(k.x, x), "x")
        if how == "x":
            E.check(len(k.y) == n, "some y of full width")
        elif how == "x,bool":
            E.check(E.eq(k.y, y) if sign == odd else E.not_(E.eq(k.y, y)), "y of the given sign")
            E.check(len(k.y) == n and bool(k.y[-1] & 1) == sign, "full width and sign")
        else:
            E.check(E.eq(k.y, y), "y")
        E.check(E.eq(k.d, d if how.endswith("d") else b""), "d")


@case("K05", kind=["EC2", "OKP", "RSA"], private=[False, True])
def pem(E, P, kind, private):
    """Keys read from PEM have the numbers of the key, coordinates and private values at the curve's full width
    whatever their leading zeroes, and the caller's optional parameters."""
    K = P.kp
    kid = E.bytes("kid", 0, 3)
    i = E.choice("i", [0, 1, 2])
    if kind == "EC2":
        crv = E.choice("crv", ["P256", "P384", "P521", "SECP256K1"])
        d, x, y = E.mat("EC2", crv, i)
        want = {1: 2, 2: kid, -1: CURVES[crv][0], -2: x, -3: y}
        if private:
            want[-4] = d
        text = lib.pem_ec(crv, d, private)
    elif kind == "OKP":
        crv = E.choice("crv", ["Ed25519", "Ed448", "X25519", "X448"])
        d, x = E.mat("OKP", crv, i % 2)
        want = {1: 1, 2: kid, -1: CURVES[crv][0], -2: x}
        if private:
            want[-4] = d
        text = lib.pem_okp(crv, d, private)
    else:
        m = E.mat("RSA", None, i % 2)
        want = {1: 3, 2: kid, -1: m["n"], -2: m["e"]}
        if private:
            want.update({-3: m["d"], -4: m["p"], -5: m["q"], -6: m["dp"], -7: m["dq"], -8: m["qinv"]})
            want = {k: (v.lstrip(b"\0") if k in (-3, -4, -5, -6, -7, -8) else v) for k, v in want.items()}
        text = lib.pem_rsa(m, private)
    f = P.CoseKey.from_pem_private_key if private else P.CoseKey.from_pem_public_key
    key = f(text, optional_params={K.KpKid: kid})
    E.check(E.eq(E.decode(key.encode()), want), "numbers of the key")
    E.check(E.eq(dict(f(text)), {k: v for k, v in dict(key).items() if k is not K.KpKid}), "without parameters")


@case("K05", kind=["EC2", "OKP"])
def generation(E, P, kind):
    """Generated keys have the requested curve, public and private values of full width, and the caller's parameters;
    curves of another type are refused."""
    K = P.kp
    kid = E.bytes("kid", 0, 3)
    crv = E.choice("crv", sorted(CURVES))
    number, name, size, kty = CURVES[crv]
    c = P.EC2Key if kind == "EC2" else P.OKPKey
    sp = E.choice("spelling", [getattr(P.crv, crv), number, name])
    r = E.run(c.generate_key, sp, {K.KpKid: kid})
    E.check(r.ok == (kty == "Kty" + kind), "curves of the type")
    if r.ok:
        k = r.value
        E.check(k.crv is getattr(P.crv, crv) and E.eq(k.kid, kid), "curve and parameters")
        E.check(len(k.x) == size and len(k.d) == size and (kind == "OKP" or len(k.y) == size), "full width")
    else:
        E.check(r.raised("CoseUnsupportedCurve"), "CoseUnsupportedCurve")


@case("K05", tier_=["q"])
def symmetric_generation(E, P, tier_):
    """Generated symmetric keys have the requested length, are drawn anew and keep the caller's parameters; other
    lengths are refused."""
    K = P.kp
    kid = E.bytes("kid", 0, 3)
    n = E.int("n", -10, 70)
    r = E.run(P.SymmetricKey.generate_key, n, {K.KpKid: kid})
    E.check(E.iff(r.ok, E.any(E.eq(n, 16), E.eq(n, 24), E.eq(n, 32))), "16, 24 or 32 bytes")
    if r.ok:
        E.check(E.eq(len(r.value.k), n) and E.eq(r.value.kid, kid), "length and parameters")
        E.check(E.not_(E.eq(P.SymmetricKey.generate_key(n).k, r.value.k)), "another key every time")


@case("K05", tier_=["q"])
def rsa_generation(E, P, tier_):
    """Generated RSA keys have the requested size, all private values, consistent, and the caller's parameters."""
    K = P.kp
    kid = E.bytes("kid", 0, 3)
    k = P.RSAKey.generate_key(1024, {K.KpKid: kid})
    v = {f: int.from_bytes(getattr(k, f), "big") for f in ("n", "e", "d", "p", "q", "dp", "dq", "qinv")}
    E.check(v["n"].bit_length() == 1024 and v["p"] * v["q"] == v["n"], "size and primes")
    E.check(v["dp"] == v["d"] % (v["p"] - 1) and v["dq"] == v["d"] % (v["q"] - 1)
            and v["qinv"] * v["q"] % v["p"] == 1, "CRT values")
    E.check(v["e"] * v["dp"] % (v["p"] - 1) == 1 and v["e"] * v["dq"] % (v["q"] - 1) == 1, "exponents")
    E.check(E.eq(k.kid, kid), "parameters")


@case("K06", kind=["symmetric", "EC2", "OKP", "RSA"], how=["setter", "item", "constructor"])
def key_operations(E, P, kind, how):
    """The setter, and item assignment, take exactly the operations of the key type (numbers, names or classes), replaces the previous ones,
    an empty list removes the restriction, and a refused list changes nothing."""
    legal = {"symmetric": [3, 4, 5, 6, 9, 10], "RSA": [1, 2, 3, 4, 5, 6, 7, 8]}.get(kind, [1, 2, 7, 8])
    init = [P.ops.EncryptOp] if kind == "symmetric" else [P.ops.SignOp]
    ps = {P.kp.KpKeyOps: init}
    key, w = sample_key(E, P, kind, ps, few=E.tier == "quick") if kind != "EC2" else (lib.ec_key(E, P, "P256", params=ps), None)
    if how == "constructor":
        a = E.int("a", -5, 15)
        key, w = None, None
        r = E.run(P.SymmetricKey, k=b"k" * 16, optional_params={4: [a, 3]}) if kind == "symmetric" else \
            E.run(P.OKPKey, crv=6, x=b"x" * 32, optional_params={4: [a, 3]})
        E.check(E.iff(r.ok, E.all(a >= 1, a <= 10)), "known operations")
        if r.ok:
            E.check(E.eq([o.identifier for o in r.value.key_ops], [a, 3]), "kept")
        return
    n = E.choice("n", [0, 1, 2])
    ops, want = [], []
    for i in range(n):
        style = E.choice("style%d" % i, ["number", "name", "class", "any case"]) if i == 0 else "number"
        if style == "any case":
            k = E.choice("op%d.c" % i, sorted(OPS))
            v = E.str("op%d.s" % i, len(OPS[k][1]))
            E.assume(E.eq(v.upper(), OPS[k][1]))
            ops.append(v)
            want.append(OPS[k][0])
        elif style == "number":
            v = E.int("op%d" % i, -2, 13)
            ops.append(v)
            want.append(v)
        else:
            k = E.choice("op%d.c" % i, sorted(OPS))
            ops.append(getattr(P.ops, k) if style == "class" else OPS[k][1])
            want.append(OPS[k][0])
    if how == "setter":
        r = E.run(setattr, key, "key_ops", ops)
    else:
        r = E.run(key.__setitem__, E.choice("label", [P.kp.KpKeyOps, 4, "KEY_OPS", "key_ops"]), ops)
    good = E.all(*[E.any(*[E.eq(v, l) for l in legal]) for v in want]) if n else True
    E.check(E.iff(r.ok, good), "accepted exactly with operations of the key type")
    if r.ok:
        E.check(E.eq([o.identifier for o in key.key_ops], want), "replaced")
        m = E.decode(key.encode())
        E.check((4 in m) == (n > 0), "no empty list is encoded")
        if n:
            E.check(E.eq(m[4], want), "encoded")
    else:
        E.check(r.raised("CoseIllegalKeyOps"), "CoseIllegalKeyOps")
        E.check(key.key_ops == init, "a refused list changes nothing")


@case("K06", kind=["symmetric", "EC2", "OKP"])
def empty_operations(E, P, kind):
    """An empty list of operations means no restriction and is never encoded."""
    v = E.bytes("v", 0, 2)
    ps = {4: [], 2: v}
    key = {"symmetric": lambda: P.SymmetricKey(k=b"k" * 16, optional_params=ps),
           "EC2": lambda: lib.ec_key(E, P, "P256", params=ps),
           "OKP": lambda: P.OKPKey(crv=6, x=b"x" * 32, optional_params=ps)}[kind]()
    E.check(key.key_ops == [] and 4 not in E.decode(key.encode()), "no restriction")
    E.check(len(ps) == 2, "the caller's parameters are left alone")
    back = P.CoseKey.decode(E.cbor(E.decode(key.encode()) | {4: []}))
    E.check(back.key_ops == [] and 4 not in E.decode(back.encode()), "nor when decoded")


@case("K08", n=[0, 1, 2, 3, 4, 5, 6, 16, 57, 58, 76, 100], thorough={"n": list(range(0, 34)) + [56, 57, 58, 59, 60, 75, 76, 77,
                                                                                           100, 114, 115, 200]})
def base64_inverse(E, P, n):
    """Decoding the base64 text of any bytes, standard or URL-safe, padded or not, gives the bytes."""
    # of long strings only parts are symbolic
    b = E.bytes("b", n) if n < 34 else E.bytes("b", 3) + bytes(i * 5 & 0xff for i in range(n - 5)) + E.bytes("c", 2)
    t = P.CoseKey.base64encode(b)
    E.check(len(t) == (n + 2) // 3 * 4, "padded length")
    pad = (3 - n % 3) % 3
    strip = E.choice("strip", [False, True])
    if strip and pad:
        t = t[:len(t) - pad]
    url = E.choice("url", [False, True])
    if url:
        t = t.replace("+", "-").replace("/", "_")
    E.check(E.eq(P.CoseKey.base64decode(t), b), "the same bytes")


@case("K08", n=[1, 5, 9])
def base64_impossible(E, P, n):
    """Text of a length no bytes encode to is refused."""
    t = E.str("t", n)
    E.check(E.run(P.CoseKey.base64decode, t).raised("ValueError"), "ValueError")
