"""Printing messages, recipients, signers and keys."""
from vt.registry import case
from . import lib
from .h_wire import KINDS, CLASS, TAGS, IV

HDRS = ["empty", "iv", "partial iv", "kid", "unknown", "text", "keys", "x5", "party", "falsy"]


def bucket(E, P, name, shape, secret=None):
    """(library headers, wire headers) of a shape; `secret` goes into the keys in a header"""
    H = P.headers
    v = E.bytes(name + ".v", 0, 8)
    if shape == "iv":
        return {H.IV: v}, {5: v}
    if shape == "partial iv":
        return {H.PartialIV: v}, {6: v}
    if shape == "kid":
        return {H.KID: v, H.ContentType: "text/plain"}, {4: v, 3: "text/plain"}
    if shape == "unknown":
        n = E.int(name + ".n", -70000, 70000)
        E.assume(E.any(E.eq(n, -300), E.eq(n, 300)))
        return {n: [v, n, None]}, {n: [v, n, None]}
    if shape == "text":
        t = E.str(name + ".t", 1, 2)
        E.assume(E.not_(E.eq(t.upper(), "IV")))
        return {t: v, "other": {}}, {t: v, "other": {}}
    if shape == "keys":
        k = P.OKPKey(crv=P.crv.X25519, x=v + b"x")
        return {H.EphemeralKey: k, H.StaticKeyID: v}, {-1: {1: 1, -1: 4, -2: v + b"x"}, -3: v}
    if shape == "x5":
        return {H.X5bag: v, H.X5chain: [v, v], H.X5t: [-16, v]}, {32: v, 33: [v, v], 34: [-16, v]}
    if shape == "party":
        return {H.PartyUNonce: v, H.PartyVOther: v, H.Salt: v}, {-22: v, -26: v, -20: v}
    if shape == "falsy":
        return {700: None, 701: False, 702: 0, 703: b"", 704: ""}, {700: None, 701: False, 702: 0, 703: b"", 704: ""}
    return {}, {}


def alg_of(P, kind):
    return {"sign1": P.alg.EdDSA, "sign": P.alg.EdDSA, "mac0": P.alg.HMAC256, "mac": P.alg.HMAC256,
            "enc0": P.alg.A128GCM, "enc": P.alg.A128GCM}[kind]


def shown(E, x):
    r = E.run(repr, x)
    E.check(r.ok and isinstance(r.value, str), "can be printed")
    return r.value


def element(E, P, kind, ph, uh, payload, key):
    """a signer of COSE_Sign, a recipient of COSE_Encrypt or the message itself"""
    H = P.headers
    c = getattr(P, CLASS[kind])
    if kind == "sign":
        s = P.CoseSignature(phdr=lib.merge({H.Algorithm: alg_of(P, kind)}, ph), uhdr=uh, key=key)
        return c(payload=payload, signers=[s]), s
    if kind in ("mac", "enc"):
        rc = P.KeyWrap(phdr={}, uhdr=lib.merge({H.Algorithm: P.alg.A128KW}, uh), key=key)
        return c(phdr=lib.merge({H.Algorithm: alg_of(P, kind)}, ph), payload=payload, recipients=[rc]), rc
    m = c(phdr=lib.merge({H.Algorithm: alg_of(P, kind)}, ph), uhdr=uh, payload=payload, key=key)
    return m, m


@case("X03", kind=KINDS, where=["phdr", "uhdr"])
def print_built(E, P, kind, where):
    """A message made by the application, its recipient or signer, prints in every state (no payload, empty payload,
    every header parameter); the text does not depend on the key; headers, payload, key are as before."""
    H = P.headers
    shape = E.choice("shape", HDRS)
    one, _ = bucket(E, P, "h", shape)
    ph, uh = (one, {}) if where == "phdr" else ({}, one)
    payload = E.bytes("payload", 0, 8) if E.choice("has payload", [True, False]) else None
    if kind in ("sign1", "sign"):
        k1, k2 = [lib.sig_key(E, P, "EdDSA", i=i)[0] for i in (0, 1)]
    else:
        k1, k2 = P.SymmetricKey(k=E.bytes("k1", 16)), P.SymmetricKey(k=E.bytes("k2", 16))
    m, x = element(E, P, kind, dict(ph), dict(uh), payload, k1)
    m2, _ = element(E, P, kind, dict(ph), dict(uh), payload, k2)
    before = [dict(m.phdr), dict(m.uhdr), dict(x.phdr), dict(x.uhdr)]
    t = shown(E, m)
    E.check(E.same_text(t, shown(E, m)), "the same text again")
    E.check(E.same_text(t, shown(E, m2)), "no part of the key")
    shown(E, x)
    E.check([list(d) for d in before] == [list(d) for d in (m.phdr, m.uhdr, x.phdr, x.uhdr)], "labels as before")
    for d, n in zip(before, (m.phdr, m.uhdr, x.phdr, x.uhdr)):
        E.check(E.all(*[d[q] is n[q] or E.eq(d[q], n[q]) for q in d if not hasattr(d[q], "crv")]), "values as before")
    E.check(m.payload is payload or E.eq(m.payload, payload), "payload as before")
    E.check(x.key is k1, "key as before")
    if kind in ("mac", "enc", "sign"):
        E.check(len(m.signers if kind == "sign" else m.recipients) == 1, "signers and recipients as before")


@case("X03", kind=KINDS, where=["phdr", "uhdr"])
def print_assigned(E, P, kind, where):
    """Printing leaves assigned headers as they were, also when their labels are plain names and numbers."""
    H = P.headers
    v, w = E.bytes("v", 0, 8), E.bytes("w", 0, 8)
    hdr = E.choice("hdr", [{"IV": v, "PARTIAL_IV": w}, {"IV": v}, {5: v, 6: w}, {H.IV: v, "PARTIAL_IV": w}, {"KID": v, 4: w},
                           {"IV": v, H.KID: w}, {"ALG": v}, {}])
    k = P.SymmetricKey(k=bytes(16)) if kind not in ("sign1", "sign") else lib.sig_key(E, P, "EdDSA")[0]
    m, x = element(E, P, kind, {}, {}, b"p", k)
    for o in (m, x):
        setattr(o, where, hdr)
        d = getattr(o, where)
        before = dict(d)
        t = shown(E, o)
        E.check(getattr(o, where) is d and list(d) == list(before), "labels as before")
        E.check(E.all(*[E.eq(d[q], before[q]) for q in before]), "values as before")
        E.check(E.same_text(t, shown(E, o)), "the same text again")
    shown(E, m)
    E.check(E.all(*[E.eq(getattr(o, where), hdr) for o in (m, x)]), "as assigned")


@case("X03", kind=KINDS)
def print_received(E, P, kind):
    """A received message, its recipients and signers print in every state, nil payloads and absent
    algorithms included, and printing changes nothing of what is sent on."""
    shape = E.choice("shape", HDRS)
    alg = E.choice("alg", ["own", "none"])
    a = {"own": {1: {"sign1": -8, "sign": -8, "mac0": 5, "mac": 5, "enc0": 1, "enc": 1}[kind]}, "none": {}}[alg]
    where = E.choice("where", ["phdr", "uhdr"])
    one = bucket(E, P, "h", shape)[1]
    wph, wuh = lib.merge(a, one if where == "phdr" else {}), one if where == "uhdr" else {}
    payload = E.bytes("payload", 0, 8) if E.choice("has payload", [True, False]) else None
    prot = E.cbor(wph) if len(wph) else b""
    body = [prot, wuh, payload]
    sig = E.bytes("sig", 1, 8)
    if kind == "sign":
        body = [b"", {}, payload, [[prot, wuh, sig], [b"", {}, b"s"]]]
    elif kind in ("sign1", "mac0"):
        body += [sig]
    elif kind in ("mac", "enc"):
        rcs = [[b"", {1: -3, 4: sig}, sig, [[b"", {1: -6}, b""]]], [E.cbor({1: -31}), {-1: {1: 1, -1: 4, -2: b"x"}}, b"w"]]
        body += ([sig] if kind == "mac" else []) + [rcs]
    r = E.run(P.CoseMessage.decode, E.cbor(E.tag(TAGS[kind], body)))
    E.check(r.ok, "decodes")
    m = r.value
    t = shown(E, m)
    E.check(E.same_text(t, shown(E, m)), "the same text again")
    for x in getattr(m, "signers", None) or getattr(m, "recipients", None) or []:
        shown(E, x)
    if kind == "sign1":
        out = m.encode(tag=True, sign=False)
    elif kind == "enc0" and payload is not None:
        out = m.encode(tag=True, encrypt=False)
    elif kind == "sign":
        E.check(E.eq([x.signature for x in m.signers], [sig, b"s"]),
                "signatures as before")
        E.check(E.eq(m.signers[0].phdr_encoded, prot), "signer header as before")
        return
    else:
        E.check(E.eq(m.phdr_encoded, prot), "header as before")
        return
    E.check(E.eq(out, E.cbor(E.tag(TAGS[kind], body))), "sent on as received")


RSA_SECRET = ("d", "p", "q", "dp", "dq", "qinv")


@case("X03", kind=["SYM", "OKP", "EC2", "RSA", "RSA multi"])
def print_key(E, P, kind):
    """Keys print with any parameters, known or not; the text depends on nothing of the secret values but their length
    and first five bytes, and printing leaves the key as it was."""
    n = E.int("label", -70000, 70000)
    E.assume(E.any(E.eq(n, -70000), E.eq(n, 77)))
    u = E.bytes("u", 0, 8)
    params = E.choice("params", ["none", "common", "unknown"])
    opt = {"none": {}, "common": {P.kp.KpKid: u, P.kp.KpBaseIV: u}, "unknown": {n: u, "text": [n]}}[params]
    head = E.bytes("head", 5)

    def secret(name, size):
        return [head + E.bytes("%s%d" % (name, i), size - 5) for i in (0, 1)]

    def pair(make, **two):
        return [make(**{f: v[i] for f, v in two.items()}) for i in (0, 1)]
    if kind == "SYM":
        keys = pair(lambda k: P.SymmetricKey(k=k, optional_params=opt), k=secret("k", E.choice("len", [16, 24, 32])))
    elif kind == "OKP":
        x = E.bytes("x", 0, 6)
        keys = pair(lambda d: P.OKPKey(crv=P.crv.X25519, x=x, d=d, optional_params=opt), d=secret("d", 32))
    elif kind == "EC2":
        d, x, y = E.mat("EC2", "P256", 0)
        k = P.EC2Key(crv=P.crv.P256, x=x, y=y, d=d, optional_params=opt)
        keys = [k, k]
        parts = shown(E, k)
        E.check(bytes(d).hex() not in parts and repr(bytes(d))[2:-1] not in parts, "not the whole secret")
    else:
        two = {f: secret(f, 7) for f in RSA_SECRET}
        more = {}
        if kind == "RSA multi":
            two.update({f: secret(f, 6) for f in ("r_i", "d_i", "t_i")})
            oth = secret("oth", 7)
            two["other"] = [[{-10: o, -11: o, -12: o}] for o in oth]
        keys = pair(lambda **f: P.RSAKey(n=u + b"n", e=b"\1\0\1", optional_params=opt, **f), **two)
    before = [k.encode() for k in keys]
    texts = [shown(E, k) for k in keys]
    E.check(E.same_text(texts[0], shown(E, keys[0])), "the same text again")
    E.check(E.same_text(*texts), "no more of a secret than length and first five bytes")
    E.check(E.eq(before, [k.encode() for k in keys]), "the key as before")
