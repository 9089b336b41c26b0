"""Header values of every legal type at every level, values of look-alike types, and further histories."""
from vt.registry import case
from . import lib
from .h_more import _recipient
from .h_headers import REGS, registry
from .h_mac import ref_tag
from .h_misc import ref
from .h_rcpt import DIRECT_KA, WRAP_KA, kdf_context, wire_key
from .h_wire import ALGID, CLASS, IV, KINDS, TAGS, make, received, resend


@case("W01", kind=["sign1", "mac0", "enc0", "sign", "mac", "enc", "signer", "recipient"], where=["phdr", "uhdr"])
def typed_values(E, P, kind, where):
    """Every legal value of the parameters with a defined type, in either bucket of a message, a signer or a recipient,
    reaches the receiver as it was given, text in the letter case and order it was given in."""
    H = P.headers
    b, n = E.bytes("b", 0, 3), E.int("n", 0, 70000)
    t, u = E.str("t", 0, 3), E.str("u", 1, 2)
    what = E.choice("what", ["number", "text", "crit text", "crit mixed", "crit twice", "kid", "context", "names", "media"])
    lab, wl, v = {"number": (H.ContentType, 3, n), "text": (H.ContentType, 3, t), "crit text": (H.Critical, 2, [t, u]),
                  "crit mixed": (H.Critical, 2, [u, n, t, 1]), "crit twice": (H.Critical, 2, [n, n, t, t]),
                  "kid": (H.KID, 4, b), "context": (H.KIDContext, 10, b), "names": (H.Critical, 2, ["KID", "alg", " x ", 4, 4]),
                  "media": (H.ContentType, 3, " Text/Plain; Charset=UTF-8 ")}[what]
    d = {lab: v}
    kx = {"signer": "sign", "recipient": "enc"}.get(kind, kind)
    part = kind in ("signer", "recipient")
    A = {"sign1": P.alg.EdDSA, "mac0": P.alg.HMAC256, "mac": P.alg.HMAC256, "enc0": P.alg.A128GCM,
         "enc": P.alg.A128GCM}.get(kx)
    ph = lib.merge({} if A is None else {H.Algorithm: A}, d if where == "phdr" and not part else {})
    uh = d if where == "uhdr" and not part else {}
    msg = make(E, P, kx, ph, uh, b"p")
    if kind == "signer":
        s = msg.signers[0]
        s.uhdr = {}
        (s.phdr_update if where == "phdr" else s.uhdr_update)(d)
    elif kind == "recipient":
        msg.recipients[0].uhdr = lib.merge({H.Algorithm: P.alg.Direct}, {} if where == "phdr" else d)
        msg.recipients[0].uhdr_update(d)
    out = msg.encode()
    w = E.decode(out).value
    got = P.CoseMessage.decode(out)
    if kind == "signer":
        w, got = w[3][0], got.signers[0]
    elif kind == "recipient":
        w, got, where = w[3][0], got.recipients[0], "uhdr"
    wire = E.decode(w[0]).get(wl) if where == "phdr" else w[1].get(wl)
    E.check(E.eq(wire, v), "as given on the wire")
    E.check(E.eq(getattr(got, where)[lab], v) and E.eq(got.get_attr(lab), v), "as given when read")


def in_buckets(E, P, name):
    """Salt, party identity, nonce and sender key in either bucket enter the derivation as what they are, for sender and
    receiver; what is protected also enters through the protected bytes."""
    H = P.headers
    hash_, static, kw = lib.ECDHS[name]
    v = {H.Salt: E.bytes("salt", 0, 2), H.PartyUID: E.bytes("uid", 0, 2), H.PartyVNonce: E.bytes("nonce", 0, 2)}
    wl = {H.Salt: -20, H.PartyUID: -21, H.PartyVNonce: -25}
    rc = (P.KeyAgreementWithKeyWrap if kw else P.DirectKeyAgreement)(phdr={H.Algorithm: lib.alg(P, name)})
    wph, wuh, has = {1: lib.ALG_ID[name]}, {}, {}
    for lab, nm in ((H.Salt, "salt in"), (H.PartyUID, "uid in"), (H.PartyVNonce, "nonce in"), (None, "key in")):
        where = E.choice(nm, ["phdr", "uhdr"] + (["none"] if lab else []))
        if where == "none":
            continue
        if lab is None:
            val, n, lab = wire_key(E, "P256", 0), -2 if static else -1, H.StaticKey if static else H.EphemeralKey
            obj = lib.ec_key(E, P, "P256", 0, public=True)
        else:
            obj = val = has[lab] = v[lab]
            n = wl[lab]
        (rc.phdr_update if where == "phdr" else rc.uhdr_update)({lab: obj})
        (wph if where == "phdr" else wuh)[n] = val
    rc.key = lib.ec_key(E, P, "P256", 0)
    rc.local_attrs = {H.StaticKey: lib.ec_key(E, P, "P256", 1, public=True)}
    tid, tl = (lib.ALG_ID[kw], lib.KWS[kw]) if kw else (1, 16)
    d0, x0, y0 = E.mat("EC2", "P256", 0)
    d, x, y = E.mat("EC2", "P256", 1)
    k = E.hkdf(hash_, tl, has.get(H.Salt), kdf_context(E, tid, tl, E.cbor(wph), (has.get(H.PartyUID), None, None),
                                                       (None, has.get(H.PartyVNonce), None)), E.ecdh("P256", d0, x, y))
    cek = E.bytes("cek", 16) if kw else k
    if kw:
        rc.payload = cek
    p = E.bytes("p", 0, 2)
    msg = P.EncMessage(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: IV}, payload=p, recipients=[rc])
    out = msg.encode()
    w = E.decode(out).value
    E.check(E.eq(w[3][0], [E.cbor(wph), wuh, E.keywrap(k, cek) if kw else b""]), "the recipient as specified")
    E.check(E.eq(w[2], E.seal("gcm", 16, cek, IV, E.cbor(["Encrypt", E.cbor({1: 1}), b""]), p)), "the content under that key")
    got = P.CoseMessage.decode(out)
    got.recipients[0].key = lib.ec_key(E, P, "P256", 1)
    E.check(E.eq(got.decrypt(got.recipients[0]), p), "and read")


@case("R02", name=DIRECT_KA)
def direct_buckets(E, P, name):
    in_buckets(E, P, name)


@case("R03", name=WRAP_KA)
def wrap_buckets(E, P, name):
    in_buckets(E, P, name)


@case("L01", kind=KINDS)
def nested_values(E, P, kind):
    """Two messages decoded from the same bytes share no list or map below their headers, at any level."""
    v = E.bytes("v", 0, 2)
    d = {1: ALGID[kind], 700: [v, [v]], 701: {"x": [v]}} if kind != "sign" else {700: [v, [v]], 701: {"x": [v]}}
    u = {702: [v, [v]], 703: {"x": [v]}}
    part = [b"", {1: -6, 711: [v], 710: [v]}, b""] if kind in ("mac", "enc") else \
        [E.cbor({1: -8, 710: [v]}), {711: [v]}, b"s"]
    body = [E.cbor(d), u, b"p"] + {"sign1": [b"s"], "mac0": [b"t"], "enc0": [], "sign": [[part]], "mac": [b"t", [part]],
                                  "enc": [[part]]}[kind]
    raw = E.cbor(E.tag(TAGS[kind], body))
    a = P.CoseMessage.decode(raw)
    if E.choice("second", ["before", "after"]) == "before":
        b = P.CoseMessage.decode(raw)
    else:
        b = None
    parts = lambda m: (m.signers if kind == "sign" else m.recipients)[0] if kind in ("sign", "mac", "enc") else None
    where = E.choice("where", ["phdr list", "phdr inner", "phdr map", "uhdr list", "uhdr inner", "uhdr map"]
                     + (["part", "part phdr"] if parts(a) else []))
    if where.startswith("part"):
        h = parts(a).phdr if where == "part phdr" and kind == "sign" else parts(a).uhdr
        h[711 if h is parts(a).uhdr else 710].append(7)
    else:
        h, n = (a.phdr, 700) if where.startswith("phdr") else (a.uhdr, 702)
        {"list": h[n], "inner": h[n][1], "map": h[n + 1]["x"]}[where.split()[1]].append(7)
    if b is None:
        b = P.CoseMessage.decode(raw)
    E.check(E.eq([b.phdr[700], b.phdr[701], b.uhdr[702], b.uhdr[703]], [[v, [v]], {"x": [v]}, [v, [v]], {"x": [v]}]),
            "the other message's headers")
    if parts(b):
        E.check(E.eq([parts(b).uhdr[711], parts(b).phdr[710] if kind == "sign" else parts(b).uhdr[710]], [[v], [v]]),
                "and those of its parts")


@case("W02", kind=KINDS + ["signer", "recipient"])
def other_changes(E, P, kind):
    """Changes of a received object that do not concern its protected header (unprotected header, payload, external data,
    key, local attributes, signers, recipients) keep the received protected bytes, whatever their encoding."""
    H = P.headers
    kx = {"signer": "sign", "recipient": "enc"}.get(kind, kind)
    kid, v = E.bytes("kid", 0, 2), E.bytes("v", 0, 2)
    prot = E.wire("prot", {1: -25 if kind == "recipient" else ALGID[kx], 4: kid})
    b = received(E, P, kx, b"" if kind in ("signer", "recipient") else prot, {}, b"p", b"s")
    if kind == "signer":
        b[3] = [[prot, {}, b"s"]]
    elif kind == "recipient":
        b[0], b[3] = E.cbor({1: 1}), [[prot, {-1: wire_key(E, "P256", 0)}, b""]]
    msg = P.CoseMessage.decode(E.cbor(E.tag(TAGS[kx], b)))
    o = msg.signers[0] if kind == "signer" else msg.recipients[0] if kind == "recipient" else msg
    key = {"sign1": lambda: lib.sig_key(E, P, "EdDSA")[0], "signer": lambda: lib.sig_key(E, P, "EdDSA")[0],
           "recipient": lambda: lib.ec_key(E, P, "P256", 1)}.get(kind, lambda: P.SymmetricKey(k=bytes(32)))
    acts = {"uhdr_update": lambda: o.uhdr_update({H.KIDContext: v}), "uhdr": lambda: setattr(o, "uhdr", {H.KIDContext: v}),
            "payload": lambda: setattr(o, "payload", v), "aad": lambda: setattr(o, "external_aad", v),
            "key": lambda: setattr(o, "key", key()), "local": lambda: setattr(o, "local_attrs", {H.StaticKeyID: v}),
            "lookup": lambda: o.get_attr(H.KID), "print": lambda: repr(o)}
    if kind in ("sign1", "signer"):
        acts["signature"] = lambda: setattr(o, "signature", v)
    if kind in ("enc", "mac"):
        acts["recipients"] = lambda: setattr(o, "recipients", [P.DirectEncryption(uhdr={H.Algorithm: P.alg.Direct})])
    if kind == "sign":
        acts["signers"] = lambda: setattr(o, "signers", list(o.signers))
    for i in range(E.bound(1, 2)):
        acts[E.choice("act%d" % i, sorted(acts))]()
    E.check(E.eq(o.phdr_encoded, prot), "the received bytes")
    E.check(E.eq(o.phdr[H.KID], kid), "and what they say")


def empty_headers(E, kind):
    n = E.choice("aad length", [0, 1, 23, 24, 33, 64, 128, 256, 300, 65536])
    aad = lib.big(E, "aad", n) if n > 1 else E.bytes("aad", n)
    m = E.choice("payload length", [0, 1, 24, 300])
    return aad, lib.big(E, "p", m) if m > 1 else E.bytes("p", m)


@case("S01")
def empty_protected(E, P):
    """An empty protected header is a zero-length string in the signed structure for every size of payload and external
    data, whether the message is built, or received in any form, and whatever the unprotected header."""
    aad, p = empty_headers(E, "sign1")
    key, scheme, pub, priv = lib.sig_key(E, P, "EdDSA")
    msg = P.Sign1Message(uhdr={P.headers.Algorithm: P.alg.EdDSA}, payload=p, external_aad=aad, key=key)
    data = E.cbor(["Signature1", b"", aad, p])
    w = E.decode(msg.encode()).value
    E.check(E.eq(w[0], b"") and E.sig_valid(scheme, pub, data, w[3]), "signed and sent as a zero-length string")
    got = P.CoseMessage.decode(E.cbor(E.tag(18, [b"\xa0" if E.choice("a0", [False, True]) else b"", {1: -8}, p,
                                                  E.sign_ref(scheme, priv, data)])))
    got.key, got.external_aad = key, aad
    E.check(got.verify_signature(), "verified likewise")


@case("S03", empty=["body", "signer", "both"])
def empty_protected_signers(E, P, empty):
    """The same for the body and the signers of a COSE_Sign message."""
    H = P.headers
    aad, p = empty_headers(E, "sign")
    key, scheme, pub, priv = lib.sig_key(E, P, "EdDSA")
    kid = E.bytes("kid", 0, 2)
    bw = {} if empty != "signer" else {4: kid}
    sw = {} if empty != "body" else {1: -8}
    s = P.CoseSignature(phdr={H.Algorithm: P.alg.EdDSA} if sw else {}, uhdr={} if sw else {H.Algorithm: P.alg.EdDSA},
                        key=key, external_aad=aad)
    msg = P.SignMessage(phdr={H.KID: kid} if bw else {}, payload=p, signers=[s])
    w = E.decode(msg.encode()).value
    bp, sp = E.cbor(bw) if bw else b"", E.cbor(sw) if sw else b""
    E.check(E.eq([w[0], w[3][0][0]], [bp, sp]), "sent as zero-length strings")
    data = E.cbor(["Signature", bp, sp, aad, p])
    E.check(E.sig_valid(scheme, pub, data, w[3][0][2]), "signed likewise")


@case("M01", kind=["mac0", "mac"])
def empty_protected_mac(E, P, kind):
    """The same for MACs, made and checked."""
    H = P.headers
    aad, p = empty_headers(E, kind)
    k = E.bytes("k", 32)
    rc = {"recipients": [P.DirectEncryption(uhdr={H.Algorithm: P.alg.Direct})]} if kind == "mac" else {}
    msg = getattr(P, CLASS[kind])(uhdr={H.Algorithm: P.alg.HMAC256}, payload=p, external_aad=aad, key=P.SymmetricKey(k=k), **rc)
    out = msg.encode()
    w = E.decode(out).value
    E.check(E.eq(w[0], b"") and E.eq(w[3], E.hmac("sha256", k, E.cbor([{"mac0": "MAC0", "mac": "MAC"}[kind], b"", aad, p]))),
            "authenticated and sent as a zero-length string")
    got = P.CoseMessage.decode(out)
    got.key, got.external_aad = P.SymmetricKey(k=k), aad
    E.check(got.verify_tag(), "verified likewise")


@case("A01", kind=["enc0", "enc"])
def empty_protected_enc(E, P, kind):
    """The same for encryption and decryption."""
    H = P.headers
    aad, p = empty_headers(E, kind)
    k = E.bytes("k", 16)
    rc = {"recipients": [P.DirectEncryption(uhdr={H.Algorithm: P.alg.Direct})]} if kind == "enc" else {}
    msg = getattr(P, CLASS[kind])(uhdr={H.Algorithm: P.alg.A128GCM, H.IV: IV}, payload=p, external_aad=aad,
                                  key=P.SymmetricKey(k=k), **rc)
    out = msg.encode()
    w = E.decode(out).value
    E.check(E.eq(w[0], b"") and E.eq(w[2], E.seal("gcm", 16, k, IV, E.cbor([{"enc0": "Encrypt0", "enc": "Encrypt"}[kind],
                                                                            b"", aad]), p)),
            "encrypted and sent with a zero-length string")
    got = P.CoseMessage.decode(out)
    got.key, got.external_aad = P.SymmetricKey(k=k), aad
    E.check(E.eq(got.decrypt(*got.recipients[:1] if rc else []), p), "decrypted likewise")


@case("H02", reg=REGS)
def names_in_other_types(E, P, reg):
    """A registered name as a byte string, a byte array or inside a list, in any letter case, is unknown, and kept where
    unknown labels are allowed."""
    base, table, mod = registry(P, reg)
    name = E.choice("name", sorted(v[1] for v in table.values() if isinstance(v[1], str)))
    s = {"as is": name, "lower": name.lower(), "mixed": name.capitalize()}[E.choice("case", ["as is", "lower", "mixed"])]
    kind = E.choice("kind", ["bytes", "bytearray", "tuple", "frozenset"])
    v = {"bytes": s.encode(), "bytearray": bytearray(s.encode()), "tuple": (s,), "frozenset": frozenset([s])}[kind]
    if kind == "bytearray":
        r = E.run(base.from_id, v)
        E.check(not r.ok, "unknown")
        return
    E.check(E.run(base.from_id, v).raised("CoseException"), "unknown")
    r = E.run(base.from_id, v, True)
    E.check(r.ok and type(r.value) is type(v) and r.value == v, "kept")


@case("M03", name=["EcdhSsHKDF256", "EcdhEsHKDF512", "EcdhSsA128KW"], alg=["HMAC256", "AESMAC128128"])
def mac_agreement_history(E, P, name, alg):
    """A COSE_Mac message with an agreement recipient encoded, changed (other receiver, recipient list, salt, payload, the
    message's own key) and encoded again: the tag is always the one under the key the receiver of the moment gets."""
    H = P.headers
    hash_, static, kw = lib.ECDHS[name]
    klen = 32 if alg == "HMAC256" else 16
    cek = E.bytes("cek", klen)

    def rc(i, salt):
        r = (P.KeyAgreementWithKeyWrap if kw else P.DirectKeyAgreement)(
            phdr={H.Algorithm: lib.alg(P, name)},
            uhdr={H.Salt: salt, (H.StaticKey if static else H.EphemeralKey): lib.ec_key(E, P, "P256", 0, public=True)},
            key=lib.ec_key(E, P, "P256", 0))
        r.local_attrs = {H.StaticKey: lib.ec_key(E, P, "P256", i, public=True)}
        if kw:
            r.payload = cek
        return r
    salt, p, who = E.bytes("salt", 0, 2), E.bytes("p", 0, 2), 1
    msg = P.MacMessage(phdr={H.Algorithm: lib.alg(P, alg)}, payload=p, recipients=[rc(1, salt)])
    for i in range(E.bound(2, 3)):
        if i:
            act = E.choice("act%d" % i, ["receiver", "recipients", "salt", "payload", "own key", "none"])
            if act == "receiver":
                who = 3 - who
                msg.recipients[0].local_attrs = {H.StaticKey: lib.ec_key(E, P, "P256", who, public=True)}
            elif act == "recipients":
                who, salt = 3 - who, E.bytes("salt%d" % i, 0, 2)
                msg.recipients = [rc(who, salt)]
            elif act == "salt":
                salt = E.bytes("salt%d" % i, 0, 2)
                msg.recipients[0].uhdr_update({H.Salt: salt})
            elif act == "payload":
                msg.payload = p = E.bytes("p%d" % i, 0, 2)
            elif act == "own key":
                msg.key = P.SymmetricKey(k=E.bytes("own%d" % i, klen), optional_params={P.kp.KpAlg: lib.alg(P, alg)})
        if kw:
            msg.recipients[0].payload = cek
        w = E.decode(msg.encode()).value
        tid, tl = (lib.ALG_ID[kw], lib.KWS[kw]) if kw else (lib.ALG_ID[alg], klen)
        d, x, y = E.mat("EC2", "P256", who)
        k = E.hkdf(hash_, tl, salt, kdf_context(E, tid, tl, E.cbor({1: lib.ALG_ID[name]}), (None,) * 3, (None,) * 3),
                   E.ecdh("P256", E.mat("EC2", "P256", 0)[0], x, y))
        E.check(E.eq(w[4][0][2], E.keywrap(k, cek) if kw else b""), "the recipient's ciphertext")
        E.check(E.eq(w[3], ref_tag(E, alg, cek if kw else k, E.cbor(["MAC", E.cbor({1: lib.ALG_ID[alg]}), b"", p]))),
                "the tag under the key of the moment")


@case("R07", kind=["enc", "mac"], n=[1, 2, 3, 4, 5, 8, 24])
def nested_wide(E, P, kind, n):
    """Recipients with any number of recipients below them, at the first or the second level, are read completely and in
    order, and written again as they came."""
    H = P.headers
    v = E.bytes("v", 1, 2)
    sub = [[b"", {1: -3 - (i % 3), 4: v + bytes([i])}, v + bytes([0, i])] for i in range(n)]
    level = E.choice("level", [1, 2])
    at = E.choice("at", ["first", "last"])
    node = [b"", {1: -3}, b"w", sub]
    if level == 2:
        node = [b"", {1: -5}, b"x", [node] if at == "first" else [[b"", {1: -4}, b"y"], node]]
    other = [b"", {1: -4}, b"z"]
    rs = [node, other] if at == "first" else [other, node]
    body = [E.cbor({1: 1 if kind == "enc" else 5}), {}, b"p"] + ([b"t"] if kind == "mac" else []) + [rs]
    msg = P.CoseMessage.decode(E.cbor(E.tag(TAGS[kind], body)))
    E.check(len(msg.recipients) == 2, "two recipients")
    r = msg.recipients[0 if at == "first" else 1]
    if level == 2:
        r = r.recipients[0 if at == "first" else -1]
    E.check(len(r.recipients) == n, "all of them")
    for i, x in enumerate(r.recipients):
        E.check(type(x) is P.KeyWrap and E.eq([x.payload, x.get_attr(H.KID)], [v + bytes([0, i]), v + bytes([i])]), "each as sent")
        E.check(x.get_attr(H.Algorithm).identifier == -3 - (i % 3), "with its algorithm")


@case("X01", first=["match", "match other", "encode", "compare"])
def thumbprint_history(E, P, first):
    """A thumbprint object whose algorithm or thumbprint is replaced matches, encodes and compares as what it is then."""
    X = P.x509.X5T
    names = ["Sha1", "Sha256", "Sha256Trunc64", "Sha512"]
    c, c2 = E.bytes("c", 0, 4), E.bytes("c2", 0, 4)
    a = E.choice("a", names)
    t = X.from_certificate(lib.alg(P, a), c)
    if first == "match":
        E.check(t.matches(c), "its certificate")
    elif first == "match other":
        E.check(E.iff(t.matches(c2), E.eq(ref(E, a, c), ref(E, a, c2))), "another certificate")
    elif first == "encode":
        E.check(E.eq(t.encode(), [lib.alg(P, a), ref(E, a, c)]), "encoded")
    else:
        E.check(t == X.from_certificate(lib.alg(P, a), c), "equal")
    b = E.choice("b", names)
    what = E.choice("what", ["both", "alg", "thumbprint"])
    th = ref(E, a, c)
    if what != "thumbprint":
        t.alg = lib.alg(P, b)
    else:
        b = a
    if what != "alg":
        t.thumbprint = th = ref(E, b, c2)
    z = E.choice("which", ["c", "c2"])
    E.check(E.iff(t.matches(c if z == "c" else c2), E.eq(th, ref(E, b, c if z == "c" else c2))), "matches what it is now")
    E.check(E.eq(t.encode(), [lib.alg(P, b), th]), "encodes what it is now")


@case("W03", kind=KINDS)
def tag_decides(E, P, kind):
    """An array of any other shape under one of the six tags decodes to the tag's own class or not at all, through the
    base class as through the tag's class."""
    n = E.choice("n", [0, 1, 2, 3, 4, 5, 6])
    v = E.bytes("v", 0, 2)
    el = {"bytes": v, "empty list": [], "direct": [[b"", {1: -6}, b""]], "wrap": [[b"", {1: -3}, b"w"]], "sig": [[b"", {1: -8}, b"s"]], "map": {}, "nil": None, "list of bytes": [v]}
    b = [b"" if E.choice("prot", ["empty", "alg"]) == "empty" else E.cbor({1: ALGID[kind]}), {}, v][:n]
    for i in range(3, n):
        b.append(el[E.choice("e%d" % i, sorted(el) if i < 5 else ["bytes", "direct"])])
    cls = E.choice("cls", ["CoseMessage", "own", "other"])
    c = P.CoseMessage if cls == "CoseMessage" else getattr(P, CLASS[kind if cls == "own" else KINDS[(KINDS.index(kind) + 2) % 6]])
    r = E.run(c.decode, E.cbor(E.tag(TAGS[kind], b)))
    if r.ok:
        E.check(type(r.value).__name__ == CLASS[kind] and cls != "other", "the tag's class")
        E.check(E.eq(r.value.payload, v), "the payload")
        lo, hi = {"sign1": (4, 4), "mac0": (4, 4), "enc0": (3, 3), "sign": (4, 4), "mac": (4, 5), "enc": (3, 4)}[kind]
        E.check(lo <= n <= hi, "with the elements of that type")
