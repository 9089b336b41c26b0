"""COSE_Mac0 and COSE_Mac."""
from vt.registry import case
from . import lib

ALLMACS = list(lib.HMACS) + list(lib.AESMACS)


def ref_tag(E, alg, key, data):
    """RFC 9053 section 3: truncated HMAC, or CBC-MAC with zero padding and zero IV"""
    if alg in lib.HMACS:
        h, n = lib.HMACS[alg]
        return E.hmac(h, key, data)[:n]
    return E.cbcmac(key, data)[:lib.AESMACS[alg][1]]


def taglen(alg):
    return lib.HMACS[alg][1] if alg in lib.HMACS else lib.AESMACS[alg][1]


def mac_key(E, P, alg, name="k", hmac_len=None, params=None):
    if alg in lib.AESMACS:
        n = lib.AESMACS[alg][0]
    else:
        n = hmac_len or 32
    k = E.bytes(name, n)
    return k, P.SymmetricKey(k=k, optional_params=params)


@case("M01", alg=ALLMACS, kind=["mac0", "mac"])
def mac_structure(E, P, alg, kind):
    """The tag in the message is the algorithm's MAC over [context, protected, external_aad, payload], with the
    algorithm's length; payload 0..20 bytes (AES: 0..5), aad 0..5, symbolic key."""
    _structure(E, P, alg, kind)


@case("M01", alg=["HMAC25664", "AESMAC25664"])
def mac_structure_rcpt(E, P, alg):
    """The same for COSE_Mac with a direct recipient."""
    _structure(E, P, alg, "mac")


def _structure(E, P, alg, kind):
    H = P.headers
    k, key = mac_key(E, P, alg, hmac_len=E.choice("klen", [16, 24, 32]) if alg in lib.HMACS else None)
    A, aid = lib.alg(P, alg), lib.ALG_ID[alg]
    ph, wph = lib.headers(E, P, "ph", labels=["empty", "kid+ct", "text"], hi=6 if alg in lib.HMACS else 1)
    where = E.choice("alg.where", ["phdr", "uhdr"])
    if where == "phdr":
        ph, wph, uh, wuh = lib.merge({H.Algorithm: A}, ph), lib.merge({1: aid}, wph), {}, {}
    else:
        uh, wuh = {H.Algorithm: A}, {1: aid}
    payload = E.bytes("payload", 0, E.bound(20, 40) if alg in lib.HMACS else E.bound(5, 16))
    aad = E.bytes("aad", 0, 5 if alg in lib.HMACS else 2)
    if kind == "mac0":
        msg = P.Mac0Message(phdr=ph, uhdr=uh, payload=payload, external_aad=aad, key=key)
    else:
        rc = P.DirectEncryption(uhdr={H.Algorithm: P.alg.Direct, H.KID: b"r"})
        msg = P.MacMessage(phdr=ph, uhdr=uh, payload=payload, external_aad=aad, key=key, recipients=[rc])
    m = E.decode(msg.encode())
    prot = E.cbor(wph) if len(wph) else b""
    data = E.cbor(["MAC0" if kind == "mac0" else "MAC", prot, aad, payload])
    tag = ref_tag(E, alg, k, data)
    E.check(m.tag == (17 if kind == "mac0" else 97), "CBOR tag")
    E.check(len(m.value) == (4 if kind == "mac0" else 5), "number of elements")
    E.check(E.eq(m.value[:3], [prot, wuh, payload]), "headers and payload")
    E.check(len(m.value[3]) == taglen(alg), "tag length")
    E.check(E.eq(m.value[3], tag), "tag over the specified structure")
    if kind == "mac":
        E.check(E.eq(m.value[4], [[b"", {1: -6, 4: b"r"}, b""]]), "recipient list")


@case("M01", alg=["HMAC256", "AESMAC128128"])
def mac_long(E, P, alg):
    """The same around the sizes where CBOR length prefixes and cipher blocks change (23..257 bytes)."""
    H = P.headers
    k, key = mac_key(E, P, alg)
    n = E.choice("size", [15, 16, 23, 24, 255, 256])
    payload, aad = E.bytes("payload", n, n), E.bytes("aad", n, n)
    msg = P.Mac0Message(phdr={H.Algorithm: lib.alg(P, alg)}, payload=payload, external_aad=aad, key=key)
    m = E.decode(msg.encode(tag=False))
    data = E.cbor(["MAC0", E.cbor({1: lib.ALG_ID[alg]}), aad, payload])
    E.check(len(m) == 4, "untagged array")
    E.check(E.eq(m[3], ref_tag(E, alg, k, data)), "tag over the specified structure")


@case("M01", alg=["HMAC256"])
def mac_repeat(E, P, alg):
    """Encoding again after changing payload, aad or headers authenticates the new content; without a payload
    no tag is made."""
    H = P.headers
    k, key = mac_key(E, P, alg)
    p1, p2, a2, k2 = E.bytes("p1", 0, 4), E.bytes("p2", 0, 4), E.bytes("a2", 0, 3), E.bytes("k2", 0, 3)
    msg = P.Mac0Message(phdr={H.Algorithm: P.alg.HMAC256}, payload=p1, key=key)
    first = E.decode(msg.encode())
    msg.payload, msg.external_aad = p2, a2
    msg.phdr_update({H.KID: k2})
    second = E.decode(msg.encode())
    E.check(E.eq(first.value[3], ref_tag(E, alg, k, E.cbor(["MAC0", E.cbor({1: 5}), b"", p1]))), "first")
    prot = E.cbor({1: 5, 4: k2})
    E.check(E.eq(second.value, [prot, {}, p2, ref_tag(E, alg, k, E.cbor(["MAC0", prot, a2, p2]))]), "second")
    msg.payload = None
    E.check(not E.run(msg.compute_tag).ok, "no tag without payload")


@case("M02", alg=ALLMACS, kind=["mac0", "mac"])
def mac_verify(E, P, alg, kind):
    """A received message verifies iff the tag is exactly the MAC, full length, of the received protected bytes, the
    caller's aad and the payload under the caller's key; any bytes in place of the tag."""
    _verify(E, P, alg, kind)


@case("M02", alg=["HMAC25664", "AESMAC25664"])
def mac_verify_rcpt(E, P, alg):
    """The same for COSE_Mac."""
    _verify(E, P, alg, "mac")


def _verify(E, P, alg, kind):
    k, _ = mac_key(E, P, alg, "k")
    k2, key2 = mac_key(E, P, alg, "k2")
    aid = lib.ALG_ID[alg]
    n, np, l = (2, 4, 0) if alg in lib.HMACS else (1, 2, 1)
    kid, p, a = E.bytes("kid", l, n), E.bytes("p", 0, np), E.bytes("a", 0, n)
    kid2, p2, a2 = E.bytes("kid2", l, n), E.bytes("p2", 0, np), E.bytes("a2", 0, n)
    ctx = "MAC0" if kind == "mac0" else "MAC"
    tag = ref_tag(E, alg, k, E.cbor([ctx, E.cbor({1: aid, 4: kid}), a, p]))
    want = ref_tag(E, alg, k2, E.cbor([ctx, E.cbor({1: aid, 4: kid2}), a2, p2]))
    which = E.choice("tag", ["sent", "right", "other", "longer"])
    if which == "longer":
        # the right tag with something before or after it (zeros, blanks, ...)
        x = E.bytes("more", 1)
        tag2 = x + want if E.choice("side", ["before", "after"]) == "before" else want + x
    else:
        tag2 = tag if which == "sent" else want if which == "right" else E.tamper("tag2", tag, 2)
    if which == "other":
        E.assume(E.not_(E.any(E.eq(tag2, tag), E.eq(tag2, want))))
    body = [E.cbor({1: aid, 4: kid2}), {}, p2, tag2]
    if kind == "mac":
        body.append([[b"", {1: -6}, b""]])
    msg = P.CoseMessage.decode(E.cbor(E.tag(17 if kind == "mac0" else 97, body)))
    msg.key, msg.external_aad = key2, a2
    r = E.run(msg.verify_tag)
    E.check(r.ok, "an answer for any tag bytes")
    if which in ("other", "longer"):
        E.check(E.not_(r.value), "any other bytes are rejected, also a shortened or lengthened tag")
    elif which == "right":
        E.check(r.value, "the MAC of the received content is accepted")
    else:
        same = E.all(E.eq(kid, kid2), E.eq(p, p2), E.eq(a, a2), E.eq(k, k2))
        E.check(E.iff(r.value, same), "a tag is valid for no other content or key")


@case("M02", alg=ALLMACS)
def mac_alg_swap(E, P, alg):
    """A tag made by one algorithm does not verify under another named in an unprotected header."""
    k, key = mac_key(E, P, alg)
    others = [x for x in (lib.HMACS if alg in lib.HMACS else lib.AESMACS) if x != alg and
              (alg in lib.HMACS or lib.AESMACS[x][0] == lib.AESMACS[alg][0])]
    other = E.choice("other", others)
    p = E.bytes("p", 0, 4)
    tag = ref_tag(E, alg, k, E.cbor(["MAC0", b"", b"", p]))
    msg = P.CoseMessage.decode(E.cbor(E.tag(17, [b"", {1: lib.ALG_ID[other]}, p, tag])))
    msg.key = key
    E.check(E.not_(msg.verify_tag()), "tag of another algorithm")


@case("M02", alg=["HMAC256", "AESMAC12864"])
def mac_bucket_swap(E, P, alg):
    """Moving protected parameters to the unprotected bucket or dropping them invalidates the tag."""
    k, key = mac_key(E, P, alg)
    aid = lib.ALG_ID[alg]
    kid, p = E.bytes("kid", 0, 3), E.bytes("p", 0, 4)
    tag = ref_tag(E, alg, k, E.cbor(["MAC0", E.cbor({1: aid, 4: kid}), b"", p]))
    how = E.choice("how", ["all", "kid", "dropped", "alg", "map"])
    prot, uh = {"all": (b"", {1: aid, 4: kid}), "kid": (E.cbor({1: aid}), {4: kid}), "dropped": (E.cbor({1: aid}), {}),
                "alg": (E.cbor({4: kid}), {1: aid}), "map": (E.cbor({}), {1: aid, 4: kid})}[how]
    msg = P.CoseMessage.decode(E.cbor(E.tag(17, [prot, uh, p, tag])))
    msg.key = key
    E.check(E.not_(msg.verify_tag()), "moved parameters are not accepted")
    msg = P.CoseMessage.decode(E.cbor(E.tag(17, [E.cbor({1: aid, 4: kid}), {3: E.int("ct", 0, 65000)}, p, tag])))
    msg.key = key
    E.check(msg.verify_tag(), "unprotected parameters do not matter")


@case("M02", raw=["absent", "map"])
def mac_empty_headers(E, P, raw):
    """A received empty protected header (zero-length string or empty map) is authenticated as a zero-length string."""
    k, key = mac_key(E, P, "HMAC256")
    p, a = E.bytes("p", 0, 4), E.bytes("a", 0, 3)
    tag = ref_tag(E, "HMAC256", k, E.cbor(["MAC0", b"", a, p]))
    msg = P.CoseMessage.decode(E.cbor(E.tag(17, [b"" if raw == "absent" else E.cbor({}), {1: 5}, p, tag])))
    msg.key, msg.external_aad = key, a
    E.check(msg.verify_tag(), "tag over a zero-length protected field")


@case("M03", alg=["HMAC256", "AESMAC128128"], kw=list(lib.KWS), n=[1, 2],
      thorough={"alg": ["HMAC25664", "HMAC256"] + list(lib.AESMACS), "n": [1, 2, 3]})
def mac_key_wrap(E, P, alg, kw, n):
    key_wrap(E, P, alg, kw, n)


@case("M03", alg=["HMAC25664", "HMAC384", "HMAC512", "AESMAC12864", "AESMAC25664", "AESMAC256128"])
def mac_key_wrap_one(E, P, alg):
    """The same for the other algorithms with one recipient."""
    key_wrap(E, P, alg, "A192KW", 1)


def key_wrap(E, P, alg, kw, n):
    """COSE_Mac with key-wrap recipients: every recipient's wrapped key unwraps to the one key that made the tag,
    which has the algorithm's length; preset or random key."""
    H = P.headers
    A, KW = lib.alg(P, alg), lib.alg(P, kw)
    keks = [E.bytes("kek%d" % i, lib.KWS[kw]) for i in range(n)]
    want = lib.AESMACS[alg][0] if alg in lib.AESMACS else 32
    # keys are at most 32 bytes, so there is no random key as long as the output of the longer hashes
    preset = E.choice("preset", ([] if alg in ("HMAC384", "HMAC512") else [None]) + list(range(n)))
    cek = E.bytes("cek", want) if preset is not None else None
    rcs = [P.KeyWrap(uhdr={H.Algorithm: KW, H.KID: bytes([i])}, key=P.SymmetricKey(k=keks[i]),
                     payload=cek if preset == i else b"") for i in range(n)]
    p, a = E.bytes("p", 0, 3), E.bytes("a", 0, 2)
    msg = P.MacMessage(phdr={H.Algorithm: A}, payload=p, external_aad=a, recipients=rcs)
    wire = msg.encode()
    m = E.decode(wire)
    E.check(m.tag == 97, "CBOR tag")
    E.check(len(m.value) == 5, "five elements")
    E.check(len(m.value[4]) == n, "all recipients are sent")
    got = P.CoseMessage.decode(wire)
    for i in range(n):
        r = got.recipients[i]
        r.key = P.SymmetricKey(k=keks[i])
        k = r.decrypt(A)
        E.check(len(k) == want, "key length of the algorithm")
        if cek is not None:
            E.check(E.eq(k, cek), "the preset key is transported")
        E.check(E.eq(m.value[3], ref_tag(E, alg, k, E.cbor(["MAC", E.cbor({1: lib.ALG_ID[alg]}), a, p]))),
                "tag under the transported key")
        got.key, got.external_aad = P.SymmetricKey(k=k), a
        E.check(got.verify_tag(), "the receiver accepts")


@case("M03", alg=["HMAC256"], ka=["EcdhSsHKDF256", "EcdhEsHKDF512", "EcdhSsA128KW"])
def mac_key_agreement(E, P, alg, ka):
    """COSE_Mac with a key agreement recipient: the receiver derives the key that made the tag."""
    H = P.headers
    A = lib.alg(P, alg)
    hash_, static, kw = lib.ECDHS[ka]
    cls = P.KeyAgreementWithKeyWrap if kw else P.DirectKeyAgreement
    snd, rcv = lib.ec_key(E, P, "P256", 0), lib.ec_key(E, P, "P256", 1)
    rc = cls(phdr={H.Algorithm: lib.alg(P, ka)}, key=snd)
    rc.local_attrs = {H.StaticKey: lib.ec_key(E, P, "P256", 1, public=True)}
    pub = lib.ec_key(E, P, "P256", 0, public=True)
    rc.uhdr_update({H.StaticKey if static else H.EphemeralKey: pub})
    p, a = E.bytes("p", 0, 3), E.bytes("a", 0, 2)
    msg = P.MacMessage(phdr={H.Algorithm: A}, payload=p, external_aad=a, recipients=[rc])
    wire = msg.encode()
    got = P.CoseMessage.decode(wire)
    r = got.recipients[0]
    r.key = rcv
    k = r.decrypt(A) if kw else r.compute_cek(A, "decrypt").k
    E.check(E.eq(got.auth_tag, ref_tag(E, alg, k, E.cbor(["MAC", E.cbor({1: lib.ALG_ID[alg]}), a, p]))),
            "tag under the agreed key")
    got.key, got.external_aad = P.SymmetricKey(k=k), a
    E.check(got.verify_tag(), "the receiver accepts")
    got.auth_tag = E.flip("bad", got.auth_tag)
    E.check(E.iff(got.verify_tag(), E.eq(got.auth_tag, E.decode(wire).value[3])), "only that tag")
