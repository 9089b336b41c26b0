"""Large contents and many elements: sizes beyond every CBOR length prefix up to 70000 bytes, and 30 headers, recipients,
signers or certificates.  Ends of the contents and the elements' values are symbolic, the filling is fixed."""
from vt.registry import case
from . import lib
from .h_mac import mac_key, ref_tag
from .h_rcpt import enc_ref, kdf_context, received, wire_key
from .h_wire import CLASS, IV, KINDS, TAGS, make, resend

SIGS = [a for a in lib.SIG if a != "Es256K"]
MANY = 30
LARGE = 70000


def labels(n=MANY):
    """n unregistered labels of all sizes"""
    return [(1000 + 37 * i) * (1 if i % 3 else -70) if i % 5 else "x-label-%d" % i for i in range(n)]


@case("A01", kind=["enc0", "enc"], alg=list(lib.AEADS))
def enc_big(E, P, kind, alg):
    """A payload and external data of 70000 bytes and a header of 300."""
    H = P.headers
    ak, kl, tl, nl = lib.AEADS[alg]
    n = LARGE if ak == "gcm" else 65000
    k, iv = E.bytes("k", kl), E.bytes("iv", nl)
    pt, aad, kid = lib.big(E, "p", n), lib.big(E, "a", 65000 if ak == "ccm" else n), lib.big(E, "kid", 300)
    key = P.SymmetricKey(k=k)
    ph, uh = {H.Algorithm: lib.alg(P, alg), H.KID: kid}, {H.IV: iv}
    if kind == "enc0":
        msg = P.Enc0Message(phdr=ph, uhdr=uh, payload=pt, external_aad=aad, key=key)
    else:
        msg = P.EncMessage(phdr=ph, uhdr=uh, payload=pt, external_aad=aad, key=key,
                           recipients=[P.DirectEncryption(uhdr={H.Algorithm: P.alg.Direct})])
    out = msg.encode()
    m = E.decode(out).value
    ad = E.cbor(["Encrypt0" if kind == "enc0" else "Encrypt", E.cbor({1: lib.ALG_ID[alg], 4: kid}), aad])
    E.check(E.eq(m[2], E.seal(ak, tl, k, iv, ad, pt)), "ciphertext of the specified inputs")
    E.check(E.eq(msg.payload, pt), "the caller's payload is left alone")
    got = P.CoseMessage.decode(out)
    got.key, got.external_aad = key, aad
    E.check(E.eq(got.get_attr(H.KID), kid), "header")
    E.check(E.eq(got.decrypt(*got.recipients) if kind == "enc" else got.decrypt(), pt), "decrypts to the payload")


@case("A02", kind=["enc0", "enc"], alg=list(lib.AEADS))
def open_big(E, P, kind, alg):
    """Changing an end of the ciphertext, the header or the external data, all of them large, makes decryption fail."""
    ak, kl, tl, nl = lib.AEADS[alg]
    n, aid = LARGE if ak == "gcm" else 65000, lib.ALG_ID[alg]
    k, iv = E.bytes("k", kl), E.bytes("iv", nl)
    pt, aad, kid = lib.big(E, "p", n), lib.big(E, "a", n), lib.big(E, "kid", 300)
    aad2, kid2 = lib.big(E, "a2", n), lib.big(E, "kid2", 300)
    ctx = "Encrypt0" if kind == "enc0" else "Encrypt"
    ct = E.seal(ak, tl, k, iv, E.cbor([ctx, E.cbor({1: aid, 4: kid}), aad]), pt)
    how = E.choice("ciphertext", ["sent", "longer", "shorter", "first"])
    ct2 = {"sent": ct, "longer": ct + b"\0", "shorter": ct[:-1], "first": ct[1:]}[how]
    body = [E.cbor({1: aid, 4: kid2}), {5: iv}, ct2] + ([[[b"", {1: -6}, b""]]] if kind == "enc" else [])
    msg = P.CoseMessage.decode(E.cbor(E.tag(TAGS[kind], body)))
    msg.key, msg.external_aad = P.SymmetricKey(k=k), aad2
    r = E.run(msg.decrypt, *(msg.recipients if kind == "enc" else []))
    E.check(E.iff(r.ok, E.all(how == "sent", E.eq(aad, aad2), E.eq(kid, kid2))), "exactly as sent")
    if r.ok:
        E.check(E.eq(r.value, pt), "the plaintext")


@case("M01", kind=["mac0", "mac"], alg=list(lib.HMACS) + list(lib.AESMACS))
def mac_big(E, P, kind, alg):
    """A payload and external data of 70000 (AES-MAC: also of 2100) bytes and a header of 300."""
    H = P.headers
    k, key = mac_key(E, P, alg)
    n = LARGE if alg in lib.HMACS else E.choice("n", [2100, LARGE])
    pl, aad, kid = lib.big(E, "p", n), lib.big(E, "a", n), lib.big(E, "kid", 300)
    rc = {"recipients": [P.DirectEncryption(uhdr={H.Algorithm: P.alg.Direct})]} if kind == "mac" else {}
    msg = getattr(P, CLASS[kind])(phdr={H.Algorithm: lib.alg(P, alg), H.KID: kid}, payload=pl, external_aad=aad, key=key,
                                  **rc)
    m = E.decode(msg.encode()).value
    data = E.cbor([{"mac0": "MAC0", "mac": "MAC"}[kind], E.cbor({1: lib.ALG_ID[alg], 4: kid}), aad, pl])
    E.check(E.eq(m[2], pl) and E.eq(m[3], ref_tag(E, alg, k, data)), "tag over the specified structure")


@case("M02", kind=["mac0", "mac"], alg=list(lib.HMACS))
def mac_verify_big(E, P, kind, alg):
    """Verification of large contents: exactly the content that was authenticated."""
    k, key = mac_key(E, P, alg)
    aid = lib.ALG_ID[alg]
    pl, aad, kid = lib.big(E, "p", LARGE), lib.big(E, "a", LARGE), lib.big(E, "kid", 300)
    pl2, aad2, kid2 = lib.big(E, "p2", LARGE), lib.big(E, "a2", LARGE), lib.big(E, "kid2", 300)
    more = E.choice("payload", ["same length", "longer", "shorter"])
    pl2 = {"same length": pl2, "longer": pl2 + b"\0", "shorter": pl2[:-1]}[more]
    tag = ref_tag(E, alg, k, E.cbor([{"mac0": "MAC0", "mac": "MAC"}[kind], E.cbor({1: aid, 4: kid}), aad, pl]))
    body = [E.cbor({1: aid, 4: kid2}), {}, pl2, tag] + ([[[b"", {1: -6}, b""]]] if kind == "mac" else [])
    msg = P.CoseMessage.decode(E.cbor(E.tag(TAGS[kind], body)))
    msg.key, msg.external_aad = key, aad2
    E.check(E.iff(msg.verify_tag(), E.all(E.eq(pl, pl2), E.eq(aad, aad2), E.eq(kid, kid2))), "exactly as sent")


@case("S01", detached=[False, True], alg=SIGS)
def sign1_big(E, P, detached, alg):
    """A payload and external data of 70000 bytes and a header of 300, attached and detached."""
    H = P.headers
    key, scheme, pub, priv = lib.sig_key(E, P, alg)
    pl, aad, kid = lib.big(E, "p", LARGE), lib.big(E, "a", LARGE), lib.big(E, "kid", 300)
    msg = P.Sign1Message(phdr={H.Algorithm: lib.alg(P, alg), H.KID: kid}, payload=None if detached else pl,
                         external_aad=aad, key=key)
    m = E.decode(msg.encode(detached_payload=pl if detached else None)).value
    E.check(m[2] is None if detached else E.eq(m[2], pl), "payload element")
    E.check(E.sig_valid(scheme, pub, E.cbor(["Signature1", E.cbor({1: lib.ALG_ID[alg], 4: kid}), aad, pl]), m[3]),
            "signature over the specified structure")


@case("S03", alg=SIGS)
def sign_big(E, P, alg):
    """The same for a signer of COSE_Sign, with large headers of the message and the signer."""
    H = P.headers
    key, scheme, pub, priv = lib.sig_key(E, P, alg)
    pl, aad, kid, bk = lib.big(E, "p", LARGE), lib.big(E, "a", LARGE), lib.big(E, "kid", 300), lib.big(E, "bk", 300)
    s = P.CoseSignature(phdr={H.Algorithm: lib.alg(P, alg), H.KID: kid}, external_aad=aad, key=key)
    m = E.decode(P.SignMessage(phdr={H.KID: bk}, payload=pl, signers=[s]).encode()).value
    E.check(E.sig_valid(scheme, pub, E.cbor(["Signature", E.cbor({4: bk}), E.cbor({1: lib.ALG_ID[alg], 4: kid}), aad, pl]),
                        m[3][0][2]), "signature over the specified structure")


def _sign_big(E, P, kind, how, alg="Es256"):
    key, scheme, pub, priv = lib.sig_key(E, P, alg)
    pl, aad, kid = lib.big(E, "p", LARGE), lib.big(E, "a", LARGE), lib.big(E, "kid", 300)
    pl2, aad2, kid2 = lib.big(E, "p2", LARGE), lib.big(E, "a2", LARGE), lib.big(E, "kid2", 300)
    more = E.choice("payload", ["same length", "longer", "shorter"])
    pl2 = {"same length": pl2, "longer": pl2 + b"\0", "shorter": pl2[:-1]}[more]
    aid = lib.ALG_ID[alg]
    prot, prot2 = E.cbor({1: aid, 4: kid}), E.cbor({1: aid, 4: kid2})
    if kind == "sign1":
        sig = E.sign_ref(scheme, priv, E.cbor(["Signature1", prot, aad, pl]))
        body = [prot2, {}, None if how else pl2, sig]
    else:
        sig = E.sign_ref(scheme, priv, E.cbor(["Signature", prot, prot, aad, pl]))
        body = [prot2, {}, None if how else pl2, [[prot2, {}, sig]]]
    msg = P.CoseMessage.decode(E.cbor(E.tag(TAGS[kind], body)))
    s = msg if kind == "sign1" else msg.signers[0]
    s.key, s.external_aad = lib.sig_key(E, P, alg, public=True)[0], aad2
    E.check(E.iff(s.verify_signature(pl2) if how else s.verify_signature(),
                  E.all(E.eq(pl, pl2), E.eq(aad, aad2), E.eq(kid, kid2))), "exactly as signed")


@case("S02", alg=SIGS)
def sign1_verify_big(E, P, alg):
    """Verification of large contents: exactly the content that was signed."""
    _sign_big(E, P, "sign1", False, alg)


@case("S03", alg=SIGS)
def sign_verify_big(E, P, alg):
    """Verification of large contents: exactly the content that was signed."""
    _sign_big(E, P, "sign", False, alg)


@case("D01", kind=["sign1", "sign"])
def detached_big(E, P, kind):
    """Large detached payloads."""
    _sign_big(E, P, kind, True)


@case("S03")
def many_signers(E, P):
    """30 signers: signature k is made with signer k's headers and data and judged by them; only the damaged one fails."""
    H = P.headers
    key, scheme, pub, priv = lib.sig_key(E, P, "EdDSA")
    pub_key = lib.sig_key(E, P, "EdDSA", public=True)[0]
    pl = E.bytes("p", 0, 2)
    vs = [E.bytes("v%d" % i, 1) for i in range(MANY)]
    msg = P.SignMessage(phdr={H.KID: b"x"}, payload=pl, signers=[
        P.CoseSignature(phdr={H.Algorithm: P.alg.EdDSA, H.KID: vs[i]}, external_aad=bytes([i]), key=key)
        for i in range(MANY)])
    wire = E.decode(msg.encode()).value
    E.check(len(wire[3]) == MANY, "one signature per signer")
    for i, s in enumerate(wire[3]):
        prot = E.cbor({1: -8, 4: vs[i]})
        E.check(E.eq(s[0], prot), "signer protected bytes")
        E.check(E.sig_valid(scheme, pub, E.cbor(["Signature", E.cbor({4: b"x"}), prot, bytes([i]), pl]), s[2]),
                "signature over the specified structure")
    bad = E.choice("bad", [None, 0, 7, 23, 24, MANY - 1])
    if bad is not None:
        wire[3][bad][2] = E.flip("sig", wire[3][bad][2])
        E.assume(E.not_(E.eq(wire[3][bad][2], wire[3][bad - 1][2])))
    got = P.CoseMessage.decode(E.cbor(E.tag(98, wire)))
    E.check(len(got.signers) == MANY, "all signers")
    for i in sorted({0, 1, 7, 22, 23, 24, 25, MANY - 2, MANY - 1}):
        s = got.signers[i]
        s.key, s.external_aad = pub_key, bytes([i])
        ok = s.verify_signature()
        if i != bad:
            E.check(ok, "its own signature counts")
        else:
            E.check(E.iff(ok, E.eq(s.signature, E.decode(msg.encode()).value[3][i][2])), "only the right signature")


@case("W01", kind=KINDS)
def round_trip_big(E, P, kind):
    """Large payloads, large header values and 30 labels per bucket survive encoding and decoding in order."""
    H = P.headers
    v, n = E.bytes("v", 0, 2), E.int("n", 0, 70000)
    big = lib.big(E, "h", LARGE)
    ls = labels()
    A = {"sign1": P.alg.EdDSA, "mac0": P.alg.HMAC256, "mac": P.alg.HMAC256, "enc0": P.alg.A128GCM,
         "enc": P.alg.A128GCM}.get(kind)
    ph = {H.Algorithm: A} if A else {}
    ph.update({x: [v, i] for i, x in enumerate(ls)})
    uh = {x + 1 if isinstance(x, int) else x + "u": (n if i % 2 else v) for i, x in enumerate(ls)}
    uh[900] = big
    payload = lib.big(E, "p", LARGE)
    msg = make(E, P, kind, ph, uh, payload)
    if kind in ("enc0", "enc"):
        uh = lib.merge({H.IV: IV}, uh)
    out = msg.encode()
    m = E.decode(out)
    E.check(E.eq(out, E.cbor(E.tag(TAGS[kind], m.value))), "deterministic encoding")
    got = P.CoseMessage.decode(out)
    E.check(E.eq([got.phdr, got.uhdr], [ph, uh]), "headers")
    E.check(list(got.uhdr) == list(uh) and list(got.phdr) == list(ph), "in order")
    E.check(E.eq(got.payload, m.value[2]), "payload or ciphertext")
    if kind not in ("enc0", "enc"):
        E.check(E.eq(got.payload, payload), "payload")
    E.check(E.eq(resend(E, P, kind, got), out), "sending it again gives the same bytes")


@case("W02", kind=["sign1", "mac0", "enc0", "enc", "mac", "sign"])
def received_big(E, P, kind):
    """A protected header of more than 65535 bytes in a non-minimal encoding is authenticated and re-sent verbatim."""
    import cbor2
    k, p = E.bytes("k", 16 if "enc" in kind else 32), E.bytes("p", 0, 3)
    aid = {"sign1": -8, "sign": -8, "mac0": 5, "mac": 5, "enc0": 1, "enc": 1}[kind]
    fill = bytes(i * 11 & 0xff for i in range(LARGE))
    # label 4 in two bytes, a length in eight bytes
    prot = b"\xa2\x01" + cbor2.dumps(aid) + b"\x18\x04" + b"\x5b" + LARGE.to_bytes(8, "big") + fill
    same = b"\xa2\x01" + cbor2.dumps(aid) + b"\x04" + b"\x5a" + LARGE.to_bytes(4, "big") + fill
    sent = E.choice("sent", ["as protected", "re-encoded"])
    key, scheme, pub, priv = lib.sig_key(E, P, "EdDSA")
    tail = [[[b"", {1: -6}, b""]]] if kind in ("mac", "enc") else []
    wire = prot if sent == "as protected" else same
    if kind == "sign1":
        body = [wire, {}, p, E.sign_ref(scheme, priv, E.cbor(["Signature1", prot, b"", p]))]
    elif kind == "sign":
        body = [wire, {}, p, [[wire, {}, E.sign_ref(scheme, priv, E.cbor(["Signature", prot, prot, b"", p]))]]]
    elif kind in ("mac", "mac0"):
        body = [wire, {}, p, ref_tag(E, "HMAC256", k, E.cbor([kind.upper(), prot, b"", p]))] + tail
    else:
        ctx = {"enc0": "Encrypt0", "enc": "Encrypt"}[kind]
        body = [wire, {5: IV}, E.seal("gcm", 16, k, IV, E.cbor([ctx, prot, b""]), p)] + tail
    msg = P.CoseMessage.decode(E.cbor(E.tag(TAGS[kind], body)))
    E.check(E.eq(msg.get_attr(P.headers.KID), fill), "decoded")
    s = msg.signers[0] if kind == "sign" else msg
    s.key = lib.sig_key(E, P, "EdDSA", public=True)[0] if "sign" in kind else P.SymmetricKey(k=k)
    if "sign" in kind:
        ok = s.verify_signature()
    elif "mac" in kind:
        ok = msg.verify_tag()
    else:
        ok = E.run(msg.decrypt, *(msg.recipients if tail else [])).ok
    E.check(E.iff(ok, sent == "as protected"), "the received bytes are authenticated")
    again = E.decode(resend(E, P, kind, msg)).value
    E.check(E.eq(again[0], wire), "re-sent verbatim")


@case("H01", where=["phdr", "uhdr"])
def lookup_many(E, P, where):
    """Lookup among 30 labels."""
    H = P.headers
    ls = labels()
    vs = [E.bytes("v%d" % i, 0, 1) for i in range(MANY)]
    hdr = {x: v for x, v in zip(ls, vs)}
    hdr[H.KID] = E.bytes("kid", 0, 2)
    m = P.Mac0Message(**{where: hdr}, payload=b"")
    i = E.choice("i", list(range(MANY)))
    E.check(E.eq(m.get_attr(ls[i]), vs[i]), "the value")
    E.check(E.eq(m.get_attr(H.KID), hdr[H.KID]), "the key identifier")
    (m.uhdr if where == "phdr" else m.phdr)[ls[i]] = b"other"
    E.check(E.run(m.get_attr, ls[i]).raised("CoseException"), "carried by both")
    E.check(E.eq(m.get_attr(ls[i - 1]), vs[i - 1]), "the others")


@case("H06", strict=[True, False])
def many_labels(E, P, strict):
    """One unregistered label among many registered ones, at any place: refused or kept."""
    import cbor2
    v = E.bytes("v", 0, 2)
    n = E.int("n", 1000, 1 << 40)
    known = {3: 0, 4: v, 7: [], 9: v, 10: v, 33: v, 34: [-16, v], 35: "u", 32: v, -20: v, -21: v, -22: v, -23: v, -24: v,
             -25: v, -26: v}
    at = E.choice("at", [None, 0, 1, 7, len(known)])
    items = list(known.items())
    if at is not None:
        items.insert(at, (n, v))
    where = E.choice("where", ["phdr", "uhdr", "signer", "recipient"])
    prot, uh = (E.cbor(dict(items)), {}) if where == "phdr" else (b"", dict(items) if where == "uhdr" else {})
    if where == "signer":
        body = E.tag(98, [b"", {}, b"", [[b"", {}, b"s"], [b"", dict(items), b"s"]]])
    elif where == "recipient":
        body = E.tag(97, [b"", {}, b"", b"t", [[b"", {1: -6}, b""], [b"", dict([(1, -6)] + items), b""]]])
    else:
        body = E.tag(17, [prot, uh, b"", b"t"])
    r = E.run(P.CoseMessage.decode, E.cbor(body), allow_unknown_attributes=not strict)
    E.check(r.ok == (at is None or not strict), "refused exactly for the unknown label")
    if r.ok and at is not None:
        o = {"signer": lambda: r.value.signers[1], "recipient": lambda: r.value.recipients[1]}.get(where, lambda: r.value)()
        E.check(E.eq(o.get_attr(n), v), "kept")


@case("K02", kind=["EC2", "OKP", "RSA", "Symmetric"])
def key_many(E, P, kind):
    """A key with a large identifier and 30 other parameters round-trips with all of them."""
    kp = P.kp
    kid = lib.big(E, "kid", LARGE)
    v, n = E.bytes("v", 0, 2), E.int("n", -300, 70000)
    extra = {x: (v if i % 2 else n) for i, x in enumerate(labels())}
    params = lib.merge({kp.KpKid: kid}, extra)
    if kind == "EC2":
        key = lib.ec_key(E, P, "P256", 0, params=params)
    elif kind == "OKP":
        d, x = E.mat("OKP", "Ed25519", 0)
        key = P.OKPKey(crv=P.crv.Ed25519, x=x, d=d, optional_params=params)
    elif kind == "RSA":
        key = lib.sig_key(E, P, "Ps256", params=params)[0]
    else:
        key = P.SymmetricKey(k=E.bytes("k", 32), optional_params=params)
    got = P.CoseKey.decode(key.encode())
    E.check(type(got) is type(key), "type")
    E.check(E.eq(got.store, key.store), "all parameters")
    E.check(E.eq(got.kid, kid), "identifier")
    for x, w in extra.items():
        E.check(E.eq(got[x], w), "other parameters")


@case("R01", kw=["A128KW", "A256KW"])
def many_recipients(E, P, kw):
    """30 key wrap recipients receive the one content key, each under its own key, and each opens the message."""
    H = P.headers
    n = lib.KWS[kw]
    keks = [bytes([i]) * n for i in range(MANY)]
    at = E.choice("preset", [None, 0, 22, MANY - 1])
    cek = E.bytes("cek", 16) if at is not None else None
    rcs = [P.KeyWrap(uhdr={H.Algorithm: lib.alg(P, kw), H.KID: bytes([i])}, key=P.SymmetricKey(k=keks[i]),
                     payload=cek if at == i else b"") for i in range(MANY)]
    iv, p = E.bytes("iv", 12), E.bytes("p", 0, 2)
    msg = P.EncMessage(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: iv}, payload=p, recipients=rcs)
    out = msg.encode()
    m = E.decode(out).value
    used = msg.key.k
    if cek is not None:
        E.check(E.eq(used, cek), "the preset key")
    E.check(len(used) == 16 and E.eq(m[2], enc_ref(E, "A128GCM", used, iv, {1: 1}, b"", p)), "content under the key")
    E.check(E.eq(m[3], [[b"", {1: lib.ALG_ID[kw], 4: bytes([i])}, E.keywrap(keks[i], used)] for i in range(MANY)]),
            "wrapped for every recipient")
    got = P.CoseMessage.decode(out)
    i = E.choice("i", [0, 22, 23, 24, MANY - 1])
    got.recipients[i].key = P.SymmetricKey(k=keks[i])
    E.check(E.eq(got.decrypt(got.recipients[i]), p), "opens")


@case("M03", kind=["wrap", "mixed"])
def mac_many(E, P, kind):
    """30 recipients of a COSE_Mac share the key."""
    H = P.headers
    k, p = E.bytes("k", 32), E.bytes("p", 0, 2)
    keks = [E.bytes("kek%d" % i, 16) for i in range(MANY)]
    rcs = [P.KeyWrap(uhdr={H.Algorithm: P.alg.A128KW}, key=P.SymmetricKey(k=keks[i]), payload=k if i == 25 else b"")
           for i in range(MANY)]
    if kind == "mixed":
        r = P.KeyAgreementWithKeyWrap(phdr={H.Algorithm: P.alg.EcdhSsA128KW},
                                      uhdr={H.StaticKey: lib.ec_key(E, P, "P256", 0, public=True)},
                                      key=lib.ec_key(E, P, "P256", 0))
        r.local_attrs = {H.StaticKey: lib.ec_key(E, P, "P256", 1, public=True)}
        rcs.append(r)
    msg = P.MacMessage(phdr={H.Algorithm: P.alg.HMAC256}, payload=p, recipients=rcs)
    m = E.decode(msg.encode()).value
    E.check(E.eq(m[3], ref_tag(E, "HMAC256", k, E.cbor(["MAC", E.cbor({1: 5}), b"", p]))), "tag under the preset key")
    E.check(len(m[4]) == len(rcs), "all recipients")
    for i in range(MANY):
        E.check(E.eq(m[4][i], [b"", {1: -3}, E.keywrap(keks[i], k)]), "wrapped for every recipient")


@case("R04", name=["EcdhSsHKDF256", "EcdhSsA128KW"])
def context_big(E, P, name):
    """Large party fields, salt, supplementary information and protected headers."""
    H = P.headers
    hash_, static, kw = lib.ECDHS[name]
    aid = lib.ALG_ID[name]
    f = [lib.big(E, "f%d" % i, n) for i, n in enumerate((300, 24, LARGE, 256, 255, 65536))]
    salt, pub, priv, kid = lib.big(E, "salt", 300), lib.big(E, "pub", 300), lib.big(E, "priv", LARGE), lib.big(E, "kid", 300)
    rc = (P.KeyAgreementWithKeyWrap if kw else P.DirectKeyAgreement)(
        phdr={H.Algorithm: lib.alg(P, name), H.KID: kid},
        uhdr={H.PartyUID: f[0], H.PartyUNonce: f[1], H.PartyUOther: f[2], H.PartyVID: f[3], H.PartyVNonce: f[4],
              H.PartyVOther: f[5], H.Salt: salt, H.StaticKey: lib.ec_key(E, P, "P256", 0, public=True)},
        key=lib.ec_key(E, P, "P256", 0))
    rc.local_attrs = {H.StaticKey: lib.ec_key(E, P, "P256", 1, public=True), H.SuppPubOther: pub, H.SuppPrivOther: priv}
    iv, p = E.bytes("iv", 12), E.bytes("p", 0, 2)
    msg = P.EncMessage(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: iv}, payload=p, recipients=[rc])
    out = msg.encode()
    m = E.decode(out).value
    own, peer = E.mat("EC2", "P256", 0), E.mat("EC2", "P256", 1)
    tid, tl = (lib.ALG_ID[kw], lib.KWS[kw]) if kw else (1, 16)
    k = E.hkdf(hash_, tl, salt, kdf_context(E, tid, tl, E.cbor({1: aid, 4: kid}), f[:3], f[3:], pub, priv),
               E.ecdh("P256", own[0], peer[1], peer[2]))
    if kw:
        E.check(E.eq(m[3][0][2], E.keywrap(k, msg.key.k)), "wrapping key")
    else:
        E.check(E.eq(msg.key.k, k), "content key")
    got = P.CoseMessage.decode(out)
    r = got.recipients[0]
    r.key = lib.ec_key(E, P, "P256", 1)
    r.local_attrs = {H.SuppPubOther: pub, H.SuppPrivOther: priv}
    E.check(E.eq(got.decrypt(r), p), "the receiver derives the same")


@case("R07")
def nested_deep(E, P):
    """Recipients nested 12 deep."""
    vs = [E.bytes("v%d" % i, 1) for i in range(12)]
    cs = [E.bytes("c%d" % i, 1) for i in range(12)]
    strict = E.choice("strict", [False, True])
    bad = E.choice("bad", [None, 5, 11])
    e = None
    for v, c, i in list(zip(vs, cs, range(12)))[::-1]:
        uh = {1: -3, 4: v}
        if bad == i:
            uh[1234] = 0
        e = [b"", uh, c] + ([[e]] if e else [])
    r = E.run(P.CoseMessage.decode, E.cbor(E.tag(96, [E.cbor({1: 1}), {}, b"p", [e]])),
              allow_unknown_attributes=not strict)
    E.check(r.ok == (not strict or bad is None), "unknown labels refused on request")
    if r.ok:
        rs = r.value.recipients
        for v, c in zip(vs, cs):
            E.check(len(rs) == 1 and type(rs[0]) is P.KeyWrap, "one recipient")
            E.check(E.eq([rs[0].get_attr(P.headers.KID), rs[0].payload], [v, c]), "header and ciphertext")
            rs = rs[0].recipients
        E.check(not rs, "the last")


@case("W04", kind=["sign", "enc", "mac"])
def malformed_among_many(E, P, kind):
    """One malformed signer or recipient among 30."""
    at = E.choice("at", [0, 1, 22, 23, 24, MANY - 1])
    good = [b"", {1: -7}, b"s"] if kind == "sign" else [b"", {1: -3}, b"w"]
    bad = E.choice("bad", [None, [], {}, 0, good[:2], good[:1], good + [[good]] + [0], [good[0], good[1], None],
                           [good[0], [], good[2]], [None] + good[1:], good[:2] + ["s"], [b"", {1: good[1][1], 4: 0}, good[2]]])
    ok = E.choice("good", [False, True])
    es = [list(good) for _ in range(MANY)]
    if not ok:
        es[at] = bad
    if kind != "sign" and bad == [good[0], good[1], None] and not ok:
        return
    body = [b"", {1: 1}, b"p"] + ([b"t"] if kind == "mac" else []) + [es]
    r = E.run(P.CoseMessage.decode, E.cbor(E.tag(TAGS[kind], body)))
    E.check(r.ok == ok, "refused exactly if malformed")
    if r.ok:
        E.check(len(r.value.signers if kind == "sign" else r.value.recipients) == MANY, "none dropped")


@case("X01", alg=["Sha1", "Sha256", "Sha256Trunc64", "Sha384", "Sha512", "Sha512Trunc256", "Shake128", "Shake256"])
def hash_big(E, P, alg):
    """The hash and the thumbprint of 70000 bytes."""
    from .h_misc import ref
    d, d2 = lib.big(E, "d", LARGE), lib.big(E, "d2", LARGE)
    A = lib.alg(P, alg)
    E.check(E.eq(A.compute_hash(d), ref(E, alg, d)), "the hash")
    t = P.x509.X5T.from_certificate(A, d)
    E.check(E.iff(t.matches(d2), E.eq(d, d2)), "matches exactly the certificate")


@case("X02", kind=["X5Bag", "X5Chain"])
def certificates_many(E, P, kind):
    """30 certificates, one of them large, keep their order."""
    cs = [E.bytes("c%d" % i, 0, 2) for i in range(MANY)]
    cs[25] = lib.big(E, "big", LARGE)
    H = P.headers
    label, attr = (32, H.X5bag) if kind == "X5Bag" else (33, H.X5chain)
    m = P.Enc0Message(uhdr={attr: getattr(P.x509, kind)(cs).encode()}, payload=b"")
    wire = m.encode(encrypt=False)
    E.check(E.eq(E.decode(wire).value[1], {label: cs}), "in the message")
    E.check(E.eq(P.CoseMessage.decode(wire).get_attr(attr), cs), "read back")


# -- every length ----------------------------------------------------------------------------

def _any(E):
    n = E.bound(300, 1100)
    return E.bytes("p", 0, n), E.bytes("a", 0, n), E.bytes("kid", 0, n)


@case("A01", alg=["A192GCM", "AESCCM6464128"])
def enc_any_length(E, P, alg):
    """Payload, external data and a header of every length up to 300 (thorough 1100) bytes."""
    H = P.headers
    ak, kl, tl, nl = lib.AEADS[alg]
    k, iv = E.bytes("k", kl), E.bytes("iv", nl)
    pt, aad, kid = _any(E)
    msg = P.Enc0Message(phdr={H.Algorithm: lib.alg(P, alg), H.KID: kid}, uhdr={H.IV: iv}, payload=pt, external_aad=aad,
                        key=P.SymmetricKey(k=k))
    out = msg.encode()
    ad = E.cbor(["Encrypt0", E.cbor({1: lib.ALG_ID[alg], 4: kid}), aad])
    E.check(E.eq(E.decode(out).value[2], E.seal(ak, tl, k, iv, ad, pt)), "ciphertext of the specified inputs")
    got = P.CoseMessage.decode(out)
    got.key, got.external_aad = P.SymmetricKey(k=k), aad
    E.check(E.eq(got.get_attr(H.KID), kid), "header")
    E.check(E.eq(got.decrypt(), pt), "decrypts to the payload")


@case("M01", alg=["HMAC25664", "HMAC512"])
def mac_any_length(E, P, alg):
    """Payload, external data and a header of every length up to 300 (thorough 1100) bytes."""
    H = P.headers
    k, key = mac_key(E, P, alg)
    pl, aad, kid = _any(E)
    msg = P.Mac0Message(phdr={H.Algorithm: lib.alg(P, alg), H.KID: kid}, payload=pl, external_aad=aad, key=key)
    m = E.decode(msg.encode()).value
    data = E.cbor(["MAC0", E.cbor({1: lib.ALG_ID[alg], 4: kid}), aad, pl])
    E.check(E.eq(m[2], pl) and E.eq(m[3], ref_tag(E, alg, k, data)), "tag over the specified structure")


@case("S01", detached=[False, True])
def sign1_any_length(E, P, detached):
    """Payload, external data and a header of every length up to 300 (thorough 1100) bytes."""
    H = P.headers
    key, scheme, pub, priv = lib.sig_key(E, P, "EdDSA")
    pl, aad, kid = _any(E)
    msg = P.Sign1Message(phdr={H.Algorithm: P.alg.EdDSA, H.KID: kid}, payload=None if detached else pl, external_aad=aad,
                         key=key)
    m = E.decode(msg.encode(detached_payload=pl if detached else None)).value
    E.check(E.sig_valid(scheme, pub, E.cbor(["Signature1", E.cbor({1: -8, 4: kid}), aad, pl]), m[3]),
            "signature over the specified structure")


@case("S03")
def sign_any_length(E, P):
    """Payload, external data and both headers of every length up to 300 (thorough 1100) bytes."""
    H = P.headers
    key, scheme, pub, priv = lib.sig_key(E, P, "EdDSA")
    pl, aad, kid = _any(E)
    bk = E.bytes("bk", 0, 300)
    s = P.CoseSignature(phdr={H.Algorithm: P.alg.EdDSA, H.KID: kid}, external_aad=aad, key=key)
    m = E.decode(P.SignMessage(phdr={H.KID: bk}, payload=pl, signers=[s]).encode()).value
    E.check(E.sig_valid(scheme, pub, E.cbor(["Signature", E.cbor({4: bk}), E.cbor({1: -8, 4: kid}), aad, pl]),
                        m[3][0][2]), "signature over the specified structure")


@case("W01", kind=KINDS)
def round_trip_any_length(E, P, kind):
    """Payload and header values of every length up to 300 (thorough 1100) bytes and labels up to 2^32."""
    H = P.headers
    pl, v, kid = _any(E)
    n = E.int("n", 1000, 1 << 32)
    A = {"sign1": P.alg.EdDSA, "mac0": P.alg.HMAC256, "mac": P.alg.HMAC256, "enc0": P.alg.A128GCM,
         "enc": P.alg.A128GCM}.get(kind)
    ph = lib.merge({H.Algorithm: A} if A else {}, {H.KID: kid})
    uh = {n: v}
    msg = make(E, P, kind, ph, uh, pl)
    if kind in ("enc0", "enc"):
        uh = lib.merge({H.IV: IV}, uh)
    out = msg.encode()
    m = E.decode(out)
    got = P.CoseMessage.decode(out)
    E.check(E.eq([got.phdr, got.uhdr, got.payload], [ph, uh, m.value[2]]), "headers and content")
    if kind not in ("enc0", "enc"):
        E.check(E.eq(got.payload, pl), "payload")
    E.check(E.eq(resend(E, P, kind, got), out), "sending it again gives the same bytes")


@case("R01")
def wrap_any_length(E, P):
    """A recipient's identifier of every length up to 300 bytes stands beside the wrapped key; contents likewise."""
    H = P.headers
    kid, p, a = _any(E)
    cek, iv = E.bytes("cek", 16), E.bytes("iv", 12)
    kek = E.bytes("kek", 16)
    rc = P.KeyWrap(uhdr={H.Algorithm: P.alg.A128KW, H.KID: kid}, key=P.SymmetricKey(k=kek), payload=cek)
    msg = P.EncMessage(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: iv}, payload=p, external_aad=a, recipients=[rc])
    out = msg.encode()
    E.check(E.eq(E.decode(out).value[3], [[b"", {1: -3, 4: kid}, E.keywrap(kek, cek)]]), "recipient")
    got = P.CoseMessage.decode(out)
    got.external_aad = a
    got.recipients[0].key = P.SymmetricKey(k=kek)
    E.check(E.eq(got.decrypt(got.recipients[0]), p), "opens")


@case("R04", name=["EcdhSsHKDF512", "EcdhSsA256KW"])
def context_any_length(E, P, name):
    """Party fields, salt and supplementary information of every length up to 300 bytes."""
    C = P.ctx
    fs = [E.bytes("f%d" % i, 0, 300) for i in range(6)]
    pub, priv, prot = E.bytes("pub", 0, 300), E.bytes("priv", 0, 300), E.bytes("prot", 0, 300)
    c = C.CoseKDFContext(P.alg.A128GCM, C.SuppPubInfo(16, prot, pub), C.PartyInfo(*fs[:3]), C.PartyInfo(*fs[3:]), priv)
    E.check(E.eq(c.encode(), kdf_context(E, 1, 16, prot, fs[:3], fs[3:], pub, priv)), "KDF context")


@case("K02", kind=["EC2", "Symmetric"])
def key_any_length(E, P, kind):
    """Identifiers, base IVs and unknown parameters of every length up to 300 (thorough 1100) bytes."""
    kid, biv, v = _any(E)
    n = E.int("n", 1000, 1 << 32)
    params = {P.kp.KpKid: kid, P.kp.KpBaseIV: biv, n: v}
    key = lib.ec_key(E, P, "P256", 0, params=params) if kind == "EC2" else \
        P.SymmetricKey(k=E.bytes("k", 24), optional_params=params)
    got = P.CoseKey.decode(key.encode())
    E.check(E.eq(got.store, key.store) and E.eq([got.kid, got.base_iv, got[n]], [kid, biv, v]), "all parameters")


def _two(E):
    n = E.bound(300, 1100)
    return [[E.bytes(x + t, 0, n) for x in ("p", "a", "kid")] for t in ("", "2")]


@case("A02", kind=["enc0", "enc"])
def open_any_length(E, P, kind):
    """External data and a header of every length up to 300 (thorough 1100) bytes: decrypts exactly if both are the sender's."""
    k, iv = E.bytes("k", 16), E.bytes("iv", 12)
    (p, a, kid), (_, a2, kid2) = _two(E)
    ct = E.seal("gcm", 16, k, iv, E.cbor([{"enc0": "Encrypt0", "enc": "Encrypt"}[kind], E.cbor({1: 1, 4: kid}), a]), p)
    body = [E.cbor({1: 1, 4: kid2}), {5: iv}, ct] + ([[[b"", {1: -6}, b""]]] if kind == "enc" else [])
    msg = P.CoseMessage.decode(E.cbor(E.tag(TAGS[kind], body)))
    msg.key, msg.external_aad = P.SymmetricKey(k=k), a2
    r = E.run(msg.decrypt, *(msg.recipients if kind == "enc" else []))
    E.check(E.iff(r.ok, E.all(E.eq(a, a2), E.eq(kid, kid2))), "exactly as sent")
    if r.ok:
        E.check(E.eq(r.value, p), "the plaintext")


@case("M02", kind=["mac0", "mac"])
def mac_verify_any_length(E, P, kind):
    """Payload, external data and header of every length up to 300 (thorough 1100) bytes: verifies exactly what was sent."""
    k = E.bytes("k", 32)
    (p, a, kid), (p2, a2, kid2) = _two(E)
    tag = ref_tag(E, "HMAC256", k, E.cbor([{"mac0": "MAC0", "mac": "MAC"}[kind], E.cbor({1: 5, 4: kid}), a, p]))
    body = [E.cbor({1: 5, 4: kid2}), {}, p2, tag] + ([[[b"", {1: -6}, b""]]] if kind == "mac" else [])
    msg = P.CoseMessage.decode(E.cbor(E.tag(TAGS[kind], body)))
    msg.key, msg.external_aad = P.SymmetricKey(k=k), a2
    E.check(E.iff(msg.verify_tag(), E.all(E.eq(p, p2), E.eq(a, a2), E.eq(kid, kid2))), "exactly as sent")


def _verify_any(E, P, kind, det):
    key, scheme, pub, priv = lib.sig_key(E, P, "EdDSA")
    (p, a, kid), (p2, a2, kid2) = _two(E)
    prot, prot2 = E.cbor({1: -8, 4: kid}), E.cbor({1: -8, 4: kid2})
    if kind == "sign1":
        sig = E.sign_ref(scheme, priv, E.cbor(["Signature1", prot, a, p]))
        body = [prot2, {}, None if det else p2, sig]
    else:
        sig = E.sign_ref(scheme, priv, E.cbor(["Signature", b"", prot, a, p]))
        body = [b"", {}, None if det else p2, [[prot2, {}, sig]]]
    msg = P.CoseMessage.decode(E.cbor(E.tag(TAGS[kind], body)))
    s = msg if kind == "sign1" else msg.signers[0]
    s.key, s.external_aad = lib.sig_key(E, P, "EdDSA", public=True)[0], a2
    E.check(E.iff(s.verify_signature(p2) if det else s.verify_signature(),
                  E.all(E.eq(p, p2), E.eq(a, a2), E.eq(kid, kid2))), "exactly as signed")


@case("S02")
def sign1_verify_any_length(E, P):
    """Payload, external data and header of every length up to 300 (thorough 1100) bytes: verifies exactly what was signed."""
    _verify_any(E, P, "sign1", False)


@case("S03")
def sign_verify_any_length(E, P):
    """Payload, external data and header of every length up to 300 (thorough 1100) bytes: verifies exactly what was signed."""
    _verify_any(E, P, "sign", False)


@case("D01", kind=["sign1", "sign"])
def detached_any_length(E, P, kind):
    """The same for detached payloads."""
    _verify_any(E, P, kind, True)
