"""COSE_Sign1 and COSE_Sign."""
from vt.registry import case
from . import lib

SIGS = [a for a in lib.SIG if a != "Es256K"]
SHAPES = ["empty", "kid", "kid+ct", "unknown", "text"]


def place(E, P, A, aid, ph, wph, where):
    """put the algorithm parameter into one of the two buckets"""
    H = P.headers
    if where == "phdr":
        return lib.merge({H.Algorithm: A}, ph), lib.merge({1: aid}, wph), {}, {}
    return ph, wph, {H.Algorithm: A}, {1: aid}


@case("S01", alg=SIGS)
def sign1_structure(E, P, alg):
    """A signature is made over exactly ["Signature1", protected, external_aad, payload];
    payload 0..24 bytes, aad 0..6, header contents symbolic, payload attached or detached."""
    key, scheme, pub, priv = lib.sig_key(E, P, alg)
    A = lib.alg(P, alg)
    extra, wextra = lib.headers(E, P, "ph")
    where = E.choice("alg.where", ["phdr", "uhdr"])
    payload = E.bytes("payload", 0, E.bound(24, 40))
    aad = E.bytes("aad", 0, 6)
    det = E.choice("detached", [False, True])
    ph, wph, uh, wuh = place(E, P, A, lib.ALG_ID[alg], extra, wextra, where)
    msg = P.Sign1Message(phdr=ph, uhdr=uh, payload=None if det else payload, external_aad=aad, key=key)
    out = msg.encode(detached_payload=payload if det else None)
    prot = E.cbor(wph) if len(wph) else b""
    m = E.decode(out)
    E.check(m.tag == 18, "CBOR tag 18")
    E.check(len(m.value) == 4, "four elements")
    E.check(E.eq(m.value[0], prot), "protected header bytes")
    E.check(E.eq(m.value[1], wuh), "unprotected header")
    E.check(m.value[2] is None if det else E.eq(m.value[2], payload), "payload element")
    tbs = E.cbor(["Signature1", prot, aad, payload])
    E.check(E.sig_valid(scheme, pub, tbs, m.value[3]), "signature over the specified structure")
    E.check(E.eq(out, E.cbor(E.tag(18, m.value))), "canonical outer encoding")


@case("S01", alg=["Es256"])
def sign1_long(E, P, alg):
    """The same for payloads whose CBOR length prefix needs one or two more bytes (20..300 bytes)."""
    key, scheme, pub, priv = lib.sig_key(E, P, alg)
    H = P.headers
    n = E.choice("size", [23, 24, 255, 256])
    payload = E.bytes("payload", n, n + 1)
    aad = E.bytes("aad", n, n)
    msg = P.Sign1Message(phdr={H.Algorithm: lib.alg(P, alg)}, payload=payload, external_aad=aad, key=key)
    m = E.decode(msg.encode(tag=False))
    E.check(len(m) == 4, "untagged array")
    tbs = E.cbor(["Signature1", E.cbor({1: lib.ALG_ID[alg]}), aad, payload])
    E.check(E.sig_valid(scheme, pub, tbs, m[3]), "signature over the specified structure")


@case("S01", ed448=[False, True])
def sign1_repeat(E, P, ed448):
    """Signing again after changing payload, aad or headers signs the new content;
    encode(sign=False) carries the stored signature and no private key is needed."""
    key, scheme, pub, priv = lib.sig_key(E, P, "EdDSA", ed448=ed448)
    H = P.headers
    p1, p2 = E.bytes("p1", 0, 5), E.bytes("p2", 0, 5)
    a2 = E.bytes("a2", 0, 3)
    k2 = E.bytes("k2", 0, 3)
    msg = P.Sign1Message(phdr={H.Algorithm: P.alg.EdDSA}, payload=p1, key=key)
    first = E.decode(msg.encode())
    msg.payload = p2
    msg.external_aad = a2
    msg.phdr_update({H.KID: k2})
    second = E.decode(msg.encode())
    E.check(E.sig_valid(scheme, pub, E.cbor(["Signature1", E.cbor({1: -8}), b"", p1]), first.value[3]), "first")
    prot = E.cbor({1: -8, 4: k2})
    E.check(E.eq(second.value[0], prot), "updated protected header")
    E.check(E.sig_valid(scheme, pub, E.cbor(["Signature1", prot, a2, p2]), second.value[3]), "second")
    s = E.bytes("sig", 1, 8)
    msg.signature = s
    msg.key = None
    third = E.decode(msg.encode(sign=False))
    E.check(E.eq(third.value, [prot, {}, p2, s]), "stored signature is carried")


def received_sign1(E, P, prot, uh, payload, sig):
    return P.CoseMessage.decode(E.cbor(E.tag(18, [prot, uh, payload, sig])))


@case("S02", alg=SIGS, other_key=[False, True])
def sign1_verify(E, P, alg, other_key):
    """A received message verifies iff the signature is valid for exactly the received
    protected bytes, the caller's aad and the payload: any bytes in place of the signature
    (shorter, equal, longer), any header content, payload and aad, correct or foreign key."""
    key, scheme, pub, priv = lib.sig_key(E, P, alg)
    vkey, _, vpub, _ = lib.sig_key(E, P, alg, i=1 if other_key else 0, public=True)
    aid = lib.ALG_ID[alg]
    kid, payload, aad = E.bytes("kid", 0, 3), E.bytes("payload", 0, 4), E.bytes("aad", 0, 2)
    prot = E.cbor({1: aid, 4: kid})
    tbs = E.cbor(["Signature1", prot, aad, payload])
    sig = E.sign_ref(scheme, priv, tbs)
    kid2, payload2, aad2 = E.bytes("kid2", 0, 3), E.bytes("payload2", 0, 4), E.bytes("aad2", 0, 2)
    sig2 = E.tamper("sig2", sig, 2)
    det = E.choice("detached", [False, True])
    msg = received_sign1(E, P, E.cbor({1: aid, 4: kid2}), {}, None if det else payload2, sig2)
    msg.key = vkey
    msg.external_aad = aad2
    r = E.run(msg.verify_signature, detached_payload=payload2 if det else None)
    E.check(r.ok, "verification of any signature bytes gives an answer")
    same = E.all(E.eq(kid, kid2), E.eq(payload, payload2), E.eq(aad, aad2), E.eq(sig, sig2))
    if other_key:
        E.check(E.not_(r.value), "foreign key is rejected")
    else:
        E.check(E.iff(r.value, same), "valid exactly for the signed content")


@case("S02", alg=[a for a in SIGS if a != "EdDSA"])
def sign1_other_scheme(E, P, alg):
    """A signature by the same key over the same structure under any other scheme - another hash, another padding or
    salt length, another encoding of the two ECDSA integers - is not a signature under this algorithm; the
    length bytes around it do not matter."""
    key, scheme, pub, priv = lib.sig_key(E, P, alg)
    vkey = lib.sig_key(E, P, alg, public=True)[0]
    payload, aad = E.bytes("payload", 0, 4), E.bytes("aad", 0, 2)
    prot = E.cbor({1: lib.ALG_ID[alg]})
    other = {"ecdsa": [("ecdsa", h) for h in ("sha256", "sha384", "sha512")] + [("ecdsa-der", scheme[1])]}.get(
        scheme[0], [(k, h) for k in ("pss", "pkcs1") for h in ("sha1", "sha256", "sha384", "sha512")]
        + [("pss", scheme[1], 0), ("pss", scheme[1], 1), ("pss", scheme[1], 28)])
    made = E.choice("made", [i for i, s in enumerate(other)])
    other = other[made]
    sig = E.sign_ref(other, priv, E.cbor(["Signature1", prot, aad, payload]))
    msg = received_sign1(E, P, prot, {}, payload, sig)
    msg.key = vkey
    msg.external_aad = aad
    r = E.run(msg.verify_signature)
    E.check(r.ok, "an answer")
    E.check(E.iff(r.value, other == scheme), "only the scheme of the algorithm counts")


@case("S02", alg=["Es256", "Es384", "Es512", "EdDSA", "Ps256", "RsaPkcs1Sha1"])
def sign1_bucket_swap(E, P, alg):
    """Moving parameters between the buckets or dropping the protected bucket invalidates the signature."""
    key, scheme, pub, priv = lib.sig_key(E, P, alg)
    vkey = lib.sig_key(E, P, alg, public=True)[0]
    aid = lib.ALG_ID[alg]
    kid, payload = E.bytes("kid", 0, 3), E.bytes("payload", 0, 4)
    sig = E.sign_ref(scheme, priv, E.cbor(["Signature1", E.cbor({1: aid, 4: kid}), b"", payload]))
    how = E.choice("how", ["all unprotected", "kid unprotected", "kid dropped", "alg unprotected", "empty map"])
    prot, uh = {"all unprotected": (b"", {1: aid, 4: kid}), "kid unprotected": (E.cbor({1: aid}), {4: kid}),
                "kid dropped": (E.cbor({1: aid}), {}), "alg unprotected": (E.cbor({4: kid}), {1: aid}),
                "empty map": (E.cbor({}), {1: aid, 4: kid})}[how]
    msg = received_sign1(E, P, prot, uh, payload, sig)
    msg.key = vkey
    E.check(E.not_(msg.verify_signature()), "moved parameters are not accepted")
    # unprotected parameters are not covered
    msg = received_sign1(E, P, E.cbor({1: aid, 4: kid}), {3: E.int("ct", 0, 65000)}, payload, sig)
    msg.key = vkey
    E.check(msg.verify_signature(), "unprotected parameters do not matter")


@case("S02", alg=["Es256", "Es384", "Es512", "Ps256"])
def sign1_zero_bytes(E, P, alg):
    """A signature that has a zero byte at an end or at the border of its two halves is not accepted without that byte,
    with one more, or with the byte moved to another such place."""
    key, scheme, pub, priv = lib.sig_key(E, P, alg)
    vkey = lib.sig_key(E, P, alg, public=True)[0]
    payload = E.bytes("payload", 0, 3)
    prot = E.cbor({1: lib.ALG_ID[alg]})
    n = {"Es256": 64, "Es384": 96, "Es512": 132, "Ps256": 256}[alg]
    places = [0, n // 2 - 1, n // 2, n - 1]
    at = places[E.choice("at", [0, 1, 2, 3])]
    sig = E.sign_where(scheme, priv, E.cbor(["Signature1", prot, b"", payload]), lambda s: E.eq(s[at:at + 1], b"\0"))
    without = sig[:at] + sig[at + 1:]
    to = E.choice("to", ["dropped", "more", 0, 1, 2, 3])
    if to == "dropped":
        sig2 = without
    elif to == "more":
        sig2 = sig[:at] + b"\0" + sig[at:]
    else:
        sig2 = without[:places[to]] + b"\0" + without[places[to]:]
        if to != at:
            E.assume(E.not_(E.eq(sig, sig2)))
    msg = received_sign1(E, P, prot, {}, payload, sig2)
    msg.key = vkey
    r = E.run(msg.verify_signature)
    E.check(r.ok, "an answer")
    E.check(E.iff(r.value, E.eq(sig, sig2)), "valid exactly as it was made")


SIGNERS = [("Es256", "kid"), ("EdDSA", "empty"), ("Ps256", "kid"), ("Es384", "empty"), ("RsaPkcs1Sha512", "kid")]


@case("S03", n=[1, 2, 3], body=["empty", "kid"], thorough={"n": [1, 2, 3, 4, 5]})
def sign_structure(E, P, n, body):
    """COSE_Sign: signature k is over ["Signature", body protected, signer protected, aad k, payload] with
    signer k's own headers, aad and key, and appears as element k."""
    H = P.headers
    bph, wbph = lib.headers(E, P, "body", labels=[body])
    payload = E.bytes("payload", 0, 8)
    det = E.choice("detached", [False, True])
    signers, infos = [], []
    for k in range(n):
        alg, shape = SIGNERS[k]
        key, scheme, pub, priv = lib.sig_key(E, P, alg)
        ph, wph = lib.headers(E, P, "s%d" % k, labels=[shape], hi=3)
        if shape == "empty":
            uh, wuh = {H.Algorithm: lib.alg(P, alg)}, {1: lib.ALG_ID[alg]}
        else:
            ph, wph = lib.merge({H.Algorithm: lib.alg(P, alg)}, ph), lib.merge({1: lib.ALG_ID[alg]}, wph)
            uh, wuh = {}, {}
        aad = E.bytes("aad%d" % k, 0, 3)
        signers.append(P.CoseSignature(phdr=ph, uhdr=uh, external_aad=aad, key=key))
        infos.append((wph, wuh, aad, scheme, pub))
    msg = P.SignMessage(phdr=bph, payload=None if det else payload, signers=signers)
    m = E.decode(msg.encode(detached_payload=payload if det else None))
    bprot = E.cbor(wbph) if len(wbph) else b""
    E.check(m.tag == 98, "CBOR tag 98")
    E.check(len(m.value) == 4, "four elements")
    E.check(E.eq(m.value[0], bprot), "body protected bytes")
    E.check(m.value[2] is None if det else E.eq(m.value[2], payload), "payload element")
    E.check(len(m.value[3]) == n, "one signature per signer")
    for k in range(n):
        wph, wuh, aad, scheme, pub = infos[k]
        sprot = E.cbor(wph) if len(wph) else b""
        s = m.value[3][k]
        E.check(len(s) == 3, "signature has three elements")
        E.check(E.eq(s[0], sprot), "signer protected bytes")
        E.check(E.eq(s[1], wuh), "signer unprotected")
        E.check(E.sig_valid(scheme, pub, E.cbor(["Signature", bprot, sprot, aad, payload]), s[2]),
                "signature over the specified structure")


@case("S03", alg=["Es256", "EdDSA", "Ps256", "Es512", "RsaPkcs1Sha384"], thorough={"alg": SIGS})
def sign_verify(E, P, alg):
    """Each signer of a received COSE_Sign verifies iff its signature covers exactly the received body and signer
    protected bytes, aad and payload; the other signer's signature never counts."""
    key, scheme, pub, priv = lib.sig_key(E, P, alg)
    _, _, pub1, priv1 = lib.sig_key(E, P, alg, i=1)
    aid = lib.ALG_ID[alg]
    b, s, a, p = E.bytes("b", 0, 2), E.bytes("s", 0, 2), E.bytes("a", 0, 2), E.bytes("p", 0, 3)
    b2, s2, a2, p2 = E.bytes("b2", 0, 2), E.bytes("s2", 0, 2), E.bytes("a2", 0, 2), E.bytes("p2", 0, 3)
    sig = E.sign_ref(scheme, priv, E.cbor(["Signature", E.cbor({4: b}), E.cbor({1: aid, 4: s}), a, p]))
    sig1 = E.sign_ref(scheme, priv1, E.cbor(["Signature", E.cbor({4: b}), E.cbor({1: aid, 4: s}), a, p]))
    sig2 = E.tamper("sig2", sig, 1)
    wire = E.cbor(E.tag(98, [E.cbor({4: b2}), {}, p2,
                             [[E.cbor({1: aid, 4: s2}), {}, sig2], [E.cbor({1: aid, 4: s2}), {}, sig1]]]))
    msg = P.CoseMessage.decode(wire)
    E.check(len(msg.signers) == 2, "two signers")
    same = E.all(E.eq(b, b2), E.eq(s, s2), E.eq(a, a2), E.eq(p, p2))
    for i in (0, 1):
        msg.signers[i].key = lib.sig_key(E, P, alg, i=i, public=True)[0]
        msg.signers[i].external_aad = a2
    r = E.run(msg.signers[0].verify_signature)
    E.check(r.ok, "an answer for any signature bytes")
    E.check(E.iff(r.value, E.all(same, E.eq(sig, sig2))), "first signer valid exactly for the signed content")
    E.check(E.iff(msg.signers[1].verify_signature(), same), "second signer is judged by its own signature")
    msg.signers[1].key = lib.sig_key(E, P, alg, i=0, public=True)[0]
    E.check(E.not_(msg.signers[1].verify_signature()), "signature of signer 2 under the key of signer 1")


@case("S03", empty=["absent", "map"])
def sign_empty_headers(E, P, empty):
    """Received empty protected headers (zero-length string or empty map) appear as a zero-length string."""
    key, scheme, pub, priv = lib.sig_key(E, P, "Es256")
    p, a = E.bytes("p", 0, 4), E.bytes("a", 0, 3)
    raw = b"" if empty == "absent" else E.cbor({})
    sig = E.sign_ref(scheme, priv, E.cbor(["Signature", b"", b"", a, p]))
    msg = P.CoseMessage.decode(E.cbor(E.tag(98, [raw, {}, p, [[raw, {1: -7}, sig]]])))
    msg.signers[0].key = lib.sig_key(E, P, "Es256", public=True)[0]
    msg.signers[0].external_aad = a
    E.check(msg.signers[0].verify_signature(), "signature over zero-length protected fields")
    sig = E.sign_ref(scheme, priv, E.cbor(["Signature1", b"", a, p]))
    msg = P.CoseMessage.decode(E.cbor(E.tag(18, [raw, {1: -7}, p, sig])))
    msg.key = lib.sig_key(E, P, "Es256", public=True)[0]
    msg.external_aad = a
    E.check(msg.verify_signature(), "COSE_Sign1 likewise")


@case("S03", move=["assign", "twice"])
def sign_parent(E, P, move):
    """Signers assigned to another message sign that message's content."""
    H = P.headers
    key, scheme, pub, priv = lib.sig_key(E, P, "EdDSA")
    p1, p2 = E.bytes("p1", 0, 4), E.bytes("p2", 0, 4)
    s = P.CoseSignature(phdr={H.Algorithm: P.alg.EdDSA}, key=key)
    m1 = P.SignMessage(phdr={}, payload=p1, signers=[s])
    if move == "twice":
        m1.encode()
    m2 = P.SignMessage(phdr={H.KID: b"2"}, payload=p2)
    m2.signers = [s]
    m = E.decode(m2.encode())
    E.check(E.sig_valid(scheme, pub, E.cbor(["Signature", E.cbor({4: b"2"}), E.cbor({1: -8}), b"", p2]),
                        m.value[3][0][2]), "signs the message it belongs to")


@case("S04", alg=["Es256", "EdDSA", "Ps256", "RsaPkcs1Sha256"],
      way=["1 to n", "n to 1"])
def cross_sign(E, P, alg, way):
    """No signature of one of COSE_Sign1 / COSE_Sign is valid in the other, whatever the other message holds."""
    H = P.headers
    A = lib.alg(P, alg)
    key = lib.sig_key(E, P, alg)[0]
    vkey = lib.sig_key(E, P, alg, public=True)[0]
    kid, a, p = E.bytes("kid", 0, 3), E.bytes("a", 0, 3), E.bytes("p", 0, 3)
    k2, k3, a2, p2 = E.bytes("k2", 0, 3), E.bytes("k3", 0, 3), E.bytes("a2", 0, 3), E.bytes("p2", 0, 6)
    body = E.choice("body", ["empty", "alg", "kid"])
    bh = {"empty": {}, "alg": {H.Algorithm: A}, "kid": {H.KID: k3}}[body]
    # what the body carries unprotected, and its external data, have no influence
    more = E.choice("body more", ["none"] + ([["kid"], ["aad"]][body == "alg"] if body != "kid" else []))

    def into_sign(s):
        m = P.SignMessage(phdr=bh, uhdr={"none": {}, "kid": {H.KID: k3}, "aad": {99: k3}}[more], payload=p2, signers=[s])
        if more == "aad":
            m.external_aad = b"body"
        return m
    sh = E.choice("signer", ["empty", "kid"])
    s_ph, s_uh = ({}, {H.Algorithm: A}) if sh == "empty" else ({H.Algorithm: A, H.KID: k2}, {})
    one_ph = {H.Algorithm: A, H.KID: kid}
    if way == "1 to n":
        m1 = P.Sign1Message(phdr=one_ph, payload=p, external_aad=a, key=key)
        sig = m1.compute_signature()
        s = P.CoseSignature(phdr=s_ph, uhdr=s_uh, external_aad=a2, key=vkey, signature=sig)
        m = into_sign(s)
        E.check(E.not_(s.verify_signature()), "COSE_Sign1 signature inside COSE_Sign")
    else:
        s = P.CoseSignature(phdr=s_ph, uhdr=s_uh, external_aad=a2, key=key)
        m = into_sign(s)
        sig = s.compute_signature()
        m1 = P.Sign1Message(phdr=one_ph, payload=p, external_aad=a, key=vkey)
        m1.signature = sig
        E.check(E.not_(m1.verify_signature()), "COSE_Sign signature inside COSE_Sign1")


@case("S04", alg=list(lib.HMACS) + list(lib.AESMACS))
def cross_mac(E, P, alg):
    """No tag of COSE_Mac0 is valid in COSE_Mac or the reverse under the same key, whatever the other holds."""
    H = P.headers
    A = lib.alg(P, alg)
    n = lib.AESMACS[alg][0] if alg in lib.AESMACS else 32
    key = lib.sym_key(P, E.bytes("k", n))
    h1, a1, p1 = E.bytes("h1", 0, 2), E.bytes("a1", 0, 2), E.bytes("p1", 0, 3)
    h2, a2, p2 = E.bytes("h2", 0, 2), E.bytes("a2", 0, 2), E.bytes("p2", 0, 3)
    rc = P.DirectEncryption(uhdr={H.Algorithm: P.alg.Direct})
    m0 = P.Mac0Message(phdr={H.Algorithm: A, H.KID: h1}, payload=p1, external_aad=a1, key=key)
    mn = P.MacMessage(phdr={H.Algorithm: A, H.KID: h2}, payload=p2, external_aad=a2, key=key, recipients=[rc])
    t0, tn = m0.compute_tag(), mn.compute_tag()
    m0.auth_tag, mn.auth_tag = tn, t0
    E.check(E.not_(m0.verify_tag()), "COSE_Mac tag inside COSE_Mac0")
    E.check(E.not_(mn.verify_tag()), "COSE_Mac0 tag inside COSE_Mac")


@case("S04", alg=list(lib.AEADS))
def cross_enc(E, P, alg):
    """No ciphertext of COSE_Encrypt0 opens as COSE_Encrypt or the reverse under the same key and IV."""
    H = P.headers
    A = lib.alg(P, alg)
    kind, kl, tl, nl = lib.AEADS[alg]
    key = lib.sym_key(P, E.bytes("k", kl))
    iv = E.bytes("iv", nl)
    h1, a1, p1 = E.bytes("h1", 0, 2), E.bytes("a1", 0, 2), E.bytes("p1", 0, 3)
    h2, a2 = E.bytes("h2", 0, 2), E.bytes("a2", 0, 2)
    rc = P.DirectEncryption(uhdr={H.Algorithm: P.alg.Direct})
    way = E.choice("way", ["0 to n", "n to 0"])
    m0 = P.Enc0Message(phdr={H.Algorithm: A, H.KID: h1}, uhdr={H.IV: iv}, external_aad=a1, key=key)
    mn = P.EncMessage(phdr={H.Algorithm: A, H.KID: h2}, uhdr={H.IV: iv}, external_aad=a2, key=key, recipients=[rc])
    if way == "0 to n":
        m0.payload = p1
        mn.payload = m0.encrypt()
        r = E.run(mn.decrypt, rc)
    else:
        mn.payload = p1
        m0.payload = mn.encrypt()
        r = E.run(m0.decrypt)
    E.check(not r.ok, "ciphertext of the other message type")


@case("S04", kind=["mac", "enc"])
def cross_lists(E, P, kind):
    """The same for received multi-recipient messages with no, one or several recipients of any class, and none of the
    context of one message class in the other by any recipient list."""
    alg, aid = ("HMAC256", 5) if kind == "mac" else ("A128GCM", 1)
    k, kek = E.bytes("k", 16), E.bytes("kek", 16)
    h, a, p = E.bytes("h", 0, 2), E.bytes("a", 0, 2), E.bytes("p", 0, 2)
    iv = E.bytes("iv", 12)
    rcs = {"absent": None, "empty": [], "direct": [[b"", {1: -6}, b""]], "two": [[b"", {1: -6}, b""], [b"", {1: -6}, b""]],
           "wrap": [[b"", {1: -3}, E.keywrap(kek, k)]]}
    which = E.choice("recipients", sorted(rcs))
    prot = E.cbor({1: aid, 4: h})
    for ctx, good in (("MAC0" if kind == "mac" else "Encrypt0", False), ("MAC" if kind == "mac" else "Encrypt", True)):
        if kind == "mac":
            proof = E.hmac("sha256", k, E.cbor([ctx, prot, a, p]))
            body = [prot, {}, p, proof]
        else:
            proof = E.seal("gcm", 16, k, iv, E.cbor([ctx, prot, a]), p)
            body = [prot, {5: iv}, proof]
        if rcs[which] is not None:
            body.append(rcs[which])
        msg = P.CoseMessage.decode(E.cbor(E.tag(97 if kind == "mac" else 96, body)))
        msg.key, msg.external_aad = P.SymmetricKey(k=k), a
        if kind == "mac":
            E.check(E.iff(msg.verify_tag(), good), "the context of COSE_Mac, whatever the recipients")
        elif which in ("direct", "two", "wrap"):
            rc = msg.recipients[-1]
            rc.key = P.SymmetricKey(k=kek)
            r = E.run(msg.decrypt, rc)
            E.check(r.ok == good, "the context of COSE_Encrypt, whatever the recipients")
        # and the multi-recipient proof inside the single-recipient message
        body = body[:4 if kind == "mac" else 3]
        one = P.CoseMessage.decode(E.cbor(E.tag(17 if kind == "mac" else 16, body)))
        one.key, one.external_aad = P.SymmetricKey(k=k), a
        if kind == "mac":
            E.check(E.iff(one.verify_tag(), not good), "COSE_Mac0")
        else:
            E.check(E.run(one.decrypt).ok != good, "COSE_Encrypt0")


@case("S04", n=[1, 2, 3])
def cross_signers(E, P, n):
    """The same for received COSE_Sign messages with any number of signers and header placements."""
    key, scheme, pub, priv = lib.sig_key(E, P, "EdDSA")
    b, h, a, p = E.bytes("b", 0, 2), E.bytes("h", 0, 2), E.bytes("a", 0, 2), E.bytes("p", 0, 2)
    body = E.choice("body", ["empty", "kid"])
    place = E.choice("alg", ["protected", "unprotected"])
    bp = b"" if body == "empty" else E.cbor({4: b})
    sp, su = (E.cbor({1: -8, 4: h}), {}) if place == "protected" else (b"", {1: -8})
    made = {"Signature": ["Signature", bp, sp, a, p], "Signature1": ["Signature1", bp, a, p],
            "Signature1 of signer": ["Signature1", sp, a, p]}
    how = E.choice("made", sorted(made))
    sig = E.sign_ref(scheme, priv, E.cbor(made[how]))
    pos = E.choice("pos", list(range(n)))
    ss = [[b"", {1: -8}, b"other"] for _ in range(n)]
    ss[pos] = [sp, su, sig]
    bu = {99: b} if E.choice("body unprotected", [False, True]) else {}
    msg = P.CoseMessage.decode(E.cbor(E.tag(98, [bp, bu, p, ss])))
    s = msg.signers[pos]
    s.key, s.external_aad = lib.sig_key(E, P, "EdDSA", public=True)[0], a
    E.check(E.iff(s.verify_signature(), how == "Signature"), "only a signature made for COSE_Sign")
