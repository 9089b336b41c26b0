"""Recipients: transport and agreement of content keys, structure of recipient lists."""
from vt.registry import case
from . import lib

GCM = {16: ("A128GCM", 1), 24: ("A192GCM", 2), 32: ("A256GCM", 3)}
KWNAMES = sorted(lib.KWS)


def enc_ref(E, alg, key, iv, ph, aad, pt):
    ak, kl, tl, nl = lib.AEADS[alg]
    return E.seal(ak, tl, key, iv, E.cbor(["Encrypt", E.cbor(ph), aad]), pt)


def content(E, alg):
    ak, kl, tl, nl = lib.AEADS[alg]
    return E.bytes("iv", nl), E.bytes("p", 0, 3), E.bytes("aad", 0, 2)


def received(E, alg, cek, rcpts, iv, p, aad=b""):
    """wire form of a COSE_Encrypt with these recipients"""
    aid = lib.ALG_ID[alg]
    return E.cbor(E.tag(96, [E.cbor({1: aid}), {5: iv}, enc_ref(E, alg, cek, iv, {1: aid}, aad, p), rcpts]))


# -- R01 key wrap ----------------------------------------------------------------------

@case("R01", alg=["A128GCM", "A192GCM", "AESCCM1664256"], kw=KWNAMES, n=[1, 2],
      thorough={"alg": list(lib.AEADS), "n": [1, 2, 3]})
def wrap_send(E, P, alg, kw, n):
    """Every recipient of an encrypted message gets one and the same content key, wrapped under its own key: the key of
    the content, of the algorithm's length, preset by the caller or random."""
    H = P.headers
    A, W = lib.alg(P, alg), lib.alg(P, kw)
    want = lib.AEADS[alg][1]
    keks = [E.bytes("kek%d" % i, lib.KWS[kw]) for i in range(n)]
    preset = E.choice("preset", [None, "all"] + list(range(n)))
    cek = E.bytes("cek", want) if preset is not None else None
    rcs = [P.KeyWrap(uhdr={H.Algorithm: W, H.KID: bytes([i])}, key=P.SymmetricKey(k=keks[i]),
                     payload=cek if preset in ("all", i) else b"") for i in range(n)]
    iv, p, aad = content(E, alg)
    msg = P.EncMessage(phdr={H.Algorithm: A}, uhdr={H.IV: iv}, payload=p, external_aad=aad, recipients=rcs)
    wire = msg.encode()
    m = E.decode(wire)
    E.check(m.tag == 96 and len(m.value) == 4 and len(m.value[3]) == n, "four elements, all recipients")
    used = msg.key.k
    E.check(len(used) == want, "key of the algorithm's length")
    if cek is not None:
        E.check(E.eq(used, cek), "the preset key")
    E.check(E.eq(m.value[2], enc_ref(E, alg, used, iv, {1: lib.ALG_ID[alg]}, aad, p)), "content under the key")
    for i in range(n):
        E.check(E.eq(m.value[3][i], [b"", {1: lib.ALG_ID[kw], 4: bytes([i])}, E.keywrap(keks[i], used)]),
                "the key wrapped for the recipient")
    for i in range(n):
        got = P.CoseMessage.decode(wire)
        got.external_aad = aad
        r = got.recipients[i]
        r.key = P.SymmetricKey(k=keks[i])
        E.check(E.eq(got.decrypt(r), p), "every recipient reads the content")


@case("R01", kw=KWNAMES)
def wrap_receive(E, P, kw):
    """A received message opens exactly if the wrapped key is the one made with the recipient's key: any other bytes or
    another key are refused and nothing is returned."""
    n = lib.KWS[kw]
    kek, kek2, cek = E.bytes("kek", n), E.bytes("kek2", n), E.bytes("cek", 16)
    iv, p, aad = content(E, "A128GCM")
    ct = E.keywrap(kek, cek)
    how = E.choice("wrapped", ["sent", "bit", "other"])
    ct2 = ct if how == "sent" else E.flip("ct2", ct) if how == "bit" else E.tamper("ct2", ct, 2)
    if how == "other" and len(ct2) == 0:
        return  # malformed: R05
    msg = P.CoseMessage.decode(received(E, "A128GCM", cek, [[b"", {1: lib.ALG_ID[kw]}, ct2]], iv, p, aad))
    msg.external_aad = aad
    r = msg.recipients[0]
    r.key = P.SymmetricKey(k=kek2)
    res = E.run(msg.decrypt, r)
    E.check(E.iff(res.ok, E.all(E.eq(kek, kek2), E.eq(ct, ct2))), "opens exactly with the wrapped key of the sender")
    if res.ok:
        E.check(E.eq(res.value, p), "the content")


@case("R01", kw=KWNAMES)
def wrap_wrong_key(E, P, kw):
    """A content key wrapped for another message opens only that message."""
    kek, c1, c2 = E.bytes("kek", lib.KWS[kw]), E.bytes("c1", 16), E.bytes("c2", 16)
    iv, p, aad = content(E, "A128GCM")
    ct = E.keywrap(kek, c2)
    msg = P.CoseMessage.decode(received(E, "A128GCM", c1, [[b"", {1: lib.ALG_ID[kw]}, ct]], iv, p, aad))
    msg.external_aad = aad
    msg.recipients[0].key = P.SymmetricKey(k=kek)
    E.check(E.iff(E.run(msg.decrypt, msg.recipients[0]).ok, E.eq(c1, c2)), "only with the content's key")


@case("R01", kw=KWNAMES)
def wrap_key_length(E, P, kw):
    """A key of another length than the wrapping algorithm's is refused, wrapping and unwrapping."""
    H = P.headers
    n = E.choice("klen", [16, 24, 32])
    kek, cek = E.bytes("kek", n), E.bytes("cek", 16)
    iv, p, aad = content(E, "A128GCM")
    rc = P.KeyWrap(uhdr={H.Algorithm: lib.alg(P, kw)}, key=P.SymmetricKey(k=kek), payload=cek)
    msg = P.EncMessage(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: iv}, payload=p, recipients=[rc])
    E.check(E.run(msg.encode).ok == (n == lib.KWS[kw]), "wraps exactly with keys of its length")
    msg = P.CoseMessage.decode(received(E, "A128GCM", cek, [[b"", {1: lib.ALG_ID[kw]}, E.keywrap(kek, cek)]], iv, p))
    msg.recipients[0].key = P.SymmetricKey(k=kek)
    E.check(E.run(msg.decrypt, msg.recipients[0]).ok == (n == lib.KWS[kw]), "unwraps exactly with keys of its length")


@case("R01", alg=sorted(lib.OAEPS))
def oaep(E, P, alg):
    """RSA-OAEP recipients: the content key is encrypted with the recipient's public key and the algorithm's hash; the
    private key opens it and no other does; whatever opens is the content."""
    H = P.headers
    priv, _, _, m0 = lib.sig_key(E, P, "Ps256")
    pub = lib.sig_key(E, P, "Ps256", public=True)[0]
    cek = E.bytes("cek", 16)
    iv, p, aad = content(E, "A128GCM")
    rc = P.KeyWrap(uhdr={H.Algorithm: lib.alg(P, alg)}, key=pub, payload=cek)
    msg = P.EncMessage(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: iv}, payload=p, external_aad=aad, recipients=[rc])
    wire = msg.encode()
    m = E.decode(wire)
    E.check(E.eq(m.value[3][0][:2], [b"", {1: lib.ALG_ID[alg]}]), "recipient headers")
    k = E.oaep_open(lib.OAEPS[alg], m0, m.value[3][0][2])
    E.check(k is not None and E.eq(k, cek), "the content key for the recipient, with the algorithm's hash")
    E.check(E.eq(m.value[2], enc_ref(E, "A128GCM", cek, iv, {1: 1}, aad, p)), "content under the key")
    got = P.CoseMessage.decode(wire)
    got.external_aad = aad
    which = E.choice("with", ["the key", "another key", "changed"])
    r = got.recipients[0]
    r.key = priv if which != "another key" else lib.sig_key(E, P, "Ps256", 1)[0]
    sent = r.payload
    if which == "changed":
        r.payload = E.flip("bad", sent)
    res = E.run(got.decrypt, r)
    if which == "another key":
        E.check(not res.ok, "only with the recipient's key")
    else:
        E.check(E.implies(E.eq(r.payload, sent), res.ok), "the key as sent")
    if res.ok:
        E.check(E.eq(res.value, p), "the content")


@case("R01", alg=["A128GCM", "A256GCM", "AESCCM6464256"])
def mixed_recipients(E, P, alg):
    """Recipients of different classes on one message all get the content's key."""
    H = P.headers
    want = lib.AEADS[alg][1]
    kek = E.bytes("kek", 16)
    iv, p, aad = content(E, alg)
    order = E.choice("order", [0, 1, 2])
    preset = E.choice("preset", [None, 0, 1, 2])
    cek = E.bytes("cek", want) if preset is not None else None
    kw = P.KeyWrap(uhdr={H.Algorithm: P.alg.A128KW}, key=P.SymmetricKey(k=kek))
    rsa = P.KeyWrap(uhdr={H.Algorithm: P.alg.RsaesOaepSha256}, key=lib.sig_key(E, P, "Ps256", public=True)[0])
    ka = P.KeyAgreementWithKeyWrap(phdr={H.Algorithm: P.alg.EcdhSsA128KW}, key=lib.ec_key(E, P, "P256", 0),
                                   uhdr={H.StaticKey: lib.ec_key(E, P, "P256", 0, public=True)})
    ka.local_attrs = {H.StaticKey: lib.ec_key(E, P, "P256", 1, public=True)}
    rcs = [kw, rsa, ka]
    if preset is not None:
        rcs[preset].payload = cek
    rcs = rcs[order:] + rcs[:order]
    msg = P.EncMessage(phdr={H.Algorithm: lib.alg(P, alg)}, uhdr={H.IV: iv}, payload=p, external_aad=aad,
                       recipients=rcs)
    wire = msg.encode()
    if cek is not None:
        E.check(E.eq(E.decode(wire).value[2], enc_ref(E, alg, cek, iv, {1: lib.ALG_ID[alg]}, aad, p)), "preset key")
    for i in range(3):
        got = P.CoseMessage.decode(wire)
        got.external_aad = aad
        r = got.recipients[i]
        r.key = [P.SymmetricKey(k=kek), lib.sig_key(E, P, "Ps256")[0], lib.ec_key(E, P, "P256", 1)][(i + order) % 3]
        E.check(E.eq(got.decrypt(r), p), "every recipient reads the content")


@case("R01", kind=["enc", "mac"])
def conflicting_keys(E, P, kind):
    """Recipients given different content keys are refused; equal ones are used."""
    H = P.headers
    kek = E.bytes("kek", 16)
    c1, c2 = E.bytes("c1", 16), E.bytes("c2", 16)
    rcs = [P.KeyWrap(uhdr={H.Algorithm: P.alg.A128KW}, key=P.SymmetricKey(k=kek), payload=c) for c in (c1, c2)]
    if kind == "enc":
        msg = P.EncMessage(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: bytes(12)}, payload=b"p", recipients=rcs)
    else:
        msg = P.MacMessage(phdr={H.Algorithm: P.alg.HMAC256}, payload=b"p", recipients=rcs)
    r = E.run(msg.encode)
    E.check(E.iff(r.ok, E.eq(c1, c2)), "one content key")
    E.check(r.ok or r.raised("CoseException"), "CoseException")


@case("R01", kind=["enc", "mac"])
def fresh_keys(E, P, kind):
    """Random content keys are drawn anew for every message."""
    H = P.headers
    keys = []
    for i in range(2):
        rc = P.KeyWrap(uhdr={H.Algorithm: P.alg.A128KW}, key=P.SymmetricKey(k=bytes(range(16))))
        if kind == "enc":
            msg = P.EncMessage(phdr={H.Algorithm: P.alg.A256GCM}, uhdr={H.IV: bytes(12)}, payload=b"p",
                               recipients=[rc])
        else:
            msg = P.MacMessage(phdr={H.Algorithm: P.alg.HMAC256}, payload=b"p", recipients=[rc])
        msg.encode()
        keys.append(msg.key.k)
    E.check(E.not_(E.eq(keys[0], keys[1])), "different keys")
    E.check(len(keys[0]) == 32, "of full length")


# -- R02, R03 key agreement ----------------------------------------------------------------

def kdf_context(E, alg_id, keylen, prot, u=(None, None, None), v=(None, None, None), pub=b"", priv=b""):
    sp = [keylen * 8, prot]
    if len(pub):
        sp.append(pub)
    c = [alg_id, list(u), list(v), sp]
    if len(priv):
        c.append(priv)
    return E.cbor(c)


def party(E, H, name, shape):
    """(header entries, wire entries, party info) of one party"""
    u = name == "u"
    hs = (H.PartyUID, H.PartyUNonce, H.PartyUOther) if u else (H.PartyVID, H.PartyVNonce, H.PartyVOther)
    base = -21 if u else -24
    lib_, wire, info = {}, {}, [None, None, None]
    for i in range(3):
        if shape & (1 << i):
            v = E.bytes("%s%d" % (name, i), 0, 2)
            lib_[hs[i]] = wire[base - i] = info[i] = v
    return lib_, wire, info


def agreement(E, P, name, crv, ephemeral, target, parties=(0, 0), local=False, salted=False, preset_key=True):
    """a recipient, its reference wire headers and the reference of the derived key"""
    H = P.headers
    hash_, static, kw = lib.ECDHS[name]
    cls = P.KeyAgreementWithKeyWrap if kw else P.DirectKeyAgreement
    pl, pw, pi = {}, {}, [[None] * 3, [None] * 3]
    for n, (who, shape) in enumerate(zip("uv", parties)):
        a, b, c = party(E, H, who, shape)
        pl.update(a), pw.update(b)
        pi[n] = c
    salt = None
    if salted:
        salt = E.bytes("salt", 0, 3)
        pl[H.Salt] = pw[-20] = salt
    rc = cls(phdr={H.Algorithm: lib.alg(P, name)}, uhdr=pl, key=lib.ec_key(E, P, crv, 0) if preset_key else None)
    la = {H.StaticKey: lib.ec_key(E, P, crv, 1, public=True)}
    pub = priv = b""
    if local:
        pub, priv = E.bytes("pub", 0, 2), E.bytes("priv", 0, 2)
        la[H.SuppPubOther], la[H.SuppPrivOther] = pub, priv
    rc.local_attrs = la
    prot = E.cbor({1: lib.ALG_ID[name]})
    tid, tl = (lib.ALG_ID[kw], lib.KWS[kw]) if kw else (lib.ALG_ID[target], target_length(target))

    def derive(d, x, y):
        return E.hkdf(hash_, tl, salt, kdf_context(E, tid, tl, prot, pi[0], pi[1], pub, priv), E.ecdh(crv, d, x, y))
    return rc, pw, derive, (pub, priv)


def target_length(target):
    return lib.AEADS[target][1] if target in lib.AEADS else lib.AESMACS[target][0] if target in lib.AESMACS else 32


def wire_key(E, crv, i):
    d, x, y = E.mat("EC2", crv, i)
    return {1: 2, -1: {"P256": 1, "P384": 2, "P521": 3, "SECP256K1": 8}[crv], -2: x, -3: y}


PARTIES = [(0, 0), (1, 0), (0, 1), (6, 5)]
DIRECT_KA = sorted(n for n in lib.ECDHS if lib.ECDHS[n][2] is None)
WRAP_KA = sorted(n for n in lib.ECDHS if lib.ECDHS[n][2] is not None)


def agree(E, P, name, crv, alg):
    """send and receive with key agreement, the sender's key given"""
    H = P.headers
    hash_, static, kw = lib.ECDHS[name]
    ak, kl, tl, nl = lib.AEADS[alg]
    shapes = E.choice("parties", PARTIES if E.tier == "thorough" or crv == "P256" else PARTIES[:1])
    rc, wh, derive, (pub, priv) = agreement(E, P, name, crv, not static, alg, shapes, local=True)
    send = E.choice("sender key in", ["uhdr", "phdr"]) if E.tier == "thorough" else "uhdr"
    hdr = H.StaticKey if static else H.EphemeralKey
    sk = lib.ec_key(E, P, crv, 0, public=True)
    if send == "uhdr":
        rc.uhdr_update({hdr: sk})
        wh[-2 if static else -1] = wire_key(E, crv, 0)
        ph = {1: lib.ALG_ID[name]}
    else:
        rc.phdr_update({hdr: sk})
        ph = {1: lib.ALG_ID[name], (-2 if static else -1): wire_key(E, crv, 0)}
    cek = E.bytes("cek", kl) if kw else None
    if kw:
        rc.payload = cek
    iv, p, aad = content(E, alg)
    msg = P.EncMessage(phdr={H.Algorithm: lib.alg(P, alg)}, uhdr={H.IV: iv}, payload=p, external_aad=aad,
                       recipients=[rc])
    wire = msg.encode()
    m = E.decode(wire)
    d, x, y = E.mat("EC2", crv, 1)
    own = E.mat("EC2", crv, 0)
    if send == "uhdr":
        k = derive(own[0], x, y)
        E.check(E.eq(m.value[3][0][:2], [E.cbor(ph), wh]), "recipient headers")
        E.check(E.eq(m.value[3][0][2], E.keywrap(k, cek) if kw else b""), "recipient ciphertext")
        E.check(E.eq(m.value[2], enc_ref(E, alg, cek if kw else k, iv, {1: lib.ALG_ID[alg]}, aad, p)),
                "content under the specified key")
        E.check(E.eq(k, derive(d, own[1], own[2])), "the same for both sides")
    got = P.CoseMessage.decode(wire)
    got.external_aad = aad
    r = got.recipients[0]
    r.key = lib.ec_key(E, P, crv, 1)
    r.local_attrs = {H.SuppPubOther: pub, H.SuppPrivOther: priv}
    E.check(E.eq(got.decrypt(r), p), "the receiver reads the content")


@case("R02", name=DIRECT_KA, crv=["P256", "P384", "P521", "SECP256K1"], alg=["A128GCM", "A192GCM", "AESCCM1664256"])
def direct_agreement(E, P, name, crv, alg):
    """The content key is HKDF (hash of the algorithm) of the ECDH secret over the KDF context of the content
    algorithm; the receiver derives the same."""
    agree(E, P, name, crv, alg)


@case("R03", name=WRAP_KA, crv=["P256", "P384", "P521", "SECP256K1"], alg=["A128GCM", "A192GCM", "AESCCM1664256"])
def wrapped_agreement(E, P, name, crv, alg):
    """The content key is wrapped with the algorithm's key wrap under HKDF of the ECDH secret over the KDF context of
    the wrapping algorithm; the receiver unwraps it."""
    agree(E, P, name, crv, alg)


@case("R02", name=["EcdhEsHKDF256", "EcdhEsHKDF512"], kind=["enc", "mac"], crv=["P256", "P384", "P521", "SECP256K1"])
def ephemeral_direct(E, P, name, kind, crv):
    ephemeral(E, P, name, kind, crv)


@case("R03", name=["EcdhEsA128KW", "EcdhEsA192KW", "EcdhEsA256KW"], kind=["enc", "mac"], crv=["P256", "P384", "P521", "SECP256K1"])
def ephemeral_wrap(E, P, name, kind, crv):
    ephemeral(E, P, name, kind, crv)


def ephemeral(E, P, name, kind, crv):
    """Without a sender key a fresh one on the receiver's curve is generated per message; its public part only is in
    the unprotected header, and the receiver derives the key from it."""
    H = P.headers
    hash_, static, kw = lib.ECDHS[name]
    sent = []
    for i in range(2):
        rc, wh, derive, loc = agreement(E, P, name, crv, True, "A128GCM" if kind == "enc" else "AESMAC12864",
                                        preset_key=False)
        p, iv = E.bytes("p%d" % i, 0, 3), E.bytes("iv%d" % i, 12)
        if kind == "enc":
            msg = P.EncMessage(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: iv}, payload=p, recipients=[rc])
        else:
            msg = P.MacMessage(phdr={H.Algorithm: P.alg.AESMAC12864}, payload=p, recipients=[rc])
        wire = msg.encode()
        m = E.decode(wire)
        el = m.value[-1][0]
        ek = el[1][-1]
        E.check(E.eq(el[1], {-1: ek}) and sorted(ek) == [-3, -2, -1, 1], "public ephemeral key in the header")
        E.check(ek[1] == 2 and ek[-1] == wire_key(E, crv, 0)[-1], "on the receiver's curve")
        d = E.mat("EC2", crv, 1)[0]
        k = derive(d, ek[-2], ek[-3])
        if not kw:
            E.check(el[2] == b"", "no ciphertext")
        cek = k if not kw else rc.payload
        if kw:
            E.check(E.eq(el[2], E.keywrap(k, cek)), "wrapped under the derived key")
        if kind == "enc":
            E.check(E.eq(m.value[2], enc_ref(E, "A128GCM", cek, iv, {1: 1}, b"", p)), "content under the key")
        else:
            E.check(E.eq(m.value[3], E.cbcmac(cek, E.cbor(["MAC", E.cbor({1: 14}), b"", p]))[:8]), "tag under the key")
        got = P.CoseMessage.decode(wire)
        r = got.recipients[0]
        r.key = lib.ec_key(E, P, crv, 1)
        if kind == "enc":
            E.check(E.eq(got.decrypt(r), p), "the receiver reads the content")
        else:
            E.check(E.eq(r.compute_cek(P.alg.AESMAC12864, "decrypt").k, cek), "the receiver derives the key")
        sent.append(ek)
    E.check(E.not_(E.eq(sent[0][-2], sent[1][-2])), "another ephemeral key for another message")


@case("R02", name=DIRECT_KA, have=["both", "static", "ephemeral"])
def direct_which_key(E, P, name, have):
    which_key(E, P, name, have)


@case("R03", name=WRAP_KA, have=["both", "static", "ephemeral", "none"])
def wrap_which_key(E, P, name, have):
    which_key(E, P, name, have)


def which_key(E, P, name, have):
    """The receiver agrees with the sender's ephemeral key for the ephemeral algorithms and the sender's static key for
    the static ones, in either bucket, and with no other key that happens to be around."""
    H = P.headers
    hash_, static, kw = lib.ECDHS[name]
    prot, uh = {1: lib.ALG_ID[name]}, {}
    bucket = E.choice("bucket", ["unprotected", "protected"])
    for lab, i, n in ((-2, 0, "static"), (-1, 2, "ephemeral")):
        if have in (n, "both"):
            (uh if bucket == "unprotected" else prot)[lab] = wire_key(E, "P256", i)
    made = E.choice("made with", ["static", "ephemeral"])
    d = E.mat("EC2", "P256", 1)[0]
    snd = E.mat("EC2", "P256", 0 if made == "static" else 2)
    tid, tl = (lib.ALG_ID[kw], lib.KWS[kw]) if kw else (1, 16)
    k = E.hkdf(hash_, tl, None, kdf_context(E, tid, tl, E.cbor(prot), [None] * 3, [None] * 3),
               E.ecdh("P256", d, snd[1], snd[2]))
    cek = E.bytes("cek", 16) if kw else k
    iv, p, aad = content(E, "A128GCM")
    wire = received(E, "A128GCM", cek, [[E.cbor(prot), uh, E.keywrap(k, cek) if kw else b""]], iv, p, aad)
    want = "static" if static else "ephemeral"
    r = E.run(P.CoseMessage.decode, wire)
    if not r.ok:
        E.check(not static and have in ("static", "none") and r.raised("CoseMalformedMessage"), "an ephemeral key is there")
        return
    E.check(static or have not in ("static", "none"), "must carry an ephemeral key")
    msg = r.value
    msg.external_aad = aad
    rc = msg.recipients[0]
    rc.key = lib.ec_key(E, P, "P256", 1)
    if E.choice("local", [False, True]):
        other = lib.ec_key(E, P, "P256", 0 if made == "static" else 2, public=True)
        rc.local_attrs = {H.StaticKey: other, H.EphemeralKey: other}
    res = E.run(msg.decrypt, rc)
    good = have in (want, "both") and made == want
    E.check(res.ok == good, "opens exactly with the key of the algorithm's kind")
    if res.ok:
        E.check(E.eq(res.value, p), "the content")
    elif have not in (want, "both"):
        E.check(res.raised("CoseException"), "CoseException")


@case("R02", name=["EcdhEsHKDF256", "EcdhSsHKDF256"])
def direct_refused(E, P, name):
    refused(E, P, name)


@case("R03", name=["EcdhEsA128KW", "EcdhSsA128KW"])
def wrap_refused(E, P, name):
    refused(E, P, name)


def refused(E, P, name):
    """Missing keys, keys of another curve or receiver, and changed recipient data are refused; nothing is returned."""
    H = P.headers
    hash_, static, kw = lib.ECDHS[name]
    rc, wh, derive, loc = agreement(E, P, name, "P256", not static, "A128GCM")
    rc.uhdr_update({H.StaticKey if static else H.EphemeralKey: lib.ec_key(E, P, "P256", 0, public=True)})
    if kw:
        rc.payload = E.bytes("cek", 16)
    iv, p, aad = content(E, "A128GCM")
    how = E.choice("how", ["no peer", "peer curve", "sender none", "receiver none", "receiver other", "receiver curve",
                           "sender other", "protected", "ciphertext", "party"])
    if how == "no peer":
        rc.local_attrs = {H.StaticKey: None}
    if how == "peer curve":
        rc.local_attrs = {H.StaticKey: lib.ec_key(E, P, "P384", 1, public=True)}
    if how == "sender none":
        rc.key = None
    msg = P.EncMessage(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: iv}, payload=p, external_aad=aad,
                       recipients=[rc])
    res = E.run(msg.encode)
    if how in ("no peer", "peer curve", "sender none"):
        # an unrelated ephemeral key is in the header when none is set
        E.check(res.raised("CoseException"), "CoseException")
        E.check(rc.key is None or how != "sender none", "no key was set")
        E.check(E.run(msg.encode).raised("CoseException"), "and again")
        return
    m = E.decode(res.value)
    el = m.value[3][0]
    body = list(m.value)
    if how == "sender other":
        el[1][-2 if static else -1] = wire_key(E, "P256", 2)
    if how == "protected":
        el[0] = E.cbor({1: lib.ALG_ID[name], 4: E.bytes("kid", 0, 2)})
    if how == "party":
        el[1][-21] = E.bytes("uid", 0, 2)
    if how == "ciphertext" and kw:
        el[2] = E.flip("ct", el[2])
    body[3] = [el]
    got = P.CoseMessage.decode(E.cbor(E.tag(96, body)))
    got.external_aad = aad
    r = got.recipients[0]
    r.key = {"receiver none": None, "receiver curve": lib.ec_key(E, P, "P384", 1),
             "receiver other": lib.ec_key(E, P, "P256", 2)}.get(how, lib.ec_key(E, P, "P256", 1))
    res = E.run(got.decrypt, r)
    if how == "ciphertext":
        E.check(E.iff(res.ok, E.eq(el[2], E.decode(msg.encode()).value[3][0][2]) if kw else True), "only as sent")
    else:
        E.check(not res.ok, "refused")
    if how in ("receiver none", "receiver curve"):
        E.check(res.raised("CoseException"), "CoseException")


# -- R04 KDF context -----------------------------------------------------------------------

SHAPES = [(0, 0), (7, 7), (1, 0), (0, 1), (2, 4), (4, 2), (3, 5), (0, 7), (7, 0)]


@case("R04", name=sorted(lib.ECDHS))
def context_used(E, P, name):
    """Party information and salt from the headers and supplementary information of both kinds enter the derivation
    exactly as the COSE_KDF_Context says (absent party fields as nil, absent supplements omitted)."""
    H = P.headers
    hash_, static, kw = lib.ECDHS[name]
    shapes = E.choice("parties", SHAPES)
    salted = E.choice("salted", [False, True])
    rc, wh, derive, (pub, priv) = agreement(E, P, name, "P256", not static, "A192GCM", shapes, True, salted)
    own, peer = E.mat("EC2", "P256", 0), E.mat("EC2", "P256", 1)
    if not static:
        rc.uhdr_update({H.EphemeralKey: lib.ec_key(E, P, "P256", 0, public=True)})
    if kw:
        rc.payload = bytes(range(24))
        ct = rc.encrypt(None)
        E.check(E.eq(ct, E.keywrap(derive(own[0], peer[1], peer[2]), rc.payload)), "wrapping key")
    else:
        k = rc.compute_cek(P.alg.A192GCM, "encrypt").k
        E.check(E.eq(k, derive(own[0], peer[1], peer[2])), "content key")
        E.check(len(k) == 24, "of the algorithm's length")


@case("R04", name=[n for n in sorted(lib.ECDHS) if "Ss" in n])
def context_received(E, P, name):
    """The receiver derives from what it received: party fields, salt and the protected header's bytes as they are on
    the wire, in any encoding."""
    H = P.headers
    hash_, static, kw = lib.ECDHS[name]
    aid = lib.ALG_ID[name]
    kid = E.bytes("kid", 0, 2)
    prot = {"plain": E.cbor({1: aid, 4: kid}), "order": E.cbor({4: kid, 1: aid}),
            "other": E.wire("prot", {1: aid, 4: kid})}[E.choice("protected", ["plain", "order", "other"])]
    shapes = E.choice("parties", [(0, 0), (7, 7), (2, 4)])
    uh, pi = {-2: wire_key(E, "P256", 0)}, []
    for who, shape in zip("uv", shapes):
        a, b, c = party(E, H, who, shape)
        uh.update(b)
        pi.append(c)
    salt = None
    if E.choice("salted", [False, True]):
        salt = uh[-20] = E.bytes("salt", 1, 3)
    d, x, y = E.mat("EC2", "P256", 1)
    own = E.mat("EC2", "P256", 0)
    tid, tl = (lib.ALG_ID[kw], lib.KWS[kw]) if kw else (1, 16)
    k = E.hkdf(hash_, tl, salt, kdf_context(E, tid, tl, prot, pi[0], pi[1]), E.ecdh("P256", d, own[1], own[2]))
    cek = bytes(range(16)) if kw else k
    iv, p, aad = content(E, "A128GCM")
    msg = P.CoseMessage.decode(received(E, "A128GCM", cek, [[prot, uh, E.keywrap(k, cek) if kw else b""]], iv, p, aad))
    msg.external_aad = aad
    msg.recipients[0].key = lib.ec_key(E, P, "P256", 1)
    E.check(E.eq(msg.decrypt(msg.recipients[0]), p), "the receiver derives the key")


@case("R04", name=["EcdhSsHKDF256", "EcdhSsA256KW"])
def context_bound(E, P, name):
    """Both sides read the content exactly if their supplementary information is the same."""
    H = P.headers
    hash_, static, kw = lib.ECDHS[name]
    rc, wh, derive, (pub, priv) = agreement(E, P, name, "P256", False, "A128GCM", local=True)
    rc.uhdr_update({H.StaticKey: lib.ec_key(E, P, "P256", 0, public=True)})
    iv, p, aad = content(E, "A128GCM")
    msg = P.EncMessage(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: iv}, payload=p, external_aad=aad,
                       recipients=[rc])
    got = P.CoseMessage.decode(msg.encode())
    got.external_aad = aad
    r = got.recipients[0]
    r.key = lib.ec_key(E, P, "P256", 1)
    pub2, priv2 = E.bytes("pub2", 0, 2), E.bytes("priv2", 0, 2)
    r.local_attrs = {H.SuppPubOther: pub2, H.SuppPrivOther: priv2}
    res = E.run(got.decrypt, r)
    E.check(E.iff(res.ok, E.all(E.eq(pub, pub2), E.eq(priv, priv2))), "exactly with the same information")


@case("R04", target=sorted(lib.AEADS) + KWNAMES)
def context_encoding(E, P, target):
    """A KDF context built directly encodes as the structure of RFC 8152 section 11.2 for any field values."""
    C = P.ctx
    n = lib.AEADS[target][1] if target in lib.AEADS else lib.KWS[target]
    shapes = E.choice("parties", SHAPES)
    pi = [[E.bytes("%s%d" % (w, i), 0, 2) if s & (1 << i) else None for i in range(3)] for w, s in zip("uv", shapes)]
    kind = E.choice("protected", ["bytes", "map", "empty map", "default"])
    kid = E.bytes("kid", 0, 2)
    prot = {"bytes": kid, "map": {P.headers.KID: kid}, "empty map": {}, "default": None}[kind]
    want = {"bytes": kid, "map": E.cbor({4: kid}), "empty map": b"", "default": b""}[kind]
    pub, priv = E.bytes("pub", 0, 2), E.bytes("priv", 0, 2)
    sp = C.SuppPubInfo(n, prot, pub) if prot is not None else C.SuppPubInfo(n, other=pub)
    c = C.CoseKDFContext(lib.alg(P, target), sp, C.PartyInfo(*pi[0]), C.PartyInfo(*pi[1]), priv)
    E.check(E.eq(c.encode(), kdf_context(E, lib.ALG_ID[target], n, want, pi[0], pi[1], pub, priv)), "KDF context")


@case("R04", how=["constructor", "setter"])
def context_key_length(E, P, how):
    """Key lengths other than 16, 24 and 32 are refused, whatever number they are."""
    C = P.ctx
    n = E.int("n", -40, 300)
    good = E.any(E.eq(n, 16), E.eq(n, 24), E.eq(n, 32))
    s = C.SuppPubInfo(16, b"")
    r = E.run(C.SuppPubInfo, n, b"") if how == "constructor" else E.run(setattr, s, "key_data_length", n)
    E.check(E.iff(r.ok, good), "16, 24 or 32")
    E.check(r.ok or r.raised("ValueError"), "ValueError")
    if how == "setter":
        E.check(E.eq(s.key_data_length, n if r.ok else 16), "set or unchanged")


# -- R05 modes --------------------------------------------------------------------------------

MODES = {"direct": -6, "agreement": -27, "wrap": -3, "agreement+wrap": -32}


def mode_rcpt(E, P, mode):
    H = P.headers
    if mode == "direct":
        return P.DirectEncryption(uhdr={H.Algorithm: P.alg.Direct})
    if mode == "wrap":
        return P.KeyWrap(uhdr={H.Algorithm: P.alg.A128KW}, key=P.SymmetricKey(k=bytes(range(16))))
    c, a = (P.DirectKeyAgreement, P.alg.EcdhSsHKDF256) if mode == "agreement" else \
        (P.KeyAgreementWithKeyWrap, P.alg.EcdhSsA128KW)
    r = c(phdr={H.Algorithm: a}, key=lib.ec_key(E, P, "P256", 0),
          uhdr={H.StaticKey: lib.ec_key(E, P, "P256", 0, public=True)})
    r.local_attrs = {H.StaticKey: lib.ec_key(E, P, "P256", 1, public=True)}
    return r


def legal(modes):
    if not modes:
        return False
    if "direct" in modes:
        return all(m == "direct" for m in modes)
    return "agreement" not in modes or len(modes) == 1


@case("R05", kind=["enc", "mac"])
def modes(E, P, kind):
    """Direct encryption is never mixed with another mode and direct key agreement is the only recipient; everything
    else sends; every list of up to three recipients, sending and receiving."""
    H = P.headers
    n = E.choice("n", [0, 1, 2, 3])
    names = sorted(MODES)
    ms = [E.choice("m%d" % i, names) for i in range(n)]
    rcs = [mode_rcpt(E, P, m) for m in ms]
    key = P.SymmetricKey(k=bytes(16))
    p = E.bytes("p", 0, 2)
    if kind == "enc":
        msg = P.EncMessage(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: bytes(12)}, payload=p, key=key,
                           recipients=rcs)
    else:
        msg = P.MacMessage(phdr={H.Algorithm: P.alg.AESMAC12864}, payload=p, key=key, recipients=rcs)
    r = E.run(msg.encode)
    if kind == "enc" or n:
        E.check(r.ok == legal(ms), "sent exactly with a legal combination")
        E.check(r.ok or r.raised("CoseException"), "CoseException")
    if r.ok:
        got = P.CoseMessage.decode(r.value)
        E.check([type(x) for x in got.recipients] == [type(x) for x in rcs], "the recipients' classes")
        return
    if kind == "enc" and n:
        els = {"direct": [b"", {1: -6}, b""], "wrap": [b"", {1: -3}, E.keywrap(bytes(range(16)), bytes(16))],
               "agreement": [E.cbor({1: -27}), {-2: wire_key(E, "P256", 0)}, b""],
               "agreement+wrap": [E.cbor({1: -32}), {-2: wire_key(E, "P256", 0)}, bytes(24)]}
        got = P.CoseMessage.decode(received(E, "A128GCM", bytes(16), [els[m] for m in ms], bytes(12), p))
        got.key = key
        for x in got.recipients:
            if type(x) is P.KeyWrap:
                x.key = P.SymmetricKey(k=bytes(range(16)))
        r = E.run(got.decrypt, got.recipients[E.choice("to", list(range(n)))])
        E.check(r.raised("CoseException"), "nor is it received")


def decoded(E, P, el):
    return E.run(P.CoseMessage.decode, E.cbor(E.tag(96, [E.cbor({1: 1}), {5: bytes(12)}, b"c", [el]])))


@case("R05", mode=sorted(MODES))
def recipient_shape(E, P, mode):
    """Received recipients: direct ones have no ciphertext, no recipients and no protected header, AES key wrap has
    a ciphertext and no protected header, ephemeral key agreement has an ephemeral key; anything else is refused."""
    nil = mode == "direct" and E.choice("nil", [False, True])
    ct = None if nil else E.bytes("ct", 0, 3)
    kid = E.bytes("kid", 0, 2)
    alg = MODES[mode]
    if mode.startswith("agreement") and E.choice("es", [False, True]):
        alg = -25 if mode == "agreement" else -29
    where = E.choice("alg in", ["protected", "unprotected", "none"] + (["both"] if mode != "agreement+wrap" else []))
    extra = E.choice("extra protected", [False, True])
    nested = E.choice("nested", [None, "empty", "one"])
    eph = E.choice("ephemeral", [False, True]) if mode.startswith("agreement") else False
    ph, uh = {}, {}
    if where in ("protected", "both"):
        ph[1] = alg
    if where == "unprotected":
        uh[1] = alg
    if where == "both":
        uh[1] = alg
    if extra:
        ph[4] = kid
    if eph:
        uh[-1] = wire_key(E, "P256", 0)
    el = [E.cbor(ph) if ph else b"", uh, ct]
    if nested is not None:
        el.append([] if nested == "empty" else [[b"", {1: -3}, b"w"]])
    r = decoded(E, P, el)
    good = where in ("protected", "unprotected")
    if mode == "direct":
        good = E.all(good, not ph, ct is not None and len(ct) == 0, nested != "one")
    elif mode == "wrap":
        good = E.all(good, not ph, len(ct) > 0)
    elif mode == "agreement":
        good = E.all(good, nested != "one", eph or alg != -25)
    else:
        good = E.all(good, len(ct) > 0, eph or alg != -29)
    E.check(E.iff(r.ok, good), "accepted exactly if well formed")
    if r.ok:
        c = {"direct": P.DirectEncryption, "wrap": P.KeyWrap, "agreement": P.DirectKeyAgreement,
             "agreement+wrap": P.KeyAgreementWithKeyWrap}[mode]
        x = r.value.recipients[0]
        E.check(type(x) is c, "class of the protected algorithm, else of the unprotected one")
        E.check(E.eq(x.payload, ct), "ciphertext")
        E.check(len(x.recipients) == (1 if nested == "one" else 0), "its recipients")
    else:
        E.check(r.raised("CoseMalformedMessage", "CoseException"), "the library's exception")


@case("R05", bucket=["protected", "unprotected"])
def recipient_class(E, P, bucket):
    """The algorithm decides the recipient class; every integer in -300..300; all others are refused."""
    n = E.int("alg", -300, 300)
    uh = {-1: wire_key(E, "P256", 0)}
    if bucket == "unprotected":
        uh[1] = n
    ct = E.choice("ct", [b"", b"c"])
    r = decoded(E, P, [E.cbor({1: n}) if bucket == "protected" else b"", uh, ct])
    direct = E.eq(n, -6) if bucket == "unprotected" else False
    direct = E.all(E.any(direct, E.eq(n, -10), E.eq(n, -12 - 1)), ct == b"")
    agree_ = E.any(*[E.eq(n, lib.ALG_ID[a]) for a in DIRECT_KA])
    wrap = E.any(*[E.eq(n, lib.ALG_ID[a]) for a in lib.OAEPS])
    if bucket == "unprotected":
        wrap = E.any(wrap, *[E.eq(n, lib.ALG_ID[a]) for a in lib.KWS])
    wrap = E.all(wrap, ct != b"")
    both = E.all(E.any(*[E.eq(n, lib.ALG_ID[a]) for a in WRAP_KA]), ct != b"")
    E.check(E.iff(r.ok, E.any(direct, agree_, wrap, both)), "accepted exactly with a recipient algorithm")
    if r.ok:
        c = type(r.value.recipients[0]).__name__
        E.check(E.all(E.iff(direct, c == "DirectEncryption"), E.iff(agree_, c == "DirectKeyAgreement"),
                      E.iff(wrap, c == "KeyWrap"), E.iff(both, c == "KeyAgreementWithKeyWrap")), "class")


CLASSES = {"DirectEncryption": ["Direct", "DirectHKDFSHA256", "DirectHKDFAES256"],
           "KeyWrap": sorted(lib.KWS) + sorted(lib.OAEPS), "DirectKeyAgreement": DIRECT_KA,
           "KeyAgreementWithKeyWrap": WRAP_KA}


@case("R05", cls=sorted(CLASSES), kind=["enc", "mac"])
def sending_class(E, P, cls, kind):
    """A recipient encodes only with an algorithm of its class, whatever keys it has; every other algorithm, or none, is
    refused with the library's exception, and what is sent is read back as that class."""
    H = P.headers
    names = sorted(n for n in lib.ALG_ID if hasattr(P.alg, n))
    if E.tier == "quick":
        names = [n for n in names if any(n in v for v in CLASSES.values())] + ["A128GCM", "Es256", "HMAC256"]
    name = E.choice("alg", names + [None])
    bucket = E.choice("bucket", ["phdr", "uhdr"])
    keys = {"none": None, "symmetric": P.SymmetricKey(k=bytes(lib.KWS.get(name, 16))), "ec": lib.ec_key(E, P, "P256", 0),
            "rsa": lib.sig_key(E, P, "Ps256")[0]}
    have = E.choice("key", sorted(keys))
    rc = getattr(P, cls)(key=keys[have], **({bucket: {H.Algorithm: lib.alg(P, name)}} if name else {}))
    if cls != "DirectEncryption" and E.choice("preset", [False, True]):
        rc.payload = bytes(16)
    rc.local_attrs = {H.StaticKey: lib.ec_key(E, P, "P256", 1, public=True)}
    if kind == "enc":
        msg = P.EncMessage(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: bytes(12)}, payload=b"p",
                           key=P.SymmetricKey(k=bytes(16)), recipients=[rc])
    else:
        msg = P.MacMessage(phdr={H.Algorithm: P.alg.AESMAC12864}, payload=b"p", key=P.SymmetricKey(k=bytes(16)),
                           recipients=[rc])
    ok = name in CLASSES[cls]
    if ok and cls == "KeyWrap":
        ok = bucket == "uhdr" and have == ("symmetric" if name in lib.KWS else "rsa")
    elif ok and cls == "DirectEncryption":
        ok = bucket == "uhdr" or name != "Direct"
    elif ok:
        ok = have == "ec" and lib.ECDHS[name][1] or have == "none" and not lib.ECDHS[name][1]
        if have == "ec" and not lib.ECDHS[name][1]:
            # an ephemeral key of the caller's, not in the header
            ok = False
    r = E.run(msg.encode)
    if ok is not None:
        E.check(r.ok == ok, "sent exactly with an algorithm of the class and its key")
    E.check(r.ok or r.raised("CoseException", "CoseIllegalAlgorithm", "CoseMalformedMessage"), "the library's exception")
    if r.ok:
        got = P.CoseMessage.decode(r.value)
        E.check(type(got.recipients[0]) is getattr(P, cls), "read back as the class")


@case("R05", kw=["A128KW", "A256KW", "RsaesOaepSha256"])
def wrap_protected(E, P, kw):
    """Sending: key wrap recipients with a protected header, and direct ones with protected header or recipients, are
    refused with the library's exception."""
    H = P.headers
    kid = E.bytes("kid", 0, 3)
    key = P.SymmetricKey(k=bytes(lib.KWS[kw])) if kw in lib.KWS else lib.sig_key(E, P, "Ps256")[0]
    prot = E.choice("protected", ["none", "kid", "alg"])
    rc = P.KeyWrap(phdr={"none": {}, "kid": {H.KID: kid}, "alg": {H.Algorithm: lib.alg(P, kw)}}[prot],
                   uhdr={} if prot == "alg" else {H.Algorithm: lib.alg(P, kw)}, key=key)
    m = P.EncMessage(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: bytes(12)}, payload=b"p", recipients=[rc])
    r = E.run(m.encode)
    E.check(r.ok == (prot == "none"), "no protected header")
    E.check(r.ok or r.raised("CoseException"), "CoseException")
    what = E.choice("direct", ["fine", "protected", "recipients", "no algorithm"])
    d = P.DirectEncryption(phdr={H.KID: kid} if what == "protected" else {},
                           uhdr={} if what == "no algorithm" else {H.Algorithm: P.alg.Direct},
                           recipients=[mode_rcpt(E, P, "wrap")] if what == "recipients" else [])
    m = P.EncMessage(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: bytes(12)}, payload=b"p", recipients=[d],
                     key=P.SymmetricKey(k=bytes(16)))
    r = E.run(m.encode)
    E.check(r.ok == (what == "fine"), "a plain direct recipient only")
    E.check(r.ok or r.raised("CoseException"), "CoseException")


# -- R06, R07 lists ----------------------------------------------------------------------------

@case("R06", depth=[1, 2, 3])
def membership(E, P, depth):
    """A message is decrypted only for a recipient of its own list, at any depth; an equal recipient of another
    message is not one."""
    k = bytes(range(16))
    cek = bytes(16)
    iv, p, aad = content(E, "A128GCM")
    kid = E.bytes("kid", 0, 2)

    def el(level):
        e = [b"", {1: -3, 4: kid}, E.keywrap(k, cek)]
        if level < depth:
            e.append([el(level + 1), [b"", {1: -3}, E.keywrap(k, cek)]])
        return e
    wire = received(E, "A128GCM", cek, [[b"", {1: -3}, E.keywrap(k, cek)], el(1)], iv, p)
    msg, other = P.CoseMessage.decode(wire), P.CoseMessage.decode(wire)

    def walk(rs):
        return [x for r in rs for x in [r] + walk(r.recipients)]
    own, foreign = walk(msg.recipients), walk(other.recipients)
    E.check(len(own) == 2 * depth, "all recipients")
    i = E.choice("i", list(range(2 * depth)))
    for r in (own[i], foreign[i]):
        r.key = P.SymmetricKey(k=k)
    E.check(P.CoseRecipient.has_recipient(own[i], msg.recipients), "its own recipient")
    E.check(not P.CoseRecipient.has_recipient(foreign[i], msg.recipients), "not another message's")
    r = E.run(msg.decrypt, foreign[i])
    E.check(r.raised("CoseException"), "refused for another message's recipient")
    E.check(E.eq(msg.decrypt(own[i]), p), "decrypts for its own")


@case("R06", mode=["wrap", "direct", "agreement", "agreement+wrap"], n=[0, 1, 2])
def foreign(E, P, mode, n):
    """The same for messages with no, one and two recipients of every class: a recipient of another message, one built by
    hand with the very key, an equal copy or something else entirely does not decrypt it."""
    H = P.headers
    kek = bytes(range(16))
    iv, p, aad = content(E, "A128GCM")
    kid = E.bytes("kid", 0, 2)
    d, x, y = E.mat("EC2", "P256", 1)
    own = E.mat("EC2", "P256", 0)
    if mode in ("wrap", "direct"):
        cek = bytes(16)
        el = [b"", {1: -3, 4: kid}, E.keywrap(kek, cek)] if mode == "wrap" else [b"", {1: -6, 4: kid}, b""]
    else:
        a = -27 if mode == "agreement" else -32
        tid, tl = (1, 16) if a == -27 else (-3, 16)
        prot = E.cbor({1: a})
        k = E.hkdf("sha256", tl, None, kdf_context(E, tid, tl, prot, [None] * 3, [None] * 3), E.ecdh("P256", d, own[1], own[2]))
        cek = k if a == -27 else bytes(16)
        el = [prot, {-2: wire_key(E, "P256", 0), 4: kid}, b"" if a == -27 else E.keywrap(k, cek)]
    els = [el] * (n if mode in ("wrap", "agreement+wrap") else min(n, 1))
    msg = P.CoseMessage.decode(received(E, "A128GCM", cek, els, iv, p, aad))
    other = P.CoseMessage.decode(received(E, "A128GCM", cek, [el], iv, p, aad)).recipients[0]
    how = E.choice("how", ["other message", "by hand", "message", "none", "dict"])
    key = P.SymmetricKey(k=kek) if mode == "wrap" else P.SymmetricKey(k=cek) if mode == "direct" else \
        lib.ec_key(E, P, "P256", 1)
    hand = type(other)(phdr=dict(other.phdr), uhdr=dict(other.uhdr), payload=other.payload, key=key)
    hand.context = "Enc_Recipient"
    other.key = key
    f = {"other message": other, "by hand": hand, "message": P.Enc0Message(), "none": None, "dict": {}}[how]
    msg.external_aad = aad
    if mode == "direct":
        msg.key = key
    r = E.run(msg.decrypt, f)
    E.check(not r.ok, "no recipient of this message")
    if how in ("other message", "by hand"):
        E.check(r.raised("CoseException"), "CoseException")
    for rc in msg.recipients:
        rc.key = key
        E.check(E.eq(msg.decrypt(rc), p), "its own recipients read it")


@case("R06", kind=["enc", "mac", "recipient", "sign"])
def replace(E, P, kind):
    """Assigning a list replaces the members (None empties it), keeps the caller's list independent, and refuses other
    objects without a change."""
    H = P.headers
    if kind == "sign":
        def make(v):
            return P.CoseSignature(phdr={H.Algorithm: P.alg.EdDSA}, uhdr={H.KID: v}, signature=v)
        msg, attr = P.SignMessage(payload=b"p"), "signers"
    else:
        def make(v):
            return P.KeyWrap(uhdr={H.Algorithm: P.alg.A128KW, H.KID: v})
        msg = P.EncMessage() if kind == "enc" else P.MacMessage() if kind == "mac" else P.KeyWrap()
        attr = "recipients"
    v = E.bytes("v", 0, 2)
    pool = [make(v), make(v), make(b"x")]
    have = []
    for step in range(E.bound(2, 3)):
        what = E.choice("s%d" % step, ["none", "empty", "one", "two", "tuple", "bad"])
        new = {"none": None, "empty": [], "one": [pool[step % 3]], "two": [pool[1], pool[step % 2]],
               "tuple": (pool[2],), "bad": [pool[0], b"no"]}[what]
        r = E.run(setattr, msg, attr, new)
        if kind == "sign" and what in ("none", "tuple"):
            E.check(r.raised("CoseException"), "signers are a list")
        elif what == "bad":
            E.check(r.raised("TypeError"), "TypeError")
        else:
            E.check(r.ok, "assigned")
            have = list(new or [])
            if isinstance(new, list) and new and kind != "sign":
                new.append(pool[0])
        now = getattr(msg, attr)
        E.check(len(now) == len(have) and all(a is b for a, b in zip(now, have)), "exactly the assigned members")


@case("R06", kind=["enc", "mac", "recipient"])
def constructor_lists(E, P, kind):
    """Recipients given to the constructor are the message's, in order; other objects are refused; messages built
    without one share nothing."""
    H = P.headers
    v = E.bytes("v", 0, 2)
    c = {"enc": P.EncMessage, "mac": P.MacMessage, "recipient": P.KeyWrap}[kind]
    n = E.choice("n", [0, 1, 2, 3])
    rs = [P.KeyWrap(uhdr={H.Algorithm: P.alg.A128KW, H.KID: v}) for i in range(n)]
    m = c(recipients=rs)
    E.check(len(m.recipients) == n and all(a is b for a, b in zip(m.recipients, rs)), "members in order")
    for bad in (b"x", P.Enc0Message(), None, 5):
        E.check(E.run(c, recipients=rs + [bad]).raised("TypeError"), "TypeError")
    a, b = c(), c()
    a.recipients.append(P.KeyWrap(uhdr={H.KID: v}))
    E.check(len(b.recipients) == 0, "nothing shared")
    m.recipients = None
    E.check(len(m.recipients) == 0 and len(rs) == n, "emptied; the caller's list is left alone")


@case("R07", depth=[1, 2, 3, 4])
def nested(E, P, depth):
    """Recipients of recipients are read at every depth, with their headers, ciphertexts and classes, in order."""
    def shape(level, path):
        ws = []
        n = E.choice("n" + path, [1, 2]) if level == depth else 1 + (level == 1)
        for i in range(n):
            t = E.choice("t%s%d" % (path, i), ["wrap", "agree", "oaep"]) if level == depth else "wrap"
            v, c = E.bytes("v%s%d" % (path, i), 0, 2), E.bytes("c%s%d" % (path, i), 1, 3)
            e = {"wrap": [b"", {1: -3, 4: v}, c], "agree": [E.cbor({1: -31, 4: v}), {-1: wire_key(E, "P256", 0)}, c],
                 "oaep": [b"", {1: -41, 4: v}, c]}[t]
            cls = P.KeyAgreementWithKeyWrap if t == "agree" else P.KeyWrap
            sub_w, sub_e = ([], []) if level == depth or i else shape(level + 1, path + str(i))
            if sub_w:
                e = e + [sub_w]
            ws.append((e, (cls, v, c, sub_e)))
        return [w for w, _ in ws], [x for _, x in ws]
    wire, want = shape(1, "")
    kind = E.choice("kind", [96, 97])
    body = [E.cbor({1: 5}), {}, b"p"] + ([b"t"] if kind == 97 else []) + [wire]
    msg = P.CoseMessage.decode(E.cbor(E.tag(kind, body)))

    def cmp(rs, ws, context):
        E.check(len(rs) == len(ws), "all recipients")
        for r, (cls, v, c, sub) in zip(rs, ws):
            E.check(type(r) is cls, "class")
            E.check(E.eq(r.get_attr(P.headers.KID), v) and E.eq(r.payload, c), "headers and ciphertext")
            E.check(r.context == context, "the context of its place")
            cmp(r.recipients, sub, "Rec_Recipient")
    cmp(msg.recipients, want, "Enc_Recipient" if kind == 96 else "Mac_Recipient")
    E.check(len(repr(msg)) > 0, "has a representation")


@case("R07", level=[1, 2, 3])
def nested_strict(E, P, level):
    """Nested recipients are validated like outer ones: malformed ones and, on request, unknown attributes are
    refused at every level."""
    n, v = E.int("label", -400, 70000), E.bytes("v", 0, 2)
    E.assume(E.not_(E.any(*[E.eq(n, k) for k in list(range(-29, 13)) + list(range(32, 37))])))
    how = E.choice("how", ["unknown", "no algorithm", "direct ciphertext", "wrap empty", "fine"])
    el = {"unknown": [b"", {1: -3, n: v}, b"c"], "no algorithm": [b"", {4: v}, b"c"],
          "direct ciphertext": [b"", {1: -6}, b"c" + v], "wrap empty": [b"", {1: -3, 4: v}, b""],
          "fine": [b"", {1: -3, 4: v}, b"c"]}[how]
    for i in range(level):
        el = [b"", {1: -3}, b"c", [el]]
    wire = E.cbor(E.tag(96, [b"", {}, b"p", [el]]))
    for allow in (True, False):
        r = E.run(P.CoseMessage.decode, wire, allow_unknown_attributes=allow)
        E.check(r.ok == (how == "fine" or (how == "unknown" and allow)), "accepted exactly if every level is")
