"""COSE_Encrypt0 and COSE_Encrypt with direct keys."""
from vt.registry import case
from . import lib

SOME = ["A128GCM", "A256GCM", "AESCCM1664128", "AESCCM64128256"]


@case("A01", alg=list(lib.AEADS), kind=["enc0", "enc"])
def enc_structure(E, P, alg, kind):
    """The ciphertext in the message is the AEAD of the payload under the key, with the IV as nonce, the algorithm's
    tag length and [context, protected, external_aad] as associated data; payload 0..12 bytes, aad 0..4."""
    _structure(E, P, alg, kind)


@case("A01", alg=["A192GCM", "AESCCM6464128"])
def enc_structure_rcpt(E, P, alg):
    """The same for COSE_Encrypt with a direct recipient."""
    _structure(E, P, alg, "enc")


def _structure(E, P, alg, kind):
    H = P.headers
    ak, kl, tl, nl = lib.AEADS[alg]
    k = E.bytes("k", kl)
    key = P.SymmetricKey(k=k)
    A, aid = lib.alg(P, alg), lib.ALG_ID[alg]
    ph, wph = lib.headers(E, P, "ph", labels=["empty", "kid+ct", "text"], hi=3)
    uh, wuh = {}, {}
    iv = E.bytes("iv", nl)
    where = E.choice("where", ["alg+iv protected", "alg protected", "alg unprotected", "iv protected"])
    if "alg+iv protected" == where:
        ph, wph = lib.merge({H.Algorithm: A, H.IV: iv}, ph), lib.merge({1: aid, 5: iv}, wph)
    elif where == "alg protected":
        ph, wph = lib.merge({H.Algorithm: A}, ph), lib.merge({1: aid}, wph)
        uh, wuh = {H.IV: iv}, {5: iv}
    elif where == "alg unprotected":
        uh, wuh = {H.Algorithm: A, H.IV: iv}, {1: aid, 5: iv}
    else:
        ph, wph = lib.merge({H.IV: iv}, ph), lib.merge({5: iv}, wph)
        uh, wuh = {H.Algorithm: A}, {1: aid}
    pt, aad = E.bytes("payload", 0, E.bound(12, 30)), E.bytes("aad", 0, 4)
    if kind == "enc0":
        msg = P.Enc0Message(phdr=ph, uhdr=uh, payload=pt, external_aad=aad, key=key)
    else:
        rc = P.DirectEncryption(uhdr={H.Algorithm: P.alg.Direct, H.KID: b"r"})
        msg = P.EncMessage(phdr=ph, uhdr=uh, payload=pt, external_aad=aad, key=key, recipients=[rc])
    out = msg.encode()
    m = E.decode(out)
    prot = E.cbor(wph) if len(wph) else b""
    ad = E.cbor(["Encrypt0" if kind == "enc0" else "Encrypt", prot, aad])
    ct = E.seal(ak, tl, k, iv, ad, pt)
    E.check(m.tag == (16 if kind == "enc0" else 96), "CBOR tag")
    E.check(len(m.value) == (3 if kind == "enc0" else 4), "number of elements")
    E.check(E.eq(m.value[:2], [prot, wuh]), "headers")
    E.check(E.eq(len(m.value[2]), len(pt) + tl), "ciphertext length")
    E.check(E.eq(m.value[2], ct), "ciphertext of the specified inputs")
    if kind == "enc":
        E.check(E.eq(m.value[3], [[b"", {1: -6, 4: b"r"}, b""]]), "recipient list")
    E.check(E.eq(msg.payload, pt), "the caller's payload is left alone")
    got = P.CoseMessage.decode(out)
    got.key, got.external_aad = P.SymmetricKey(k=k), aad
    back = got.decrypt(got.recipients[0]) if kind == "enc" else got.decrypt()
    E.check(E.eq(back, pt), "decrypts to the payload")


@case("A01", alg=["A128GCM", "AESCCM16128128"])
def enc_long(E, P, alg):
    """The same around the sizes where CBOR length prefixes change (23..257 bytes)."""
    H = P.headers
    ak, kl, tl, nl = lib.AEADS[alg]
    k, iv = E.bytes("k", kl), E.bytes("iv", nl)
    n = E.choice("size", [15, 16, 23, 24, 255, 256])
    pt, aad = E.bytes("payload", n, n + 1), E.bytes("aad", n, n)
    msg = P.Enc0Message(phdr={H.Algorithm: lib.alg(P, alg)}, uhdr={H.IV: iv}, payload=pt, external_aad=aad,
                        key=P.SymmetricKey(k=k))
    m = E.decode(msg.encode(tag=False))
    ad = E.cbor(["Encrypt0", E.cbor({1: lib.ALG_ID[alg]}), aad])
    E.check(len(m) == 3, "untagged array")
    E.check(E.eq(m[2], E.seal(ak, tl, k, iv, ad, pt)), "ciphertext of the specified inputs")


@case("A01", alg=["A256GCM"])
def enc_repeat(E, P, alg):
    """Encrypting again after changing payload, aad, IV or headers protects the new content;
    encode(encrypt=False) sends the payload as it is."""
    H = P.headers
    ak, kl, tl, nl = lib.AEADS[alg]
    k, iv, iv2 = E.bytes("k", kl), E.bytes("iv", nl), E.bytes("iv2", nl)
    p1, p2, a2, k2 = E.bytes("p1", 0, 4), E.bytes("p2", 0, 4), E.bytes("a2", 0, 3), E.bytes("k2", 0, 3)
    msg = P.Enc0Message(phdr={H.Algorithm: P.alg.A256GCM}, uhdr={H.IV: iv}, payload=p1, key=P.SymmetricKey(k=k))
    first = E.decode(msg.encode())
    msg.payload, msg.external_aad = p2, a2
    msg.phdr_update({H.KID: k2})
    msg.uhdr_update({H.IV: iv2})
    second = E.decode(msg.encode())
    E.check(E.eq(first.value[2], E.seal(ak, tl, k, iv, E.cbor(["Encrypt0", E.cbor({1: 3}), b""]), p1)), "first")
    prot = E.cbor({1: 3, 4: k2})
    E.check(E.eq(second.value, [prot, {5: iv2}, E.seal(ak, tl, k, iv2, E.cbor(["Encrypt0", prot, a2]), p2)]), "second")
    E.check(E.eq(E.decode(msg.encode(encrypt=False)).value, [prot, {5: iv2}, p2]), "unencrypted on request")


@case("A02", alg=list(lib.AEADS), kind=["enc0", "enc"])
def enc_verify(E, P, alg, kind):
    """Decryption returns the plaintext iff ciphertext, protected header bytes, aad, IV and key are those of the
    encryption; otherwise it raises and returns nothing.  Any bytes in place of the ciphertext."""
    _open(E, P, alg, kind)


@case("A02", alg=["A128GCM", "AESCCM1664256"])
def enc_verify_rcpt(E, P, alg):
    """The same for COSE_Encrypt."""
    _open(E, P, alg, "enc")


def _open(E, P, alg, kind):
    ak, kl, tl, nl = lib.AEADS[alg]
    aid = lib.ALG_ID[alg]
    k, k2 = E.bytes("k", kl), E.bytes("k2", kl)
    iv, iv2 = E.bytes("iv", nl), E.bytes("iv2", nl)
    kid, p, a = E.bytes("kid", 0, 2), E.bytes("p", 0, 5), E.bytes("a", 0, 2)
    kid2, a2 = E.bytes("kid2", 0, 2), E.bytes("a2", 0, 2)
    ctx = "Encrypt0" if kind == "enc0" else "Encrypt"
    ct = E.seal(ak, tl, k, iv, E.cbor([ctx, E.cbor({1: aid, 4: kid}), a]), p)
    ct2 = E.tamper("ct2", ct, 2)
    body = [E.cbor({1: aid, 4: kid2}), {5: iv2}, ct2]
    if kind == "enc":
        body.append([[b"", {1: -6}, b""]])
    msg = P.CoseMessage.decode(E.cbor(E.tag(16 if kind == "enc0" else 96, body)))
    msg.key, msg.external_aad = P.SymmetricKey(k=k2), a2
    r = E.run(msg.decrypt, *([msg.recipients[0]] if kind == "enc" else []))
    same = E.all(E.eq(kid, kid2), E.eq(a, a2), E.eq(k, k2), E.eq(iv, iv2), E.eq(ct, ct2))
    if r.ok:
        E.check(same, "only the authentic message decrypts")
        E.check(E.eq(r.value, p), "to the plaintext")
    else:
        E.check(E.not_(same), "the authentic message decrypts")


@case("A02", alg=SOME)
def enc_bucket_swap(E, P, alg):
    """Moving protected parameters to the unprotected bucket or dropping them makes decryption fail."""
    ak, kl, tl, nl = lib.AEADS[alg]
    aid = lib.ALG_ID[alg]
    k, iv, kid, p = E.bytes("k", kl), E.bytes("iv", nl), E.bytes("kid", 0, 3), E.bytes("p", 0, 4)
    ct = E.seal(ak, tl, k, iv, E.cbor(["Encrypt0", E.cbor({1: aid, 4: kid}), b""]), p)
    how = E.choice("how", ["all", "kid", "dropped", "alg", "map"])
    prot, uh = {"all": (b"", {1: aid, 4: kid}), "kid": (E.cbor({1: aid}), {4: kid}), "dropped": (E.cbor({1: aid}), {}),
                "alg": (E.cbor({4: kid}), {1: aid}), "map": (E.cbor({}), {1: aid, 4: kid})}[how]
    msg = P.CoseMessage.decode(E.cbor(E.tag(16, [prot, lib.merge(uh, {5: iv}), ct])))
    msg.key = P.SymmetricKey(k=k)
    E.check(not E.run(msg.decrypt).ok, "moved parameters are not accepted")
    msg = P.CoseMessage.decode(E.cbor(E.tag(16, [E.cbor({1: aid, 4: kid}), {5: iv, 3: E.int("ct", 0, 65000)}, ct])))
    msg.key = P.SymmetricKey(k=k)
    E.check(E.eq(msg.decrypt(), p), "unprotected parameters do not matter")


@case("A02", alg=list(lib.AEADS))
def enc_alg_swap(E, P, alg):
    """A ciphertext of one algorithm does not decrypt under one of another mode or tag length with the same key size.
    (CCM algorithms that differ in the nonce length only compute the same for the same nonce.)"""
    ak, kl, tl, nl = lib.AEADS[alg]
    others = [x for x in lib.AEADS if lib.AEADS[x][1] == kl and (lib.AEADS[x][0], lib.AEADS[x][2]) != (ak, tl)]
    if not others:
        return
    other = E.choice("other", others)
    k, iv, p = E.bytes("k", kl), E.bytes("iv", nl), E.bytes("p", 0, 10)
    ct = E.seal(ak, tl, k, iv, E.cbor(["Encrypt0", b"", b""]), p)
    msg = P.CoseMessage.decode(E.cbor(E.tag(16, [b"", {1: lib.ALG_ID[other], 5: iv}, ct])))
    msg.key = P.SymmetricKey(k=k)
    E.check(not E.run(msg.decrypt).ok, "ciphertext of another algorithm")


@case("A02", raw=["absent", "map"])
def enc_empty_headers(E, P, raw):
    """A received empty protected header (zero-length string or empty map) is authenticated as a zero-length string."""
    k, iv, p, a = E.bytes("k", 16), E.bytes("iv", 12), E.bytes("p", 0, 4), E.bytes("a", 0, 3)
    ct = E.seal("gcm", 16, k, iv, E.cbor(["Encrypt0", b"", a]), p)
    msg = P.CoseMessage.decode(E.cbor(E.tag(16, [b"" if raw == "absent" else E.cbor({}), {1: 1, 5: iv}, ct])))
    msg.key, msg.external_aad = P.SymmetricKey(k=k), a
    E.check(E.eq(msg.decrypt(), p), "authenticated as a zero-length string")


@case("A02", alg=list(lib.AEADS))
def enc_key_length(E, P, alg):
    """Encryption and decryption refuse keys whose length is not the algorithm's."""
    H = P.headers
    ak, kl, tl, nl = lib.AEADS[alg]
    n = E.choice("klen", [16, 24, 32])
    k, iv, p = E.bytes("k", n), E.bytes("iv", nl), E.bytes("p", 0, 4)
    msg = P.Enc0Message(phdr={H.Algorithm: lib.alg(P, alg)}, uhdr={H.IV: iv}, payload=p, key=P.SymmetricKey(k=k))
    r = E.run(msg.encode)
    E.check(r.ok == (n == kl), "encrypts exactly with keys of the right length")
    msg.payload = E.seal(ak, tl, k, iv, E.cbor(["Encrypt0", E.cbor({1: lib.ALG_ID[alg]}), b""]), p)
    r = E.run(msg.decrypt)
    E.check(r.ok == (n == kl), "decrypts exactly with keys of the right length")


@case("A03", alg=list(lib.AEADS), where=["phdr", "uhdr"])
def partial_iv(E, P, alg, where):
    """With a base IV in the key and a partial IV (1 byte up to the nonce length) in a header, the nonce is the
    left-zero-padded partial IV XORed with the base IV, of the base IV's length, for encryption and decryption."""
    H = P.headers
    ak, kl, tl, nl = lib.AEADS[alg]
    k, base = E.bytes("k", kl), E.bytes("base", nl)
    n = E.choice("plen", [1, 2, 3, nl - 1, nl])
    piv = E.bytes("piv", n)
    p = E.bytes("p", 0, 4)
    key = lib.sym_key(P, k, base_iv=base)
    ph, uh = {H.Algorithm: lib.alg(P, alg)}, {}
    (ph if where == "phdr" else uh)[H.PartialIV] = piv
    wph = {1: lib.ALG_ID[alg]}
    if where == "phdr":
        wph[6] = piv
    nonce = E.xor(base, bytes(nl - n) + piv)
    ad = E.cbor(["Encrypt0", E.cbor(wph), b""])
    msg = P.Enc0Message(phdr=ph, uhdr=uh, payload=p, key=key)
    out = msg.encode()
    m = E.decode(out)
    E.check(E.eq(m.value[2], E.seal(ak, tl, k, nonce, ad, p)), "ciphertext with the specified nonce")
    got = P.CoseMessage.decode(out)
    got.key = lib.sym_key(P, k, base_iv=base)
    E.check(E.eq(got.decrypt(), p), "the receiver derives the same nonce")


@case("A03", alg=["A128GCM", "AESCCM1664128"])
def iv_precedence(E, P, alg):
    """A full IV is used as it is, also when the key has a base IV or a header has a partial IV; the missing or too
    long partial IV and the missing IV are refused with the library's exception, encrypting and decrypting."""
    H = P.headers
    ak, kl, tl, nl = lib.AEADS[alg]
    k, base, iv, piv = E.bytes("k", kl), E.bytes("base", nl), E.bytes("iv", nl), E.bytes("piv", 1, 3)
    p = E.bytes("p", 0, 4)
    has_base = E.choice("has_base", [False, True])
    has_iv = E.choice("has_iv", [False, True])
    has_piv = E.choice("has_piv", [None, "short", "long"])
    key = lib.sym_key(P, k, base_iv=base if has_base else None)
    uh = {}
    if has_iv:
        uh[H.IV] = iv
    if has_piv:
        uh[H.PartialIV] = piv if has_piv == "short" else base + piv
    msg = P.Enc0Message(phdr={H.Algorithm: lib.alg(P, alg)}, uhdr=uh, payload=p, key=key)
    r = E.run(msg.encrypt)
    ad = E.cbor(["Encrypt0", E.cbor({1: lib.ALG_ID[alg]}), b""])
    if has_iv:
        E.check(r.ok, "a full IV suffices")
        E.check(E.eq(r.value, E.seal(ak, tl, k, iv, ad, p)), "the full IV is the nonce")
        msg.payload = r.value
        E.check(E.eq(msg.decrypt(), p), "also for decryption")
    elif has_base and has_piv == "short":
        E.check(r.ok, "base IV and partial IV suffice")
    else:
        E.check(r.raised("CoseException"), "refused: no usable nonce")
        msg.payload = E.bytes("ct", 20)
        E.check(E.run(msg.decrypt).raised("CoseException"), "refused for decryption as well")


@case("A03", alg=["A128GCM"])
def nonce_uniqueness(E, P, alg):
    """Different partial IVs give different nonces under one key, whatever their lengths and leading zeros mean."""
    H = P.headers
    ak, kl, tl, nl = lib.AEADS[alg]
    k, base = E.bytes("k", kl), E.bytes("base", nl)
    key = lib.sym_key(P, k, base_iv=base)
    n1, n2 = E.choice("n1", [1, 2, 4]), E.choice("n2", [1, 2, 4])
    a, b = E.bytes("a", n1), E.bytes("b", n2)
    p = E.bytes("p", 1, 4)
    outs = []
    for v in (a, b):
        msg = P.Enc0Message(phdr={H.Algorithm: lib.alg(P, alg)}, uhdr={H.PartialIV: v}, payload=p, key=key)
        outs.append(msg.encrypt())
    same = E.eq(bytes(nl - n1) + a, bytes(nl - n2) + b)
    E.check(E.iff(same, E.eq(outs[0], outs[1])), "equal ciphertexts only for equal partial IVs")
