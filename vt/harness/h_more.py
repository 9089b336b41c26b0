"""Further histories and counts: resolving equal values, lenient before strict, many headers, derivations in a row."""
from vt.registry import case
from . import lib
from .h_big import labels
from .h_headers import ALGS, EXTRA, HEADERS, REGS, registry
from .h_keys import any_key, OPN
from .h_rcpt import kdf_context, received as enc_received
from .h_wire import ALGID, CLASS, IV, KINDS, TAGS, make, received, resend


@case("H02", reg=REGS)
def equal_values(E, P, reg):
    """A value of another type that compares equal to a known number (a boolean, a float), or spells it, is unknown
    before and after that number was resolved, and the number stays known."""
    base, table, mod = registry(P, reg)
    known = sorted(v[0] for v in table.values() if -3 <= v[0] <= 5)
    n = E.choice("n", [x for x in known if x in (-2, 0, 1, 2, 5)] or known)
    odd = {"float": float(n), "text": str(n), "bytes": str(n).encode(), "complex": complex(n), "tuple": (n,)}
    if n in (0, 1):
        odd["bool"] = bool(n)
    kind = E.choice("kind", sorted(odd))
    v, allow = odd[kind], E.choice("allow", [False, True])
    want = [getattr(mod, c) for c, x in table.items() if x[0] == n]
    order = E.choice("order", ["number first", "value first"])
    for i in range(2):
        if order == "number first" or i:
            r = E.run(base.from_id, n, E.choice("lenient%d" % i, [False, True]))
            E.check(r.ok and r.value is want[0], "the number is known")
        r = E.run(base.from_id, v, allow)
        if allow:
            E.check(r.ok and type(r.value) is type(v) and r.value == v, "kept as it is")
        else:
            E.check(r.raised("CoseException"), "unknown")


@case("H06", kind=["sign1", "mac0", "sign", "enc"], where=["phdr", "uhdr", "part"])
def strictness_text_history(E, P, kind, where):
    """The same for unregistered text labels of up to 3 characters: accepting one leniently, in any spelling, does not
    make it known."""
    t = E.str("t", 1, 3)
    E.assume(E.not_(E.any(*[E.eq(t.upper(), s) for s in ("ALG", "KID", "IV")])))
    v = E.bytes("v", 0, 2)
    if where == "part" and kind in ("sign1", "mac0"):
        return
    ph = {1: ALGID[kind]} if kind != "sign" else {}
    uh, part = {}, {}
    {"phdr": ph, "uhdr": uh, "part": part}[where][t] = v
    tail = {"sign1": [b"s"], "mac0": [b"t"], "sign": [[[b"", part, b"s"]]],
            "enc": [[[b"", lib.merge({1: -3}, part), b"w"]]]}[kind]
    wire = E.cbor(E.tag(TAGS[kind], [E.cbor(ph) if ph else b"", uh, b"c"] + tail))
    for i, lenient in enumerate(E.choice("modes", [(True, False), (None, False), (False, True, False)])):
        kw = {} if lenient is None else {"allow_unknown_attributes": lenient}
        r = E.run(P.CoseMessage.decode, wire, **kw)
        E.check(r.ok == (lenient is not False), "as strict as asked")
        if r.ok:
            m = r.value
            if where == "part":
                m = m.signers[0] if kind == "sign" else m.recipients[0]
            E.check(E.eq(m.get_attr(t), v), "with the unknown parameter")
        r = E.run(P.headers.CoseHeaderAttribute.from_id, t)
        E.check(r.raised("CoseException"), "still unknown")


@case("H06", kind=["enc", "mac"], depth=[2, 3])
def nested_strictness(E, P, kind, depth):
    """The same for recipients of recipients: strict decoding refuses an unregistered label in any bucket at any depth,
    whatever headers the levels above have."""
    n = E.int("n", -2 ** 64, 2 ** 64 - 1)
    E.assume(E.not_(E.any(*[E.eq(n, k) for k in (1, 2, 3, 7, 32, 33, 34, 35, -1, -2)])))
    known = E.any(*[E.eq(n, x[0]) for x in HEADERS.values()])
    v = E.bytes("v", 0, 2)
    at = E.choice("at", list(range(depth)))
    bucket = E.choice("bucket", ["protected", "unprotected"])
    rich = E.choice("rich", [False, True])
    _, x, y = E.mat("EC2", "P256", 0)
    rc = None
    for i in reversed(range(depth)):
        agreed = bucket == "protected" or rich
        ph, uh = ({1: -29}, {-1: {1: 2, -1: 1, -2: x, -3: y}}) if agreed else ({}, {1: -3})
        if i == at:
            (ph if bucket == "protected" else uh)[n] = v
        rc = [E.cbor(ph) if ph else b"", uh, b"w" * 24] + ([[rc]] if rc else [])
    body = [E.cbor({1: 1 if kind == "enc" else 5}), {4: v} if rich else {}, b"c"] + ([b"t"] if kind == "mac" else [])
    lenient = E.choice("allow", [False, True])
    r = E.run(P.CoseMessage.decode, E.cbor(E.tag(TAGS[kind], body + [[rc]])), allow_unknown_attributes=lenient)
    E.check(E.iff(r.ok, E.any(known, lenient)), "refused exactly if unknown and disallowed")
    if r.ok:
        m = r.value.recipients[0]
        for i in range(at):
            m = m.recipients[0]
        E.check(len(m.phdr if bucket == "protected" else m.uhdr) == 2, "kept")
    else:
        E.check(r.raised("CoseException"), "the library's exception")


@case("W04", kind=KINDS, where=["body", "part"])
def header_not_a_map(E, P, kind, where):
    """A protected header whose bytes are no map (an array, also an empty one or one of pairs, a text, a number, a tag)
    is refused wherever it stands, and not made into one."""
    b = E.bytes("b", 0, 2)
    aid = {"sign": -8}.get(kind, ALGID[kind])
    odd = {"empty array": [], "pairs": [[1, aid], [4, b]], "pair": [[4, b]], "number": E.int("i", -300, 300),
           "text": E.str("t", 0, 2), "bytes": b, "nil": None, "bool": True, "tagged": E.tag(24, {1: aid}),
           "wrapped": E.cbor({1: aid})}
    if where == "part" and kind not in ("sign", "mac", "enc"):
        return
    bad = E.cbor(odd[E.choice("what", sorted(odd))])
    prot, part = E.cbor({1: ALGID[kind]}), b""
    for p, q, fine in ((bad, part, False) if where == "body" else (prot, bad, False), (prot, part, True)):
        body = [p, {}, b"p"] + ([b"s"] if kind in ("sign1", "mac0", "mac") else [])
        if kind == "sign":
            body.append([[q, {1: -8}, b"s"]])
        if kind in ("mac", "enc"):
            body.append([[q, {1: -3}, b"w" * 24]])
        r = E.run(P.CoseMessage.decode, E.cbor(E.tag(TAGS[kind], body)))
        E.check(r.ok == fine, "refused exactly if it is no map")


@case("L01", kind=["sign1", "mac0", "enc0", "enc", "mac", "sign", "recipient", "signer"])
def same_update(E, P, kind):
    """Maps given to phdr_update and uhdr_update are taken over entry by entry: two instances updated with one map, and
    the map itself, stay apart, whether the bucket was empty before or not."""
    H = P.headers
    c = {"sign1": P.Sign1Message, "sign": P.SignMessage, "mac0": P.Mac0Message, "mac": P.MacMessage,
         "enc0": P.Enc0Message, "enc": P.EncMessage, "recipient": P.KeyWrap, "signer": P.CoseSignature}[kind]
    v, w = E.bytes("v", 0, 2), E.bytes("w", 0, 2)
    ph, uh = {H.KID: v}, {600: w}
    start = {} if E.choice("empty", [True, False]) else {H.KIDContext: b"c"}
    a, b = [c(phdr=dict(start), uhdr=dict(start)) for _ in range(2)]
    for m in (a, b):
        m.phdr_update(ph)
        m.uhdr_update(uh)
    act = E.choice("act", ["one", "argument", "update"])
    if act == "update":
        a.phdr_update({H.KID: b"changed", 601: b"changed"})
        a.uhdr_update({600: b"changed", 601: b"changed"})
    else:
        x, y = (a.phdr, a.uhdr) if act == "one" else (ph, uh)
        x[H.KID] = x[601] = b"changed"
        y[600] = y[601] = b"changed"
    want = [lib.merge(start, {H.KID: v}), lib.merge(start, {600: w})]
    for m in ([a, b] if act == "argument" else [b]):
        E.check(E.eq([m.phdr, m.uhdr], want), "its own")
    if act != "argument":
        E.check(E.eq([ph, uh], [{H.KID: v}, {600: w}]), "the caller's maps are untouched")


@case("D01", n=[1, 2, 3])
def detached_signers(E, P, n):
    """With any number of signers every one of them signs and verifies the one payload; with none, or both, encoding is
    refused and so is each of them."""
    H = P.headers
    att, det = E.choice("attached", [False, True]), E.choice("detached", [False, True])
    p, q = E.bytes("p", 0, 2), E.bytes("q", 0, 2)
    ss, pubs = [], []
    for i in range(n):
        key, scheme, pub, priv = lib.sig_key(E, P, "EdDSA", i % 2)
        ss.append(P.CoseSignature(phdr={H.Algorithm: P.alg.EdDSA}, uhdr={H.KID: bytes([i])}, key=key))
        pubs.append((scheme, pub, priv))
    m = P.SignMessage(payload=p if att else None, signers=ss)
    arg = {"detached_payload": q} if det else {}
    r = E.run(m.encode, **arg)
    tbs = E.cbor(["Signature", b"", E.cbor({1: -8}), b"", p if att else q])
    E.check(r.ok == (att != det), "with exactly one of them")
    if r.ok:
        sent = E.decode(r.value).value
        E.check(len(sent[3]) == n, "every signer")
        for x, (scheme, pub, priv) in zip(sent[3], pubs):
            E.check(E.sig_valid(scheme, pub, tbs, x[2]), "signs that payload")
    for s, (scheme, pub, priv) in zip(ss, pubs):
        s.signature = E.sign_ref(scheme, priv, tbs)
        w, z = E.run(s.verify_signature, **arg), E.run(s.compute_signature, **arg)
        if att == det:
            E.check(w.raised("CoseException") and z.raised("CoseException"), "refused")
        else:
            E.check(w.ok and w.value and z.ok, "works")


@case("K01", kind=["mac0", "mac", "mac2"], op=["compute", "verify"])
def mac_operations(E, P, kind, op):
    """The key of a MAC, with and without recipients, creates tags only if it has that operation or none, and verifies
    only with the other one."""
    H = P.headers
    ops = [E.choice("op%d" % i, [0, 3, 4, 5, 6, 9, 10]) for i in range(2)]
    ops = [o for o in ops if o]
    alg = E.choice("alg", [None, 5, 4])
    key = lib.sym_key(P, bytes(range(32)), alg=alg, ops=ops)
    rs = {"mac0": None, "mac": 1, "mac2": 2}[kind]
    kw = {}
    if rs:
        kw["recipients"] = [P.DirectEncryption(uhdr={H.Algorithm: P.alg.Direct}) for _ in range(rs)]
    m = (P.MacMessage if rs else P.Mac0Message)(phdr={H.Algorithm: P.alg.HMAC256}, payload=b"p", key=key, **kw)
    m.auth_tag = b"t"
    if E.choice("received", [False, True]):
        m = P.CoseMessage.decode(E.cbor(E.tag(97 if rs else 17, [E.cbor({1: 5}), {}, b"p", b"t"] +
                                              ([[[b"", {1: -6}, b""]] * rs] if rs else []))))
        m.key = key
    r = E.run(m.compute_tag if op == "compute" else m.verify_tag)
    ok = (not ops or (9 if op == "compute" else 10) in ops) and alg != 4
    E.check(r.ok == ok, "permitted exactly if the key permits it")
    if not r.ok:
        E.check(r.raised("CoseIllegalAlgorithm" if alg == 4 else "CoseIllegalKeyOps"), "the library's exception")
    elif op == "verify":
        E.check(r.value is False, "and the wrong tag is refused")


@case("K01", kind=["enc0", "enc", "enc2"], op=["encrypt", "decrypt"])
def enc_operations(E, P, kind, op):
    """The same for encryption: wrapping, unwrapping and the opposite operation do not stand in."""
    H = P.headers
    ops = [E.choice("op%d" % i, [0, 3, 4, 5, 6, 9, 10]) for i in range(2)]
    ops = [o for o in ops if o]
    alg = E.choice("alg", [None, 1, 30])
    key = lib.sym_key(P, bytes(range(16)), alg=alg, ops=ops)
    rs = {"enc0": None, "enc": 1, "enc2": 2}[kind]
    kw = {}
    if rs:
        kw["recipients"] = [P.DirectEncryption(uhdr={H.Algorithm: P.alg.Direct}) for _ in range(rs)]
    p = E.bytes("p", 0, 2)
    ct = E.seal("gcm", 16, bytes(range(16)), IV, E.cbor(["Encrypt" if rs else "Encrypt0", E.cbor({1: 1}), b""]), p)
    m = (P.EncMessage if rs else P.Enc0Message)(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: IV},
                                                payload=p if op == "encrypt" else ct, key=key, **kw)
    if op == "encrypt":
        r = E.run(m.encrypt)
    else:
        r = E.run(m.decrypt, *(m.recipients[:1] if rs else []))
    ok = (not ops or (3 if op == "encrypt" else 4) in ops) and alg != 30
    E.check(r.ok == ok, "permitted exactly if the key permits it")
    if r.ok:
        E.check(E.eq(r.value, ct if op == "encrypt" else p), "the result")
    else:
        E.check(r.raised("CoseIllegalAlgorithm" if alg == 30 else "CoseIllegalKeyOps"), "the library's exception")


@case("W02", kind=KINDS, n=[1, 23, 24, 30, 260])
def received_many(E, P, kind, n):
    """A received protected header of any number of entries, one of them not in the library's own encoding, enters the
    checked structure as it came and goes out again as it came."""
    import cbor2
    kid, p = b"\x04k", E.bytes("p", 0, 2)
    key, scheme, pub, priv = lib.sig_key(E, P, "EdDSA")
    head = bytes([0xa0 + n]) if n < 24 else b"\xb8" + bytes([n]) if n < 256 else b"\xb9" + n.to_bytes(2, "big")
    odd = E.choice("odd", ["label", "map", "order"]) if n > 1 else "map"
    ls = [cbor2.dumps(1000 + i) + cbor2.dumps(i) for i in range(n - 2)]
    alg = b"\x01" + cbor2.dumps(ALGID[kind])
    kidl = (b"\x18\x04" if odd == "label" else b"\x04") + cbor2.dumps(kid)
    if n == 1:
        prot = b"\xbf" + alg + b"\xff"
    elif odd == "map":
        prot = b"\xbf" + alg + kidl + b"".join(ls) + b"\xff"
    elif odd == "order":
        prot = head + b"".join(ls) + kidl + alg
    else:
        prot = head + alg + kidl + b"".join(ls)
    k = bytes(range(16 if "enc" in kind else 32))
    if kind == "sign1":
        auth = E.sign_ref(scheme, priv, E.cbor(["Signature1", prot, b"", p]))
    elif kind == "sign":
        auth = E.sign_ref(scheme, priv, E.cbor(["Signature", prot, prot, b"", p]))
    elif "mac" in kind:
        auth = E.hmac("sha256", k, E.cbor([kind.upper(), prot, b"", p]))
    else:
        auth = None
    content = p if auth is not None else E.seal("gcm", 16, k, IV, E.cbor([{"enc0": "Encrypt0", "enc": "Encrypt"}[kind],
                                                                         prot, b""]), p)
    wire = E.cbor(E.tag(TAGS[kind], received(E, P, kind, prot, {5: IV} if auth is None else {}, content, auth)))
    msg = P.CoseMessage.decode(wire)
    E.check(len(msg.phdr) == n and (n == 1 or E.eq(msg.phdr[P.headers.KID], kid)), "every entry is there")
    s = msg.signers[0] if kind == "sign" else msg
    s.key = lib.sig_key(E, P, "EdDSA", public=True)[0] if "sign" in kind else P.SymmetricKey(k=k)
    if "sign" in kind:
        E.check(s.verify_signature(), "verifies as it came")
    elif "mac" in kind:
        E.check(msg.verify_tag(), "verifies as it came")
    else:
        E.check(E.eq(msg.decrypt(*getattr(msg, "recipients", [])[:1]), p), "decrypts as it came")
    E.check(E.eq(E.decode(resend(E, P, kind, msg)).value[0], prot), "goes out as it came")


def _recipient(E, P, name, salt, u, own=0):
    H = P.headers
    kw = lib.ECDHS[name][2]
    uh = {}
    if salt is not None:
        uh[H.Salt] = salt
    if u is not None:
        uh[H.PartyUID] = u
    rc = (P.KeyAgreementWithKeyWrap if kw else P.DirectKeyAgreement)(
        phdr={H.Algorithm: lib.alg(P, name)}, uhdr=uh, key=lib.ec_key(E, P, "P256", own))
    rc.local_attrs = {H.StaticKey: lib.ec_key(E, P, "P256", 1, public=True)}
    return rc


def _derived(E, name, salt, u, own=0, target=(1, 16)):
    hash_, static, kw = lib.ECDHS[name]
    tid, tl = (lib.ALG_ID[kw], lib.KWS[kw]) if kw else target
    d = E.mat("EC2", "P256", own)[0]
    _, x, y = E.mat("EC2", "P256", 1)
    return E.hkdf(hash_, tl, salt, kdf_context(E, tid, tl, E.cbor({1: lib.ALG_ID[name]}), (u, None, None), (None,) * 3),
                  E.ecdh("P256", d, x, y))


SALT_SHAPES = ["none", "salt", "salt and party", "party"]


def _shape(E, shape, i):
    return (E.bytes("salt%d" % i, 0, 2) if "salt" in shape else None, E.bytes("u%d" % i, 0, 2) if "party" in shape else None)


@case("R02", first=SALT_SHAPES, second=SALT_SHAPES)
def agreements_in_a_row(E, P, first, second):
    """Two or three independent agreements one after another, with any of the hashes, salts and parties: each derives
    with its own algorithm and inputs."""
    names = ["EcdhSsHKDF256", "EcdhSsHKDF512", "EcdhEsHKDF256", "EcdhEsHKDF512"]
    for i, shape in enumerate([first, second, first][:E.bound(2, 3)]):
        name = E.choice("name%d" % i, names)
        salt, u = _shape(E, shape, i)
        rc = _recipient(E, P, name, salt, u, 2 * (i & 1))
        tgt = E.choice("target", [("A128GCM", 1, 16), ("A256GCM", 3, 32)]) if i == 1 else ("A128GCM", 1, 16)
        got = rc.compute_cek(lib.alg(P, tgt[0]), "encrypt").k
        E.check(E.eq(got, _derived(E, name, salt, u, 2 * (i & 1), tgt[1:])), "its own key")


@case("R03", first=SALT_SHAPES, second=SALT_SHAPES)
def wraps_in_a_row(E, P, first, second):
    """The same with key wrap: each wraps its content key under the key of its own algorithm and inputs."""
    names = ["EcdhSsA128KW", "EcdhSsA192KW", "EcdhSsA256KW"]
    for i, shape in enumerate([first, second, first][:E.bound(2, 3)]):
        name = E.choice("name%d" % i, names)
        salt, u = _shape(E, shape, i)
        rc = _recipient(E, P, name, salt, u, 2 * (i & 1))
        rc.payload = cek = E.bytes("cek%d" % i, 16)
        E.check(E.eq(rc.encrypt(P.alg.A128GCM), E.keywrap(_derived(E, name, salt, u, 2 * (i & 1)), cek)), "its own key")


SALTS = [1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 300]


@case("R02", name=["EcdhSsHKDF256", "EcdhSsHKDF512"], n=SALTS)
def long_salts(E, P, name, n):
    """Salts and party values around the digest and block sizes of the hash, and longer ones, are used whole."""
    salt = lib.big(E, "s", n) if n > 1 else E.bytes("s", 1)
    u = lib.big(E, "u", n) if n > 1 else E.bytes("u", 1)
    rc = _recipient(E, P, name, salt, u)
    E.check(E.eq(rc.compute_cek(P.alg.A128GCM, "encrypt").k, _derived(E, name, salt, u)), "derived with the whole salt")


@case("R03", name=["EcdhSsA128KW", "EcdhSsA256KW"], n=SALTS)
def long_wrap_salts(E, P, name, n):
    """The same with key wrap."""
    salt = lib.big(E, "s", n) if n > 1 else E.bytes("s", 1)
    rc = _recipient(E, P, name, salt, None)
    rc.payload = cek = E.bytes("cek", 16)
    E.check(E.eq(rc.encrypt(P.alg.A128GCM), E.keywrap(_derived(E, name, salt, None), cek)), "wrapped under the key of the whole salt")


@case("R01", kw=["A128KW", "A256KW"])
def nested_wrap_history(E, P, kw):
    """A key-wrap recipient, with and without recipients of its own, encoded, changed and encoded again: its ciphertext
    is always the content key of the moment under the key of the moment."""
    H = P.headers
    wid, n = lib.ALG_ID[kw], lib.KWS[kw]
    inner = P.KeyWrap(uhdr={H.Algorithm: P.alg.A128KW}, key=P.SymmetricKey(k=bytes(16)), payload=bytes(24))
    cek, kek, nested = E.bytes("cek0", 16), E.bytes("kek0", n), E.choice("nested", [False, True])
    rc = P.KeyWrap(uhdr={H.Algorithm: lib.alg(P, kw)}, key=P.SymmetricKey(k=kek), payload=cek,
                   recipients=[inner] if nested else [])
    for i in range(E.bound(3, 4)):
        if i:
            act = E.choice("act%d" % i, ["cek", "key", "nest", "kid", "none"])
            if act == "cek":
                rc.payload = cek = E.bytes("cek%d" % i, 24)
            elif act == "key":
                kek = E.bytes("kek%d" % i, n)
                rc.key = P.SymmetricKey(k=kek)
            elif act == "nest":
                nested = not nested
                rc.recipients = [inner] if nested else []
            elif act == "kid":
                rc.uhdr_update({H.KID: bytes([i])})
        how = E.choice("how%d" % i, ["encode", "encrypt"])
        if how == "encrypt":
            E.check(E.eq(rc.encrypt(P.alg.A128GCM), E.keywrap(kek, cek)), "the key of the moment")
            continue
        out = rc.encode(target_alg=P.alg.A128GCM)
        E.check(len(out) == (4 if nested else 3), "its recipients of the moment")
        E.check(E.eq(out[2], E.keywrap(kek, cek)), "the content key of the moment")
        if nested:
            E.check(E.eq(out[3], [[b"", inner.uhdr, E.keywrap(bytes(16), bytes(24))]]), "the nested one's")


@case("K06", kind=["symmetric", "EC2", "OKP", "RSA"])
def operations_assigned_from_keys(E, P, kind):
    """Operations assigned from a key's own list, or another key's, are those operations; the other key keeps its own and
    neither follows the other's later changes."""
    (a, _), (b, _) = any_key(E, P, kind), any_key(E, P, kind)
    legal = {"symmetric": [3, 4, 5, 6, 9, 10], "RSA": [1, 2, 3, 4, 5, 6, 7, 8]}.get(kind, [1, 2, 7, 8])
    first = E.choice("b has", [False, True])
    x, y = E.choice("ops", [(legal[0], legal[1]), (legal[-1], legal[0]), (legal[1], legal[1])])
    ops = {"a": [x, y], "b": [legal[0]] if first else []}
    a.key_ops, b.key_ops = ops["a"], ops["b"]
    keys = {"a": a, "b": b}
    for i in range(E.bound(2, 3)):
        to, frm = E.choice("which%d" % i, [("a", "b"), ("b", "a"), ("a", "a")])
        how = E.choice("how%d" % i, ["setter", "item", "list"])
        if how == "setter":
            keys[to].key_ops = keys[frm].key_ops
        elif how == "item":
            if ops[frm]:
                keys[to][4] = keys[frm][4]
            else:
                keys[to][4] = []
        else:
            keys[to].key_ops = list(keys[frm].key_ops)
        ops[to] = list(ops[frm])
        for k in ("a", "b"):
            E.check([o.identifier for o in keys[k].key_ops] == ops[k], "each key's own")
            E.check(E.decode(keys[k].encode()).get(4, []) == ops[k], "as encoded")


@case("W01", kind=KINDS, n=[0, 1, 4, 5, 8], m=[0, 1, 4, 5, 8])
def header_counts(E, P, kind, n, m):
    """Any number of labels in either bucket, with the algorithm in the protected one, the unprotected one or neither:
    encoded and decoded as they are, an empty protected bucket as a zero-length string."""
    H = P.headers
    v = E.bytes("v", 0, 2)
    ls = labels(20)
    A = {"sign1": P.alg.EdDSA, "mac0": P.alg.HMAC256, "mac": P.alg.HMAC256, "enc0": P.alg.A128GCM,
         "enc": P.alg.A128GCM, "sign": P.alg.EdDSA}[kind]
    where = E.choice("where", ["phdr", "uhdr"] + (["neither"] if kind == "sign" else []))
    ph, uh = {x: v for x in ls[:n]}, {x: [v] for x in ls[10:10 + m]}
    if where == "phdr":
        ph = lib.merge({H.Algorithm: A}, ph)
    elif where == "uhdr":
        uh = lib.merge({H.Algorithm: A}, uh)
    if E.choice("more", [False, True]):
        uh[H.KID] = v
    msg = make(E, P, kind, ph, uh, b"p")
    out = msg.encode()
    w = E.decode(out).value
    if kind in ("enc", "enc0"):
        uh = lib.merge({H.IV: IV}, uh)
    wph, wuh = [{(k.identifier if hasattr(k, "identifier") else k): (x.identifier if hasattr(x, "identifier") else x)
                 for k, x in h.items()} for h in (ph, uh)]
    E.check(E.eq(w[0], E.cbor(wph) if wph else b""), "the protected header")
    E.check(E.eq(w[1], wuh), "the unprotected header")
    got = P.CoseMessage.decode(out)
    E.check(E.eq([got.phdr, got.uhdr], [ph, uh]), "the same when decoded")


@case("R01", kind=["enc", "mac"], mode=["wrap", "wrap2", "agreement", "agreement and wrap"], kw=["A128KW", "A256KW"])
def nested_keys(E, P, kind, mode, kw):
    """A key-wrap recipient without a key of its own wraps the content key under the key its own recipients carry: one
    all of them get, of its algorithm's length, or the agreed one, derived for that algorithm.  The receiver's first
    nested key opens the message, now and after a second encoding; without any it is refused."""
    H = P.headers
    wid, n = lib.ALG_ID[kw], lib.KWS[kw]
    cek = E.bytes("cek", 16)
    keks = [E.bytes("kek%d" % i, 16) for i in range(2 if mode == "wrap2" else 1)]
    preset = E.bytes("preset", n) if "wrap" in mode and E.choice("given", [False, True]) else b""
    if mode in ("wrap", "wrap2"):
        inner = [P.KeyWrap(uhdr={H.Algorithm: P.alg.A128KW}, key=P.SymmetricKey(k=k)) for k in keks]
        if preset:
            inner[-1].payload = preset
    else:
        inner = [_recipient(E, P, "EcdhSsHKDF256" if mode == "agreement" else "EcdhSsA128KW", None, None)]
        inner[0].uhdr_update({H.StaticKey: lib.ec_key(E, P, "P256", 0, public=True)})
        if preset:
            inner[0].payload = preset
    outer = P.KeyWrap(uhdr={H.Algorithm: lib.alg(P, kw)}, payload=cek, recipients=inner)
    p = E.bytes("p", 0, 2)
    if kind == "enc":
        m = P.EncMessage(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: IV}, payload=p, recipients=[outer])
    else:
        m = P.MacMessage(phdr={H.Algorithm: P.alg.AESMAC128128}, payload=p, recipients=[outer])
    for i in range(2):
        w = E.decode(m.encode()).value
        o = w[3 if kind == "enc" else 4][0]
        E.check(len(o) == 4 and len(o[3]) == len(inner), "with its recipients")
        if mode == "agreement":
            kek = _derived(E, "EcdhSsHKDF256", None, None, target=(wid, n))
            E.check(o[3][0][2] == b"", "nothing sent but the headers")
        else:
            kek = inner[0].payload
            E.check(len(kek) == n, "of the algorithm's length")
            if preset:
                E.check(E.eq(kek, preset), "the caller's key")
            if mode == "agreement and wrap":
                E.check(E.eq(o[3][0][2], E.keywrap(_derived(E, "EcdhSsA128KW", None, None), kek)), "wrapped for it")
            else:
                for k, x in zip(keks, o[3]):
                    E.check(E.eq(x[2], E.keywrap(k, kek)), "wrapped for each of them")
        E.check(E.eq(o[2], E.keywrap(kek, cek)), "the content key under that key")
        got = P.CoseMessage.decode(E.cbor(E.tag(TAGS[kind], w)))
        ro = got.recipients[0]
        r = E.run(ro.compute_cek, P.alg.A128GCM, "decrypt")
        E.check(r.raised("CoseException"), "no key, no content")
        ro.recipients[0].key = P.SymmetricKey(k=keks[0]) if mode in ("wrap", "wrap2") else lib.ec_key(E, P, "P256", 1)
        if kind == "enc":
            E.check(E.eq(got.decrypt(ro), p), "opened")
        else:
            E.check(E.eq(ro.compute_cek(P.alg.AESMAC128128, "decrypt").k, cek), "the key of the tag")
