"""The wire format: round trips, received header bytes, dispatch and malformed input."""
from vt.registry import case
from . import lib

KINDS = ["sign1", "sign", "mac0", "mac", "enc0", "enc"]
TAGS = {"sign1": 18, "sign": 98, "mac0": 17, "mac": 97, "enc0": 16, "enc": 96}
CLASS = {"sign1": "Sign1Message", "sign": "SignMessage", "mac0": "Mac0Message", "mac": "MacMessage",
         "enc0": "Enc0Message", "enc": "EncMessage"}
IV = b"\x01" * 12
FALSY = {700: None, 701: False, 702: 0, 703: b"", 704: "", 705: [], 706: {}, -70001: None, "x": None, "": 0}


def body(E, P, kind, sym=True, name=""):
    """(library headers, wire headers, payload) of one message of the kind, with symbolic contents"""
    H = P.headers
    ph, wph = lib.headers(E, P, name + "ph", hi=3)
    uh, wuh = lib.headers(E, P, name + "uh", hi=3, labels=["empty", "unknown2", "ct2", "text2"]) if False else ({}, {})
    A, aid = {"sign1": (P.alg.EdDSA, -8), "sign": (None, None), "mac0": (P.alg.HMAC256, 5), "mac": (P.alg.HMAC256, 5),
              "enc0": (P.alg.A128GCM, 1), "enc": (P.alg.A128GCM, 1)}[kind]
    if A is not None:
        ph, wph = lib.merge({H.Algorithm: A}, ph), lib.merge({1: aid}, wph)
    return ph, wph


def make(E, P, kind, ph, uh, payload, **kw):
    """a message with its key, ready to encode"""
    H = P.headers
    if kind == "sign1":
        return P.Sign1Message(phdr=ph, uhdr=uh, payload=payload, key=lib.sig_key(E, P, "EdDSA")[0], **kw)
    if kind == "sign":
        sp = E.bytes("signer.kid", 0, 2)
        sg = P.CoseSignature(phdr={H.Algorithm: P.alg.EdDSA}, uhdr={H.KID: sp}, key=lib.sig_key(E, P, "EdDSA")[0])
        return P.SignMessage(phdr=ph, uhdr=uh, payload=payload, signers=[sg], **kw)
    if kind in ("enc", "enc0"):
        uh = lib.merge({H.IV: IV}, uh)
    k = P.SymmetricKey(k=bytes(range(16 if kind in ("enc", "enc0") else 32)))
    c = getattr(P, CLASS[kind])
    if kind in ("mac0", "enc0"):
        return c(phdr=ph, uhdr=uh, payload=payload, key=k, **kw)
    rc = P.DirectEncryption(uhdr={H.Algorithm: P.alg.Direct, H.KID: E.bytes("rcpt.kid", 0, 2)})
    return c(phdr=ph, uhdr=uh, payload=payload, key=k, recipients=[rc], **kw)


def resend(E, P, kind, msg, tag=True):
    """encode a received message again without protecting it anew (or, for MACs and COSE_Sign, deterministically)"""
    if kind == "sign1":
        return msg.encode(tag=tag, sign=False)
    if kind == "sign":
        for s in msg.signers:
            s.key = lib.sig_key(E, P, "EdDSA")[0]
        return msg.encode(tag=tag)
    if kind in ("mac0", "mac"):
        msg.key = P.SymmetricKey(k=bytes(range(32)))
        return msg.encode(tag=tag)
    return msg.encode(tag=tag, encrypt=False)


@case("W01", kind=KINDS)
def round_trip(E, P, kind):
    """Encode then decode: the decoded message is of the sending class with equal headers in both buckets, payload or
    ciphertext, signature or tag, signers and recipients; sending it again gives the same bytes; without the tag the
    same bytes without the tag prefix."""
    H = P.headers
    ph, wph = body(E, P, kind)
    ushape = E.choice("uh.shape", ["empty", "ct", "unknown", "nested", "falsy"])
    v, n = E.bytes("uv", 0, 2), E.int("un", 0, 70000)
    uh = {"empty": {}, "ct": {H.ContentType: n}, "unknown": {-70000 - n: [v, n, None, True]},
          "nested": {H.CounterSignature0: v, 600: {n: v, "x": [n]}}, "falsy": FALSY}[ushape]
    wuh = {"empty": {}, "ct": {3: n}, "unknown": {-70000 - n: [v, n, None, True]},
           "nested": {9: v, 600: {n: v, "x": [n]}}, "falsy": FALSY}[ushape]
    payload = E.bytes("payload", 0, 4)
    msg = make(E, P, kind, ph, uh, payload)
    out = msg.encode()
    m = E.decode(out)
    E.check(m.tag == TAGS[kind], "tag of the message type")
    E.check(E.eq(m.value[0], E.cbor(wph) if len(wph) else b""), "protected header bytes")
    if kind in ("enc0", "enc"):
        wuh = lib.merge({5: IV}, wuh)
        uh = lib.merge({H.IV: IV}, uh)
    E.check(E.eq(m.value[1], wuh), "unprotected header map")
    E.check(E.eq(out, E.cbor(E.tag(TAGS[kind], m.value))), "deterministic encoding")
    got = P.CoseMessage.decode(out)
    E.check(type(got).__name__ == CLASS[kind], "class")
    E.check(E.eq(got.phdr, ph), "protected header")
    E.check(E.eq(got.uhdr, uh), "unprotected header")
    E.check(E.eq(got.payload, m.value[2]), "payload or ciphertext")
    if kind == "sign1":
        E.check(E.eq(got.signature, m.value[3]), "signature")
    if kind in ("mac0", "mac"):
        E.check(E.eq(got.auth_tag, m.value[3]), "tag")
    if kind == "sign":
        E.check(len(got.signers) == 1, "one signer")
        s = got.signers[0]
        E.check(E.eq([s.phdr, s.uhdr, s.signature],
                     [{H.Algorithm: P.alg.EdDSA}, {H.KID: m.value[3][0][1][4]}, m.value[3][0][2]]), "signer")
        E.check(E.eq(m.value[3][0][1], {4: msg.signers[0].uhdr[H.KID]}), "signer's header on the wire")
    if kind in ("mac", "enc"):
        E.check(len(got.recipients) == 1, "one recipient")
        r = got.recipients[0]
        E.check(E.eq([r.phdr, r.uhdr, r.payload],
                     [{}, {H.Algorithm: P.alg.Direct, H.KID: msg.recipients[0].uhdr[H.KID]}, b""]), "recipient")
    E.check(E.eq(resend(E, P, kind, got), out), "sending it again gives the same bytes")
    E.check(E.eq(resend(E, P, kind, got, tag=False), E.cbor(m.value)), "without a tag the bare array")


@case("W01", kind=KINDS)
def value_kinds(E, P, kind):
    """Header values of every CBOR kind are sent and read as what they are: floats stay floats, tagged values keep
    their tag, big numbers, undefined, truth values and nesting; in both buckets, for registered and other labels."""
    import cbor2
    H = P.headers
    v, n = E.bytes("v", 0, 2), E.int("n", -70000, 70000)
    x = E.choice("value", [2.0, -0.0, 1.5, 1e300, float("inf"), cbor2.CBORTag(4711, v), cbor2.CBORTag(4711, 2.0), 1 << 70,
                           -(1 << 70), 1 << 63, cbor2.undefined, True, [2.0, True, n], {n: 2.0},
                           [cbor2.CBORTag(4711, [v, n])], {"x": [{}, []]}, [None, "", b""]])
    label = E.choice("label", ["other", "text"] + ([] if E.tier == "quick" else ["Salt", "CounterSignature"]))
    k, wk = {"other": (650, 650), "text": ("label", "label"), "Salt": (H.Salt, -20),
             "CounterSignature": (H.CounterSignature, 7)}[label]
    where = E.choice("where", ["phdr", "uhdr"])
    ph, wph = body(E, P, kind)
    a, wa = (lib.merge(ph, {k: x}), lib.merge(wph, {wk: x})) if where == "phdr" else (ph, wph)
    msg = make(E, P, kind, a, {k: x} if where == "uhdr" else {}, b"p")
    out = msg.encode()
    m = E.decode(out).value
    E.check(E.eq(m[0], E.cbor(wa) if len(wa) else b""), "protected header as specified")
    if where == "uhdr":
        E.check(E.eq(m[1][wk], x), "unprotected header as specified")
    got = P.CoseMessage.decode(out)
    h = got.phdr if where == "phdr" else got.uhdr
    E.check(E.eq(h[k], x) and same_kind(h[k], x), "the value")
    E.check(E.eq(got.get_attr(k), x) and same_kind(got.get_attr(k), x), "looked up")
    E.check(E.eq(resend(E, P, kind, got), out), "sending it again gives the same bytes")


def same_kind(a, b):
    return isinstance(a, float) == isinstance(b, float) and isinstance(a, bool) == isinstance(b, bool) \
        and (type(a).__name__ == "CBORTag") == (type(b).__name__ == "CBORTag")


@case("W01", kind=["sign1", "sign"])
def round_trip_detached(E, P, kind):
    """A message with a detached payload stays detached: nil on the wire, None after decoding; an empty payload is
    not a detached one."""
    H = P.headers
    ph, wph = body(E, P, kind)
    payload = E.bytes("payload", 0, 4)
    det = E.choice("detached", [False, True])
    msg = make(E, P, kind, ph, {}, None if det else payload)
    out = msg.encode(detached_payload=payload if det else None)
    m = E.decode(out)
    got = P.CoseMessage.decode(out)
    if det:
        E.check(m.value[2] is None and got.payload is None, "nil")
    else:
        E.check(got.payload is not None and E.eq(m.value[2], payload) and E.eq(got.payload, payload), "attached")


@case("W01", kind=["mac", "enc"])
def round_trip_recipients(E, P, kind):
    """Several recipients keep their order, headers and content; key-wrap recipients carry the wrapped key."""
    H = P.headers
    ph, wph = body(E, P, kind)
    kek, k2, cek = E.bytes("kek", 16), E.bytes("kek2", 32), E.bytes("cek", 16 if kind == "enc" else 32)
    kid = E.bytes("kid", 0, 3)
    rs = [P.KeyWrap(uhdr={H.Algorithm: P.alg.A128KW, H.KID: kid}, payload=cek, key=P.SymmetricKey(k=kek)),
          P.KeyWrap(uhdr={H.Algorithm: P.alg.A256KW, 700: kid}, payload=cek, key=P.SymmetricKey(k=k2))]
    c = getattr(P, CLASS[kind])
    out = c(phdr=ph, uhdr={H.IV: IV}, payload=b"abc", recipients=rs).encode()
    m = E.decode(out)
    wraps = [[b"", {1: -3, 4: kid}, E.keywrap(kek, cek)], [b"", {1: -5, 700: kid}, E.keywrap(k2, cek)]]
    E.check(E.eq(m.value[-1], wraps), "recipients on the wire")
    got = P.CoseMessage.decode(out)
    E.check(len(got.recipients) == 2, "both recipients")
    a, b = got.recipients
    E.check(E.eq([a.phdr, a.uhdr, a.payload], [{}, {H.Algorithm: P.alg.A128KW, H.KID: kid}, wraps[0][2]]), "first")
    E.check(E.eq([b.phdr, b.uhdr, b.payload], [{}, {H.Algorithm: P.alg.A256KW, 700: kid}, wraps[1][2]]), "second")


def received(E, P, kind, prot, uh, payload, auth):
    """the wire form of a message with this protected header, without the outer tag"""
    b = [prot, uh, payload]
    if kind in ("sign1", "mac0", "mac"):
        b.append(auth)
    if kind == "sign":
        b.append([[prot, {}, auth]])
    if kind in ("mac", "enc"):
        b.append([[b"", {1: -6}, b""]])
    return b


def accept(E, P, kind, prot, wire_prot, shape):
    """decode a message protected over the given header bytes and verify it"""
    H = P.headers
    payload, aad = E.bytes("payload", 0, 3), E.bytes("aad", 0, 2)
    key, scheme, pub, priv = lib.sig_key(E, P, "EdDSA")
    ctx = {"sign1": "Signature1", "mac0": "MAC0", "mac": "MAC", "enc0": "Encrypt0", "enc": "Encrypt"}.get(kind)
    uh = {5: IV} if kind in ("enc0", "enc") else {}
    if kind == "sign1":
        auth = E.sign_ref(scheme, priv, E.cbor([ctx, prot, aad, payload]))
    elif kind == "sign":
        auth = E.sign_ref(scheme, priv, E.cbor(["Signature", prot, prot, aad, payload]))
    elif kind in ("mac0", "mac"):
        auth = E.hmac("sha256", bytes(range(32)), E.cbor([ctx, prot, aad, payload]))
    else:
        auth = None
    pl = payload
    if auth is None:
        pl = E.seal("gcm", 16, bytes(range(16)), IV, E.cbor([ctx, prot, aad]), payload)
    wire = E.cbor(E.tag(TAGS[kind], received(E, P, kind, wire_prot, uh, pl, auth)))
    msg = P.CoseMessage.decode(wire)
    ok = open_(E, P, kind, msg, aad, payload)
    return wire, msg, ok, aad, payload


def open_(E, P, kind, msg, aad, payload):
    key = lib.sig_key(E, P, "EdDSA")[0]
    if kind == "sign":
        msg.signers[0].key, msg.signers[0].external_aad = key, aad
        return msg.signers[0].verify_signature()
    msg.external_aad = aad
    if kind == "sign1":
        msg.key = key
        return msg.verify_signature()
    msg.key = P.SymmetricKey(k=bytes(range(16 if kind in ("enc0", "enc") else 32)))
    if kind in ("mac0", "mac"):
        return msg.verify_tag()
    r = E.run(msg.decrypt, *([msg.recipients[0]] if kind == "enc" else []))
    return r.ok and E.eq(r.value, payload)


ALGID = {"sign1": -8, "sign": -8, "mac0": 5, "mac": 5, "enc0": 1, "enc": 1}


@case("W02", kind=KINDS)
def received_header_bytes(E, P, kind):
    """A received protected header enters the checked structure as the bytes that came in, however the sender encoded
    the map (symbolic encoding, up to 40 bytes), and goes out again as those bytes."""
    kid = E.bytes("kid", 0, 3)
    prot = E.wire("prot", {1: ALGID[kind], 4: kid})
    wire, msg, ok, aad, payload = accept(E, P, kind, prot, prot, "wire")
    E.check(ok, "the received bytes are what is checked")
    E.check(E.eq(msg.phdr[P.headers.KID], kid), "and they are parsed")
    m = E.decode(wire)
    E.check(E.eq(E.decode(resend(E, P, kind, msg)).value[0], prot), "sent on unchanged")
    E.check(E.eq(m.value[0], prot), "sanity")


@case("W02", kind=KINDS)
def empty_header_bytes(E, P, kind):
    """An empty protected header, in any of its encodings (zero-length string, map with any length encoding, indefinite
    length), is one when it comes in, is checked as a zero-length string and goes out again as it came."""
    raw = [b"", b"\xa0", b"\xb8\x00", b"\xb9\x00\x00", b"\xba" + bytes(4), b"\xbb" + bytes(8), b"\xbf\xff"]
    prot = raw[E.choice("prot", list(range(len(raw))))]
    part = raw[E.choice("part", [0, 1, 6])] if kind == "sign" else prot
    payload, aad, kid = E.bytes("payload", 0, 3), E.bytes("aad", 0, 2), E.bytes("kid", 0, 2)
    key, scheme, pub, priv = lib.sig_key(E, P, "EdDSA")
    ctx = {"sign1": "Signature1", "mac0": "MAC0", "mac": "MAC", "enc0": "Encrypt0", "enc": "Encrypt"}.get(kind)
    uh, auth, pl = {1: ALGID[kind], 4: kid}, b"", payload
    if kind == "sign1":
        auth = E.sign_ref(scheme, priv, E.cbor([ctx, b"", aad, payload]))
    elif kind == "sign":
        auth = E.sign_ref(scheme, priv, E.cbor(["Signature", b"", b"", aad, payload]))
    elif kind in ("mac0", "mac"):
        auth = E.hmac("sha256", bytes(range(32)), E.cbor([ctx, b"", aad, payload]))
    else:
        uh[5] = IV
        pl = E.seal("gcm", 16, bytes(range(16)), IV, E.cbor([ctx, b"", aad]), payload)
    b = received(E, P, kind, prot, uh, pl, auth)
    if kind == "sign":
        b[3] = [[part, uh, auth]]
    msg = P.CoseMessage.decode(E.cbor(E.tag(TAGS[kind], b)))
    E.check(msg.phdr == {}, "no parameters")
    E.check(open_(E, P, kind, msg, aad, payload), "checked as a zero-length string")
    E.check(E.eq(msg.phdr_encoded, prot), "kept as it came in")
    m = E.decode(resend(E, P, kind, msg)).value
    E.check(E.eq(m[0], prot) and (kind != "sign" or E.eq(m[3][0][0], part)), "and sent on unchanged")


@case("W02", kind=KINDS)
def header_bytes_not_normalised(E, P, kind):
    """A message protected over one encoding does not pass with another encoding of the same header."""
    kid = E.bytes("kid", 0, 3)
    prot = E.wire("prot", {1: ALGID[kind], 4: kid})
    canon = E.cbor({1: ALGID[kind], 4: kid})
    dirn = E.choice("direction", ["made canonical", "made otherwise"])
    a, b = (prot, canon) if dirn == "made canonical" else (canon, prot)
    wire, msg, ok, aad, payload = accept(E, P, kind, a, b, "other")
    E.check(E.not_(ok), "another encoding is not accepted")


@case("W02", kind=["sign1", "mac0", "enc0", "sign", "mac", "enc"])
def header_refresh(E, P, kind):
    """After the protected header of a received message is changed (assignment or update) the new content is
    what is sent and protected."""
    H = P.headers
    kid, kid2 = E.bytes("kid", 0, 2), E.bytes("kid2", 0, 2)
    prot = E.wire("prot", {1: ALGID[kind], 4: kid})
    wire, msg, ok, aad, payload = accept(E, P, kind, prot, prot, "wire")
    how = E.choice("how", ["assign", "update", "clear"])
    A = {"sign1": P.alg.EdDSA, "sign": P.alg.EdDSA, "mac0": P.alg.HMAC256, "mac": P.alg.HMAC256,
         "enc0": P.alg.A128GCM, "enc": P.alg.A128GCM}[kind]
    if how == "assign":
        msg.phdr = {H.Algorithm: A, H.KID: kid2}
    elif how == "update":
        msg.phdr_update({H.KID: kid2})
    else:
        msg.phdr = {}
        if kind != "sign":
            msg.uhdr_update({H.Algorithm: A})
    if how != "clear":
        E.check(E.eq(msg.phdr, {H.Algorithm: A, H.KID: kid2}), "new content")
    new = E.cbor({1: ALGID[kind], 4: kid2}) if how != "clear" else b""
    if kind in ("enc0", "enc"):
        msg.payload = payload
        out = msg.encode()
    else:
        if kind == "sign":
            msg.signers[0].key = lib.sig_key(E, P, "EdDSA")[0]
        out = msg.encode()
    m = E.decode(out)
    E.check(E.eq(m.value[0], new), "new bytes are sent")
    ctx = {"sign1": "Signature1", "mac0": "MAC0", "mac": "MAC", "enc0": "Encrypt0", "enc": "Encrypt"}.get(kind)
    key, scheme, pub, priv = lib.sig_key(E, P, "EdDSA")
    if kind == "sign1":
        E.check(E.sig_valid(scheme, pub, E.cbor([ctx, new, aad, payload]), m.value[3]), "new bytes are signed")
    elif kind == "sign":
        E.check(E.sig_valid(scheme, pub, E.cbor(["Signature", new, prot, aad, payload]), m.value[3][0][2]), "signed")
    elif kind in ("mac0", "mac"):
        E.check(E.eq(m.value[3], E.hmac("sha256", bytes(range(32)), E.cbor([ctx, new, aad, payload]))), "MACed")
    else:
        E.check(E.eq(m.value[2], E.seal("gcm", 16, bytes(range(16)), IV, E.cbor([ctx, new, aad]), payload)), "sealed")


@case("W02", how=["construct", "assign", "update"])
def header_detached_copy(E, P, how):
    """Assigning a header map takes a copy: later changes to the caller's map do not reach the message."""
    H = P.headers
    v, w = E.bytes("v", 0, 2), E.bytes("w", 0, 2)
    d = {H.Algorithm: P.alg.HMAC256, H.KID: v, 700: [v]}
    u = {H.KIDContext: v, 800: [v]}
    msg = P.Mac0Message(payload=b"", key=P.SymmetricKey(k=bytes(32)))
    if how == "construct":
        msg = P.Mac0Message(phdr=d, uhdr=u, payload=b"", key=P.SymmetricKey(k=bytes(32)))
    elif how == "assign":
        msg.phdr, msg.uhdr = d, u
    else:
        msg.phdr_update(d)
        msg.uhdr_update(u)
    d[H.KID], u[H.KIDContext] = w + b"z", w + b"z"
    d[900], u[900] = 1, 1
    if how == "assign":
        d[700].append(w)
        u[800].append(w)
    m = E.decode(msg.encode())
    prot = E.cbor({1: 5, 4: v, 700: [v]})
    E.check(E.eq(m.value, [prot, {10: v, 800: [v]}, b"", E.hmac("sha256", bytes(32), E.cbor(["MAC0", prot, b"", b""]))]),
            "the caller's later changes do not reach the message")


NATIVE = [0, 1, 2, 3, 4, 5, 25, 28, 29, 30, 35, 36, 37, 100, 256, 258, 260, 261, 1004, 43000, 55799]


@case("W03", cls=["CoseMessage"] + [CLASS[k] for k in KINDS])
def dispatch(E, P, cls):
    """For every CBOR tag number 0..2^32: the six tags decode to their message class, only through the common base or
    that class; any other tag or class raises and yields no object.  (Tags that the CBOR library itself converts
    are in the next case.)"""
    t = E.int("tag", 0, 2 ** 32)
    kind = E.choice("body", KINDS)
    b = received(E, P, kind, E.cbor({1: ALGID[kind]}), {}, b"p", b"s")
    known = E.any(*[E.eq(t, n) for n in TAGS.values()])
    shape_ok = E.eq(t, TAGS[kind])
    E.assume(E.any(shape_ok, E.not_(known)))
    E.assume(E.not_(E.any(*[E.eq(t, n) for n in NATIVE])))
    r = E.run(getattr(P, cls).decode, E.cbor(E.tag(t, b)))
    right = cls in ("CoseMessage", CLASS[kind])
    if r.ok:
        E.check(shape_ok, "only the six tags decode")
        E.check(right, "only through the base class or its own")
        E.check(type(r.value).__name__ == CLASS[kind], "to the tag's class")
    else:
        E.check(E.not_(E.all(shape_ok, right)), "its own tag and class decode")
        E.check(E.implies(known, r.raised("TypeError")), "TypeError for another message type")
        E.check(E.implies(E.not_(known), r.raised("KeyError")), "KeyError for unknown tags")


@case("W03", cls=["CoseMessage"] + [CLASS[k] for k in KINDS])
def dispatch_converted(E, P, cls):
    """Arrays under CBOR tags with a meaning of their own are no COSE messages."""
    kind = E.choice("body", KINDS)
    b = received(E, P, kind, E.cbor({1: ALGID[kind]}), {}, b"p", b"s")
    r = E.run(getattr(P, cls).decode, E.cbor(E.tag(E.choice("tag", NATIVE), b)))
    E.check(not r.ok, "refused")


@case("W03", cls=["CoseMessage"] + [CLASS[k] for k in KINDS[:3]], thorough={"cls": ["CoseMessage"] +
                                                                                [CLASS[k] for k in KINDS]})
def nested_tags(E, P, cls):
    """A message inside another tag is not a message, whatever the outer tag (0..2^32; except 28, 256 and 55799: shared values,
    string references and self-described CBOR are CBOR facilities which the CBOR library resolves)."""
    kind = E.choice("body", KINDS)
    b = E.tag(TAGS[kind], received(E, P, kind, E.cbor({1: ALGID[kind]}), {}, b"p", b"s"))
    if E.choice("outer", ["any", "converted"]) == "any":
        t = E.int("tag", 0, 2 ** 32)
        E.assume(E.not_(E.any(*[E.eq(t, n) for n in NATIVE])))
    else:
        t = E.choice("converted", [n for n in NATIVE if n not in (28, 256, 55799)])
    r = E.run(getattr(P, cls).decode, E.cbor(E.tag(t, b)))
    E.check(not r.ok, "refused")


@case("W03", what=["int", "bytes", "str", "list", "map", "none", "tag:int", "tag:bytes", "tag:str", "tag:map",
                   "tag:none"])
def not_a_message(E, P, what):
    """CBOR items that are not a tagged array are refused: untagged items with AttributeError, tags around something
    else than an array with TypeError."""
    k = what.split(":")[-1]
    item = {"int": E.int("i", -1000, 70000), "bytes": E.bytes("b", 0, 5), "str": E.str("s", 0, 5),
            "list": [b"", {}, b"x", b"y"], "map": {1: E.int("i", 0, 9)}, "none": None}[k]
    if what.startswith("tag:"):
        item = E.tag(E.choice("tag", [16, 17, 18, 96, 97, 98, 61]), item)
    r = E.run(P.CoseMessage.decode, E.cbor(item))
    E.check(r.raised("TypeError" if what.startswith("tag:") else "AttributeError"), "refused")


@case("W03", kind=KINDS)
def payload_types(E, P, kind):
    """A payload (ciphertext) that is neither a byte string nor nil is refused on decoding and on assignment."""
    k = E.choice("type", ["int", "str", "list", "map", "bool", "bytes", "none"])
    v = {"int": E.int("i", -5, 300), "str": E.str("s", 0, 3), "list": [E.bytes("b", 0, 2)], "map": {}, "bool": False,
         "bytes": E.bytes("b", 0, 3), "none": None}[k]
    b = received(E, P, kind, b"", {}, v, b"sig")
    r = E.run(P.CoseMessage.decode, E.cbor(E.tag(TAGS[kind], b)))
    good = k in ("bytes", "none")
    E.check(r.ok == good, "decoded exactly with a byte string or nil")
    E.check(good or r.raised("TypeError"), "TypeError")
    if r.ok:
        E.check(E.eq(r.value.payload, v) if v is not None else r.value.payload is None, "the payload it carried")
    msg = getattr(P, CLASS[kind])()
    r = E.run(setattr, msg, "payload", v)
    E.check(r.ok == good and (good or r.raised("TypeError")), "the same on assignment")


@case("W03", kind=KINDS)
def header_types(E, P, kind):
    """Header buckets that are not maps are refused on decoding."""
    where = E.choice("where", ["protected", "unprotected"])
    v = {"int": E.int("i", 0, 300), "list": [1, 2], "str": E.str("s", 0, 2), "bytes": E.bytes("b", 0, 2),
         "none": None}[E.choice("type", ["int", "list", "str", "bytes", "none"])]
    prot, uh = (E.cbor(v), {}) if where == "protected" else (b"", v)
    if where == "unprotected" and v is None:
        return
    r = E.run(P.CoseMessage.decode, E.cbor(E.tag(TAGS[kind], received(E, P, kind, prot, uh, b"", b"s")
                                                 if kind != "sign" else [prot, uh, b"", [[b"", {}, b"s"]]])))
    E.check(r.raised("TypeError"), "TypeError")


@case("W04", kind=["enc", "mac"])
def recipient_constraints(E, P, kind):
    """Recipient structures that RFC 8152 forbids make decoding fail; nothing is dropped silently."""
    v = E.bytes("v", 1, 3)
    eph = {1: 2, -1: 1, -2: E.mat("EC2", "P256", 0)[1], -3: E.mat("EC2", "P256", 0)[2]}
    sub = [b"", {1: -3}, v]
    bad = {
        "direct with content": [b"", {1: -6}, v],
        "direct with protected header": [E.cbor({4: v}), {1: -6}, b""],
        "direct with recipients": [b"", {1: -6}, b"", [sub]],
        "key wrap with protected header": [E.cbor({1: -3}), {4: v}, v],
        "key wrap with other protected": [E.cbor({4: v}), {1: -5}, v],
        "key wrap without content": [b"", {1: -4}, b""],
        "agreement without ephemeral key": [E.cbor({1: -25}), {4: v}, b""],
        "agreement with recipients": [E.cbor({1: -25}), {-1: eph}, b"", [sub]],
        "agreement with wrap without content": [E.cbor({1: -29}), {-1: eph}, b""],
        "no algorithm": [b"", {4: v}, v],
        "unknown algorithm": [b"", {1: -70001}, v],
        "content algorithm": [b"", {1: 1}, v],
    }
    good = {
        "direct": [b"", {1: -6, 4: v}, b""],
        "key wrap": [b"", {1: -3, 4: v}, v],
        "key wrap with recipients": [b"", {1: -3}, v, [[b"", {1: -5, 4: v}, v]]],
        "agreement": [E.cbor({1: -25, 4: v}), {-1: eph}, b""],
        "static agreement": [E.cbor({1: -27, 4: v}), {-3: v}, b""],
        "agreement with wrap": [E.cbor({1: -29}), {-1: eph, 4: v}, v],
        "agreement with wrap and recipients": [E.cbor({1: -29}), {-1: eph}, v, [[b"", {1: -3, 4: v}, v]]],
    }
    which = E.choice("which", sorted(bad) + sorted(good))
    pos = E.choice("pos", ["only", "second", "first"])
    other = [b"", {1: -3, 4: b"o"}, b"content!"]
    rc = bad.get(which) or good.get(which)
    rs = {"only": [rc], "second": [other, rc], "first": [rc, other]}[pos]
    b = [E.cbor({1: 1 if kind == "enc" else 5}), {}, b"body"] + ([b"tag"] if kind == "mac" else []) + [rs]
    r = E.run(P.CoseMessage.decode, E.cbor(E.tag(TAGS[kind], b)))
    if which in bad:
        E.check(not r.ok, "refused: " + which)
    else:
        E.check(r.ok, "accepted: " + which)
        E.check(len(r.value.recipients) == len(rs), "every recipient is there")
        got = r.value.recipients[1 if pos == "second" else 0]
        E.check(E.eq(got.payload, rc[2]), "its content")
        E.check(len(got.recipients) == (len(rc[3]) if len(rc) > 3 else 0), "its own recipients are there")
        kid = got.get_attr(P.headers.KID)
        kid = kid if kid is not None else got.get_attr(P.headers.StaticKeyID)
        if len(got.recipients):
            kid = got.recipients[0].get_attr(P.headers.KID)
        E.check(E.eq(kid, v), "its headers")


@case("W04", kind=["sign", "enc", "mac"], n=[1, 2, 3])
def malformed_part(E, P, kind, n):
    """A signer or recipient that is no array, too short or has wrong element types makes decoding fail in every
    position; nothing is skipped."""
    i, b = E.int("i", -5, 300), E.bytes("b", 0, 2)
    alg = {1: -8} if kind == "sign" else {1: -3}
    bad = {"empty": [], "none": None, "int": i, "bytes": b, "str": E.str("s", 0, 2), "map": {}, "bool": False,
           "one element": [b""], "two elements": [b"", alg], "protected int": [i, alg, b"x"],
           "protected map": [{}, alg, b"x"], "protected nil": [None, alg, b"x"], "unprotected bytes": [b"", b, b"x"],
           "unprotected list": [b"", [], b"x"], "content int": [b"", alg, i], "content text": [b"", alg, "x"],
           "content list": [b"", alg, [b]], "content map": [b"", alg, {}], "content bool": [b"", alg, False],
           "wrapped": [[b"", alg, b"x"]]}
    if kind == "sign":
        bad["signature nil"] = [b"", alg, None]
    which = E.choice("which", sorted(bad))
    good = [b"", alg, b"content!"]
    parts = [good] * n
    parts[E.choice("pos", list(range(n)))] = bad[which]
    aid = {"sign": -8, "enc": 1, "mac": 5}[kind]
    body = [E.cbor({1: aid}), {}, b"body"] + ([b"tag"] if kind == "mac" else []) + [parts]
    r = E.run(P.CoseMessage.decode, E.cbor(E.tag(TAGS[kind], body)))
    E.check(not r.ok, "refused: " + which)
    body[-1] = [good] * n
    r = E.run(P.CoseMessage.decode, E.cbor(E.tag(TAGS[kind], body)))
    E.check(r.ok, "well-formed parts")
    E.check(len(r.value.signers if kind == "sign" else r.value.recipients) == n, "are all there")


@case("W04", where=["header", "signer", "recipient"])
def bad_header_value(E, P, where):
    """A header value of an illegal type makes decoding fail wherever the header is."""
    lab = E.choice("label", [2, 3, 4, 5, 6, 9, 10])
    v = {2: [], 3: -1 - E.int("i", 0, 1000), 4: E.str("s", 0, 3), 5: E.int("i", 0, 1000), 6: [b""], 9: None,
         10: {}}[lab]
    bucket = E.choice("bucket", ["protected", "unprotected"])
    prot, uh = (E.cbor({lab: v}), {}) if bucket == "protected" else (b"", {lab: v})
    if where == "header":
        m = E.tag(18, [prot, uh, b"p", b"s"])
    elif where == "signer":
        m = E.tag(98, [b"", {}, b"p", [[b"", {}, b"s"], [prot, uh, b"s"]]])
    else:
        m = E.tag(96, [b"", {}, b"p", [[b"", {1: -3}, b"s"],
                                       [prot, lib.merge({1: -3}, uh), b"s"]]])
    r = E.run(P.CoseMessage.decode, E.cbor(m))
    E.check(not r.ok, "refused")


@case("W04", kind=KINDS)
def malformed_body(E, P, kind):
    """A message array that is too short or has an element of a wrong type is refused."""
    i, b = E.int("i", -5, 300), E.bytes("b", 0, 2)
    good = received(E, P, kind, E.cbor({1: ALGID[kind]}), {}, b"p", b"s")
    wrong = {"int": i, "str": E.str("s", 0, 2), "map": {}, "list": [b], "bool": True, "nil": None, "bytes": b}
    names = ["protected", "unprotected", "payload"] + (["tag"] if kind in ("sign1", "mac0", "mac") else [])
    what = E.choice("element", names + ["short"])
    if what == "short":
        n = E.choice("n", list(range(len(good) if kind not in ("enc", "mac") else len(good) - 1)))
        r = E.run(P.CoseMessage.decode, E.cbor(E.tag(TAGS[kind], good[:n])))
        return E.check(not r.ok, "refused: too short")
    fine = {"protected": ["bytes"], "unprotected": ["map"], "payload": ["bytes", "nil"], "tag": ["bytes"]}[what]
    t = E.choice("type", sorted(set(wrong) - set(fine)))
    m = list(good)
    m[names.index(what)] = wrong[t]
    r = E.run(P.CoseMessage.decode, E.cbor(E.tag(TAGS[kind], m)))
    E.check(not r.ok, "refused: %s %s" % (what, t))
    r = E.run(P.CoseMessage.decode, E.cbor(E.tag(TAGS[kind], good)))
    E.check(r.ok, "the well-formed one")


@case("W04", kind=KINDS)
def surplus_elements(E, P, kind):
    """A message, signer or recipient with more elements than its structure has is refused; nothing is dropped."""
    i, b = E.int("i", -5, 300), E.bytes("b", 0, 2)
    more = {"int": i, "bytes": b, "empty": [], "list": [[b"", {1: -3}, b"x"]], "map": {}, "nil": None, "text": "t",
            "bool": False}
    extra = [more[E.choice("extra", sorted(more))] for _ in range(E.choice("count", [1, 2]))]
    good = received(E, P, kind, E.cbor({1: ALGID[kind]}), {}, b"p", b"s")
    where = E.choice("where", ["body"] + {"sign": ["signer"], "mac": ["recipient", "nested"],
                                          "enc": ["recipient", "nested"]}.get(kind, []))
    m = list(good)
    if where == "body":
        m = m + extra
    else:
        part = [b"", {1: -8}, b"s"] if where == "signer" else [b"", {1: -3}, b"c", []]
        fine = list(part)
        bad = part + extra
        if where == "signer" or E.choice("list", [True, False]):
            parts = {"first": [bad, fine], "last": [fine, bad], "only": [bad]}[E.choice("pos", ["first", "last", "only"])]
        else:
            parts = [bad]
        if where == "nested":
            parts = [[b"", {1: -3}, b"c", parts]]
        m = m[:-1] + [parts] if kind != "enc" or len(m) > 3 else m + [parts]
    r = E.run(P.CoseMessage.decode, E.cbor(E.tag(TAGS[kind], m)))
    E.check(not r.ok, "refused: more elements than the structure has")
    r = E.run(P.CoseMessage.decode, E.cbor(E.tag(TAGS[kind], good)))
    E.check(r.ok, "the well-formed one")


@case("W04", kind=["sign", "mac", "enc"], where=["body", "recipient"])
def part_lists(E, P, kind, where):
    """Signers and recipients that are no array (empty or not) are refused, in the message and in a recipient."""
    if kind == "sign" and where == "recipient":
        return
    v = {"map": {}, "map1": {1: b""}, "bytes": b"", "bytes1": E.bytes("b", 1, 3), "text": "", "text1": E.str("s", 1, 2),
         "int": E.int("i", -3, 3), "nil": None, "bool": False, "true": True,
         "tagged": E.tag(50, [])}[E.choice("type", ["map", "map1", "bytes", "bytes1", "text", "text1", "int", "nil", "bool",
                                                    "true", "tagged"])]
    if where == "recipient":
        v = [[b"", {1: -3}, b"c", v]]
    body = [E.cbor({1: ALGID[kind]}), {}, b"p"] + ([b"t"] if kind == "mac" else [])
    r = E.run(P.CoseMessage.decode, E.cbor(E.tag(TAGS[kind], body + [v])))
    E.check(not r.ok, "refused")
