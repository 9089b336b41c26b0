"""Longer and shorter wrapped keys, lists of every composition, labels of the whole range, single nested recipients."""
from vt.registry import case
from . import lib
from .h_keys import any_key
from .h_rcpt import received, wire_key
from .h_wire import TAGS


@case("R01", kw=lib.KWS, kind=["enc", "mac"])
def wrap_lengths(E, P, kw, kind):
    """A wrapped content key of any length with bytes added or taken away at either end is refused, also when it is
    longer than any content key; the key as it was sent opens."""
    n = E.choice("cek", [16, 24, 32])
    kek, cek = E.bytes("kek", lib.KWS[kw]), E.bytes("key", n)
    ct = E.keywrap(kek, cek)
    x = E.bytes("x", 8)
    how = E.choice("how", ["as sent", "1 after", "8 after", "16 after", "1 before", "8 before", "1 cut after", "8 cut after",
                           "8 cut before", "twice"])
    w = {"as sent": ct, "1 after": ct + x[:1], "8 after": ct + x, "16 after": ct + x + x, "1 before": x[:1] + ct,
         "8 before": x + ct, "1 cut after": ct[:-1], "8 cut after": ct[:-8], "8 cut before": ct[8:], "twice": ct + ct}[how]
    p = E.bytes("p", 0, 2)
    el = [[b"", {1: lib.ALG_ID[kw]}, w]]
    if kind == "enc":
        name, aid = {16: ("A128GCM", 1), 24: ("A192GCM", 2), 32: ("A256GCM", 3)}[n]
        msg = P.CoseMessage.decode(received(E, name, cek, el, b"\x01" * 12, p))
        f = msg.decrypt
    else:
        msg = P.CoseMessage.decode(E.cbor(E.tag(97, [E.cbor({1: 5}), {}, p, b"t", el])))
    r = msg.recipients[0]
    r.key = P.SymmetricKey(k=kek)
    res = E.run(msg.decrypt, r) if kind == "enc" else E.run(r.decrypt, P.alg.HMAC256)
    E.check(res.ok == (how == "as sent"), "opens exactly as sent")
    if res.ok:
        E.check(E.eq(res.value, p if kind == "enc" else cek), "the content, or its key")


@case("R01", alg=sorted(lib.OAEPS))
def oaep_lengths(E, P, alg):
    """The same for content keys encrypted with RSA-OAEP."""
    H = P.headers
    priv = lib.sig_key(E, P, "Ps256")[0]
    cek, p = E.bytes("cek", E.choice("n", [16, 32])), E.bytes("p", 0, 2)
    A = P.alg.A128GCM if len(cek) == 16 else P.alg.A256GCM
    rc = P.KeyWrap(uhdr={H.Algorithm: lib.alg(P, alg)}, key=lib.sig_key(E, P, "Ps256", public=True)[0], payload=cek)
    msg = P.EncMessage(phdr={H.Algorithm: A}, uhdr={H.IV: b"\x01" * 12}, payload=p, recipients=[rc])
    got = P.CoseMessage.decode(msg.encode())
    r = got.recipients[0]
    ct, x = r.payload, E.bytes("x", 8)
    how = E.choice("how", ["as sent", "1 after", "8 after", "1 before", "8 before", "1 cut after", "1 cut before", "twice"])
    r.payload = {"as sent": ct, "1 after": ct + x[:1], "8 after": ct + x, "1 before": b"\x07" + ct,
                 "8 before": b"\x00" * 8 + ct, "1 cut after": ct[:-1], "1 cut before": ct[1:], "twice": ct + ct}[how]
    r.key = priv
    res = E.run(got.decrypt, r)
    E.check(res.ok == (how == "as sent"), "opens exactly as sent")
    if res.ok:
        E.check(E.eq(res.value, p), "the content")


@case("R06", kind=["enc", "mac"], depth=[1, 2, 3, 4])
def single_chain(E, P, kind, depth):
    """A recipient that is the only one of its list is a member at any depth, with or without others further out."""
    k, cek = bytes(range(16)), bytes(16) if kind == "enc" else bytes(32)
    kid, p = E.bytes("kid", 0, 2), E.bytes("p", 0, 2)
    outer = E.choice("others", ["none", "before", "after"])

    def el(level):
        e = [b"", {1: -3, 4: kid}, E.keywrap(k, cek)]
        return e + [[el(level + 1)]] if level < depth else e
    one = [b"", {1: -3}, E.keywrap(k, cek)]
    els = {"none": [el(1)], "before": [one, el(1)], "after": [el(1), one]}[outer]
    if kind == "enc":
        wire = received(E, "A128GCM", cek, els, b"\x01" * 12, p)
    else:
        wire = E.cbor(E.tag(97, [E.cbor({1: 5}), {}, p, b"t", els]))
    msg, other = P.CoseMessage.decode(wire), P.CoseMessage.decode(wire)

    def at(m):
        rs = m.recipients
        r = rs[1 if outer == "before" else 0]
        for _ in range(n):
            r = r.recipients[0]
        r.key = P.SymmetricKey(k=k)
        return r
    n = E.choice("level", list(range(depth)))
    own, foreign = at(msg), at(other)
    E.check(P.CoseRecipient.has_recipient(own, msg.recipients), "its own recipient")
    E.check(not P.CoseRecipient.has_recipient(foreign, msg.recipients), "not another message's")
    if kind == "enc":
        E.check(E.run(msg.decrypt, foreign).raised("CoseException"), "refused for another message's recipient")
        r = E.run(msg.decrypt, own)
        E.check(r.ok and E.eq(r.value, p), "opens for its own")


@case("H05", kind=["message", "signer", "recipient"], where=["phdr", "uhdr"], how=["decode", "construct", "update", "item"])
def crit_lists(E, P, kind, where, how):
    """A critical-headers list of one to four elements is accepted exactly if every element is a whole number or a text,
    wherever the others stand, in a message, a signer or a recipient."""
    H = P.headers
    n, s, b = E.int("n", -1000, 70000), E.str("s", 0, 2), E.bytes("b", 0, 2)
    el = {"int": n, "text": s, "bytes": b, "nil": None, "list": [n], "float": 1.5, "map": {n: s}}
    size = E.choice("size", [1, 2, 3, 4])
    at = E.choice("odd one at", [None] + list(range(size)))
    fill = E.choice("others", E.bound(["text int", "int text"], ["int", "text", "text int", "int text"])).split()
    ts = [fill[i % len(fill)] for i in range(size)]
    if at is not None:
        ts[at] = E.choice("odd one", ["bytes", "nil", "list", "float", "map"])
    v = [el[t] for t in ts]
    if how == "decode":
        d = {1: -3, 2: v} if kind == "recipient" else {2: v}
        if kind == "recipient" and where == "phdr":
            d = {1: -29, 2: v}
        prot, uh = (E.cbor(d), {}) if where == "phdr" else (b"", d)
        if kind == "message":
            w = E.tag(18, [prot, uh, b"", b""])
        elif kind == "signer":
            w = E.tag(98, [b"", {}, b"", [[prot, uh, b"s"]]])
        else:
            if where == "phdr":
                uh = {-1: wire_key(E, "P256", 0)}
            w = E.tag(96, [b"", {}, b"", [[prot, uh, b"c"]]])
        r = E.run(P.CoseMessage.decode, E.cbor(w))
    else:
        c = {"message": P.Mac0Message, "signer": P.CoseSignature, "recipient": P.KeyWrap}[kind]
        if how == "construct":
            r = E.run(c, **{where: {H.Critical: v}})
        elif how == "update":
            r = E.run(getattr(c(), where + "_update"), {H.Critical: v})
        else:
            o = c()
            r = E.run(setattr, o, where, {H.Critical: v})
    if how in ("decode", "construct"):
        E.check(r.ok == (at is None), "accepted exactly if every element is legal")
    else:
        E.check(r.ok or r.raised("ValueError"), "accepted or refused")
    if r.ok and how == "decode":
        o = r.value if kind == "message" else r.value.signers[0] if kind == "signer" else r.value.recipients[0]
        E.check(E.eq(getattr(o, where)[H.Critical], v), "and kept")


OWN = {"OKP": [-1, -2, -4], "EC2": [-1, -2, -3, -4], "symmetric": [-1], "RSA": list(range(-12, 0))}


@case("K02", kind=["OKP", "EC2", "symmetric", "RSA"], how=["decode", "from_dict", "construct", "item", "update"])
def any_label(E, P, kind, how):
    """A parameter with any label no registry of the key's type has (the whole 64-bit range, 0 included, any text, also the
    empty one) keeps its value through every way in and out."""
    key, w = any_key(E, P, kind)
    known = OWN[kind] + [1, 2, 3, 4, 5]
    n = E.int("n", -2 ** 64, 2 ** 64 - 1)
    E.assume(E.not_(E.any(*[E.eq(n, k) for k in known])))
    lab = E.choice("label", [n, 0, "", "zz", "0"])
    v = {"bytes": E.bytes("v", 0, 2), "nil": None, "no": False, "zero": 0, "list": [], "map": {}, "int": E.int("i", -3, 300),
         "text": E.str("s", 0, 2)}[E.choice("value", ["bytes", "nil", "no", "zero", "list", "map", "int", "text"])]
    want = w | {lab: v}
    if how == "decode":
        key = P.CoseKey.decode(E.cbor(want))
    elif how == "from_dict":
        key = type(key).from_dict(want)
    elif how == "construct":
        names = {"OKP": {-2: "x", -4: "d"}, "EC2": {-2: "x", -3: "y", -4: "d"}, "symmetric": {-1: "k"},
                 "RSA": {-1: "n", -2: "e"}}[kind]
        kw = {nm: w[k] for k, nm in names.items()}
        if kind in ("OKP", "EC2"):
            kw["crv"] = key.crv
        key = type(key)(optional_params={lab: v}, allow_unknown_key_attrs=True, **kw)
    elif how == "item":
        key[lab] = v
    else:
        key.update({lab: v})
    E.check(lab in key and E.eq(key[lab], v), "under its label")
    out = key.encode()
    E.check(E.eq(E.decode(out), want), "and on the wire")
    E.check(E.eq(dict(P.CoseKey.decode(out)), dict(key)), "and back")


@case("D01", kind=["sign1", "sign"])
def detached_forms(E, P, kind):
    """However encoding is asked for (with and without the tag, by position and by keyword, once or twice), the payload
    element is the attached payload or nil, the signature is over the payload in use, and the object stays as it was."""
    H = P.headers
    key, scheme, pub, priv = lib.sig_key(E, P, "EdDSA")
    q = E.bytes("q", 0, 3)
    att = E.choice("attached", [False, True])
    if kind == "sign1":
        m = P.Sign1Message(phdr={H.Algorithm: P.alg.EdDSA}, payload=q if att else None, key=key)
    else:
        m = P.SignMessage(payload=q if att else None, signers=[P.CoseSignature(phdr={H.Algorithm: P.alg.EdDSA}, key=key)])
    c = E.cbor({1: -8})
    tbs = E.cbor(["Signature1", c, b"", q] if kind == "sign1" else ["Signature", b"", c, b"", q])
    kw = {} if att else {"detached_payload": q}
    for i in range(2):
        tag, style = E.choice("tag%d" % i, [True, False]), E.choice("style%d" % i, ["keyword", "position", "explicit none"])
        if style == "position":
            out = m.encode(tag, *(() if kind == "sign" else (True,)), **kw)
        elif style == "explicit none" and att:
            out = m.encode(tag=tag, detached_payload=None)
        else:
            out = m.encode(tag=tag, **kw)
        w = E.decode(out)
        E.check((w.tag == TAGS[kind]) if tag else isinstance(w, list), "tagged as asked for")
        w = w.value if tag else w
        E.check(E.eq(w[2], q) if att else w[2] is None, "the attached payload or nil")
        E.check(E.sig_valid(scheme, pub, tbs, w[3] if kind == "sign1" else w[3][0][2]), "signs that payload")
        E.check(E.eq(m.payload, q) if att else m.payload is None, "the object as it was")
        got = P.CoseMessage.decode(out) if tag \
            else P.CoseMessage.decode(E.cbor(E.tag(TAGS[kind], w)))
        s = got if kind == "sign1" else got.signers[0]
        s.key = lib.sig_key(E, P, "EdDSA", public=True)[0]
        E.check(s.verify_signature(**kw) is True, "and the receiver verifies it")


@case("X03", kind=["OKP d", "RSA d", "RSA p", "RSA dq", "symmetric"], thorough={"kind": ["OKP d", "RSA d", "RSA p", "RSA q",
                                                                                        "RSA dp", "RSA dq", "RSA qinv", "symmetric"]})
def print_secret_lengths(E, P, kind):
    """The same for secret values of every length from six to seventy bytes and some longer ones."""
    size = E.choice("size", [16, 24, 32] if kind == "symmetric" else list(range(6, 71)) + [72, 76, 96, 100, 128, 256, 512])
    head = E.bytes("head", 5)
    v = [head + E.bytes("tail%d" % i, 2) + bytes(size - 9 if size > 9 else 0) + E.bytes("end%d" % i, 2 if size > 9 else size - 7 if
                                                                                        size > 7 else 0) for i in (0, 1)]
    v = [x[:size] for x in v]
    if kind == "symmetric":
        keys = [P.SymmetricKey(k=x) for x in v]
    elif kind == "OKP d":
        keys = [P.OKPKey(crv=P.crv.X25519, d=x) for x in v]
    else:
        keys = [P.RSAKey(n=b"n", e=b"e", **(dict.fromkeys(("d", "p", "q", "dp", "dq", "qinv"), b"s" * 9) | {kind[4:]: x}))
                for x in v]
    texts = []
    for k in keys:
        r = E.run(repr, k)
        E.check(r.ok and isinstance(r.value, str), "can be printed")
        texts.append(r.value)
    E.check(E.same_text(*texts), "no more of a secret than length and first five bytes")


@case("K06", kind=["symmetric", "EC2", "OKP", "RSA"], how=["setter", "item", "constructor", "decode"])
def many_operations(E, P, kind, how):
    """A list of up to twelve operations, repetitions included, is kept as it is, in its order, and encoded so."""
    legal = {"symmetric": [3, 4, 5, 6, 9, 10], "RSA": [1, 2, 3, 4, 5, 6, 7, 8]}.get(kind, [1, 2, 7, 8])
    size = E.choice("size", E.bound([1, 2, 3, 6, 10, 12], list(range(1, 13))))
    a, b = E.int("a", 1, 10), legal[-1]
    E.assume(E.any(*[E.eq(a, o) for o in legal]))
    rest = E.choice("rest", ["legal", "same", "two"] if size > 2 else ["same"])
    want = [a, b] + {"legal": legal + legal + legal, "same": [b] * 10, "two": [b, a] * 5}[rest]
    want = want[:size]
    key, w = any_key(E, P, kind)
    if how == "setter":
        key.key_ops = list(want)
    elif how == "item":
        key[P.kp.KpKeyOps] = list(want)
    elif how == "decode":
        key = P.CoseKey.decode(E.cbor(w | {4: want}))
    elif kind == "symmetric":
        key = P.SymmetricKey(k=w[-1], optional_params={P.kp.KpKeyOps: list(want)})
    elif kind == "OKP":
        key = P.OKPKey(crv=key.crv, x=w[-2], d=w[-4], optional_params={P.kp.KpKeyOps: list(want)})
    elif kind == "EC2":
        key = P.EC2Key(crv=key.crv, x=w[-2], y=w[-3], d=w[-4], optional_params={P.kp.KpKeyOps: list(want)})
    else:
        key = P.RSAKey(n=w[-1], e=w[-2], optional_params={P.kp.KpKeyOps: list(want)})
    E.check(E.eq([o.identifier for o in key.key_ops], want), "kept")
    E.check(E.eq(E.decode(key.encode()), w | {4: want}), "encoded")
