"""Histories of the smaller parts: nonces, payload choice, lookup, registries, keys, key agreement, hashes, decoding.

Each case does one operation, changes something, maybe does it again, changes something else and does it again; every
result is compared with the oracle for the state of that moment, so whatever is kept or cached between the operations
(in an object, a class or a module) shows up."""
from vt.registry import case
from . import lib
from .h_headers import ALGS, OPS, EXTRA, REGS, registry
from .h_hist import State
from .h_keys import any_key, OPN
from .h_rcpt import content, received, legal, kdf_context, enc_ref, party, target_length, wire_key


def steps(E, h, first, acts, obs=("",)):
    h.observe(E.choice("obs1", list(obs)), 0)
    h.act(first, 1)
    mid = E.choice("obs2", ["none"] + list(obs))
    if mid != "none":
        h.observe(mid, 1)
    h.act(E.choice("act2", acts), 2)
    if E.tier == "thorough":
        h.observe(E.choice("obs3", list(obs)), 2)
        h.act(E.choice("act3", acts), 3)
    h.observe(E.choice("obs4", list(obs)), 3)


# -- nonces ---------------------------------------------------------------------------

class Nonce:
    ACTS = ["piv", "iv", "no iv", "no piv", "base", "base item", "no base", "new key", "assign"]

    def __init__(self, E, P, kind, alg, received=False):
        self.E, self.P, self.kind, self.alg = E, P, kind, alg
        self.ak, self.kl, self.tl, self.nl = lib.AEADS[alg]
        self.ctx = "Encrypt0" if kind == "enc0" else "Encrypt"
        self.k, self.base, self.iv, self.piv = E.bytes("k", self.kl), E.bytes("base", self.nl), None, E.bytes("piv", 2)
        self.p = E.bytes("p", 1)
        H = P.headers
        self.key = lib.sym_key(P, self.k, base_iv=self.base)
        kw = {}
        if kind == "encn":
            kw["recipients"] = [P.DirectEncryption(uhdr={H.Algorithm: P.alg.Direct})]
        self.msg = (P.Enc0Message if kind == "enc0" else P.EncMessage)(
            phdr={H.Algorithm: lib.alg(P, alg)}, uhdr={H.PartialIV: self.piv}, payload=self.p, key=self.key, **kw)
        if received:
            body = [E.cbor({1: lib.ALG_ID[alg]}), {6: self.piv}, b"c"]
            self.msg = P.CoseMessage.decode(E.cbor(E.tag(16, body) if kind == "enc0" else
                                                   E.tag(96, body + [[[b"", {1: -6}, b""]]])))
            self.msg.key = self.key

    def act(self, act, i):
        E, P, H, msg = self.E, self.P, self.P.headers, self.msg
        if act == "piv":
            self.piv = E.bytes("piv%d" % i, E.choice("plen%d" % i, [1, self.nl]))
            msg.uhdr[H.PartialIV] = self.piv
        elif act == "iv":
            self.iv = E.bytes("iv%d" % i, self.nl)
            msg.uhdr_update({H.IV: self.iv})
        elif act == "no iv":
            msg.uhdr.pop(H.IV, None)
            self.iv = None
        elif act == "no piv":
            msg.uhdr.pop(H.PartialIV, None)
            self.piv = None
        elif act == "assign":
            self.iv, self.piv = None, E.bytes("piv%d" % i, 3)
            msg.uhdr = {H.PartialIV: self.piv}
        elif act in ("base", "base item"):
            self.base = E.bytes("base%d" % i, self.nl)
            if act == "base":
                self.key.base_iv = self.base
            else:
                self.key[P.kp.KpBaseIV] = self.base
        elif act == "no base":
            if self.base is not None:
                del self.key[P.kp.KpBaseIV]
            self.base = None
        elif act == "new key":
            self.k, self.base = E.bytes("k%d" % i, self.kl), E.bytes("base%d" % i, self.nl)
            self.key = msg.key = lib.sym_key(P, self.k, base_iv=self.base)

    def observe(self, kind, i):
        E, msg = self.E, self.msg
        ad = E.cbor([self.ctx, E.cbor({1: lib.ALG_ID[self.alg]}), b""])
        if self.iv is not None:
            nonce = self.iv
        elif self.piv is not None and self.base is not None:
            nonce = E.xor(self.base, bytes(self.nl - len(self.piv)) + self.piv)
        else:
            nonce = None
        ct = E.seal(self.ak, self.tl, self.k, nonce if nonce is not None else bytes(self.nl), ad, self.p)
        args = (msg.recipients[0],) if self.kind == "encn" and kind == "decrypt" else ()
        msg.payload = ct if kind == "decrypt" else self.p
        r = E.run(getattr(msg, kind), *args)
        msg.payload = self.p
        if nonce is None:
            E.check(r.raised("CoseException"), "refused: no nonce")
        else:
            E.check(r.ok, "a nonce")
            E.check(E.eq(r.value, self.p if kind == "decrypt" else ct), "the nonce of the moment")


@case("A03", kind=["enc0", "encn"], alg=["A128GCM"], first=["piv", "iv", "base item", "new key", "no base"],
      thorough={"alg": ["A128GCM", "AESCCM6464128"], "first": Nonce.ACTS})
def nonce_history(E, P, kind, alg, first):
    """Encryption and decryption between changes of IV, partial IV, base IV and key use the nonce of the moment."""
    steps(E, Nonce(E, P, kind, alg), first, Nonce.ACTS, ["encrypt", "decrypt"])


@case("A03", kind=["enc0", "encn"], alg=["AESCCM16128128"], first=["piv", "iv", "base", "assign"],
      thorough={"alg": ["A192GCM", "AESCCM16128128"], "first": Nonce.ACTS})
def received_nonce_history(E, P, kind, alg, first):
    """The same for a received message: every decryption uses the nonce of its moment."""
    steps(E, Nonce(E, P, kind, alg, True), first, Nonce.ACTS, ["decrypt"])


@case("A03", kind=["enc0", "encn"])
def empty_partial_iv(E, P, kind):
    """A partial IV without bytes is padded as any other, and a base IV of another length than usual gives a nonce of
    that length, for sender and receiver."""
    H = P.headers
    k, p = E.bytes("k", 16), E.bytes("p", 0, 2)
    base, piv = E.bytes("base", 0, 14), E.bytes("piv", 0, 3)
    key = lib.sym_key(P, k, base_iv=base)
    kw = {} if kind == "enc0" else {"recipients": [P.DirectEncryption(uhdr={H.Algorithm: P.alg.Direct})]}
    msg = (P.Enc0Message if kind == "enc0" else P.EncMessage)(
        phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.PartialIV: piv}, payload=p, key=key, **kw)
    E.assume(len(base) > 7)   # shorter nonces are refused by AES-GCM itself
    r = E.run(msg.encrypt)
    if r.ok:
        nonce = E.xor(base, bytes(len(base) - len(piv)) + piv)
        ad = E.cbor(["Encrypt0" if kind == "enc0" else "Encrypt", E.cbor({1: 1}), b""])
        E.check(E.eq(r.value, E.seal("gcm", 16, k, nonce, ad, p)), "base IV XOR padded partial IV")
        back = (P.Enc0Message if kind == "enc0" else P.EncMessage)(
            phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.PartialIV: piv}, payload=r.value, key=key, **kw)
        E.check(E.eq(back.decrypt(*([back.recipients[0]] if kw else [])), p), "and back")
    E.check(r.ok, "an empty partial IV is a partial IV")


@case("A03", kind=["enc0", "encn"], op=["encrypt", "decrypt"])
def empty_iv(E, P, kind, op):
    """An IV that is there counts, also one without bytes or of another length: base IV and partial IV are never used
    in its place, the operation is done with that nonce or refused."""
    H = P.headers
    k, p, base = E.bytes("k", 16), E.bytes("p", 0, 2), E.bytes("base", 12)
    iv, piv = E.bytes("iv", 0, 13), E.bytes("piv", 0, 2)
    where, have = E.choice("where", ["phdr", "uhdr"]), E.choice("have", ["base", "both"])
    key = lib.sym_key(P, k, base_iv=base)
    ph, uh = {H.Algorithm: P.alg.A128GCM}, {}
    (ph if where == "phdr" else uh)[H.IV] = iv
    if have == "both":
        uh[H.PartialIV] = piv
    kw = {} if kind == "enc0" else {"recipients": [P.DirectEncryption(uhdr={H.Algorithm: P.alg.Direct})]}
    msg = (P.Enc0Message if kind == "enc0" else P.EncMessage)(phdr=ph, uhdr=uh, payload=p, key=key, **kw)
    ad = E.cbor(["Encrypt0" if kind == "enc0" else "Encrypt", E.cbor({1: 1, 5: iv} if where == "phdr" else {1: 1}), b""])
    if op == "decrypt":
        nonce = E.xor(base, bytes(12 - len(piv)) + piv)
        msg.payload = E.seal("gcm", 16, k, nonce, ad, p)
        E.assume(E.not_(E.eq(nonce, iv)))
        r = E.run(msg.decrypt, *([msg.recipients[0]] if kind == "encn" else []))
        E.check(not r.ok, "not opened with base IV and partial IV")
    else:
        r = E.run(msg.encrypt)
        if r.ok:
            E.check(len(iv) > 7, "AES-GCM takes no shorter nonces")
            E.check(E.eq(r.value, E.seal("gcm", 16, k, iv, ad, p)), "the IV is the nonce")
        else:
            E.check(len(iv) < 8, "refused only for a nonce AES-GCM does not take")


# -- payload choice -------------------------------------------------------------------

@case("D01", kind=["sign1", "sign"], op=["sign", "verify"])
def detached_history(E, P, kind, op):
    """Signing and verifying one object again and again, the payload attached, removed and given detached in any
    order: each operation uses the payload of that moment or raises."""
    H = P.headers
    key, scheme, pub, priv = lib.sig_key(E, P, "EdDSA")
    if kind == "sign1":
        s = m = P.Sign1Message(phdr={H.Algorithm: P.alg.EdDSA}, key=key)
    else:
        s = P.CoseSignature(phdr={H.Algorithm: P.alg.EdDSA}, key=key)
        m = P.SignMessage(phdr={}, signers=[s])

    def tbs(p):
        c = E.cbor({1: -8})
        return E.cbor(["Signature1", c, b"", p] if kind == "sign1" else ["Signature", b"", c, b"", p])
    for i in range(E.bound(3, 4)):
        att = E.bytes("att%d" % i, 0, 2) if E.choice("attached%d" % i, [False, True]) else None
        det = E.bytes("det%d" % i, 0, 2) if E.choice("detached%d" % i, [False, True]) else None
        m.payload = att
        args = () if det is None else (det,)
        o = op if i % 2 == 0 else {"sign": "verify", "verify": "sign"}[op]
        p = att if att is not None else det
        if o == "sign":
            r = E.run(s.compute_signature, *args)
        else:
            signed = E.bytes("signed%d" % i, 0, 2)
            s.signature = E.sign_ref(scheme, priv, tbs(signed))
            r = E.run(s.verify_signature, *args)
        if (att is None) == (det is None):
            E.check(r.raised("CoseException"), "both or neither")
        elif o == "sign":
            E.check(r.ok, "one")
            E.check(E.sig_valid(scheme, pub, tbs(p), r.value), "that payload is signed")
        else:
            E.check(r.ok, "one")
            E.check(E.iff(r.value, E.eq(signed, p)), "verified exactly against that payload")


# -- header lookup --------------------------------------------------------------------

class Lookup:
    ACTS = ["phdr item", "uhdr item", "phdr assign", "uhdr assign", "phdr update", "uhdr update", "phdr del", "uhdr del",
            "other"]

    def __init__(self, E, P, kind):
        self.E, self.P = E, P
        c = {"sign1": P.Sign1Message, "recipient": P.KeyWrap, "signer": P.CoseSignature, "encn": P.EncMessage}[kind]
        H = P.headers
        self.a = H.KID
        self.v = {"phdr": None, "uhdr": None}
        b = E.choice("start", ["none", "phdr", "uhdr"])
        if b != "none":
            self.v[b] = E.bytes("v0", 0, 2)
        self.m = c(phdr={} if b != "phdr" else {self.a: self.v[b]}, uhdr={} if b != "uhdr" else {self.a: self.v[b]})

    def act(self, act, i):
        E, m, H = self.E, self.m, self.P.headers
        v = E.bytes("v%d" % i, 0, 2)
        if act == "other":
            m.uhdr[H.ContentType] = i
            return
        b, how = act.split()
        if how == "item":
            getattr(m, b)[self.a] = v
        elif how == "assign":
            setattr(m, b, {self.a: v})
        elif how == "update":
            getattr(m, b + "_update")({self.a: v})
        else:
            getattr(m, b).pop(self.a, None)
        self.v[b] = v if how != "del" else None

    def observe(self, kind, i):
        E = self.E
        d = E.bytes("d%d" % i, 0, 1)
        r = E.run(self.m.get_attr, self.a, *([d] if kind == "default" else []))
        have = [v for v in self.v.values() if v is not None]
        if len(have) == 2:
            E.check(r.raised("CoseException"), "in both buckets")
        elif have:
            E.check(r.ok and E.eq(r.value, have[0]), "the value of the moment")
        else:
            E.check(r.ok and (E.eq(r.value, d) if kind == "default" else r.value is None), "the default")


@case("H01", kind=["sign1", "recipient"], first=["phdr item", "uhdr assign", "uhdr update", "phdr del"],
      thorough={"first": Lookup.ACTS, "kind": ["sign1", "recipient", "signer", "encn"]})
def lookup_history(E, P, kind, first):
    """Lookups between changes of the buckets give the value of the moment, the default, or the exception for both."""
    steps(E, Lookup(E, P, kind), first, Lookup.ACTS, ["none given", "default"])


# -- registries -----------------------------------------------------------------------

@case("H02", first=REGS, thorough={"second": REGS, "names": [False, True]}, second=["headers", "EC2KeyParam"],
      names=[False])
def resolve_history(E, P, first, second, names):
    """What one registry resolved, or did not know, has no influence on what another one or the same one resolves
    afterwards: numbers -40..40 (thorough: names too), unknown ones allowed or not."""
    def lookup(reg, n, allow, tag):
        base, table, mod = registry(P, reg)
        r = E.run(base.from_id, n, allow)
        known = [v[0] for v in table.values()] + list(EXTRA.get(reg, {}))
        isk = E.any(*[E.eq(n, k) for k in known])
        if r.ok:
            same = E.eq(r.value.identifier, n) if hasattr(r.value, "identifier") else E.all(E.not_(isk), allow,
                                                                                            E.eq(r.value, n))
            E.check(same, tag + ": its own attribute or number")
            E.check(E.implies(isk, hasattr(r.value, "identifier")), tag + ": known numbers are resolved")
            if hasattr(r.value, "identifier"):
                own = [getattr(mod, c) for c in table] + [getattr(mod, c) for c in EXTRA.get(reg, {}).values()
                                                          if hasattr(mod, c)]
                E.check(any(r.value is c for c in own) or issubclass(r.value, base), tag + ": of the registry asked")
        else:
            E.check(E.not_(E.any(isk, allow)), tag + ": only unknown ones are refused")
    if names:
        n1 = E.choice("n1", ["X", "KID", "SIGN", "P_256", "EC2", "A128GCM", "K", "nothing"])
        for i, reg in enumerate((first, second, first)):
            base, table, mod = registry(P, reg)
            r = E.run(base.from_id, n1)
            hit = [c for c, v in table.items() if v[1] == n1.upper()] + \
                [k for k, v in EXTRA.get(reg, {}).items() if v == n1.upper()]
            E.check(r.ok == bool(hit), "known exactly in this registry")
            if r.ok and isinstance(hit[0], str):
                E.check(r.value is getattr(mod, hit[0]), "its attribute")
        return
    lo, hi = (-8, 8) if E.tier == "quick" else (-40, 40)
    n, k = E.int("n", lo, hi), E.int("k", -2, 3)
    a1, a2 = E.choice("allow1", [False, True]), E.choice("allow2", [False, True])
    lookup(first, n, a1, "first")
    lookup(second, n, a2, "second")
    lookup(first, k, a2, "third")


@case("H06", kind=["sign1", "mac0", "enc0", "enc"])
def strictness_history(E, P, kind):
    """Strict and lenient decoding of the same bytes in any order: each is as strict as it says."""
    n = E.int("n", 100, 300)
    v = E.bytes("v", 0, 2)
    bucket = E.choice("bucket", ["phdr", "uhdr"])
    aid = {"sign1": -8, "mac0": 5, "enc0": 1, "enc": 1}[kind]
    ph, uh = {1: aid}, {}
    (ph if bucket == "phdr" else uh)[n] = v
    tail = {"sign1": [b"p", b"s"], "mac0": [b"p", b"t"], "enc0": [b"c"], "enc": [b"c", [[b"", {1: -3}, b"w"]]]}[kind]
    wire = E.cbor(E.tag({"sign1": 18, "mac0": 17, "enc0": 16, "enc": 96}[kind], [E.cbor(ph), uh] + tail))
    for i in range(3):
        lenient = E.choice("lenient%d" % i, [None, False, True])
        kw = {} if lenient is None else {"allow_unknown_attributes": lenient}
        r = E.run(P.CoseMessage.decode, wire, **kw)
        E.check(r.ok == (lenient is not False), "as strict as asked")
        if r.ok:
            E.check(E.eq(r.value.get_attr(n), v), "with the unknown parameter")
            r.value.uhdr[n if bucket == "uhdr" else 99] = b"changed"


# -- keys -----------------------------------------------------------------------------

class Usage:
    ACTS = ["alg right", "alg wrong", "alg item", "del alg", "ops right", "ops wrong", "ops item", "ops both", "no ops",
            "msg alg", "other key"]

    def __init__(self, E, P, what):
        self.E, self.P, self.what = E, P, what
        H = P.headers
        self.alg, self.right, self.wrong = {"mac": ("HMAC256", 9, 10), "verify mac": ("HMAC256", 10, 9),
                                            "encrypt": ("A128GCM", 3, 4), "sign": ("EdDSA", 1, 2),
                                            "verify": ("EdDSA", 2, 1)}[what]
        self.other = {"HMAC256": "HMAC25664", "A128GCM": "AESCCM16128128", "EdDSA": "Es256"}[self.alg]
        self.st = [State(alg=None, ops=[], n=0), State(alg=None, ops=[], n=1)]
        self.keys = [self.make(0), self.make(1)]
        self.cur = 0
        A = lib.alg(P, self.alg)
        if what in ("mac", "verify mac"):
            self.msg = P.Mac0Message(phdr={H.Algorithm: A}, payload=b"p", key=self.keys[0])
            self.msg.auth_tag = b"t"
        elif what == "encrypt":
            self.msg = P.Enc0Message(phdr={H.Algorithm: A}, uhdr={H.IV: bytes(13)}, payload=b"p", key=self.keys[0])
        else:
            self.msg = P.Sign1Message(phdr={H.Algorithm: A}, payload=b"p", key=self.keys[0])
            self.msg.signature = b"s"
        self.msgalg = self.alg

    def make(self, i):
        if self.alg == "EdDSA":
            return lib.sig_key(self.E, self.P, "EdDSA", i)[0]
        return self.P.SymmetricKey(k=bytes(range(i, 16 + i)))

    def act(self, act, i):
        P, E = self.P, self.E
        key, st = self.keys[self.cur], self.st[self.cur]
        if act == "alg right":
            key.alg = st.alg = lib.ALG_ID[self.alg]
        elif act == "alg wrong":
            key.alg = st.alg = lib.ALG_ID[self.other]
        elif act == "alg item":
            n = E.choice("n%d" % i, [self.alg, self.other])
            st.alg = lib.ALG_ID[n]
            key["ALG"] = lib.alg(P, n)
        elif act == "del alg":
            if st.alg is not None:
                del key[P.kp.KpAlg]
            st.alg = None
        elif act == "ops right":
            key.key_ops = st.ops = [self.right]
        elif act == "ops wrong":
            key.key_ops = st.ops = [self.wrong]
        elif act == "ops item":
            st.ops = [E.choice("o%d" % i, [self.right, self.wrong])]
            key[4] = list(st.ops)
        elif act == "ops both":
            key.key_ops = st.ops = [self.wrong, self.right]
        elif act == "no ops":
            key.key_ops = st.ops = []
        elif act == "msg alg":
            self.msgalg = self.other if self.msgalg == self.alg else self.alg
            if self.alg == "EdDSA":
                self.msgalg = self.alg
            self.msg.phdr_update({P.headers.Algorithm: lib.alg(P, self.msgalg)})
        else:
            self.cur = 1 - self.cur
            self.msg.key = self.keys[self.cur]

    def observe(self, kind, i):
        E, st = self.E, self.st[self.cur]
        f = {"mac": "compute_tag", "verify mac": "verify_tag", "encrypt": "encrypt", "sign": "compute_signature",
             "verify": "verify_signature"}[self.what]
        if self.what == "encrypt":
            self.msg.uhdr[self.P.headers.IV] = bytes(13 if self.msgalg == "AESCCM16128128" else 12)
        r = E.run(getattr(self.msg, f))
        alg_ok = st.alg is None or st.alg == lib.ALG_ID[self.msgalg]
        ops_ok = not st.ops or self.right in st.ops
        E.check(r.ok == (alg_ok and ops_ok), "permitted exactly if the key permits it at that moment")
        if not r.ok:
            E.check(r.raised("CoseIllegalAlgorithm" if not alg_ok else "CoseIllegalKeyOps"), "the library's exception")


@case("K01", what=["mac", "verify mac", "encrypt", "sign", "verify"], first=["alg wrong", "ops wrong", "ops item", "msg alg", "other key"],
      thorough={"first": Usage.ACTS})
def usage_history(E, P, what, first):
    """A key restricted, freed or exchanged between uses of one message is judged as it is at each use."""
    steps(E, Usage(E, P, what), first, Usage.ACTS)


class KeyCode:
    ACTS = ["kid", "kid item", "base", "alg", "ops", "no ops", "own", "own item", "unknown", "del unknown", "del kid"]

    def __init__(self, E, P, kind):
        self.E, self.P, self.kind = E, P, kind
        self.key, w = any_key(E, P, kind)
        self.w = dict(w)
        self.own = {"symmetric": ("k", -1, 16), "OKP": ("x", -2, 32), "EC2": ("y", -3, 48), "RSA": ("n", -1, 2)}[kind]

    def act(self, act, i):
        E, key, w = self.E, self.key, self.w
        v = E.bytes("v%d" % i, 0, 2)
        if act == "kid":
            key.kid = w[2] = v
        elif act == "kid item":
            key["kid"] = w[2] = v
        elif act == "base":
            key.base_iv = w[5] = v
        elif act == "alg":
            n = E.choice("alg%d" % i, ["Es256", "A128GCM"])
            key.alg = lib.alg(self.P, n)
            w[3] = lib.ALG_ID[n]
        elif act == "ops":
            o = E.choice("op%d" % i, [[3], [4, 9]] if self.kind == "symmetric" else [[1], [2, 7]])
            key.key_ops = o
            w[4] = list(o)
            o.append(5)
        elif act == "no ops":
            key.key_ops = []
            w.pop(4, None)
        elif act.startswith("own"):
            f, label, n = self.own
            v = E.bytes("own%d" % i, n)
            if act == "own":
                setattr(key, f, v)
            else:
                key[label] = v
            w[label] = v
        elif act == "unknown":
            key[1000] = w[1000] = v
        elif act == "del unknown":
            if 1000 in w:
                del key[1000]
                del w[1000]
        elif act == "del kid":
            if 2 in w:
                del key[self.P.kp.KpKid]
                del w[2]

    def observe(self, kind, i):
        E, P, key = self.E, self.P, self.key
        if kind == "encode":
            E.check(E.eq(E.decode(key.encode()), self.w), "the parameters of the moment")
        elif kind == "decode":
            back = P.CoseKey.decode(key.encode()) if self.kind != "EC2" or -3 not in self.w else key
            E.check(E.eq(dict(back), dict(key)), "equal")
            back[2000] = b"x"
            del back[2000]
        else:
            E.check(E.eq(key.kid, self.w.get(2, b"")) and E.eq(key.base_iv, self.w.get(5, b"")), "properties")
            E.check(len(key) == len(self.w) and E.eq([o.identifier for o in key.key_ops], self.w.get(4, [])), "all")


@case("K02", kind=["symmetric", "OKP", "EC2", "RSA"], first=["kid item", "own", "ops"],
      thorough={"first": KeyCode.ACTS})
def key_history(E, P, kind, first):
    """Between changes a key always encodes to, and shows, its parameters of the moment."""
    steps(E, KeyCode(E, P, kind), first, KeyCode.ACTS, ["encode", "decode", "show"] if E.tier == "thorough" else
          ["encode", "show"])


@case("K06", kind=["symmetric", "EC2", "OKP", "RSA"])
def operations_history(E, P, kind):
    """After any sequence of accepted and refused assignments, by property or item, and deletions the key has exactly
    the operations of the last accepted one, whatever became of the lists it was given."""
    key, w = any_key(E, P, kind)
    legal = {"symmetric": [3, 4, 5, 6, 9, 10], "RSA": [1, 2, 3, 4, 5, 6, 7, 8]}.get(kind, [1, 2, 7, 8])
    have = []
    for i in range(E.bound(2, 3)):
        how = E.choice("how%d" % i, ["setter", "item", "del"] if i else ["setter"])
        if how == "del":
            r = E.run(key.__delitem__, P.kp.KpKeyOps)
            E.check(r.ok == (len(have) > 0), "deleted exactly if there")
            have = []
        else:
            n = E.choice("n%d" % i, [0, 1, 2] if i else [2])
            ops = [E.int("op%d" % i, 0, 11)][:n] + [legal[i]] * (n - 1 if n else 0)
            want = list(ops)
            if n == 2 and E.choice("classes%d" % i, [False, True]):
                # lists of classes, the caller's list changes later
                E.assume(E.any(*[E.eq(ops[0], l) for l in legal]))
                want = ops = [legal[0], legal[i]]
                ops = [getattr(P.ops, OPN[o]) for o in ops]
            if how == "setter":
                r = E.run(setattr, key, "key_ops", ops)
            else:
                r = E.run(key.__setitem__, 4, ops)
            good = E.any(*[E.eq(want[0], l) for l in legal]) if n else True
            E.check(E.iff(r.ok, good), "accepted exactly with operations of the key type")
            if r.ok:
                have = want
            ops.append(legal[0] if not len(ops) or isinstance(ops[0], int) else getattr(P.ops, OPN[legal[0]]))
            ops[0:1] = ops[-1:]
        E.check(E.eq([o.identifier for o in key.key_ops], have), "the last accepted ones")
        m = E.decode(key.encode())
        E.check(E.eq(m.get(4, []), have) and (4 in m) == (len(have) > 0), "encoded")


def source(E, P, kind, how):
    """(function that makes the same key anew, wire map, what the caller gave)"""
    key, w = any_key(E, P, kind)
    legal = 3 if kind == "symmetric" else 2
    kid = E.bytes("kid", 0, 2)
    w = lib.merge(w, {2: kid, 4: [legal]})
    if how == "decode":
        b = E.cbor(w)
        return (lambda: P.CoseKey.decode(b)), w, {}
    if how == "from_dict":
        return (lambda: P.CoseKey.from_dict(w)), dict(w), w
    params = {P.kp.KpKid: kid, P.kp.KpKeyOps: [getattr(P.ops, OPN[legal])]}
    if how == "constructor":
        f = {"symmetric": lambda: P.SymmetricKey(k=w[-1], optional_params=params),
             "OKP": lambda: P.OKPKey(crv=P.crv.X25519, x=w[-2], d=w[-4], optional_params=params),
             "EC2": lambda: P.EC2Key(crv=P.crv.P384, x=w[-2], y=w[-3], d=w[-4], optional_params=params),
             "RSA": lambda: P.RSAKey(n=w[-1], e=w[-2], optional_params=params)}[kind]
        return f, w, params
    return None


@case("L01", kind=["symmetric", "EC2", "OKP", "RSA"], how=["decode", "from_dict", "constructor"])
def key_instances(E, P, kind, how):
    """Keys made from the same bytes, map or parameters are independent of each other and of what they were made from:
    changing one, or the lists it gives out, changes no other."""
    make, w, given = source(E, P, kind, how)
    kept = {k: list(v) if isinstance(v, list) else v for k, v in given.items()}
    a, b = make(), make()
    v = E.bytes("v", 1, 2)
    act = E.choice("act", ["kid", "item", "unknown", "update", "ops", "ops list", "delete", "own", "clear ops"])
    if act == "kid":
        a.kid = v
    elif act == "item":
        a[5] = v
    elif act == "unknown":
        a[1000] = v
    elif act == "update":
        a.update({"KID": v, 77: v})
    elif act == "ops":
        a.key_ops = [4] if kind == "symmetric" else [1]
    elif act == "ops list":
        a.key_ops.append(P.ops.VerifyOp)
    elif act == "delete":
        del a[P.kp.KpKid]
    elif act == "clear ops":
        a.key_ops = []
    else:
        f = {"symmetric": "k", "OKP": "d", "EC2": "d", "RSA": "e"}[kind]
        setattr(a, f, E.bytes("own", {"symmetric": 16, "OKP": 32, "EC2": 48, "RSA": 2}[kind]))
    for k in (b, make()):
        E.check(E.eq(E.decode(k.encode()), w), "the other one is as it was made")
        E.check(E.eq([o.identifier for o in k.key_ops], w[4]) and E.eq(k.kid, w[2]), "its properties too")
    E.check(len(given) == len(kept) and all(k in given and E.eq(given[k], x) for k, x in kept.items()),
            "what it was made from is the caller's")


@case("K05", kind=["EC2", "OKP", "RSA"], order=["private public", "public private", "private private"])
def shared_parameters(E, P, kind, order):
    """Several keys read from PEM or generated with one map of optional parameters: the map stays as it was, the keys
    are independent and are those that reading each alone gives."""
    K = P.kp
    kid = E.bytes("kid", 1, 2)
    params = {K.KpKid: kid, K.KpKeyOps: [P.ops.VerifyOp]}

    def text(i, private):
        if kind == "EC2":
            return lib.pem_ec("P256", E.mat("EC2", "P256", i)[0], private)
        if kind == "OKP":
            return lib.pem_okp("Ed25519", E.mat("OKP", "Ed25519", i)[0], private)
        return lib.pem_rsa(E.mat("RSA", None, i), private)

    def read(i, which, ps):
        f = P.CoseKey.from_pem_private_key if which == "private" else P.CoseKey.from_pem_public_key
        return f(text(i, which == "private"), optional_params=ps)
    made = []
    for i, which in enumerate(order.split()):
        k = read(i, which, params)
        made.append((k, read(i, which, {K.KpKid: kid, K.KpKeyOps: [P.ops.VerifyOp]})))
        if kind != "RSA" and E.choice("generate%d" % i, [False, True]):
            g = (P.EC2Key if kind == "EC2" else P.OKPKey).generate_key(P.crv.P384 if kind == "EC2" else P.crv.X25519, params)
            E.check(E.eq(g.kid, kid) and len(g) == (7 if kind == "EC2" else 6), "generated")
            g.kid = b"changed"
        if E.choice("change%d" % i, [False, True]):
            for x in made[-1]:
                x.kid = b"other"
                x.key_ops.append(P.ops.SignOp)
    for k, alone in made:
        E.check(E.eq(E.decode(k.encode()), E.decode(alone.encode())), "as read alone")
    E.check(len(params) == 2 and E.eq(params[K.KpKid], kid) and params[K.KpKeyOps] == [P.ops.VerifyOp],
            "the parameters are the caller's")


# -- key agreement --------------------------------------------------------------------

class Agreement:
    ACTS = ["party", "no party", "pub", "priv", "salt", "sender", "receiver", "protected", "target", "algorithm", "fresh"]

    def __init__(self, E, P, wrap):
        self.E, self.P, self.wrap = E, P, wrap
        self.iv, self.p, self.cek = E.bytes("iv", 12), E.bytes("p", 0, 2), E.bytes("cek", 16) if wrap else None
        self.si, self.ri = 0, 1
        self.u, self.salt, self.pub, self.priv, self.kid = None, None, b"", b"", None
        self.name = "EcdhSsA128KW" if wrap else "EcdhSsHKDF256"
        self.target = "A128GCM"
        self.build()

    def build(self):
        E, P, H = self.E, self.P, self.P.headers
        cls = P.KeyAgreementWithKeyWrap if self.wrap else P.DirectKeyAgreement
        ph = {H.Algorithm: lib.alg(P, self.name)}
        if self.kid is not None:
            ph[H.KID] = self.kid
        self.rc = cls(phdr=ph, uhdr={H.StaticKey: lib.ec_key(E, P, "P256", self.si, public=True)},
                      key=lib.ec_key(E, P, "P256", self.si), payload=self.cek or b"")
        if self.u is not None:
            self.rc.uhdr[H.PartyUID] = self.u
        if self.salt is not None:
            self.rc.uhdr[H.Salt] = self.salt
        self.rc.local_attrs = {H.StaticKey: lib.ec_key(E, P, "P256", self.ri, public=True)}
        if len(self.pub):
            self.rc.local_attrs[H.SuppPubOther] = self.pub
        if len(self.priv):
            self.rc.local_attrs[H.SuppPrivOther] = self.priv
        self.msg = P.EncMessage(phdr={H.Algorithm: lib.alg(P, self.target)}, uhdr={H.IV: self.iv}, payload=self.p,
                                recipients=[self.rc])

    def act(self, act, i):
        E, P, H, rc = self.E, self.P, self.P.headers, self.rc
        v = E.bytes("v%d" % i, 1, 2)
        if act == "party":
            rc.uhdr[H.PartyUID] = self.u = v
        elif act == "no party":
            rc.uhdr.pop(H.PartyUID, None)
            self.u = None
        elif act == "pub":
            rc.local_attrs[H.SuppPubOther] = self.pub = v
        elif act == "priv":
            la = dict(rc.local_attrs)
            la[H.SuppPrivOther] = self.priv = v
            rc.local_attrs = la
        elif act == "salt":
            rc.uhdr_update({H.Salt: v})
            self.salt = v
        elif act == "sender":
            self.si = 2
            rc.key = lib.ec_key(E, P, "P256", 2)
            rc.uhdr[H.StaticKey] = lib.ec_key(E, P, "P256", 2, public=True)
        elif act == "receiver":
            self.ri = 3 - self.ri
            rc.local_attrs[H.StaticKey] = lib.ec_key(E, P, "P256", self.ri, public=True)
        elif act == "protected":
            rc.phdr[H.KID] = self.kid = v
        elif act == "target":
            self.target = {"A128GCM": "AESCCM16128128", "AESCCM16128128": "A128GCM"}[self.target] if self.wrap else \
                {"A128GCM": "A256GCM", "A256GCM": "A128GCM"}[self.target]
            self.msg.phdr_update({H.Algorithm: lib.alg(P, self.target)})
            self.iv = E.bytes("iv%d" % i, lib.AEADS[self.target][3])
            self.msg.uhdr[H.IV] = self.iv
        elif act == "algorithm":
            self.name = {"EcdhSsA128KW": "EcdhSsA256KW", "EcdhSsA256KW": "EcdhSsA128KW", "EcdhSsHKDF256": "EcdhSsHKDF512",
                         "EcdhSsHKDF512": "EcdhSsHKDF256"}[self.name]
            rc.phdr[H.Algorithm] = lib.alg(P, self.name)
        else:
            self.build()

    def derived(self):
        E = self.E
        hash_, static, kw = lib.ECDHS[self.name]
        tid, tl = (lib.ALG_ID[kw], lib.KWS[kw]) if kw else (lib.ALG_ID[self.target], target_length(self.target))
        ph = {1: lib.ALG_ID[self.name]}
        if self.kid is not None:
            ph[4] = self.kid
        d = E.mat("EC2", "P256", self.si)[0]
        _, x, y = E.mat("EC2", "P256", self.ri)
        k = E.hkdf(hash_, tl, self.salt, kdf_context(E, tid, tl, E.cbor(ph), (self.u, None, None), (None,) * 3, self.pub,
                                                     self.priv), E.ecdh("P256", d, x, y))
        return k, ph

    def observe(self, kind, i):
        E, P, H = self.E, self.P, self.P.headers
        k, ph = self.derived()
        if kind == "compute":
            got = self.rc.compute_cek(lib.alg(P, self.target), "encrypt") if not self.wrap else None
            if got is not None:
                E.check(E.eq(got.k, k), "derived from the inputs of the moment")
            return
        self.msg.payload = self.p
        m = E.decode(self.msg.encode()).value
        uh = {-2: wire_key(E, "P256", self.si)}
        if self.u is not None:
            uh[-21] = self.u
        if self.salt is not None:
            uh[-20] = self.salt
        E.check(E.eq(m[3][0], [E.cbor(ph), uh, E.keywrap(k, self.cek) if self.wrap else b""]), "the recipient of the moment")
        E.check(E.eq(m[2], enc_ref(E, self.target, self.cek if self.wrap else k, self.iv, {1: lib.ALG_ID[self.target]}, b"",
                                   self.p)), "content under the key of the moment")


@case("R02", first=["party", "pub", "sender", "receiver", "target", "fresh"], thorough={"first": Agreement.ACTS})
def direct_history(E, P, first):
    """Encoding a message with direct key agreement between changes of the derivation's inputs derives anew each time."""
    steps(E, Agreement(E, P, False), first, Agreement.ACTS, ["encode"])


@case("R03", first=["party", "priv", "receiver", "algorithm", "target", "fresh"], thorough={"first": Agreement.ACTS})
def wrapped_history(E, P, first):
    """The same with key wrap, the content key preset."""
    steps(E, Agreement(E, P, True), first, Agreement.ACTS, ["encode"])


class AgreeReceived:
    """the receiving side: a received message whose recipient's local inputs change between decryptions"""
    ACTS = ["pub", "priv", "key", "uid", "salt", "payload", "aad"]

    def __init__(self, E, P, wrap):
        self.E, self.P, self.wrap = E, P, wrap
        self.iv, self.p = E.bytes("iv", 12), E.bytes("p", 1)
        self.name = "EcdhSsA192KW" if wrap else "EcdhSsHKDF512"
        self.sent = (E.bytes("pub", 1), E.bytes("priv", 1), E.bytes("uid", 1), E.bytes("salt", 1))
        self.cek = E.bytes("cek", 24)
        k = self.derive(self.sent)
        ph = {1: lib.ALG_ID[self.name]}
        ct = enc_ref(E, "A192GCM", self.cek if wrap else k, self.iv, {1: 2}, b"", self.p)
        el = [E.cbor(ph), {-2: wire_key(E, "P256", 0), -21: self.sent[2], -20: self.sent[3]},
              E.keywrap(k, self.cek) if wrap else b""]
        self.msg = P.CoseMessage.decode(E.cbor(E.tag(96, [E.cbor({1: 2}), {5: self.iv}, ct, [el]])))
        self.ct, self.now, self.good, self.good_ct, self.aad = ct, list(self.sent), True, True, b""
        r = self.msg.recipients[0]
        r.key = lib.ec_key(E, P, "P256", 1)
        H = P.headers
        r.local_attrs = {H.SuppPubOther: self.sent[0], H.SuppPrivOther: self.sent[1]}

    def derive(self, s):
        E = self.E
        hash_, static, kw = lib.ECDHS[self.name]
        tid, tl = (lib.ALG_ID[kw], lib.KWS[kw]) if kw else (2, 24)
        d, (_, x, y) = E.mat("EC2", "P256", 0)[0], E.mat("EC2", "P256", 1)
        return E.hkdf(hash_, tl, s[3], kdf_context(E, tid, tl, E.cbor({1: lib.ALG_ID[self.name]}), (s[2], None, None),
                                                   (None,) * 3, s[0], s[1]), E.ecdh("P256", d, x, y))

    def act(self, act, i):
        E, P, H, r = self.E, self.P, self.P.headers, self.msg.recipients[0]
        v = E.bytes("v%d" % i, 1)
        if act == "pub":
            r.local_attrs[H.SuppPubOther] = self.now[0] = v
        elif act == "priv":
            r.local_attrs[H.SuppPrivOther] = self.now[1] = v
        elif act == "uid":
            r.uhdr[H.PartyUID] = self.now[2] = v
        elif act == "salt":
            r.uhdr_update({H.Salt: v})
            self.now[3] = v
        elif act == "key":
            n = E.choice("key%d" % i, [1, 2])
            r.key = lib.ec_key(E, P, "P256", n)
            self.good = n == 1
        elif act == "aad":
            self.msg.external_aad = self.aad = E.bytes("aad%d" % i, 0, 1)
        else:
            v = E.flip("ct%d" % i, self.ct)
            self.msg.payload = v
            self.good_ct = E.eq(v, self.ct)

    def observe(self, kind, i):
        E = self.E
        r = E.run(self.msg.decrypt, self.msg.recipients[0])
        same = E.all(E.eq(self.now, list(self.sent)), self.good, self.good_ct, E.eq(self.aad, b""))
        E.check(E.iff(r.ok, same), "opens exactly with the sender's inputs of the moment")
        if r.ok:
            E.check(E.eq(r.value, self.p), "the content")


@case("R04", first=AgreeReceived.ACTS, wrap=[False, True])
def received_agreement_history(E, P, first, wrap):
    """A received message opens, at every attempt, exactly if the local inputs, headers, key and content of the moment
    are those of the sender, whatever was tried before."""
    steps(E, AgreeReceived(E, P, wrap), first, AgreeReceived.ACTS)


# -- hashes, decoding, recipients -----------------------------------------------------

@case("X01", n=[1, 2])
def hash_history(E, P, n):
    """Hashes and thumbprints of different data and algorithms one after another, and again the first."""
    names = ["Sha256", "Sha1", "Sha512", "Sha256Trunc64", "Shake128"]
    x, y = E.bytes("x", 0, 3), E.bytes("y", 0, 3)
    if n == 1:
        a, b = E.choice("a", names), E.choice("b", names)
        A, B = lib.alg(P, a), lib.alg(P, b)
        h1, h2, h3 = A.compute_hash(x), B.compute_hash(y), A.compute_hash(x)
        E.check(E.eq(h1, h3), "the same hash again")
        from .h_misc import ref
        E.check(E.eq(h2, ref(E, b, y)) and E.eq(h1, ref(E, a, x)), "each its own")
        return
    A = E.choice("a", [P.alg.Sha256, P.alg.Sha256Trunc64])
    t1 = P.x509.X5T.from_certificate(A, x)
    t2 = P.x509.X5T.from_certificate(P.alg.Sha256, y)
    E.check(t1.matches(x), "its own certificate")
    E.check(E.iff(t1.matches(y), E.eq(x, y)), "no other")
    E.check(t2.matches(y), "its own certificate")
    E.check(E.iff(t2.matches(x), E.eq(x, y)), "no other")


@case("X02", n=[1, 3, 6], thorough={"n": [1, 2, 3, 6, 10]})
def chain_history(E, P, n):
    """A chain validated again is validated anew: for the usage asked then, and refused if the validator refuses then."""
    import certvalidator
    V = certvalidator.CertificateValidator
    cs = [E.bytes("c%d" % i, 0, 3) for i in range(n)]
    ds = [E.bytes("d%d" % i, 0, 3) for i in range(2)]
    calls, refuse = [], [False]

    def init(self, end_entity_cert, intermediate_certs=None, validation_context=None):
        calls.append([end_entity_cert, list(intermediate_certs or [])])

    def check(self, key_usage, extended_key_usage=None, extended_optional=False):
        calls[-1].append(set(key_usage))
        if refuse[0]:
            raise ValueError("not valid")
        return "path"
    saved = V.__init__, V.validate_usage
    V.__init__, V.validate_usage = init, check
    try:
        x, y = P.x509.X5Chain(cs), P.x509.X5Chain(ds)
        usages = [{"digital_signature"}, {"key_agreement"}, {"key_cert_sign", "crl_sign"}]
        for i in range(3):
            c, its = E.choice("which%d" % i, [(0, 0), (1, 1)])[0], None
            c, its = (x, cs) if c == 0 else (y, ds)
            u = E.choice("usage%d" % i, usages if i else usages[:1])
            refuse[0] = E.choice("refuse%d" % i, [False, True])
            del calls[:]
            r = E.run(c.verify_chain, u)
            E.check(r.ok == (not refuse[0]), "refused exactly if the validator refuses now")
            E.check(len(calls) == 1 and len(calls[0]) == 3, "validated again")
            if len(calls) == 1:
                E.check(E.eq(calls[0][:2], [its[0], its[1:]]) and calls[0][2] == u, "its certificates, the usage of the moment")
    finally:
        V.__init__, V.validate_usage = saved


@case("W01", kind=["sign1", "sign", "mac0", "mac", "enc0", "enc"])
def decode_history(E, P, kind):
    """Decoding the same bytes twice gives equal, independent messages even if the first was changed in between, and
    decoding another message in between changes nothing."""
    from .h_wire import TAGS, ALGID, received
    H = P.headers
    v, w = E.bytes("v", 0, 2), E.bytes("w", 0, 2)

    def wire(x):
        return E.cbor(E.tag(TAGS[kind], received(E, P, kind, E.cbor({1: ALGID[kind], 4: x, 300: [x]}), {200: x}, b"p" + x,
                                                 b"s" + x)))
    first = P.CoseMessage.decode(wire(v))
    how = E.choice("change", ["headers", "payload", "nested", "parts", "other"])
    if how == "headers":
        first.phdr[H.KID] = b"changed"
        first.uhdr_update({200: b"changed"})
    elif how == "payload":
        first.payload = b"changed"
    elif how == "nested":
        first.phdr[300].append(b"changed")
    elif how == "parts":
        for p in getattr(first, "signers", None) or getattr(first, "recipients", None) or []:
            p.uhdr[99] = b"changed"
            p.phdr = {}
    else:
        P.CoseMessage.decode(wire(w))
    again = P.CoseMessage.decode(wire(v))
    E.check(E.eq(again.get_attr(H.KID), v) and E.eq(again.phdr[300], [v]) and E.eq(again.uhdr[200], v), "headers")
    E.check(E.eq(again.payload, b"p" + v), "payload")
    E.check(E.eq(again.phdr_encoded, E.cbor({1: ALGID[kind], 4: v, 300: [v]})), "header bytes")
    other = P.CoseMessage.decode(wire(w))
    E.check(E.eq(other.get_attr(H.KID), w) and E.eq(other.phdr[300], [w]) and E.eq(other.payload, b"p" + w), "another one")
    for p in getattr(again, "signers", None) or getattr(again, "recipients", None) or []:
        E.check(99 not in p.uhdr, "its parts are its own")


@case("W01", kind=["sign", "mac", "enc"])
def parts_in_order(E, P, kind):
    """Signers and recipients are sent and read in the order given, whatever their headers are."""
    H = P.headers
    n = E.bound(3, 4)
    where = E.choice("where", ["phdr", "uhdr"] if kind == "sign" else ["uhdr"])
    kids = [E.bytes("kid%d" % i, 0 if E.tier == "thorough" else 1, 1) for i in range(n)]
    have = [E.choice("has%d" % i, [True, False]) if i == 1 else True for i in range(n)]

    def hdr(i):
        return {H.KID: kids[i], 7000: i} if have[i] else {7000: i}

    def whdr(i):
        return {4: kids[i], 7000: i} if have[i] else {7000: i}
    if kind == "sign":
        key, scheme, pub, priv = lib.sig_key(E, P, "EdDSA")
        parts = [P.CoseSignature(phdr=lib.merge({H.Algorithm: P.alg.EdDSA}, hdr(i) if where == "phdr" else {}),
                                 uhdr=hdr(i) if where == "uhdr" else {}, key=key) for i in range(n)]
        msg = P.SignMessage(payload=b"p", signers=parts)
    else:
        parts = [P.KeyWrap(uhdr=lib.merge({H.Algorithm: P.alg.A128KW}, hdr(i)), key=P.SymmetricKey(k=bytes(range(i, i + 16))),
                           payload=bytes(16)) for i in range(n)]
        msg = P.MacMessage(phdr={H.Algorithm: P.alg.AESMAC12864}, payload=b"p", recipients=parts) if kind == "mac" else \
            P.EncMessage(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: bytes(12)}, payload=b"p", recipients=parts)
    out = msg.encode()
    els = E.decode(out).value[-1]
    got = P.CoseMessage.decode(out)
    back = got.signers if kind == "sign" else got.recipients
    now = msg.signers if kind == "sign" else msg.recipients
    E.check(len(els) == len(back) == n and all(a is b for a, b in zip(now, parts)), "all")
    for i in range(n):
        if kind == "sign":
            h = E.decode(els[i][0]) if where == "phdr" else els[i][1]
            E.check(E.eq(h, lib.merge({1: -8} if where == "phdr" else {}, whdr(i))), "in the order given")
        else:
            E.check(E.eq(els[i], [b"", lib.merge({1: -3}, whdr(i)), E.keywrap(bytes(range(i, i + 16)), bytes(16))]),
                    "in the order given")
        E.check(getattr(back[i], where)[7000] == i, "and read in it")


@case("R06", kind=["enc0 list", "enc"], first=["replace", "clear", "reverse", "append", "nested"])
def membership_history(E, P, kind, first):
    """Whether a recipient belongs to the message is judged by its list at that moment, whatever was used before."""
    H = P.headers
    k, cek = bytes(range(16)), bytes(16)
    iv, p, aad = content(E, "A128GCM")
    el = [b"", {1: -3}, E.keywrap(k, cek)]
    two = [b"", {1: -3, 4: b"2"}, E.keywrap(k, cek), [el]]
    wire = received(E, "A128GCM", cek, [el, two], iv, p)
    msg, other = P.CoseMessage.decode(wire), P.CoseMessage.decode(wire)
    pool = [msg.recipients[0], msg.recipients[1], msg.recipients[1].recipients[0], other.recipients[0],
            other.recipients[1].recipients[0]]
    have, inner = [0, 1], [2]
    for r in pool:
        r.key = P.SymmetricKey(k=k)

    def try_(i):
        r = E.run(msg.decrypt, pool[i])
        if i in have or (i in inner and 1 in have):
            E.check(r.ok and E.eq(r.value, p), "decrypts for its own")
        else:
            E.check(r.raised("CoseException"), "refused for another")
    def act(what):
        nonlocal have, inner
        if what == "replace":
            have = [3]
        elif what == "clear":
            have = []
        elif what == "reverse":
            have = have[::-1]
        elif what == "append":
            have = have + [4]
            msg.recipients.append(pool[4])
            return
        elif what == "nested":
            inner = [] if inner else [2]
            pool[1].recipients = [pool[i] for i in inner]
            return
        elif what == "back":
            have = [0, 1]
        msg.recipients = [pool[i] for i in have] if have or what != "clear" or kind == "enc" else None
    try_(E.choice("before", [0, 2, 4]))
    act(first)
    if E.choice("between", [False, True]):
        try_(E.choice("i", [0, 3]))
    act(E.choice("act2", ["none", "back", "replace", "nested"]))
    for i in range(5):
        try_(i)


@case("R05", kind=["enc", "mac"])
def modes_history(E, P, kind):
    """The combination of recipient modes is judged at every encoding, as the list is then."""
    H = P.headers
    msg = P.EncMessage(phdr={H.Algorithm: P.alg.A128GCM}, uhdr={H.IV: bytes(12)}, payload=b"p") if kind == "enc" else \
        P.MacMessage(phdr={H.Algorithm: P.alg.HMAC256}, payload=b"p")

    def rc(mode):
        if mode == "direct":
            return P.DirectEncryption(uhdr={H.Algorithm: P.alg.Direct})
        if mode == "wrap":
            return P.KeyWrap(uhdr={H.Algorithm: P.alg.A128KW}, key=P.SymmetricKey(k=bytes(16)))
        r = P.DirectKeyAgreement(phdr={H.Algorithm: P.alg.EcdhSsHKDF256}, key=lib.ec_key(E, P, "P256", 0),
                                 uhdr={H.StaticKey: lib.ec_key(E, P, "P256", 0, public=True)})
        r.local_attrs = {H.StaticKey: lib.ec_key(E, P, "P256", 1, public=True)}
        return r
    for i in range(E.bound(2, 3)):
        modes = [E.choice("m%d.%d" % (i, j), ["direct", "wrap", "agree"]) for j in range(E.choice("n%d" % i, [1, 2]))]
        msg.recipients = [rc(m) for m in modes]
        msg.key = P.SymmetricKey(k=bytes(range(16)))
        msg.payload = b"p"
        r = E.run(msg.encode)
        E.check(r.ok == legal([m.replace("agree", "agreement") for m in modes]), "judged as it is: %s" % "+".join(modes))
