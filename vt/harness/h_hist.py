"""Histories: several encodings, verifications and changes of one object, each change touching one thing only.

Every observation is compared with the oracle for the content at that moment, so anything the library keeps from an
earlier step (header bytes, structures, keys, tags, ciphertexts) shows up."""
from vt.registry import case
from . import lib
from .h_mac import ref_tag


def libhdr(P, d):
    """library form of a wire header"""
    H = P.headers
    names = {1: H.Algorithm, 3: H.ContentType, 4: H.KID, 5: H.IV}
    algs = {v: k for k, v in lib.ALG_ID.items()}
    return {names.get(k, k): (lib.alg(P, algs[v]) if k == 1 else list(v) if isinstance(v, list) else v)
            for k, v in d.items()}


class State:
    def __init__(self, **k):
        self.__dict__.update(k)

    def copy(self):
        s = State(**self.__dict__)
        s.ph, s.uh = dict(s.ph), dict(s.uh)
        if 100 in s.ph:
            s.ph[100] = list(s.ph[100])
        return s


HDR = ["phdr item", "phdr assign", "phdr_update", "phdr del", "phdr nested", "uhdr item", "uhdr assign", "uhdr_update"]


def prot(E, ph):
    return E.cbor(ph) if len(ph) else b""


def header_act(E, P, holder, st, act, v):
    """One change of one header bucket; False if the action is none of these."""
    H = P.headers
    if act == "phdr item":
        holder.phdr[H.KID] = v
        st.ph[4] = v
    elif act == "phdr_update":
        holder.phdr_update({H.KID: v})
        st.ph[4] = v
    elif act == "phdr assign":
        st.ph = {1: st.ph[1], 4: v}
        holder.phdr = libhdr(P, st.ph)
    elif act == "phdr del":
        if 4 in st.ph:
            del holder.phdr[H.KID]
            del st.ph[4]
    elif act == "phdr nested":
        if 100 in st.ph:
            holder.phdr[100].append(v)
            st.ph[100] = st.ph[100] + [v]
    elif act == "uhdr item":
        holder.uhdr[200] = v
        st.uh[200] = v
    elif act == "uhdr_update":
        holder.uhdr_update({200: v})
        st.uh[200] = v
    elif act == "uhdr assign":
        st.uh = {x: y for x, y in st.uh.items() if x in (1, 5)}
        st.uh[3] = 7
        holder.uhdr = libhdr(P, st.uh)
    else:
        return False
    return True


def new_value(key, other):
    """the key object gets the other one's value in place"""
    key.x, key.d = other.x, other.d


def start(E, alg, iv=None):
    ph = {1: lib.ALG_ID[alg], 4: E.bytes("kid0", 1), 100: [E.bytes("n0", 1)]}
    uh = {200: E.bytes("u0", 1)}
    if iv is not None:
        uh[5] = iv
    return State(ph=ph, uh=uh, p=E.bytes("p0", 1), a=b"")


def drive(E, P, h, first, acts, obs):
    """observe, change, maybe observe, change, observe everything"""
    h.observe(E.choice("obs1", obs), 0)
    h.act(first, 1)
    mid = E.choice("obs2", ["none"] + obs)
    if mid != "none":
        h.observe(mid, 1)
    h.act(E.choice("act2", acts), 2)
    h.observe("encode", 2)


# -- single-signer and MAC0 / Encrypt0 -------------------------------------------------

class Sign1:
    ACTS = HDR + ["payload", "aad", "key", "key value", "fresh", "signature"]
    OBS = ["encode", "untagged", "compute", "stored"]

    def __init__(self, E, P):
        self.E, self.P = E, P
        self.st = start(E, "EdDSA")
        self.st.ki = 0
        self.build()

    def key(self):
        return lib.sig_key(self.E, self.P, "EdDSA", i=self.st.ki)

    def build(self):
        st, P = self.st, self.P
        self.msg = P.Sign1Message(phdr=libhdr(P, st.ph), uhdr=libhdr(P, st.uh), payload=st.p, external_aad=st.a,
                                  key=self.key()[0])

    def act(self, act, i):
        E, st = self.E, self.st
        v = E.bytes("v%d" % i, 1)
        if header_act(E, self.P, self.msg, st, act, v):
            return
        if act == "payload":
            self.msg.payload = st.p = v
        elif act == "aad":
            self.msg.external_aad = st.a = v
        elif act == "key":
            st.ki = 1 - st.ki
            self.msg.key = self.key()[0]
        elif act == "key value":
            st.ki = 1 - st.ki
            new_value(self.msg.key, self.key()[0])
        elif act == "fresh":
            self.build()
        elif act == "signature":
            self.msg.signature = v

    def observe(self, kind, i):
        E, st, msg = self.E, self.st, self.msg
        _, scheme, pub, _ = self.key()
        data = E.cbor(["Signature1", prot(E, st.ph), st.a, st.p])
        if kind == "compute":
            E.check(E.sig_valid(scheme, pub, data, msg.compute_signature()), "signature of the current content")
            return
        if kind == "stored":
            s = E.bytes("s%d" % i, 2)
            msg.signature = s
            E.check(E.eq(E.decode(msg.encode(sign=False)).value, [prot(E, st.ph), st.uh, st.p, s]),
                    "current content with the stored signature")
            return
        m = E.decode(msg.encode(tag=kind == "encode"))
        body = m.value if kind == "encode" else m
        E.check(E.eq(body[:3], [prot(E, st.ph), st.uh, st.p]), "current content")
        E.check(E.sig_valid(scheme, pub, data, body[3]), "signature of the current content")


@case("S01", first=["phdr item", "payload", "fresh", "uhdr assign", "signature"], thorough={"first": Sign1.ACTS})
def sign1_history(E, P, first):
    """Encode, change one thing, maybe encode, change one thing, encode: every encoding has the content of its time.
    Changes: in-place, assigned and updated headers, nested values, payload, external data, key, a new equal object."""
    drive(E, P, Sign1(E, P), first, Sign1.ACTS, Sign1.OBS)


class Mac0:
    ALG, ACTS = "HMAC256", HDR + ["payload", "aad", "key", "key value", "key item", "alg", "fresh", "tag"]
    OBS = ["encode", "untagged", "compute", "verify", "unmaced"]
    CTX, CLS = "MAC0", "Mac0Message"

    def __init__(self, E, P):
        self.E, self.P = E, P
        self.st = start(E, self.ALG)
        self.st.alg = self.ALG
        self.st.k = E.bytes("k0", 16)
        self.made = None
        self.build()

    def extra(self):
        return {}

    def build(self):
        st, P = self.st, self.P
        self.msg = getattr(P, self.CLS)(phdr=libhdr(P, st.ph), uhdr=libhdr(P, st.uh), payload=st.p, external_aad=st.a,
                                        key=P.SymmetricKey(k=st.k), **self.extra())
        self.made = None

    def act(self, act, i):
        E, P, st = self.E, self.P, self.st
        v = E.bytes("v%d" % i, 1)
        if header_act(E, P, self.msg, st, act, v):
            return
        if act == "payload":
            self.msg.payload = st.p = v
        elif act == "aad":
            self.msg.external_aad = st.a = v
        elif act == "key":
            st.k = E.bytes("k%d" % i, 16)
            self.msg.key = P.SymmetricKey(k=st.k)
        elif act in ("key value", "key item"):
            st.k = E.bytes("k%d" % i, 16)
            if act == "key value":
                self.msg.key.k = st.k
            else:
                self.msg.key[P.kp.SymKpK] = st.k
        elif act == "alg":
            st.alg = "HMAC384" if st.alg == "HMAC256" else "HMAC256"
            st.ph[1] = lib.ALG_ID[st.alg]
            self.msg.phdr[P.headers.Algorithm] = lib.alg(P, st.alg)
        elif act == "fresh":
            self.build()
        elif act == "tag":
            self.msg.auth_tag = v
            self.made = v

    def data(self):
        st = self.st
        return self.E.cbor([self.CTX, prot(self.E, st.ph), st.a, st.p])

    def observe(self, kind, i):
        E, st, msg = self.E, self.st, self.msg
        want = ref_tag(E, st.alg, st.k, self.data())
        if kind == "compute":
            E.check(E.eq(msg.compute_tag(), want), "tag of the current content")
            self.made = want
        elif kind == "verify":
            if self.made is None:
                self.made = msg.compute_tag()
            E.check(E.iff(msg.verify_tag(), E.eq(self.made, want)), "verified against the current content")
        elif kind == "unmaced":
            m = E.decode(msg.encode(mac=False)).value
            E.check(E.eq(m[:3], [prot(E, st.ph), st.uh, st.p]), "current content")
        else:
            m = E.decode(msg.encode(tag=kind == "encode"))
            body = m.value if kind == "encode" else m
            E.check(E.eq(body[:4], [prot(E, st.ph), st.uh, st.p, want]), "current content and its tag")
            self.made = want


class MacDirect(Mac0):
    CTX, CLS = "MAC", "MacMessage"

    def extra(self):
        H = self.P.headers
        return {"recipients": [self.P.DirectEncryption(uhdr={H.Algorithm: self.P.alg.Direct})]}


@case("M01", first=["phdr assign", "aad", "fresh", "tag"], thorough={"first": Mac0.ACTS})
def mac_history(E, P, first):
    """As for COSE_Sign1, with tags: encodings, computed tags and verifications between the changes, COSE_Mac0."""
    drive(E, P, Mac0(E, P), first, Mac0.ACTS, Mac0.OBS)


@case("M01", first=["phdr item", "key"], thorough={"first": Mac0.ACTS})
def mac_history_rcpt(E, P, first):
    """The same for COSE_Mac with a direct recipient."""
    drive(E, P, MacDirect(E, P), first, Mac0.ACTS, ["encode", "untagged", "compute", "verify"])


class Enc0:
    ALG, ACTS = "A128GCM", HDR + ["payload", "aad", "key", "key value", "key item", "iv", "iv assign", "fresh"]
    OBS = ["encode", "untagged", "compute", "plain"]
    CTX, CLS = "Encrypt0", "Enc0Message"

    def __init__(self, E, P):
        self.E, self.P = E, P
        self.iv = E.bytes("iv0", 12)
        self.st = start(E, self.ALG, self.iv)
        self.st.k = E.bytes("k0", 16)
        self.build()

    def extra(self):
        return {}

    def build(self):
        st, P = self.st, self.P
        self.msg = getattr(P, self.CLS)(phdr=libhdr(P, st.ph), uhdr=libhdr(P, st.uh), payload=st.p, external_aad=st.a,
                                        key=P.SymmetricKey(k=st.k), **self.extra())

    def act(self, act, i):
        E, P, st = self.E, self.P, self.st
        v = E.bytes("v%d" % i, 1)
        if header_act(E, P, self.msg, st, act, v):
            return
        if act == "payload":
            self.msg.payload = st.p = v
        elif act == "aad":
            self.msg.external_aad = st.a = v
        elif act == "key":
            st.k = E.bytes("k%d" % i, 16)
            self.msg.key = P.SymmetricKey(k=st.k)
        elif act in ("key value", "key item"):
            st.k = E.bytes("k%d" % i, 16)
            if act == "key value":
                self.msg.key.k = st.k
            else:
                self.msg.key[P.kp.SymKpK] = st.k
        elif act == "iv":
            st.uh[5] = E.bytes("iv%d" % i, 12)
            self.msg.uhdr[P.headers.IV] = st.uh[5]
        elif act == "iv assign":
            st.uh[5] = E.bytes("iv%d" % i, 12)
            self.msg.uhdr = libhdr(P, st.uh)
        elif act == "fresh":
            self.build()

    def observe(self, kind, i):
        E, st, msg = self.E, self.st, self.msg
        ak, kl, tl, nl = lib.AEADS[self.ALG]
        ct = E.seal(ak, tl, st.k, st.uh[5], E.cbor([self.CTX, prot(E, st.ph), st.a]), st.p)
        if kind == "compute":
            E.check(E.eq(msg.encrypt(), ct), "ciphertext of the current content")
        elif kind == "plain":
            m = E.decode(msg.encode(encrypt=False)).value
            E.check(E.eq(m[:3], [prot(E, st.ph), st.uh, st.p]), "current content, unencrypted on request")
        else:
            m = E.decode(msg.encode(tag=kind == "encode"))
            body = m.value if kind == "encode" else m
            E.check(E.eq(body[:3], [prot(E, st.ph), st.uh, ct]), "current content and its ciphertext")
        E.check(E.eq(msg.payload, st.p), "the payload stays the caller's")


class EncDirect(Enc0):
    CTX, CLS = "Encrypt", "EncMessage"

    def extra(self):
        H = self.P.headers
        return {"recipients": [self.P.DirectEncryption(uhdr={H.Algorithm: self.P.alg.Direct})]}


@case("A01", first=["phdr_update", "payload", "iv", "fresh"], thorough={"first": Enc0.ACTS})
def enc_history(E, P, first):
    """As for COSE_Sign1, with ciphertexts: tagged, untagged, unencrypted encodings between the changes."""
    drive(E, P, Enc0(E, P), first, Enc0.ACTS, Enc0.OBS)


@case("A01", first=["key", "aad"], thorough={"first": Enc0.ACTS})
def enc_history_rcpt(E, P, first):
    """The same for COSE_Encrypt with a direct recipient."""
    drive(E, P, EncDirect(E, P), first, Enc0.ACTS, Enc0.OBS)


# -- COSE_Sign -------------------------------------------------------------------------

class Sign:
    ACTS = HDR + ["body item", "body assign", "body update", "body del", "body uhdr", "body aad", "payload", "aad", "no aad",
                  "key", "key value", "shared key", "fresh", "new signer", "reverse", "replace", "move"]
    OBS = ["encode", "untagged", "compute"]

    def __init__(self, E, P):
        self.E, self.P = E, P
        self.b = {4: E.bytes("b0", 1)}
        self.bu = {}
        self.p = E.bytes("p0", 1)
        self.s = [self.fresh_state(0), self.fresh_state(1)]
        self.build()

    def fresh_state(self, i):
        E = self.E
        return State(ph={1: -8, 4: E.bytes("kid.%d" % i, 1), 100: [b"n"]}, uh={}, a=E.bytes("a.%d" % i, 1) if i != 1 else b"", ki=i % 2)

    def key(self, st):
        return lib.sig_key(self.E, self.P, "EdDSA", i=st.ki)

    def signer(self, st):
        P = self.P
        return P.CoseSignature(phdr=libhdr(P, st.ph), uhdr=libhdr(P, st.uh), external_aad=st.a, key=self.key(st)[0])

    def build(self):
        P = self.P
        self.objs = [self.signer(st) for st in self.s]
        self.msg = P.SignMessage(phdr=libhdr(P, self.b), uhdr=dict(self.bu), payload=self.p, signers=self.objs)

    def act(self, act, i):
        E, P, msg = self.E, self.P, self.msg
        H = P.headers
        st, ob = self.s[0], self.objs[0]
        v = E.bytes("v%d" % i, 1)
        if header_act(E, P, ob, st, act, v):
            return
        if act == "body item":
            msg.phdr[H.KID] = v
            self.b[4] = v
        elif act == "body update":
            msg.phdr_update({H.KID: v})
            self.b[4] = v
        elif act == "body assign":
            self.b = {3: 9, 4: v}
            msg.phdr = libhdr(P, self.b)
        elif act == "body del":
            if 4 in self.b:
                del msg.phdr[H.KID]
                del self.b[4]
        elif act == "body uhdr":
            msg.uhdr_update({300: v})
            self.bu[300] = v
        elif act == "payload":
            msg.payload = self.p = v
        elif act == "aad":
            ob.external_aad = st.a = v
        elif act == "no aad":
            ob.external_aad = st.a = b""
        elif act == "body aad":
            # each signer has its own external data; that of the message object is no signer's
            msg.external_aad = v
        elif act == "key":
            st.ki = 1 - st.ki
            ob.key = self.key(st)[0]
        elif act == "key value":
            ki = 1 - st.ki
            for t, o in zip(self.s, self.objs):
                if o.key is ob.key:
                    t.ki = ki
            new_value(ob.key, self.key(st)[0])
        elif act == "shared key":
            st.ki = self.s[-1].ki
            ob.key = self.objs[-1].key
        elif act == "fresh":
            self.build()
        elif act == "new signer":
            self.s = self.s + [self.fresh_state(2 + i)]
            self.objs = self.objs + [self.signer(self.s[-1])]
            msg.signers = self.objs
        elif act == "reverse":
            self.s, self.objs = self.s[::-1], self.objs[::-1]
            msg.signers = self.objs
        elif act == "replace":
            self.s = [self.fresh_state(2 + i)]
            self.objs = [self.signer(self.s[0])]
            msg.signers = self.objs
        elif act == "move":
            self.b, self.bu, self.p = {3: 5}, {}, v
            self.msg = P.SignMessage(phdr={H.ContentType: 5}, payload=v, signers=self.objs)

    def observe(self, kind, i):
        E = self.E
        if kind == "compute":
            for st, ob in zip(self.s, self.objs):
                self.valid(st, ob.compute_signature())
            return
        m = E.decode(self.msg.encode(tag=kind == "encode"))
        body = m.value if kind == "encode" else m
        E.check(E.eq(body[:3], [prot(E, self.b), self.bu, self.p]), "current body")
        E.check(len(body[3]) == len(self.s), "current signers")
        for st, got in zip(self.s, body[3]):
            E.check(E.eq(got[:2], [prot(E, st.ph), st.uh]), "current signer headers")
            self.valid(st, got[2])

    def valid(self, st, sig):
        E = self.E
        _, scheme, pub, _ = self.key(st)
        E.check(E.sig_valid(scheme, pub, E.cbor(["Signature", prot(E, self.b), prot(E, st.ph), st.a, self.p]), sig),
                "signature of the current content")


@case("S03", first=["phdr nested", "body item", "new signer", "reverse", "move"], thorough={"first": Sign.ACTS})
def sign_history(E, P, first):
    """As for COSE_Sign1, for COSE_Sign with two signers: changes of body, of a signer and of the signer list."""
    drive(E, P, Sign(E, P), first, Sign.ACTS, Sign.OBS)


# -- wrapped keys ----------------------------------------------------------------------

class Wrapped:
    """COSE_Encrypt / COSE_Mac with AES key wrap recipients"""
    ACTS = ["kek", "kek value", "shared kek", "cek", "uncek", "replace", "replace preset", "add", "reverse", "drop", "payload", "aad", "phdr",
            "rcpt uhdr", "alg", "fresh"]
    OBS = ["encode", "untagged", "compute"]

    def __init__(self, E, P, enc):
        self.E, self.P, self.enc = E, P, enc
        self.alg = "A128GCM" if enc else "HMAC256"
        self.ph = {1: lib.ALG_ID[self.alg], 4: b"i"}
        self.p, self.a, self.iv = E.bytes("p0", 1), b"", E.bytes("iv0", 12)
        self.cek = self.old = None
        if E.choice("start", ["random", "preset"]) == "preset":
            self.cek = E.random("cek0", self.keylen())
        self.keks = [E.bytes("kek.0", 16), E.bytes("kek.1", 16)]
        self.kids = [b"0", b"1"]
        self.seen = []
        self.build()

    def keylen(self):
        return {"A128GCM": 16, "A256GCM": 32, "HMAC256": 32, "AESMAC128128": 16}[self.alg]

    def rcpt(self, kek, kid, cek):
        H = self.P.headers
        return self.P.KeyWrap(uhdr={H.Algorithm: self.P.alg.A128KW, H.KID: kid}, key=self.P.SymmetricKey(k=kek),
                              payload=cek if cek is not None else b"")

    def build(self):
        P = self.P
        H = P.headers
        self.objs = [self.rcpt(k, i, self.cek) for k, i in zip(self.keks, self.kids)]
        cls, uh = (P.EncMessage, {H.IV: self.iv}) if self.enc else (P.MacMessage, {})
        self.msg = cls(phdr=libhdr(P, self.ph), uhdr=uh, payload=self.p, external_aad=self.a, recipients=self.objs)

    def act(self, act, i):
        E, P, msg = self.E, self.P, self.msg
        H = P.headers
        v = E.bytes("v%d" % i, 1)
        kek = E.bytes("kek%d" % i, 16)
        if act == "kek":
            self.keks[0] = kek
            self.objs[0].key = P.SymmetricKey(k=kek)
        elif act == "kek value":
            for n, o in enumerate(self.objs):
                if o.key is self.objs[0].key:
                    self.keks[n] = kek
            self.objs[0].key.k = kek
        elif act == "shared kek":
            # two recipients with one key object
            self.objs[-1].key = self.objs[0].key
            self.keks[-1] = self.keks[0]
        elif act == "cek":
            self.cek = E.random("cek%d" % i, self.keylen())
            for o in self.objs:
                o.payload = self.cek
        elif act == "uncek":
            self.cek = None
            for o in self.objs:
                o.payload = b""
        elif act in ("replace", "replace preset"):
            self.cek = E.random("cek%d" % i, self.keylen()) if act == "replace preset" else None
            self.keks, self.kids = [kek], [b"n"]
            self.objs = [self.rcpt(kek, b"n", self.cek)]
            msg.recipients = self.objs
        elif act == "add":
            self.keks, self.kids = self.keks + [kek], self.kids + [b"a"]
            self.objs = self.objs + [self.rcpt(kek, b"a", None)]
            msg.recipients = self.objs
        elif act == "reverse":
            self.keks, self.kids, self.objs = self.keks[::-1], self.kids[::-1], self.objs[::-1]
            msg.recipients = self.objs
        elif act == "drop":
            self.keks, self.kids, self.objs = self.keks[:1], self.kids[:1], self.objs[:1]
            msg.recipients = self.objs
        elif act == "payload":
            msg.payload = self.p = v
        elif act == "aad":
            msg.external_aad = self.a = v
        elif act == "phdr":
            self.ph[4] = v
            msg.phdr[H.KID] = v
        elif act == "rcpt uhdr":
            self.kids[0] = v
            self.objs[0].uhdr[H.KID] = v
        elif act == "alg":
            # the content key of the other length has to be set anew
            self.alg = {"A128GCM": "A256GCM", "A256GCM": "A128GCM", "HMAC256": "AESMAC128128",
                        "AESMAC128128": "HMAC256"}[self.alg]
            self.ph[1] = lib.ALG_ID[self.alg]
            msg.phdr[H.Algorithm] = lib.alg(P, self.alg)
            self.cek = None
            for o in self.objs:
                o.payload = b""
        elif act == "fresh":
            if self.cek is not None and any(self.cek is s for s in self.seen):
                self.cek = None
            self.build()

    def content(self, k):
        E = self.E
        if self.enc:
            ak, kl, tl, nl = lib.AEADS[self.alg]
            return E.seal(ak, tl, k, self.iv, E.cbor(["Encrypt", prot(E, self.ph), self.a]), self.p)
        return ref_tag(E, self.alg, k, E.cbor(["MAC", prot(E, self.ph), self.a, self.p]))

    def observe(self, kind, i):
        E, P, msg = self.E, self.P, self.msg
        H = P.headers
        if kind == "compute":
            out = msg.encrypt() if self.enc else msg.compute_tag()
            self.learn(self.objs[0].payload)
            E.check(E.eq(out, self.content(self.cek)), "content under the current key")
            return
        m = E.decode(msg.encode(tag=kind == "encode"))
        body = m.value if kind == "encode" else m
        E.check(E.eq(body[:2], [prot(E, self.ph), {5: self.iv} if self.enc else {}]), "current headers")
        rcs = body[-1]
        E.check(len(rcs) == len(self.keks), "current recipients")
        if self.cek is None:
            got = P.KeyWrap(uhdr={H.Algorithm: P.alg.A128KW}, key=P.SymmetricKey(k=self.keks[0]), payload=rcs[0][2])
            self.learn(got.decrypt(lib.alg(P, self.alg)))
        for kek, kid, rc in zip(self.keks, self.kids, rcs):
            E.check(E.eq(rc, [b"", {1: -3, 4: kid}, E.keywrap(kek, self.cek)]), "the content key for every recipient")
        E.check(E.eq(body[2:-1], [self.content(self.cek)] if self.enc else [self.p, self.content(self.cek)]),
                "content under the transported key")
        E.check(E.eq(msg.payload, self.p), "the payload stays the caller's")

    def learn(self, k):
        """the content key was chosen by the library"""
        E = self.E
        if self.cek is None:
            E.check(len(k) == self.keylen(), "key of the algorithm's length")
            for o in self.seen:
                E.check(E.not_(E.eq(k, o)), "a new random key, not one of other recipients")
            self.cek = k
        self.seen.append(self.cek)


@case("R01", first=["cek", "replace", "fresh"], thorough={"first": Wrapped.ACTS})
def wrap_history(E, P, first):
    """COSE_Encrypt with key-wrap recipients encoded several times with changes of the recipients, their keys, the preset
    content key, the algorithm and the content in between."""
    drive(E, P, Wrapped(E, P, True), first, Wrapped.ACTS, Wrapped.OBS)


@case("M03", first=["uncek", "replace", "reverse"], thorough={"first": Wrapped.ACTS})
def mac_wrap_history(E, P, first):
    """The same for COSE_Mac."""
    drive(E, P, Wrapped(E, P, False), first, Wrapped.ACTS, Wrapped.OBS)


# -- received messages -----------------------------------------------------------------

class Received:
    """A received message whose verification is repeated while one thing at a time changes"""
    ACTS = ["aad", "aad back", "payload", "payload back", "phdr_update", "phdr back", "phdr assign", "uhdr_update",
            "key", "key back", "key value", "proof", "proof back", "another", "again", "send on"]

    def __init__(self, E, P, kind):
        self.E, self.P, self.kind = E, P, kind
        self.group = kind[:-1]
        self.ph0 = {1: {"sign": -8, "mac": 5, "enc": 1}[self.group], 4: E.bytes("kid0", 1)}
        self.ph, self.p0, self.a0 = dict(self.ph0), E.bytes("p0", 1), E.bytes("a0", 1)
        self.iv = E.bytes("iv", 12)
        if self.group == "sign":
            self.k0, self.k1 = 0, 1
        else:
            self.k0, self.k1 = E.bytes("k0", 16), E.bytes("k1", 16)
        self.a, self.k, self.p = self.a0, self.k0, self.p0
        self.proof0 = self.proof = self.prove(self.ph0, self.a0, self.p0, self.k0)
        self.msg, self.part = self.receive(self.ph0, self.p0, self.proof0)
        self.arm(self.msg, self.part, self.a, self.k)

    def structure(self, ph, a, p):
        E, pr = self.E, prot(self.E, ph)
        return E.cbor({"sign1": ["Signature1", pr, a, p], "signn": ["Signature", b"", pr, a, p],
                       "mac0": ["MAC0", pr, a, p], "macn": ["MAC", pr, a, p], "enc0": ["Encrypt0", pr, a],
                       "encn": ["Encrypt", pr, a]}[self.kind])

    def prove(self, ph, a, p, k):
        E, d = self.E, self.structure(ph, a, p)
        if self.group == "sign":
            _, scheme, _, priv = lib.sig_key(E, self.P, "EdDSA", i=k)
            return E.sign_ref(scheme, priv, d)
        if self.group == "mac":
            return ref_tag(E, "HMAC256", k, d)
        return E.seal("gcm", 16, k, self.iv, d, p)

    def receive(self, ph, p, proof):
        E, pr = self.E, prot(self.E, ph)
        rc = [[b"", {1: -6}, b""]]
        tag, body = {"sign1": (18, [pr, {}, p, proof]), "signn": (98, [b"", {}, p, [[pr, {}, proof]]]),
                     "mac0": (17, [pr, {}, p, proof]), "macn": (97, [pr, {}, p, proof, rc]),
                     "enc0": (16, [pr, {5: self.iv}, proof]), "encn": (96, [pr, {5: self.iv}, proof, rc])}[self.kind]
        msg = self.P.CoseMessage.decode(E.cbor(E.tag(tag, body)))
        return msg, msg.signers[0] if self.kind == "signn" else msg

    def arm(self, msg, part, a, k):
        part.external_aad = a
        part.key = lib.sig_key(self.E, self.P, "EdDSA", i=k, public=True)[0] if self.group == "sign" else \
            self.P.SymmetricKey(k=k)

    def act(self, act, i):
        E, P, part = self.E, self.P, self.part
        H = P.headers
        v = E.bytes("v%d" % i, 1)
        if act in ("aad", "aad back"):
            self.a = v if act == "aad" else self.a0
            part.external_aad = self.a
        elif act in ("payload", "payload back"):
            if self.group != "enc":
                self.p = v if act == "payload" else self.p0
                self.msg.payload = self.p
        elif act in ("phdr_update", "phdr back"):
            self.ph[4] = v if act == "phdr_update" else self.ph0[4]
            part.phdr_update({H.KID: self.ph[4]})
        elif act == "phdr assign":
            self.ph = {1: self.ph0[1], 4: v}
            part.phdr = libhdr(P, self.ph)
        elif act == "uhdr_update":
            part.uhdr_update({H.ContentType: 3})
        elif act in ("key", "key back"):
            self.k = self.k1 if act == "key" else self.k0
            self.arm(self.msg, part, self.a, self.k)
        elif act == "key value":
            self.k = self.k1 if self.k is self.k0 else self.k0
            if self.group == "sign":
                part.key.x = lib.sig_key(self.E, self.P, "EdDSA", i=self.k, public=True)[0].x
            else:
                part.key.k = self.k
        elif act in ("proof", "proof back"):
            self.proof = self.proof0
            if act == "proof":
                ph = {1: self.ph0[1], 4: v}
                self.proof = self.prove(ph, self.a0, self.p0, self.k0)
            if self.group == "sign":
                part.signature = self.proof
            elif self.group == "mac":
                part.auth_tag = self.proof
            else:
                part.payload = self.proof
        elif act == "another":
            ph = {1: self.ph0[1], 4: v}
            m2, p2 = self.receive(ph, self.p0, self.prove(ph, self.a0, self.p0, self.k0))
            self.arm(m2, p2, self.a0, self.k0)
            self.verdict(m2, p2, True)
        elif act == "again":
            self.ph, self.p, self.proof = dict(self.ph0), self.p0, self.proof0
            self.msg, self.part = self.receive(self.ph0, self.p0, self.proof0)
            self.arm(self.msg, self.part, self.a, self.k)
        elif act == "send on":
            if self.kind == "sign1":
                m = E.decode(self.msg.encode(sign=False)).value
                E.check(E.eq(m, [prot(E, self.ph), m[1], self.p, self.proof]), "sent on as it is")
            elif self.kind == "enc0":
                m = E.decode(self.msg.encode(encrypt=False)).value
                E.check(E.eq(m, [prot(E, self.ph), m[1], self.proof]), "sent on as it is")

    def verdict(self, msg, part, good):
        E = self.E
        if self.group == "enc":
            r = E.run(msg.decrypt, *([msg.recipients[0]] if self.kind == "encn" else []))
            E.check(E.iff(r.ok, good), "decrypts exactly the authentic content")
            if r.ok:
                E.check(E.eq(r.value, self.p0), "to the plaintext")
        else:
            r = E.run(part.verify_signature if self.group == "sign" else part.verify_tag)
            E.check(r.ok, "an answer")
            E.check(E.iff(r.value, good), "valid exactly for the protected content")

    def observe(self):
        E = self.E
        same = self.k is self.k0 if self.group == "sign" else E.eq(self.k, self.k0)
        good = E.all(same, E.eq(self.proof, self.proof0), E.eq(self.structure(self.ph, self.a, self.p),
                                                                self.structure(self.ph0, self.a0, self.p0)))
        now = False
        if self.proof is not self.proof0:
            # the replaced proof may have become the right one
            now = E.eq(self.proof, self.prove(self.ph, self.a, self.p0 if self.group == "enc" else self.p, self.k))
        self.verdict(self.msg, self.part, E.any(good, now))


def _received(E, P, kind, first):
    h = Received(E, P, kind)
    if E.choice("before", [True, False]):
        h.observe()
    h.act(first, 1)
    if E.choice("between", [True, False]):
        h.observe()
    h.act(E.choice("act2", h.ACTS), 2)
    h.observe()


FIRST = ["aad", "phdr_update", "key", "key value", "another"]


@case("S02", first=FIRST, thorough={"first": Received.ACTS})
def sign1_received_history(E, P, first):
    """Verification of a received message repeated while one thing at a time changes (and changes back): the answer is
    the one for the content, key and signature of the moment."""
    _received(E, P, "sign1", first)


@case("S03", first=FIRST, thorough={"first": Received.ACTS})
def sign_received_history(E, P, first):
    """The same for a signer of COSE_Sign."""
    _received(E, P, "signn", first)


@case("M02", first=FIRST, kind=["mac0", "macn"], thorough={"first": Received.ACTS})
def mac_received_history(E, P, first, kind):
    """The same for COSE_Mac0 and COSE_Mac."""
    _received(E, P, kind, first)


@case("A02", first=FIRST, kind=["enc0", "encn"], thorough={"first": Received.ACTS})
def enc_received_history(E, P, first, kind):
    """The same for COSE_Encrypt0 and COSE_Encrypt."""
    _received(E, P, kind, first)
