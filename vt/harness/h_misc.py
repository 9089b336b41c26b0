"""Hash algorithms and X.509 helpers."""
from vt.registry import case
from . import lib
from .h_headers import ALGS

# name -> (hash, digest bytes, kept bytes)
HASHES = {"Sha1": ("sha1", 20, 20), "Sha256": ("sha256", 32, 32), "Sha256Trunc64": ("sha256", 32, 8),
          "Sha384": ("sha384", 48, 48), "Sha512": ("sha512", 64, 64), "Sha512Trunc256": ("sha512", 64, 32),
          "Shake128": ("shake_128", 32, 32), "Shake256": ("shake_256", 64, 64)}


def ref(E, alg, data):
    h, n, k = HASHES[alg]
    return E.hash(h, data, n)[:k]


@case("X01", alg=sorted(HASHES))
def hashes(E, P, alg):
    """Every hash algorithm gives its hash of any data, at its length (truncated where the name says so)."""
    d = E.bytes("data", 0, E.bound(8, 64))
    A = lib.alg(P, alg)
    h = A.compute_hash(d)
    E.check(E.eq(h, ref(E, alg, d)), "the hash")
    E.check(len(h) == HASHES[alg][2], "its length")
    E.check(E.eq(A.compute_hash(d), h), "again the same")


@case("X01", alg=sorted(HASHES))
def thumbprint(E, P, alg):
    """A thumbprint of a certificate is [algorithm, hash]; it matches a certificate exactly if its hash is the
    thumbprint; CBOR-encoded certificates are unwrapped first; it survives a message header."""
    X = P.x509.X5T
    A = lib.alg(P, alg)
    c, c2 = E.bytes("cert", 0, 6), E.bytes("cert2", 0, 6)
    wrapped = E.choice("cbor", [False, True])
    t = X.from_certificate(A, E.cbor(c) if wrapped else c, wrapped)
    want = ref(E, alg, c)
    E.check(E.eq(t.thumbprint, want) and t.alg is A, "thumbprint")
    other = E.choice("other cbor", [False, True])
    r = t.matches(E.cbor(c2) if other else c2, other)
    E.check(E.iff(r, E.eq(want, ref(E, alg, c2))), "matches exactly the certificates with this hash")
    H = P.headers
    where = E.choice("bucket", ["phdr", "uhdr"])
    m = P.Sign1Message(**{where: {H.X5t: t.encode()}}, payload=b"")
    m.signature = b"s"
    body = E.decode(m.encode(sign=False)).value
    bucket = body[1] if where == "uhdr" else E.decode(body[0])
    E.check(E.eq(bucket, {34: [lib.ALG_ID[alg], want]}), "identifier and hash in the message")
    back = X.decode(bucket[34])
    E.check(back == t and back.alg is A and E.eq(back.thumbprint, want), "decodes to an equal thumbprint")


@case("X01", alg=sorted(HASHES))
def thumbprint_given(E, P, alg):
    """A given thumbprint matches exactly the certificates with that hash, an empty or a shortened one none; two
    thumbprints are equal exactly if algorithm and bytes are."""
    X = P.x509.X5T
    A = lib.alg(P, alg)
    c, t = E.bytes("cert", 0, 4), E.bytes("t", 0, E.bound(10, 66))
    x = X.decode([lib.ALG_ID[alg], t])
    E.check(E.iff(x.matches(c), E.eq(t, ref(E, alg, c))), "matches exactly its hash")
    h = ref(E, alg, c)
    near = E.choice("near", ["empty", "one byte", "all but the last", "one more", "tail", "the hash"])
    z = {"empty": b"", "one byte": h[:1], "all but the last": h[:-1], "one more": h + b"\0", "tail": h[1:],
         "the hash": h}[near]
    E.check(E.eq(X.decode([lib.ALG_ID[alg], z]).matches(c), near == "the hash"), "part of its hash")
    u = E.bytes("u", 0, 4)
    o = E.choice("o", sorted(HASHES))
    y = X.decode([lib.ALG_ID[o], u])
    E.check(E.iff(x == y, E.all(o == alg, E.eq(t, u))), "equality")


@case("X01", what=["unknown", "known"])
def thumbprint_algorithm(E, P, what):
    """The algorithm of a received thumbprint is the registered one with that number or name; others are refused."""
    n = E.int("n", -300, 300)
    E.assume(E.not_(E.eq(n, -11)))  # DirecHKDFSHA512, not in this table
    known = E.any(*[E.eq(n, v[0]) for v in ALGS.values()])
    E.assume(known if what == "known" else E.not_(known))
    r = E.run(P.x509.X5T.decode, [n, b"x"])
    E.check(r.ok == (what == "known"), "registered algorithms only")
    if r.ok:
        E.check(E.eq(r.value.alg.identifier, n), "that algorithm")
    else:
        E.check(r.raised("CoseException"), "CoseException")


@case("X02", kind=["X5Bag", "X5Chain"])
def certificates(E, P, kind):
    """One certificate is carried as a byte string, several as a list in order, in every header bucket."""
    C = getattr(P.x509, kind)
    n = E.choice("n", [0, 1, 2, 3, 7])
    cs = [E.bytes("c%d" % i, 0, 4) for i in range(n)]
    given = E.choice("given", ["list", "bytes"]) if n == 1 else "list"
    x = C(cs if given == "list" else cs[0])
    want = cs[0] if n == 1 else cs
    E.check(E.eq(x.encode(), want), "byte string or list")
    H = P.headers
    label, attr = (32, H.X5bag) if kind == "X5Bag" else (33, H.X5chain)
    where = E.choice("bucket", ["phdr", "uhdr"])
    m = P.Enc0Message(**{where: {attr: x.encode()}}, payload=b"")
    wire = m.encode(encrypt=False)
    body = E.decode(wire).value
    E.check(E.eq(body[1] if where == "uhdr" else E.decode(body[0]), {label: want}), "in the message")
    got = P.CoseMessage.decode(wire)
    E.check(E.eq(got.get_attr(attr), want), "read back")
    E.check(E.eq(C(got.get_attr(attr)).encode(), want), "again")
    u = P.x509.X5U("https://example.org")
    m = P.Enc0Message(uhdr={H.X5u: u.encode()}, payload=b"")
    E.check(E.eq(E.decode(m.encode(encrypt=False)).value[1], {35: "https://example.org"}), "URI")


@case("X02", given=["list", "bytes"])
def chain_validation(E, P, given):
    """Chain validation is asked for the first certificate with the others as intermediates, for the key usages given
    (digital signature when constructing), and its refusal is not swallowed."""
    import certvalidator
    V = certvalidator.CertificateValidator
    n = E.choice("n", [1, 2, 3, 6] + ([] if E.tier == "quick" else [4, 5, 12, 30])) if given == "list" else 1
    cs = [E.bytes("c%d" % i, 0, 4) for i in range(n)]
    refuse = E.choice("refuse", [False, True])
    usage = E.choice("usage", [{"digital_signature"}, {"key_agreement"}, {"key_cert_sign", "crl_sign"}])
    calls = []

    def init(self, end_entity_cert, intermediate_certs=None, validation_context=None):
        calls.append([end_entity_cert, list(intermediate_certs or [])])

    def check(self, key_usage, extended_key_usage=None, extended_optional=False):
        calls[-1].append(set(key_usage))
        if refuse:
            raise ValueError("not valid")
        return "path"
    saved = V.__init__, V.validate_usage
    V.__init__, V.validate_usage = init, check
    try:
        arg = cs if given == "list" else cs[0]
        a = E.run(P.x509.X5Chain, arg)
        E.check(a.ok and not calls, "not validated unless asked")
        b = E.run(P.x509.X5Chain, arg, verify=True)
        c = E.run(a.value.verify_chain, usage)
    finally:
        V.__init__, V.validate_usage = saved
    E.check(b.ok == (not refuse) and c.ok == (not refuse), "refused exactly if the validator refuses")
    E.check(len(calls) == 2 and all(len(k) == 3 for k in calls), "validated when asked")
    for k in calls:
        E.check(E.eq(k[:2], [cs[0], cs[1:]]), "end entity and intermediates")
    E.check(calls[0][2] == {"digital_signature"} and calls[1][2] == usage, "key usage")
