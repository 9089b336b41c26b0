"""Cases: functions f(E, P, **params) that drive the real code and assert.

Imported both by the engine and by the replay interpreter, so it must not pull
in anything else."""
import itertools

CASES = {}


class Case:
    def __init__(self, prop, fn, quick, thorough, doc):
        self.prop, self.fn, self.quick, self.thorough = prop, fn, quick, thorough
        self.name = fn.__name__
        self.doc = doc

    def instances(self, tier):
        grid = dict(self.quick)
        if tier == "thorough":
            grid.update(self.thorough)
        keys = sorted(grid)
        for vals in itertools.product(*[grid[k] for k in keys]):
            yield dict(zip(keys, vals))


def case(prop, thorough=None, **quick):
    def deco(fn):
        CASES.setdefault(prop, {})[fn.__name__] = Case(prop, fn, quick, thorough or {}, (fn.__doc__ or "").strip())
        return fn
    return deco


class Result:
    """Outcome of a call: ok/value or the exception's class names."""

    def __init__(self, ok, value=None, exc=None):
        self.ok, self.value, self.exc = ok, value, exc
        self.names = [c.__name__ for c in type(exc).__mro__] if exc is not None else []

    def raised(self, *names):
        return any(n in self.names for n in names)

    @property
    def kind(self):
        return "ok" if self.ok else type(self.exc).__name__


class Ns:
    """The modules of pycose under short names, plus the common classes."""
    MODS = {
        "headers": "pycose.headers", "alg": "pycose.algorithms", "exc": "pycose.exceptions",
        "kp": "pycose.keys.keyparam", "ops": "pycose.keys.keyops", "kty": "pycose.keys.keytype",
        "crv": "pycose.keys.curves", "x509": "pycose.extensions.x509", "utils": "pycose.utils",
        "ctx": "pycose.messages.context", "rcpt": "pycose.messages.recipient", "rsamod": "pycose.keys.rsa",
    }
    CLS = {
        "CoseMessage": "pycose.messages.cosemessage", "Sign1Message": "pycose.messages.sign1message",
        "SignMessage": "pycose.messages.signmessage", "CoseSignature": "pycose.messages.signer",
        "Mac0Message": "pycose.messages.mac0message", "MacMessage": "pycose.messages.macmessage",
        "Enc0Message": "pycose.messages.enc0message", "EncMessage": "pycose.messages.encmessage",
        "CoseKey": "pycose.keys.cosekey", "EC2Key": "pycose.keys.ec2", "OKPKey": "pycose.keys.okp",
        "RSAKey": "pycose.keys.rsa", "SymmetricKey": "pycose.keys.symmetric",
        "CoseRecipient": "pycose.messages.recipient", "DirectEncryption": "pycose.messages.recipient",
        "DirectKeyAgreement": "pycose.messages.recipient", "KeyWrap": "pycose.messages.recipient",
        "KeyAgreementWithKeyWrap": "pycose.messages.recipient",
    }

    def __init__(self):
        import importlib
        import pycose.messages  # noqa: F401
        import pycose.keys  # noqa: F401
        for k, m in self.MODS.items():
            setattr(self, k, importlib.import_module(m))
        for k, m in self.CLS.items():
            setattr(self, k, getattr(importlib.import_module(m), k))
