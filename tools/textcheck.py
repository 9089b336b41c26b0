"""Differential test of the symbolic text methods: on every path, the model's strings give the same result in Python.

python3-vt tools/textcheck.py"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append("/opt/venv/lib/python3.12/site-packages")
import z3  # noqa: E402
from vt import sym, hooks, symenv  # noqa: E402,F401

OPS = {
    "isdigit": lambda s, t: s.isdigit(), "isalpha": lambda s, t: s.isalpha(), "isalnum": lambda s, t: s.isalnum(),
    "isspace": lambda s, t: s.isspace(), "isupper": lambda s, t: s.isupper(), "islower": lambda s, t: s.islower(),
    "isident": lambda s, t: s.isidentifier() if s.__class__ is str else s.isascii(),
    "find": lambda s, t: s.find(t), "rfind": lambda s, t: s.rfind(t), "count": lambda s, t: s.count(t),
    "split": lambda s, t: s.split(t) if len(t) else [], "split1": lambda s, t: s.split(t, 1) if len(t) else [],
    "partition": lambda s, t: list(s.partition(t)) if len(t) else [],
    "rpartition": lambda s, t: list(s.rpartition(t)) if len(t) else [],
    "prefix": lambda s, t: s.removeprefix(t), "suffix": lambda s, t: s.removesuffix(t), "zfill": lambda s, t: s.zfill(4),
    "swapcase": lambda s, t: s.swapcase(), "capitalize": lambda s, t: s.capitalize(), "title": lambda s, t: s.title(),
    "upper": lambda s, t: s.upper(), "lower": lambda s, t: s.lower(), "strip": lambda s, t: s.strip(),
    "lstrip": lambda s, t: s.lstrip(t[:1]) if len(t) and len(t) < 2 else s, "replace": lambda s, t: s.replace(t, s[:1])
    if len(t) else s, "in": lambda s, t: s.__contains__(t), "join": lambda s, t: s + t + s,
}


def plain(E, m, v):
    if isinstance(v, (list, tuple)):
        return [plain(E, m, x) for x in v]
    if type(v) is sym.SymBytes:
        return E._bytes(m, v)
    if type(v) is sym.SymStr:
        return E._bytes(m, sym.mkbytes(v._r)).decode() if v._r else ""
    if type(v) is sym.SymBool:
        return z3.is_true(m.eval(v._e, model_completion=True))
    if type(v) is sym.SymInt:
        return m.eval(v._e, model_completion=True).as_long()
    return v


def main():
    bad = n = 0
    for kind in ("str", "bytes"):
        for name, f in OPS.items():
            stats, stack = sym.Stats(), [[]]
            while stack:
                ctx = sym.Ctx(stack.pop(), stats, sym.Opts)
                sym.set_ctx(ctx)
                E = symenv.SymE(ctx, "quick")
                s, t = getattr(E, kind)("s", 0, 3), getattr(E, kind)("t", 0, 2)
                try:
                    out = f(s, t)
                    if type(out) is sym.SymBool:
                        out = bool(out)
                except sym.Control:
                    stack.extend(ctx.alts)
                    continue
                stack.extend(ctx.alts)
                m = ctx.get_model()
                cs, ct = plain(E, m, s), plain(E, m, t)
                want, got = f(cs, ct), plain(E, m, out)
                want = list(want) if isinstance(want, tuple) else want
                n += 1
                if want != got:
                    bad += 1
                    print(kind, name, repr(cs), repr(ct), "wants", repr(want), "got", repr(got))
            if stats.pins:
                print(kind, name, "pinned", stats.pin_sites)
    print("%d paths, %d differ" % (n, bad))
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
