#!/usr/bin/env python3
"""usage: tools/seeded.py [id-prefix ...]

Applies every planted bug of seeded/ to a scratch copy of /repo, runs the check of its property (quick tier) against the
copy, and rewrites the table at the end of DESIGN.md (rows of bugs not run are kept). Not part of any check."""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- seeded table -->\n"
ids = sorted(i for i in os.listdir(ROOT + "/seeded") if not sys.argv[1:] or any(i.startswith(a) for a in sys.argv[1:]))
design = open(ROOT + "/DESIGN.md").read()
head, _, tail = design.partition(MARK)
rows = dict(re.findall(r"^\| ([a-z0-9-]+) (\|.*)$", tail, re.M))
for i in ids:
    meta = json.load(open("%s/seeded/%s/meta.json" % (ROOT, i)))
    tmp = tempfile.mkdtemp(prefix="seeded-")
    try:
        shutil.copytree("/repo/pycose", tmp + "/pycose")
        a = subprocess.run(["git", "apply", "--directory", "", "%s/seeded/%s/patch.diff" % (ROOT, i)], cwd=tmp,
                           capture_output=True, text=True)
        if a.returncode:
            print(i, "does not apply", a.stderr[-200:])
            continue
        r = subprocess.run([ROOT + "/check", meta["property"]], env=dict(os.environ, VT_REPO=tmp), capture_output=True,
                           text=True)
        case = ([re.sub(r"^\s*case ", "", l).split(" {")[0] for l in r.stdout.splitlines() if l.startswith("  case")] +
                [""])[0]
        rows[i] = "| %s | %s | %s |" % (meta["property"], "caught by %s" % case if r.returncode == 1 else
                                        "MISSED (exit %d)" % r.returncode, meta["needs"].replace("|", "/"))
        print(i, rows[i], flush=True)
    finally:
        shutil.rmtree(tmp)
rows = {i: r for i, r in rows.items() if os.path.isdir("%s/seeded/%s" % (ROOT, i))}
with open(ROOT + "/DESIGN.md", "w") as f:
    f.write(head + MARK + "| bug | property | result of that property's check | needs |\n|---|---|---|---|\n" +
            "".join("| %s %s\n" % (i, rows[i]) for i in sorted(rows)))
