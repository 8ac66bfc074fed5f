#!/opt/venv/bin/python
"""Development helper: (re)writes /verif/seeded/<id>/ from the table of planted bugs in tools/bugs_table.py.
Edits are text replacements against /repo's HEAD; usage: bugs.py [id...]"""
import importlib.util, json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
spec = importlib.util.spec_from_file_location("t", HERE + "/bugs_table.py"); t = importlib.util.module_from_spec(spec); spec.loader.exec_module(t)
only = sys.argv[1:]
for b in t.BUGS:
    if only and b["id"] not in only:
        continue
    tmp = tempfile.mkdtemp(prefix="bug-")
    subprocess.run(f"git -C /repo archive HEAD python js | tar x -C {tmp} && cd {tmp} && git init -q && git add -A && git -c user.email=a@b -c user.name=n commit -qm x", shell=True, check=True)
    ok = True
    for f, old, new in b["edits"]:
        p = f"{tmp}/{f if f.startswith('js/') else 'python/moz/l10n/' + f}"
        s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "edit does not apply", f, s.count(old), repr(old[:60])); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if ok:
        d = f"/verif/seeded/{b['id']}"
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "diff"], cwd=tmp, capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.py", "w").write(b["demo"].strip() + "\n")
        open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0 on the unchanged tree, nonzero with the patch; cwd is /repo\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(tmp)
