"""Helper to make and test planted bugs (/verif/seeded/<id>)."""
import json, os, subprocess, shutil, sys, tempfile
V, R = "/verif", "/repo"
DEMO = '''#!/bin/bash
# Fails (non-zero) when the planted change is in the tree; run with cwd /repo.
d=$(cd "$(dirname "$0")" && pwd); repo=$PWD
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
cp "$d"/*.go "$t"/ || exit 3
printf 'module demo\\n\\ngo 1.22\\n\\nrequire github.com/qiniu/text v0.0.0\\n\\nreplace github.com/qiniu/text => %s\\n' "$repo" > "$t/go.mod"
cd "$t" && go build %RACE%-o demo . || exit 3
timeout 60 ./demo
'''
def run(cmd, **k):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

def make(id, prop, edits, demo, needs, breaks, race=False, demo_sh=None, extra=None):
    """edits: [(file, old, new)]"""
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        assert run(f"git -C {R} worktree list").returncode == 0
        r = f"{w}/repo"
        shutil.copytree(R, r, symlinks=True)
        assert run(f"git -C {r} status --porcelain").stdout == "", "dirty repo"
        for f, old, new in edits:
            s = open(f"{r}/{f}").read()
            assert s.count(old) == 1, (f, old, s.count(old))
            open(f"{r}/{f}", "w").write(s.replace(old, new))
        p = run(f"git -C {r} diff")
        open(f"{d}/patch.diff", "w").write(p.stdout)
        if demo is not None:
            open(f"{d}/main.go", "w").write(demo)
        for n, t in (extra or {}).items():
            open(f"{d}/{n}", "w").write(t)
        open(f"{d}/demo.sh", "w").write(demo_sh or DEMO.replace("%RACE%", "-race " if race else ""))
        os.chmod(f"{d}/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
        env = ". /opt/vp/env.sh; "
        b = run(env + "go build ./...", cwd=r)
        if b.returncode: return print(id, "DOES NOT BUILD", b.stdout)
        t = run(env + "go test -vet=off -count=1 ./... ./tpl/cmd/tplgen/testdata 2>&1 | grep -E '^(---|FAIL|panic)'", cwd=r)
        if t.stdout.strip(): return print(id, "TESTS FAIL", t.stdout)
        a = run(f"bash {d}/demo.sh", cwd=R)
        m = run(f"bash {d}/demo.sh", cwd=r)
        ok = a.returncode == 0 and m.returncode not in (0, 3)
        print(id, prop, "ok" if ok else "BAD DEMO", "clean:", a.returncode, "planted:", m.returncode, "" if ok else a.stdout[-600:] + m.stdout[-600:], flush=True)
    finally:
        shutil.rmtree(w)

def check(ids=None, props=None):
    """applies each planted bug to /repo, runs the check of its property, and undoes it."""
    res = {}
    for id in sorted(ids or os.listdir(f"{V}/seeded")):
        prop = json.load(open(f"{V}/seeded/{id}/meta.json"))["property"]
        assert run(f"git -C {R} status --porcelain").stdout == "", "dirty repo"
        try:
            assert run(f"git -C {R} apply {V}/seeded/{id}/patch.diff").returncode == 0
            for q in props or [prop]:
                c = run(f"./check.sh {q}", cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
                hit = c.returncode == 1 and f"VIOLATION property={q}" in c.stdout
                print(id, q, "CAUGHT" if hit else f"missed (exit {c.returncode})", flush=True)
                res[id, q] = hit
                if not hit and c.returncode: print(c.stdout[-1500:])
        finally:
            run(f"git -C {R} checkout -- .")
    return res

if __name__ == "__main__":
    check(sys.argv[1:] or None)
