#!/usr/bin/env python3
"""selftest.py [runs [strategy [filter]]]: conformance of the rewriting and of the
simulator. The module's own test suite is rewritten with the code and executed inside
the simulator; on the unchanged tree every test that passes natively must pass."""
import glob, json, os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(os.path.dirname(here))
repo = os.environ.get("VERIF_REPO", "/repo")
mod = "github.com/wearelumenai/distclus"
def sh(cmd, **k):
    subprocess.run(["bash", "-c", ". /opt/vp/env.sh; set -e; " + cmd], check=True, **k)
tmp = tempfile.mkdtemp(prefix="distclus-selftest.")
try:
    src, out = tmp + "/src", tmp + "/out"
    os.makedirs(src)
    sh("cd %s && git ls-files -z | xargs -0 cp --parents -t %s" % (repo, src))
    pk = {}
    for f in sorted(glob.glob(src + "/**/*_test.go", recursive=True)):
        s = open(f).read()
        p = re.search(r"^package (\w+)", s, re.M).group(1)
        d = os.path.dirname(f)
        ext = p.endswith("_test")
        if ext:
            d = d + "/zzext"
            s = s.replace("package " + p, "package " + p[:-5] + "zz", 1)
            p = p[:-5] + "zz"
        os.makedirs(d, exist_ok=True)
        open(d + "/" + os.path.basename(f)[:-8] + "_zz.go", "w").write(s)
        os.remove(f)
        rel = os.path.relpath(d, src)
        pk.setdefault((rel, p), []).extend(re.findall(r"^func (Test\w*)\(\w+ \*testing\.T\)", re.sub(r"/\*.*?\*/", "", s, flags=re.S), re.M))
    imports, tests = [], []
    for i, ((rel, p), l) in enumerate(sorted(pk.items())):
        if not l: continue
        with open(src + "/" + rel + "/zz_list.go", "w") as f:
            f.write("package %s\n\nimport \"testing\"\n\n// ZZTests lists the tests.\nfunc ZZTests() map[string]func(*testing.T) {\n\treturn map[string]func(*testing.T){\n" % p)
            for t in l: f.write("\t\t%s: %s,\n" % (json.dumps(t), t))
            f.write("\t}\n}\n")
        imports.append('\tp%d "%s/%s"' % (i, mod, rel))
        base = rel[:-6] if rel.endswith("/zzext") else rel
        tests.append('\tfor n, f := range p%d.ZZTests() {\n\t\tl = append(l, test{"%s/%s/" + n, f})\n\t}' % (i, mod, base))
    sh("cd %s/sim/rewriter && go build -o %s/rewriter ." % (verif, tmp))
    sh("%s/rewriter -tests -repo %s -out %s" % (tmp, src, out))
    shutil.copytree(verif + "/sim/zzdst", out + "/zzdst", dirs_exist_ok=True)
    os.makedirs(out + "/zzdst/ztesting"); shutil.copy(here + "/ztesting.go", out + "/zzdst/ztesting/")
    os.makedirs(out + "/zzself")
    m = open(here + "/main.go.txt").read().replace("@@IMPORTS@@", "\n".join(imports)).replace("@@TESTS@@", "\n".join(tests))
    open(out + "/zzself/main.go", "w").write(m)
    sh("cd %s && go build -o %s/self ./zzself" % (out, tmp))
    a = sys.argv[1:] or ["3"]
    if len(a) < 2: a.append("delay")
    r = subprocess.run([tmp + "/self"] + a, capture_output=True, text=True)
    print(r.stdout[-20000:], r.stderr[-3000:])
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    ok = set(re.findall(r"^ok   (\S+)", r.stdout, re.M)); bad = set(re.findall(r"^FAIL (\S+)", r.stdout, re.M))
    print("stable tests: %d, passed in the simulator: %d, failed: %s, not run: %s" % (len(stable), len(stable & ok), sorted(stable & bad), sorted(stable - ok - bad) if len(a) < 3 else "(filtered)"))
finally:
    shutil.rmtree(tmp)
