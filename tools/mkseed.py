"""mkseed.py SPEC.py: makes seeded/<id>/ from a description: ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], MAIN, DEPS."""
import json, os, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
d = "/verif/seeded/" + ns["ID"]
os.makedirs(d, exist_ok=True)
assert subprocess.run(["git", "-C", "/repo", "diff", "--quiet"]).returncode == 0, "dirty"
try:
    for f, old, new in ns["EDITS"]:
        p = "/repo/" + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout)
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
if "DEMO" in ns:
    open(d + "/demo.sh", "w").write(ns["DEMO"])
else:
    t = open("/verif/tools/%s.sh" % ("demo_ffi" if ns.get("FFI") else "demo_template")).read().replace("@DEPS@", ns.get("DEPS", 'libc = "0.2"\nlog = "0.4"\nmd-5 = "0.10"\ncrc32fast = "1.4"' if ns.get("FFI") else ""))
    open(d + "/demo.sh", "w").write(t)
    open(d + "/main.rs", "w").write(ns["MAIN"])
os.chmod(d + "/demo.sh", 0o755)
