"""newbug.py ID PROPERTY NEEDS BREAKS DEMO.cc: turn the uncommitted changes of the
scratch copy /tmp/plant_repo into seeded/ID and undo them there."""
import json, pathlib, shutil, subprocess, sys
V = pathlib.Path(__file__).resolve().parent.parent
R = "/tmp/plant_repo"
ident, prop, needs, breaks, demo = sys.argv[1:6]
d = V / "seeded" / ident
d.mkdir(parents=True, exist_ok=True)
diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True, check=True).stdout
assert diff.strip(), "no change"
(d / "patch.diff").write_text(diff)
(d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
shutil.copy(V / "tools" / "demo_common" / "demo.sh", d / "demo.sh")
shutil.copy(demo, d / "demo.cc")
shutil.copytree(V / "stubs", d / "stubs", dirs_exist_ok=True)
subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
print(d)
