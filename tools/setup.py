"""setup: builds the harness (and its dependencies) into /verif/build/target."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
os.makedirs(vlib.BUILD, exist_ok=True)
vlib.invalidate_if_changed()
d = vlib.write_crate("gen_setup", {"gen_setup": "fn main() { let _ = vharness::json_str; }\n"})
ok, msgs, err = vlib.cargo(["build"], d, timeout=1500)
if not ok:
    print(err)
    sys.exit(1)
print("setup done")
