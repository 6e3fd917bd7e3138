"""setup_cmd: the tools run, and the arithmetic library of the spec is right."""
import os, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from harness.core import tlc, PY  # noqa: E402

d = tempfile.mkdtemp()
try:
    rc, out, err = tlc("MCNum", "INIT Init\nNEXT Next\nINVARIANT Small\nINVARIANT Ring\nINVARIANT Div\n"
                       "CHECK_DEADLOCK FALSE\n", d, workers=2)
    if rc != 0:
        print(out[-3000:], err[-500:])
        sys.exit(1)
    for need in (PY, "/usr/bin/gcc"):
        if not os.path.exists(need):
            print("missing", need)
            sys.exit(1)
finally:
    shutil.rmtree(d, ignore_errors=True)
print("setup ok")
