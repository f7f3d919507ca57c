"""Lemmas about the specifications (not about the code), checked by Lean."""
import os
import re
import shutil
import subprocess

from values import Unsupported

HERE = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ALLOWED = {"propext", "Classical.choice", "Quot.sound"}


def lean(ctx, name):
    path = os.path.join(HERE, "lemmas", name + ".lean")
    exe = shutil.which("lean")
    if exe is None:
        raise Unsupported("lean is not installed")
    with open(path) as handle:
        text = handle.read()
    run = subprocess.run([exe, path], capture_output=True, text=True, timeout=380, check=False)
    out = run.stdout + run.stderr
    if "unknown module" in out or "object file" in out:
        raise Unsupported("Mathlib is not available to lean")
    ok = run.returncode == 0 and "error" not in out and "sorry" not in out
    for match in re.finditer(r"depends on axioms: \[([^\]]*)\]", out):
        ok = ok and {a.strip() for a in match.group(1).split(",")} <= ALLOWED
    if not ok:  # nothing in /repo can cause this
        raise Unsupported("lean does not accept the lemmas: " + out[-1500:])
    for thm in re.findall(r"^theorem (\w+)", text, re.M):
        ctx.record(f"lemma {thm} (lean)", ok, out[-2000:])
