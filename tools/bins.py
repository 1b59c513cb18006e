#!/usr/bin/env python3
"""Regenerate the [[bin]] entries of the monitor crates from src/bin."""
import os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for c in ("space", "storage"):
    d = f"{here}/harness/{c}"
    p = f"{d}/Cargo.toml"
    s = open(p).read().split("\n[[bin]]")[0].rstrip() + "\n"
    for f in sorted(os.listdir(f"{d}/src/bin")):
        i = f[:-3]
        s += f'\n[[bin]]\nname = "{c}-{i}"\npath = "src/bin/{i}.rs"\n'
    open(p, "w").write(s)
