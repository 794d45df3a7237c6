#!/usr/bin/env python3
"""Sanity check of the toolchain: builds and runs one trivial program per sanitizer variant. Every check builds what it needs itself."""
import os, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import VARIANTS
with tempfile.TemporaryDirectory() as d:
    open(d + "/t.c", "w").write("#include <openssl/ssl.h>\nint main(void) { return !OpenSSL_version_num(); }\n")
    for n, v in VARIANTS.items():
        subprocess.run([v["cc"], *v["cflags"], "-o", d + "/t", d + "/t.c", "-lssl", "-lcrypto", "-lpthread"], check=True)
        subprocess.run((["setarch", "-R"] if v.get("setarch") else []) + [d + "/t"], check=True)
os.makedirs(V + "/evidence", exist_ok=True)
print("toolchain ok")
