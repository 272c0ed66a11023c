"""C25: the Python hash helper."""
import hashlib
import io
import runpy
import sys
from contextlib import redirect_stdout
import os

from hypothesis import strategies as s

from common import REPO, Spec, check, load, main

tool = load("SmartCache.utils.hash_tool")
PATH = os.path.join(REPO, "SmartCache/utils/hash_tool.py")


def run(case, rec):
    name = case["name"]
    want = hashlib.blake2b(name.encode("utf-8"), digest_size=8).digest()
    for _ in range(2):
        got = tool.hash_hexdigest(name)
        check(got == want.hex(), "the digest of {!r} is {!r}, its BLAKE2b digest is {}", name, got, want.hex())
        num = tool.hash_int(name)
        exp = int.from_bytes(want, "big") % 10000000000
        check(num == exp, "the identifier of {!r} is {!r}, its digest gives {}", name, num, exp)
    if case["cli"] and "\0" not in name:
        for target, exp in (("hex", want.hex()), ("int", str(exp))):
            out, old = io.StringIO(), sys.argv
            try:
                sys.argv = ["hash_tool.py", target, name]
                with redirect_stdout(out):
                    runpy.run_path(PATH, run_name="__main__")
            finally:
                sys.argv = old
            check(out.getvalue() == exp + "\n", "the command prints {!r} for {} of {!r}, expected {}", out.getvalue(), target, name, exp)
        rec.cls("command")
    if not name.isascii():
        rec.cls("non-ascii")
    if want[0] < 16:
        rec.cls("leading-zero")
    if name:
        rec.non_trivial()


path = s.lists(s.text("abcXYZ019_.-", min_size=1, max_size=16), min_size=1, max_size=9).map(lambda p: "/" + "/".join(p))
text = s.text(s.characters(exclude_categories=["Cs"]), max_size=300)
gen = s.fixed_dictionaries({"name": s.one_of(path, path, text, s.integers(0, 10 ** 9).map(lambda i: f"/store/data/file_{i}")), "cli": s.integers(0, 9).map(lambda i: i == 0)})

main(Spec("C25", "HashPy", "random names hashed by the Python helper against hashlib's BLAKE2b; non-trivial: the name is not empty", 3000, 50000, gen, run))
