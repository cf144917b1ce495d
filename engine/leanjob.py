"""Mathematical lemmas used over the contracts, checked by Lean's kernel."""
import os, re, subprocess
from core import Ctx, Unsupported
DIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lean")


def entry(fn, args):
    path = os.path.join(DIR, args[0])
    src = open(path).read()
    ctx = Ctx("lean/" + args[0]) if False else None
    names = re.findall(r"^theorem\s+(\S+)", src, re.M)
    try:
        r = subprocess.run(["lean", path], capture_output=True, text=True, timeout=380)
    except (OSError, subprocess.TimeoutExpired) as e:
        raise Unsupported(f"lean: {type(e).__name__}")
    ok = r.returncode == 0 and "sorry" not in re.sub(r"/-.*?-/", "", src, flags=re.S) and "error" not in r.stdout
    class C:
        pass
    c = C()
    c.label, c.functions, c.n_paths, c.obls = "lean/" + args[0], [], 0, []
    for n in names:
        c.obls.append((("lean/" + args[0], "lemma " + n, "lean"), "proved" if ok else "unknown", None if ok else {"why": (r.stdout + r.stderr)[-1500:]}))
    return c
