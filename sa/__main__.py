"""python3 -m sa Cxx [--thorough]: decide one property on /repo's current source."""
import importlib
import os
import sys

sys.setrecursionlimit(20000)


def main(argv):
    import threading
    props = [a for a in argv if a.upper().startswith("C")]
    tier = "thorough" if "--thorough" in argv else os.environ.get("VERIF_TIER", "quick")
    if "--quick" in argv:
        tier = "quick"
    root = next((a.split("=", 1)[1] for a in argv if a.startswith("--repo=")), "/repo")
    rc = []

    def work():
        from .program import Program
        from .report import Check
        try:
            prog = Program(root)
        except (SyntaxError, OSError) as e:
            print(f"cannot read the program: {e}")
            rc.append(2)
            return
        for p in props:
            mod = importlib.import_module(f"sa.rules.{p.lower()}")
            ck = Check(prog, p.upper(), tier, int(os.environ.get("VERIF_SEED", "1")))
            try:
                mod.run(ck)
            except Exception as x:      # what is not decided is said, and nothing is claimed about it
                ck.undecide("the rest of the rule", f"analysis stopped: {type(x).__name__}: {x}")
            if tier == "thorough":
                from . import sensitivity
                sensitivity.measure(ck, mod, root)
            rc.append(ck.finish())
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=work)
    t.start()
    t.join()
    return max(rc) if rc else 2


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
