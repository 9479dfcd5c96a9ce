"""Run a check: python mc/run.py C01 [--replay FILE]"""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True

from mc import core  # noqa: E402


def main(argv):
    prop = argv[0]
    if prop == "C18":
        from mc import c18
        c18.install()
    try:
        import jsgf
        import jsgf.ext
    except Exception as e:
        # The code cannot even be imported: nothing that is claimed holds.
        os.makedirs(os.path.join(core.VERIF, "replays"), exist_ok=True)
        rp = os.path.join("replays", "%s-import.json" % prop)
        with open(os.path.join(core.VERIF, rp), "w") as f:
            json.dump({"property": prop, "part": "import", "case": None,
                       "messages": [repr(e)]}, f)
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    assert os.path.dirname(os.path.abspath(jsgf.__file__)) == \
        os.path.join(core.REPO, "jsgf"), jsgf.__file__
    mod = importlib.import_module("mc." + prop.lower())
    if len(argv) > 2 and argv[1] == "--replay":
        with open(argv[2]) as f:
            data = json.load(f)
        judge = mod.PARTS[data["part"]]
        msgs = core.guarded(lambda c: judge(core.Result(), c), data["case"])
        print(json.dumps(data["case"]))
        for m in msgs:
            print("  " + m)
        print("REPLAY %s" % ("fails" if msgs else "passes"))
        return 1 if msgs else 0
    ctx = core.Ctx(prop)
    mod.run(ctx)
    return ctx.finish()


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
