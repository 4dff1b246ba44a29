"""check.py PROPERTY [--replay FILE]: decides one property of /repo's current tree."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VENV = "/opt/vp/venv/bin/python"
if os.environ.get("PTVERIF_PY") != "1":
    # the interpreter that has the project's own dependencies
    env = dict(os.environ, PTVERIF_PY="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=os.environ.get("VERIF_REPO", "/repo"))
    py = VENV if os.path.exists(VENV) else sys.executable
    os.execve(py, [py] + sys.argv, env)
sys.path[:0] = [os.path.join(os.path.dirname(HERE), "lib"), HERE]
sys.dont_write_bytecode = True


def main():
    import importlib
    import runner
    prop = sys.argv[1]
    replay = None
    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
            replay = json.load(f)["replay"]
    mod = {"C01": "runtime", "C02": "c02", "C03": "c03", "C04": "runtime", "C05": "runtime", "C06": "runtime"}.get(prop, prop.lower())
    try:
        importlib.import_module(mod).run(prop, replay=replay)
    except runner.BuildError as e:
        print("cannot build /repo's current tree:\n%s" % e)
        sys.exit(2)


if __name__ == "__main__":
    main()
