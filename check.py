#!/opt/venv/bin/python
"""check.py ID            run the check of a property (VERIF_TIER, VERIF_SEED)
check.py --replay FILE    evaluate a recorded counterexample on the real library"""
import os
import sys

for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
PY = "/opt/venv/bin/python"
if os.path.realpath(sys.prefix) != "/opt/venv" and os.path.exists(PY) and not os.environ.get("VERIF_REEXEC"):
    os.environ["VERIF_REEXEC"] = "1"
    os.execv(PY, [PY, "-B"] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main(argv):
    import warnings

    warnings.filterwarnings("ignore")
    from symbss import catalog as props, runner

    if argv and argv[0] == "--list":
        for p in props.PROPS.values():
            print(p.id, p.title, len(list(p.cases("quick"))), len(list(p.cases("thorough"))))
        return 0
    if argv and argv[0] == "--replay":
        return runner.do_replay(props.PROPS, argv[1])
    if argv and argv[0] == "--hunt":
        return runner.do_hunt(props.PROPS, argv[1], argv[2], int(argv[3]), argv[4], argv[5])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
        argv = [a for a in argv if a != "--thorough"]
    if "--quick" in argv:
        tier = "quick"
        argv = [a for a in argv if a != "--quick"]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return runner.run_property(props.PROPS[argv[0]], tier, seed)


sys.exit(main(sys.argv[1:]))
