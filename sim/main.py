import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if sys.path[1:] and os.path.basename(sys.path[1]) == "sim":
    del sys.path[1]


def main(argv):
    if argv[:1] == ["worker"]:
        from sim import worker
        return worker.main(argv[1])
    if argv[:1] == ["--replay"]:
        from sim import runner
        return runner.replay(argv[1])
    if argv[:1] == ["--selftest"]:
        from sim import selftest
        return selftest.main(argv[1:])
    from sim import runner
    tier = os.environ.get("VERIF_TIER", "quick")
    args = [a for a in argv if not a.startswith("--")]
    if "--thorough" in argv:
        tier = "thorough"
    if "--quick" in argv:
        tier = "quick"
    return runner.check(args[0], tier)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
