"""Entry point of every check: python3 -m vf.main <property id>."""
import importlib, json, os, sys, time, traceback
from . import common, tlc, build


def main():
    pid = sys.argv[1]
    mod = importlib.import_module("vf.checks." + pid.lower())
    c = common.Check(pid, mod.LEVEL)
    try:
        for k in c.known():
            pass
        mod.run(c)
    except common.Stop:
        pass
    except (tlc.TlcError, build.BuildError) as e:
        print("ERROR of the check: %s" % e)
        rc = c.finish()
        sys.exit(rc if rc else 2)
    except Exception:
        traceback.print_exc()
        rc = c.finish()
        sys.exit(rc if rc else 2)
    rc = c.finish()
    print("%s %s: %s, %.1fs, %s" % (pid, common.TIER, "VIOLATED" if rc else "held", time.time() - c.t0,
                                   json.dumps({k: v for k, v in c.cov.items() if isinstance(v, (int, bool))})))
    sys.exit(rc)


if __name__ == "__main__":
    main()
