import importlib.util, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
pid = sys.argv[1]
path = os.path.join(vlib.VERIF, "checks", pid + ".py")
spec = importlib.util.spec_from_file_location(pid, path)
m = importlib.util.module_from_spec(spec)
try:
    spec.loader.exec_module(m)
    c = vlib.Check(pid)
    m.run(c)
    sys.exit(c.finish())
except vlib.CheckError as e:
    print("CHECK-ERROR", e, flush=True)
    sys.exit(2)
except Exception:
    traceback.print_exc()
    print("CHECK-ERROR unexpected", flush=True)
    sys.exit(2)
