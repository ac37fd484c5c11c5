"""Runs one saved case and prints the steps and what was observed: python3-vt tools/trace.py ID FILE"""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import build, engine

d = json.load(open(sys.argv[2]))
E = engine.Engine
for n in ("o_conn", "o_req", "o_cmd", "o_cmdend", "m_connect", "m_transport_fail", "m_success", "m_refused", "jump"):
    def mk(n, f):
        def w(self, *a):
            s = repr(a)
            if n == "o_cmd":
                s = repr((a[0].argv[2:], {k: v for k, v in a[0].env.items() if k.startswith("PIZ")}))
            elif n == "jump":
                s = "+%.3f" % ((a[0] - self.t) / 1e9)
            print("    [%s] %s %s" % (self.ts(), n, s[:200]))
            return f(self, *a)
        return w
    setattr(E, n, mk(n, getattr(E, n)))
for n in dir(E):
    if n.startswith("op_"):
        def mk(n, f):
            def w(self, op):
                print("[%s] %s" % (self.ts(), json.dumps(op)[:200]))
                return f(self, op)
            return w
        setattr(E, n, mk(n, getattr(E, n)))
t = tempfile.mkdtemp(prefix="pz-trace-")
try:
    print(engine.run_scenario(d["case"], build.paths(), t))
finally:
    shutil.rmtree(t, ignore_errors=True)
