"""python3-vt -m vlib.dbg ID SUB REPLAY : runs one replay case and prints the driver log."""
import os, sys, json, ast, importlib
from vlib import build as B, core, drv
os.environ["DRV_LOG"] = "1"
mod = importlib.import_module("checks." + sys.argv[1].lower())
r = json.load(open(sys.argv[2]))
sub = [s for s in mod.SUBS if s.name == r["sub"]][0]
case = ast.literal_eval(r["case"])
print("CASE", repr(case)[:3000])
ctx = core.Ctx(B.build(sub.driver, sub.opts), sub.cpu); ctx.known = {}
orig = drv.Driver.raw
def raw(self, *a):
    res = orig(self, *a)
    print("CALL", [str(x)[:200] for x in a][:60]); print("STATUS", res.status, res.complete); print("LOG", res.log.decode("utf-8", "replace")[:6000]); print("OUT", [b[:300] for b in res.blobs][:60])
    return res
drv.Driver.raw = raw
try:
    sub.oracle(ctx, case); print("PASSED")
except core.Violation as v:
    print("VIOLATION", str(v)[:3000])
ctx.close()
