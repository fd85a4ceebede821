"""Development: run scenarios with the options of engine/specs.py.
devrun.py SCN[,SCN...]   env: TMO D FW NF"""
import os, sys, time, signal, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
E_ = os.environ.get
def _h(*a):
    s = traceback.format_stack()
    print(len(s)); print("".join(s[-16:])); sys.stdout.flush(); os._exit(1)
signal.signal(signal.SIGALRM, _h); signal.alarm(int(E_("TMO", "100")))
import program, interp, specs
from terms import *
scns = [specs.SCENARIOS[x] for x in sys.argv[1].split(",")]
t = time.time()
p = program.load_program(drivers=sorted({s["driver"] for s in scns}))
print("load %.1f" % (time.time() - t))
for s in scns:
    sys.stdout.flush()
    if len(scns) > 1:
        pid = os.fork()
        if pid:
            os.waitpid(pid, 0)
            continue
        signal.alarm(int(E_("TMO", "100")))
    f = p.byname["verif_scn::" + s["name"]][0]
    it = interp.Interp(p, **interp.options(s))
    st = interp.State(); t = time.time()
    try:
        it.inline(f, None, [], None, st)
    except Exception:
        print("".join(traceback.format_exc().splitlines(True)[-9:]))
        if len(scns) > 1:
            sys.stdout.flush()
            os._exit(0)
        continue
    print("==", s["name"], "run %.1f steps %d visited %d" % (time.time() - t, it.steps, len(it.visited)))
    for n in sorted(it.notes): print("  note", n)
    for o in it.obligations: print("  ", o.label, o.ok, o.loc[1])
    for o in it.obligations:
        if not o.ok:
            print("   FAILED", o.label, show(o.facts.simp(o.term), int(E_("D", "7")))[:int(E_("FW", "1500"))])
            for l in o.facts.all()[:int(E_("NF", "0"))]:
                print("       ", show(l, int(E_("D", "4")))[:int(E_("FW", "200"))])
    if len(scns) > 1:
        sys.stdout.flush()
        os._exit(0)
