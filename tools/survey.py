#!/usr/bin/env python3
"""survey.py TARGET SCENARIO [RUNS] [BASE]: failure classes of many runs, with an example of each (development aid)"""
import sys, os, re, collections, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import driver as D, build as B
t, sc = sys.argv[1], sys.argv[2]
n = int(sys.argv[3]) if len(sys.argv) > 3 else 4000
base = int(sys.argv[4]) if len(sys.argv) > 4 else 1
exe = B.build(t, os.environ.get("ARCH", "native"))
bad = []
stat = collections.Counter()
probes = collections.Counter()
lock = threading.Lock()
nxt = [0]
import time
t0 = time.time()
def work(i):
    s = D.Server(exe, i)
    while True:
        with lock:
            a = nxt[0]
            if a >= n: break
            nxt[0] += 50
        for r in s.range(sc, base, a, min(n, a + 50)):
            with lock:
                stat["runs"] += 1; stat["ev"] += r[6] if len(r) > 6 else 0
                if r[7] != "-":
                    bad.append((len(bad), r[0], r[7]))
    with lock:
        for k, v in s.probes().items(): probes[k] += v
    s.close()
ts = [threading.Thread(target=work, args=(i,)) for i in range(8)]
[x.start() for x in ts]; [x.join() for x in ts]
print(stat, "%.1fs" % (time.time() - t0), dict(probes))
srv = D.Server(exe)
groups = collections.OrderedDict()
for i, seed, cls in sorted(bad)[:int(os.environ.get("MAXBAD", "300"))]:
    r = srv.seed(sc, seed)
    fr = D.symbolise(exe, r.trace)
    m = re.sub(r"\d+", "N", r.msg)[:60] if os.environ.get("BYMSG") else ""
    key = (r.cls, D.site(fr) if not os.environ.get("NOSITE") else "", m)
    groups.setdefault(key, []).append((seed, r.msg, fr))
print(len(bad), "failures")
for k, v in sorted(groups.items(), key=lambda x: -len(x[1])):
    print("==", len(v), k[0], "|", k[1])
    print("   seed", v[0][0], v[0][1][:600])
    for f in v[0][2][:int(os.environ.get("FR", "6"))]: print("      ", f[:200])
