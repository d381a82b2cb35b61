"""stand-in for matplotlib.pyplot: writes what would be plotted to the file named by VF_PLOT"""
import os, json, datetime
_calls = []
def _plain(v):
    return [x.isoformat() if isinstance(x, datetime.datetime) else (x if isinstance(x, str) else float(x)) for x in v]
class _Ax:
    def __init__(self, n): self.n = n
    def scatter(self, x, y, *a, **k): _calls.append([self.n, _plain(x), _plain(y)])
    def __getattr__(self, n): return lambda *a, **k: None
def subplots(n=1, m=1, **k):
    return object(), (_Ax(0) if n == 1 else [_Ax(i) for i in range(n)])
def show(*a, **k):
    json.dump(_calls, open(os.environ["VF_PLOT"], "w"))
def __getattr__(n): return lambda *a, **k: None
