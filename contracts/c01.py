"""C01: the deflection field of every potential-derived lens profile is the gradient of its potential."""
import inspect

from lv.world import contract
from contracts.lens_table import TABLE, abstract_nie
from contextlib import nullcontext


def _centre_optional(p):
    q = inspect.signature(p.derivatives).parameters.get("center_x")
    return q is not None and q.default is not q.empty


def _mk(s):
    @contract("C01", s.name, ["LensModel/Profiles/%s.py::%s.function" % (s.mod, s.cls), "LensModel/Profiles/%s.py::%s.derivatives" % (s.mod, s.cls)],
              samples=s.samples, sym=s.sym, timeout=s.timeout, max_paths=80)
    def body(W):
        x, y = W.real("x", None, None, (-2, 2)), W.real("y", None, None, (-2, 2))
        kw = s.kwargs(W, x, y)
        p = s.instance()
        with abstract_nie(W) if s.callee == "nie" else nullcontext():
            ax, ay = p.derivatives(x, y, **kw)
            if not W.sym and _centre_optional(p) and s.samples > 4:  # the centre left out means the origin, for potential and deflection alike
                k0 = {n: v for n, v in kw.items() if n not in ("center_x", "center_y")}
                kc = dict(kw, center_x=0.0, center_y=0.0)
                W.eq("deflection with the centre left out", list(p.derivatives(x, y, **k0)), list(p.derivatives(x, y, **kc)), 1e-9, 1e-12)
                W.eq("potential with the centre left out", p.function(x, y, **k0), p.function(x, y, **kc), 1e-9, 1e-12)
            W.eq_grad("deflection is the gradient of the potential", lambda x, y: p.function(x, y, **kw), (x, y), (ax, ay), s.rtol, s.atol)


for _s in TABLE.values():
    if _s.pot:
        _mk(_s)
