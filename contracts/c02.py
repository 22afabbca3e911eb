"""C02: the Hessian of every lens profile is the (symmetric) Jacobian of its deflection field."""
import inspect

from lv.world import contract
from contracts.lens_table import TABLE, abstract_nie
from contextlib import nullcontext

SYMM_TOL = 1e-3


def _centre_optional(p):
    q = inspect.signature(p.hessian).parameters.get("center_x")
    return q is not None and q.default is not q.empty


def _mk(s):
    tol = s.htol or (s.rtol if s.exact else 1e-3)

    @contract("C02", s.name, ["LensModel/Profiles/%s.py::%s.hessian" % (s.mod, s.cls), "LensModel/Profiles/%s.py::%s.derivatives" % (s.mod, s.cls)],
              samples=s.samples, sym=s.sym and (s.exact or bool(s.callee)), timeout=s.timeout, max_paths=80)
    def body(W):
        x, y = W.real("x", None, None, (-2, 2)), W.real("y", None, None, (-2, 2))
        kw = s.kwargs(W, x, y)
        p = s.instance()
        with abstract_nie(W) if s.callee == "nie" else nullcontext():
            fxx, fxy, fyx, fyy = p.hessian(x, y, **kw)
            if s.pot:
                W.eq("the Hessian is symmetric", fxy, fyx, *((1e-7, 1e-9) if s.exact else (tol, 1e-4)))
            if not W.sym and _centre_optional(p) and s.samples > 4:
                k0 = {n: v for n, v in kw.items() if n not in ("center_x", "center_y")}
                W.eq("Hessian with the centre left out", list(p.hessian(x, y, **k0)), list(p.hessian(x, y, **dict(kw, center_x=0.0, center_y=0.0))), 1e-7, 1e-8)
            atol = s.atol if s.exact else 1e-4
            W.eq_grad("row x of the Hessian", lambda x, y: p.derivatives(x, y, **kw)[0], (x, y), (fxx, fxy), tol, atol)
            W.eq_grad("row y of the Hessian", lambda x, y: p.derivatives(x, y, **kw)[1], (x, y), (fyx, fyy), tol, atol)

    if not s.exact and s.sym and not s.callee:
        @contract("C02", s.name + ".fd", ["LensModel/Profiles/%s.py::%s.hessian" % (s.mod, s.cls)], samples=0, timeout=s.timeout,
                  assumes=["%s.hessian: the deflection is an arbitrary function of position and parameters (uninterpreted)" % s.cls])
        def fd(W):
            """for an arbitrary deflection field the Hessian is its difference quotient"""
            if not W.sym:
                return
            x, y = W.real("x", None, None, (-2, 2)), W.real("y", None, None, (-2, 2))
            kw = s.kwargs(W, x, y)
            p = s.instance()
            names = sorted(kw)
            n = len(names) + 2
            fx, fy = W.uf("ax", n), W.uf("ay", n)
            cls = type(p)
            order = cls.derivatives.__code__.co_varnames[1:cls.derivatives.__code__.co_argcount]
            import inspect

            sig = inspect.signature(cls.derivatives)

            def d(x, y, *a, **k):
                b = sig.bind(p, x, y, *a, **k)
                b.apply_defaults()
                v = [b.arguments[q] for q in names]
                return fx(x, y, *v), fy(x, y, *v)

            p.derivatives = d
            fxx, fxy, fyx, fyy = p.hessian(x, y, **kw)
            v = [kw[q] for q in names]
            W.eq_fd("row x of the Hessian", lambda x, y: fx(x, y, *v), (x, y), (fxx, fxy))
            W.eq_fd("row y of the Hessian", lambda x, y: fy(x, y, *v), (x, y), (fyx, fyy))


for _s in TABLE.values():
    if _s.hess:
        _mk(_s)
