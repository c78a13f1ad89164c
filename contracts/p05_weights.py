"""P05: the walker weight update is the phaseless importance factor (hybrid or local-energy form)."""
from vc.contract import contract

M = "openms.qmc.propagators"


def wsetup(v, scheme, cls="Phaseless"):
    nw = v.dim("nw")
    t = dict(o1=v.tensor("o1", (nw,), cplx=True), o2=v.tensor("o2", (nw,), cplx=True), cfb=v.tensor("cfb", (nw,), cplx=True, scale=0.1),
             cmf=v.tensor("cmf", (nw,), cplx=True, scale=0.1), w=v.tensor("w", (nw,), pos=True), eh=v.tensor("eh", (nw,)),
             el=v.tensor("el", (nw,), cplx=True))
    v.modifies("w", "eh")
    t["w0"], t["eh0"] = v.copy(t["w"]), v.copy(t["eh"])
    dt, eb = v.scalar("dt", pos=True, lo=0.002, hi=0.05), v.scalar("eb", pos=True, lo=1.0, hi=20.0)
    es = v.scalar("es")
    p = v.obj(f"{M}:{cls}", dt=dt, ebound=eb, energy_scheme=scheme, verbose=0, stdout=None)
    w = v.obj(None, weights=t["w"], ehybrid=t["eh"], eloc=t["el"], ovlp=None, nwalkers=nw)
    v.method(p, "update_weight", w, t["o1"], t["o2"], t["cfb"], t["cmf"], es)
    return nw, t, dt, eb, es, w


for cls in ("Phaseless", "PhaselessElecBoson"):
    @contract("P05", f"{cls}.update_weight hybrid", fns=[f"{M}:{cls}.update_weight"])
    def _hyb(v, cls=cls):
        """clipped hybrid energy, trapezoid with the previous one, modulus times max(0, cos) of the phase"""
        nw, t, dt, eb, es, w = wsetup(v, "hybrid", cls)
        E = v.real(-1.0 * (v.log(t["o2"] / t["o1"]) + t["cfb"] + t["cmf"]) / dt)
        E = v.min(v.max(E, es - eb), es + eb)
        ph = v.max(v.cos(v.imag(-1.0 * t["cfb"])), 0.0 * t["eh0"])
        v.eq("hybrid energy stored", v.real(v.get(w, "ehybrid")), E)
        v.eq("weights", v.get(w, "weights"), t["w0"] * v.exp(-1.0 * dt * (0.5 * (E + t["eh0"]) - es)) * ph)
        v.eq("overlap stored", v.get(w, "ovlp"), t["o2"])


@contract("P05", "update_weight local", fns=[f"{M}:Phaseless.update_weight"])
def _loc(v):
    nw, t, dt, eb, es, w = wsetup(v, "local")
    ph = v.max(v.cos(v.angle(t["o2"] / t["o1"] * v.exp(t["cmf"]))), 0.0 * t["eh0"])
    v.eq("weights", v.get(w, "weights"), t["w0"] * v.exp(-1.0 * dt * v.real(t["el"])) * ph)
    v.eq("overlap stored", v.get(w, "ovlp"), t["o2"])


@contract("P05", "weights stay nonnegative", fns=[f"{M}:Phaseless.update_weight"])
def _nn(v):
    """a nonnegative weight never becomes negative, in either scheme, for every draw"""
    nw, t, dt, eb, es, w = wsetup(v, v.choose("scheme", ("hybrid", "local")))
    z = v.index("z", nw)
    v.ge("nonnegative", v.get(w, "weights")[z], 0.0)


@contract("P05", "unknown scheme rejected", fns=[f"{M}:Phaseless.update_weight"])
def _unk(v):
    """a scheme that is neither hybrid nor local raises ValueError"""
    v.raises("unknown scheme", lambda: wsetup(v, "nonsense"), "ValueError")
