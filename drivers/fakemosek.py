"""Stands in for MOSEK's Python module: environments and tasks keep what is put into them; optimising calls `answer(task)`,
which gives a solution (or raises).  Numbers that are put twice replace each other, as MOSEK's do."""
import sys, types
import numpy as np
answer = [None]

class Error(Exception):
    def __init__(self, errno): Exception.__init__(self, "mosek error"); self.errno = errno
class Names:
    def __init__(self, names): [setattr(self, n, n) for n in names.split()]
class Env:
    def __init__(self): self.streams = 0
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def Task(self, *a): return Task(self)
    def set_Stream(self, which, fn): self.streams += 1
class Task:
    def __init__(self, env):
        self.env, self.bnd, self.cones, self.rows, self.con, self.obj, self.sense, self.stream, self.closed = env, [], [], [], [], {}, None, None, False
    def __enter__(self): return self
    def __exit__(self, *a): self.closed = True
    def appendvars(self, n): self.bnd += [("fx", 0., 0.)]*int(n)             # (MOSEK's variables start fixed at zero)
    def putvarbound(self, j, k, lo, up): self.bnd[int(j)] = (k, float(lo), float(up))
    def putvarboundlist(self, js, ks, lo, up):
        assert len(js) == len(ks) == len(lo) == len(up)
        for a in zip(js, ks, lo, up): self.putvarbound(*a)
    def putvarboundslice(self, first, last, ks, lo, up): self.putvarboundlist(range(first, last), ks, lo, up)
    def putvarboundsliceconst(self, first, last, k, lo, up): self.putvarboundlist(range(first, last), [k]*(last-first), [lo]*(last-first), [up]*(last-first))
    def appendcone(self, kind, par, js): self.cones.append((kind, [int(j) for j in js]))
    def appendconeseq(self, kind, par, n, j): self.appendcone(kind, par, range(int(j), int(j)+int(n)))
    def appendconesseq(self, kinds, pars, ns, j):
        assert len(kinds) == len(pars) == len(ns)
        for k, p, n in zip(kinds, pars, ns): self.appendconeseq(k, p, n, j); j += n
    def appendcons(self, n): self.rows += [{} for _ in range(int(n))]; self.con += [("fr", 0., 0.) for _ in range(int(n))]
    def putaij(self, i, j, v):
        if not 0 <= int(j) < len(self.bnd): raise Error("err_index")
        self.rows[int(i)][int(j)] = float(v)
    def putaijlist(self, i, j, v):
        assert len(i) == len(j) == len(v)
        for a in zip(i, j, v): self.putaij(*a)
    def putarow(self, i, js, vs): self.rows[int(i)] = {int(j): float(v) for j, v in zip(js, vs)}
    def putconbound(self, i, k, lo, up): self.con[int(i)] = (k, float(lo), float(up))
    def putconboundlist(self, i, k, lo, up):
        assert len(i) == len(k) == len(lo) == len(up)
        for a in zip(i, k, lo, up): self.putconbound(*a)
    def putconboundslice(self, first, last, ks, lo, up): self.putconboundlist(range(first, last), ks, lo, up)
    def putcj(self, j, v): self.obj[int(j)] = float(v)
    def putclist(self, js, vs): [self.putcj(j, v) for j, v in zip(js, vs)]
    def putobjsense(self, s): self.sense = s
    def set_Stream(self, which, fn): self.stream = fn
    def putintparam(self, *a): pass
    putdouparam = putstrparam = putintparam
    def optimize(self):
        if self.stream: self.stream("MOSEK stand-in\n")
        self.sol = answer[0](self)
        return "trm_ok"
    def solutionsummary(self, *a): pass
    def getsolsta(self, which): return self.sol["status"]
    def getprosta(self, which): return "unknown"
    def _slice(self, what, first, last, to=None):
        v = self.sol[what][int(first):int(last)]
        if to is None: return np.array(v, dtype=float)
        assert len(to) == len(v)
        to[:] = v
    def getxxslice(self, which, *a): return self._slice("xx", *a)
    def getsuxslice(self, which, *a): return self._slice("sux", *a)
    def getslxslice(self, which, *a): return self._slice("slx", *a)
    def getsucslice(self, which, *a): return self._slice("suc", *a)
    def getslcslice(self, which, *a): return self._slice("slc", *a)
    def getyslice(self, which, *a): return self._slice("y", *a)
    def getxx(self, which, to=None): return self._slice("xx", 0, len(self.bnd), to)
    def getsux(self, which, to=None): return self._slice("sux", 0, len(self.bnd), to)
    def getsuc(self, which, to=None): return self._slice("suc", 0, len(self.rows), to)
    def getprimalobj(self, which): return self.sol["obj"]

def install():
    m = types.ModuleType("mosek")
    m.Env, m.Error = Env, Error
    m.boundkey, m.conetype, m.objsense = Names("fr fx up lo ra"), Names("pexp dexp quad rquad"), Names("minimize maximize")
    m.streamtype, m.iparam, m.onoffkey = Names("log msg err wrn"), Names("infeas_report_auto log_presolve num_threads log"), Names("on off")
    m.rescode = Names("err_missing_license_file err_license_version err_license_expired err_index err_space")
    m.soltype = Names("itr bas itg")
    m.solsta = Names("optimal unknown prim_infeas_cer dual_infeas_cer prim_and_dual_feas prim_feas dual_feas prim_illposed_cer dual_illposed_cer integer_optimal")
    sys.modules["mosek"] = m
    return m
