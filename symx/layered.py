"""Symbolic layered models for the kernel functions (Laplace domain).

Every layer i has free positive reals: etaH_i, zetaH_i, GT_i (vertical
wavenumber of the TM mode), GE_i (TE mode); etaV_i and zetaV_i follow from
them, so that the code's own square roots evaluate to GT_i and GE_i:

    etaV  = etaH  lam^2 / (GT^2 - zetaH etaH)
    zetaV = zetaH lam^2 / (GE^2 - zetaH etaH)
"""
import numpy as np
from . import core, load
from .core import var, const, CTX
from .npx import SArr

TMAP = {}


def oarr(x, shape=None):
    a = np.empty(len(x), dtype=object)
    for i, v in enumerate(x):
        a[i] = v
    if shape:
        a = a.reshape(shape)
    return a.view(SArr)


class Model:
    """n layers, interfaces z=0 (first) downwards, thickness variables."""

    def __init__(self, n, tag='', lam=None, eqprop=(), conc=None):
        """conc: None | 'media' | 'tm' (TM symbolic, TE wavenumbers concrete)
        | 'te'."""
        self.n = n
        self.conc = conc
        if lam is None:
            lam = const(2) if conc == 'media' else var('lam', pos=True)
        self.lam = lam
        self.eH, self.zH, self.GT, self.GE, self.eV, self.zV = \
            [], [], [], [], [], []
        for i in range(n):
            j = dict(eqprop).get(i)
            if j is not None:       # same medium as layer j
                for L in (self.eH, self.zH, self.GT, self.GE, self.eV,
                          self.zV):
                    L.append(L[j])
                continue
            if conc == 'media':
                eH = const([2, 1, 3, 1, 4, 2, 5][i])
                zH = const([1, 2, 1, 3, 1, 3, 1][i])
                gt = const([3, 2, 4, 2, 3, 5, 3][i])
                ge = const([2, 3, 3, 4, 5, 3, 4][i])
            else:
                eH = var(f'etaH{tag}{i}', pos=True)
                zH = var(f'zetaH{tag}{i}', pos=True)
                gt = var(f'GT{tag}{i}', pos=True)
                ge = var(f'GE{tag}{i}', pos=True)
                for g in (gt, ge):
                    CTX.fn_eval[g.args[0]] = _gsampler(eH, zH, g.args[0])
                core.register_root(gt)
                core.register_root(ge)
            self.eH.append(eH)
            self.zH.append(zH)
            self.GT.append(gt)
            self.GE.append(ge)
            self.eV.append(eH*lam*lam/(gt*gt - zH*eH))
            self.zV.append(zH*lam*lam/(ge*ge - zH*eH))

    def place(self, pts):
        """Place points; pts = list of (layer, name) in increasing depth.

        Layer thicknesses are split into the sub-intervals delimited by the
        points.  Returns depth array (with -inf first) and list of z's and a
        list of d/dz derivations.
        """
        n = self.n
        depth = [None]*n
        z = [None]*len(pts)
        segs = {}
        cur = const(0)
        self.deriv = [None]*len(pts)
        # top layer (0): points above interface at z=0 (interface 1)
        for lay in range(n):
            inl = [k for k, p in enumerate(pts) if p[0] == lay]
            if lay == 0:
                depth[0] = -np.inf
                if n == 1:
                    # whole space
                    zc = const(0)
                    for a, k in enumerate(inl):
                        if a:
                            s = var(f'h0_{a}', pos=True)
                            segs[k] = s
                            zc = zc + s
                        z[k] = zc
                    continue
                zc = const(0)
                for a, k in enumerate(reversed(inl)):
                    s = var(f'h0_{a}', pos=True)
                    zc = zc - s
                    z[k] = zc
                cur = const(0)
                continue
            depth[lay] = cur
            for a, k in enumerate(inl):
                cur = cur + var(f'h{lay}_{a}', pos=True)
                z[k] = cur
            if lay < n-1:
                cur = cur + var(f'h{lay}_e', pos=True)
        # derivative operators
        for k, (lay, _) in enumerate(pts):
            self.deriv[k] = self._dz(pts, k)
        self.depth = oarr(depth)
        self.z = z
        self.pts = pts
        return self.depth, z

    def _dz(self, pts, k):
        lay = pts[k][0]
        inl = [q for q, p in enumerate(pts) if p[0] == lay]
        a = inl.index(k)
        plus, minus = [], []
        if lay == 0 and self.n == 1:
            if a > 0:
                plus.append(f'h0_{a}')
            if a < len(inl)-1:
                minus.append(f'h0_{a+1}')
        elif lay == 0:
            b = len(inl)-1-a
            minus.append(f'h0_{b}')
            if b < len(inl)-1:
                plus.append(f'h0_{b+1}')
        else:
            plus.append(f'h{lay}_{a}')
            if a < len(inl)-1:
                minus.append(f'h{lay}_{a+1}')
            elif lay < self.n-1:
                minus.append(f'h{lay}_e')

        def d(f):
            r = const(0)
            for p in plus:
                r = r + core.diff(f, var(p))
            for m in minus:
                r = r - core.diff(f, var(m))
            return r
        return d

    def arrays(self):
        return [oarr(x, (1, self.n)) for x in
                (self.eH, self.eV, self.zH, self.zV)]


def _gsampler(eH, zH, nm):
    def f(env):
        return (core.neval(eH, env)*core.neval(zH, env) +
                CTX.rng.uniform(0.1, 3))**0.5
    return f


AB36 = [10*i+j for i in range(1, 7) for j in range(1, 7)]


def split_ab(ab):
    """(ab_calc, msrc, mrec) through the real utils.check_ab, or None if the
    code says the component is zero."""
    ab_calc, msrc, mrec = load.utils.check_ab(ab, 0)
    return ab_calc, msrc, mrec


def pj(model, zsrc, zrec, lsrc, lrec, ab, xdirect=False):
    """Run the real kernel.wavenumber; returns dict(PJ0,PJ1,PJ0b) scalars."""
    ab_calc, msrc, mrec = split_ab(ab)
    eH, eV, zH, zV = model.arrays()
    lambd = oarr([model.lam], (1, 1))
    r = load.kernel.wavenumber(
        zsrc, zrec, lsrc, lrec, model.depth, eH, eV, zH, zV, lambd,
        ab_calc, xdirect, msrc, mrec)
    return [None if q is None else core.lift(q[0, 0, 0]) for q in r]
