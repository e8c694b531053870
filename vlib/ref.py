"""Independent reference for the mechanics and geometry PySlope promises.

Everything here is computed from the *specification* of a model (a plain dict),
in scalar Python, with elevations measured as depth below the crest.  Nothing is
imported from the code under test.
"""
from math import atan, atan2, cos, sin, sqrt, tan, radians, hypot, inf

GAMMA_W = 9.81


class Geo:
    """Ground geometry in crest coordinates: u to the right of the crest edge,
    z downward from the crest."""

    def __init__(self, spec):
        h = spec["h"]
        L = spec.get("length")
        if L is None:
            L = h / tan(radians(spec["angle"]))
        L = max(L, 0.001)
        self.h, self.L = h, L
        min_l = spec.get("ext_L") or 10
        min_h = spec.get("ext_H") or 6
        for u in spec.get("udls", []):
            if u["q"] > 0:
                min_l = max(min_l, 2.5 * (u["off"] + (u["len"] or 3)))
        for p in spec.get("lls", []):
            if p["P"] > 0:
                min_l = max(min_l, 3 * p["off"])
        deepest = max([m["d"] for m in spec.get("materials", [])] or [0])
        self.tot_l = max(5 * L, 4 * h, min_l)
        self.tot_h = max(3 * h, 2.5 * L, min_h, deepest)
        self.crest = (self.tot_l - L) / 2  # crest width
        self.toe = self.tot_l - self.crest - L  # toe width
        self.top = (self.crest, self.tot_h)
        self.bot = (self.crest + L, self.tot_h - h)

    def depth(self, u):
        """depth of ground surface below crest"""
        if u <= 0:
            return 0.0
        if u >= self.L:
            return self.h
        return u * self.h / self.L

    # model <-> crest coordinates
    def X(self, u):
        return u + self.crest

    def Y(self, z):
        return self.tot_h - z

    def u(self, x):
        return x - self.crest

    def z(self, y):
        return self.tot_h - y


def crossings(geo, cu, cz, R, lower=True):
    """u of all points where the circle meets the ground surface (crest
    coordinates), with whether the point is on the lower half."""
    res = []

    def level(z, lo, hi):
        d = R * R - (z - cz) ** 2
        if d <= 0:
            return
        for s in (-1, 1):
            u = cu + s * sqrt(d)
            if lo <= u <= hi:
                res.append((u, z, z >= cz))

    level(0.0, -geo.crest, 0.0)
    level(geo.h, geo.L, geo.L + geo.toe)
    # face: u = t L, z = t h
    a = geo.L**2 + geo.h**2
    b = -2 * (cu * geo.L + cz * geo.h)
    c = cu * cu + cz * cz - R * R
    d = b * b - 4 * a * c
    if d > 0:
        for s in (-1, 1):
            t = (-b + s * sqrt(d)) / (2 * a)
            if 0 <= t <= 1:
                res.append((t * geo.L, t * geo.h, t * geo.h >= cz))
    res.sort()
    return res


def corner_touch(geo, cu, cz, R, ul, ur, tol=1e-5):
    """the circle passes through the crest edge or toe strictly between its
    end points: whether it leaves the ground there is a matter of rounding"""
    for u, z in ((0.0, 0.0), (geo.L, geo.h)):
        if ul + 1e-3 < u < ur - 1e-3 and abs(hypot(u - cu, z - cz) - R) < tol:
            return True
    return False


class Bishop:
    """Slices of one circle, in crest coordinates."""

    def __init__(self, spec, geo, cu, cz, R, ul, ur, n, loads=True):
        self.ok = True
        w = (ur - ul) / n
        mats = sorted(spec["materials"], key=lambda m: m["d"])
        self.rows = rows = []
        self.near_boundary = inf
        hw = spec.get("water")
        H = spec.get("H")
        if H is None:
            H = cos(atan2(geo.h, geo.L)) ** 2
        else:
            H = min(1, max(0, H))
        if hw is not None and hw >= geo.tot_h:
            hw = None  # at or below the bottom of the model
        if hw is not None:
            # where the water table meets the face
            u_w = hw * geo.L / geo.h if hw <= geo.h else inf
        edges = [ul + k * w for k in range(n + 1)]
        self.edges = edges
        for k in range(n):
            u = ul + (k + 0.5) * w
            d2 = R * R - (u - cu) ** 2
            if d2 <= 0:
                self.ok = False
                return
            root = sqrt(d2)
            zb = cz + root
            zt = min(geo.depth(u), zb)
            alpha = atan2(cu - u, root)
            # weight of soil
            W = 0.0
            prev = 0.0
            for i, m in enumerate(mats):
                bottom = inf if i == len(mats) - 1 else abs(m["d"])
                ov = min(zb, bottom) - max(zt, prev)
                if ov > 0:
                    W += ov * m["uw"]
                prev = bottom
            W *= w
            # strength of stratum containing the base
            st = mats[-1]
            for m in mats:
                self.near_boundary = min(self.near_boundary, abs(m["d"] - zb))
                if m["d"] > zb:
                    st = m
                    break
            # surface pressure
            Q = 0.0
            if loads:
                for q in spec.get("udls", []):
                    right = -abs(q["off"])
                    left = right - abs(q["len"]) if q["len"] else -geo.crest
                    ov = min(edges[k + 1], right) - max(edges[k], left)
                    if ov > 0:
                        Q += ov * abs(q["q"])
            # water
            U = 0.0
            if hw is not None:
                head = zb - max(hw, zt)
                if head > 0:
                    f = H if (u_w < u < geo.L) else 1.0
                    U = head * GAMMA_W * w * f
                self.near_boundary = min(
                    self.near_boundary,
                    abs(u - u_w) if u_w < inf else inf,
                    abs(u - geo.L),
                )
            rows.append(
                dict(
                    b=w, W=W + Q, a=alpha, s=sin(alpha), c=cos(alpha),
                    coh=abs(st["c"]), t=tan(radians(st["phi"])), U=U, zb=zb,
                    zt=zt, u=u, soil=W, Q=Q,
                )
            )
        self.ll_ambiguous = []
        self.ll_margin = inf
        if loads:
            for p in spec.get("lls", []):
                pu = -abs(p["off"])
                P = abs(p["P"])
                if P == 0:
                    continue
                pos = (pu - ul) / w
                j = round(pos)
                if 0 <= j <= n:
                    self.ll_margin = min(self.ll_margin, abs(pos - j) * w)
                if abs(pos - j) < 1e-6 and 0 <= j <= n:
                    cands = [i for i in (j - 1, j) if 0 <= i < n]
                    if j == 0 or j == n:
                        cands.append(None)  # at the very end: may be outside
                    self.ll_ambiguous.append((P, cands))
                    continue
                i = int(pos) if pos >= 0 else -1
                if 0 <= i < n:
                    rows[i]["W"] += P

    # driving force
    def driving(self):
        return sum(r["W"] * r["s"] for r in self.rows)

    def ordinary(self):
        D = self.driving()
        R = 0.0
        for r in self.rows:
            ln = r["b"] / r["c"]
            Ul = r["U"] / r["c"]
            R += r["coh"] * ln + max(0.0, r["W"] * r["c"] - Ul) * r["t"]
        return R, D

    def step(self, F):
        """Bishop right hand side, numerator, and least m-alpha"""
        N = 0.0
        worst = inf
        for r in self.rows:
            m = r["c"] + r["s"] * r["t"] / F
            worst = min(worst, m)
            N += (r["coh"] * r["b"] + (r["W"] - r["U"]) * r["t"]) / m
        return N, worst

    def fixed_point(self):
        """Exact Bishop factor (None if ill conditioned).

        g(F) = N(F)/D - F with all m-alpha > 0 : bisection on F."""
        D = self.driving()
        if D <= 0:
            return None
        # lower bound on F for which every m-alpha is positive
        lo = 0.0
        for r in self.rows:
            if r["s"] < 0 and r["t"] > 0:
                lo = max(lo, -r["s"] * r["t"] / r["c"])
        lo = lo * (1 + 1e-9) + 1e-12
        R, _ = self.ordinary()
        if R <= 0:
            return None
        F = max(R / D, lo * 1.05)
        for _ in range(400):
            N, worst = self.step(F)
            if worst <= 0.02:
                return None
            G = N / D
            if G <= 0:
                return None
            if abs(G - F) < 1e-13 * max(1, F):
                return G
            F = G
            if F <= lo:
                return None
        return None

    def emulate(self, tol, maxit):
        """value, or None, following the documented iteration."""
        R, D = self.ordinary()
        if D <= 0:
            return None, inf
        prev = R / D
        worst_all = inf
        margin = inf
        if maxit <= 0:
            return prev, inf
        for _ in range(maxit):
            if prev == 0:
                return 0.0, inf
            N, worst = self.step(prev)
            worst_all = min(worst_all, worst)
            margin = min(margin, abs(N) / max(1e-9, abs(D)))
            if N < 0:
                return None, worst_all
            F = N / D
            if abs(F - prev) < tol:
                return F, worst_all
            prev = F
        return prev, worst_all


def slices(spec, geo, x):
    """Bishop slices of a result-like dict in model coordinates"""
    return Bishop(
        spec, geo, geo.u(x["c_x"]), geo.z(x["c_y"]), x["radius"],
        geo.u(x["l_c"][0]), geo.u(x["r_c"][0]), spec["slices"],
    )


def dist(a, b):
    return hypot(a[0] - b[0], a[1] - b[1])
