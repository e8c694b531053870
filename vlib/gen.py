"""Generation of model specifications and of histories that build them."""
from math import sqrt, tan, radians, hypot, atan2, cos, sin, degrees
from . import ref

NICE_H = [0.5, 1, 1.5, 2, 2.5, 3, 4, 5, 6, 8, 10, 12, 20]
NICE_A = [15, 20, 25, 26.565051177, 30, 35, 40, 45, 50, 60, 63.43, 70, 80, 90]
NAMES = ["", "", "", "Sand", "Sand", "Clay", "Fill 1", "A&B <x>"] + [
    "Residual granite, highly weathered (XW)", "0", "Löss/粘土",
]
COLORS = ["red", "blue", "green", "#123456", "#abc", "pink", "orange", "black"]


def num(r, lo, hi, nice=None, p_nice=0.5):
    """number in [lo, hi], often a round one"""
    if nice and r.random() < p_nice:
        c = [v for v in nice if lo <= v <= hi]
        if c:
            return r.choice(c)
    k = r.choice([0, 1, 2, 3, 6])
    v = round(r.uniform(lo, hi), k)
    return min(max(v, lo), hi)


def material(r, d, frictionless=False, cohesive=False):
    phi = 0 if frictionless else num(r, 0, 45, [0, 10, 20, 25, 28, 30, 35, 40])
    c = num(r, 0, 60, [0, 1, 2, 5, 10, 20, 50])
    if r.random() < 0.03:
        c = num(r, 60, 1000)
    if (frictionless or cohesive) and c < 1:
        c = 5
    if phi == 0 and c == 0 and r.random() < 0.7:
        c = 3
    return dict(
        uw=num(r, 10, 27, [15, 16, 18, 19, 20, 22, 25]) if r.random() < 0.93
        else num(r, 1, 50, [1, 50]),
        phi=phi, c=c, d=d,
        name=r.choice(NAMES),
        color=r.choice(["", "", "", "green", "#112233", "pink"]),
    )


def materials(r, h, n=None, frictionless=False, cohesive=False):
    n = n or (
        r.choice([1, 1, 2, 2, 3, 4, 5, 8]) if r.random() < 0.97
        else r.randint(9, 14)
    )
    ds = set()
    while len(ds) < n:
        d = num(r, 0.2, max(2.5 * h, 1), [0.5, 1, 1.5, 2, 3, 5, h, h / 2, 2 * h])
        if all(abs(d - e) > 0.01 for e in ds):
            ds.add(d)
    ds = sorted(ds)
    if r.random() < 0.08:
        ds[-1] = round(ds[-1] + r.uniform(5, 30), 1)
    if r.random() < 0.5 and ds[-1] < 3 * h:
        ds[-1] = round(3 * h + 1, 2)
    return [material(r, d, frictionless, cohesive) for d in ds]


def udl(r, h):
    return dict(
        q=num(r, 1, 150, [5, 10, 20, 50, 100]) if r.random() < 0.97
        else num(r, 150, 3000),
        off=num(r, 0, 2 * h, [0, 0, 0.5, 1, 2]),
        len=r.choice([None, 0, num(r, 0.3, 3 * h + 1, [1, 2, 3, 5])]),
        color=r.choice(COLORS), dyn=False,
    )


def ll(r, h):
    return dict(
        P=num(r, 1, 300, [10, 20, 50, 100]) if r.random() < 0.97
        else num(r, 300, 9000),
        off=num(r, 0, 2 * h + 1, [0, 0, 0.5, 1, 2, 3]),
        color=r.choice(COLORS), dyn=False,
    )


def spec(
    r, mats=None, loads=None, water=None, limits=False, frictionless=False,
    cohesive=False, iterations=500, slices=None, tight=False, ext=None,
):
    h = num(r, 0.5, 20, NICE_H) if r.random() < 0.95 else num(r, 20, 40)
    if r.random() < 0.03:
        h = num(r, 40, 250)
    s = dict(h=h, angle=None, length=None)
    if r.random() < 0.7:
        s["angle"] = num(r, 12 if r.random() < 0.95 else 4, 90, NICE_A)
    else:
        s["length"] = num(r, 0.3 * h, 4 * h, [1, 2, 3, 5, 10])
        if r.random() < 0.15:
            s["length"] = 0
        if r.random() < 0.3:
            s["angle"] = num(r, 12, 90, NICE_A)  # overridden by length
    s["materials"] = materials(r, h, mats, frictionless, cohesive)
    if loads is None:
        loads = r.random() < 0.6
    nu = r.choice([0, 1, 1, 2, 3]) if loads else 0
    nl = r.choice([0, 1, 1, 2, 3]) if loads else 0
    if loads and r.random() < 0.04:
        nu, nl = r.randint(0, 7), r.randint(0, 7)
    if loads and nu + nl == 0:
        nu = 1
    s["udls"] = [udl(r, h) for _ in range(nu)]
    s["lls"] = [ll(r, h) for _ in range(nl)]
    if water is None:
        water = r.random() < 0.5
    s["water"] = None
    if water:
        s["water"] = num(r, 0, 2 * h, [0, h, h / 2, 1, 2])
        if r.random() < 0.1:
            s["water"] = 100.0
    s["H"] = None if r.random() < 0.6 else num(r, 0, 1, [0, 1, 0.5])
    s["slices"] = slices or r.choice([10, 12, 20, 25, 25, 30, 50, 60])
    if not slices and r.random() < 0.05:
        s["slices"] = r.randint(10, 200)
    s["iterations"] = iterations
    s["mfd"] = 0
    s["tol"], s["maxit"] = (1e-10, 300) if tight else (0.005, 15)
    s["ext_L"] = s["ext_H"] = None
    if ext if ext is not None else r.random() < 0.25:
        s["ext_L"] = num(r, 5, 20 * h, [20, 50])
        s["ext_H"] = num(r, 3, 8 * h, [10, 30])
    s["limits"] = None
    if limits:
        s["limits"] = gen_limits(r, s)
    return s


def gen_limits(r, s):
    g = ref.Geo(s)
    x2 = g.crest * r.uniform(0.3, 1.0)
    if r.random() < 0.3:
        x2 = g.crest
    x1 = x2 * r.uniform(0, 0.8)
    if r.random() < 0.3:
        x1 = 0
    kind = r.random()
    if kind < 0.35:  # limits on the face too
        x3 = g.crest + g.L * r.uniform(0, 0.8)
    elif kind < 0.6:
        x3 = g.crest
    else:
        x3 = g.crest + g.L + g.toe * r.uniform(0, 0.5)
    x4 = x3 + (g.tot_l - x3) * r.uniform(0.3, 1.0)
    if r.random() < 0.3:
        x4 = g.tot_l
    return [float(round(v, 3)) if v not in (0, g.crest, g.tot_l) else float(v) for v in (x1, x2, x3, x4)]


def circle(r, g, entry=None, exit_=None, tries=60, face_entry=False):
    """A circle cutting the ground at exactly two points with its lower arc in
    the ground in between.  Crest coordinates.  Returns (cu, cz, R, ul, ur)."""
    for _ in range(tries):
        if entry is not None:
            ul = entry
        elif face_entry and r.random() < 0.3:
            ul = g.L * r.uniform(0, 0.6)
        else:
            span = min(g.crest, 3 * g.h + g.L)
            ul = -span * r.choice([r.uniform(0.02, 0.95), r.uniform(0.02, 0.4)])
            if r.random() < 0.3:
                ul = -round(-ul, 1)
        if exit_ is not None:
            ur = exit_
        else:
            k = r.random()
            if k < 0.3:
                ur = g.L * r.uniform(0.3, 1)
            elif k < 0.45:
                ur = g.L
            else:
                ur = g.L + min(g.toe, 3 * g.h) * r.uniform(0.02, 0.9)
            if r.random() < 0.3:
                ur = round(ur, 1)
        if not (-g.crest < ul and ur < g.L + g.toe and ur - ul > 0.05):
            continue
        zl, zr = g.depth(ul), g.depth(ur)
        half = hypot(ur - ul, zr - zl) / 2
        if zr < zl:
            continue
        beta = atan2(zr - zl, ur - ul)
        rmin = half / max(cos(beta), 1e-6)
        R = rmin * r.choice([r.uniform(1.02, 1.4), r.uniform(1.05, 4), r.uniform(3, 30)])
        e = sqrt(R * R - half * half)
        # centre is above the chord (z smaller), to the right
        cu = (ul + ur) / 2 + sin(beta) * e
        cz = (zl + zr) / 2 - cos(beta) * e
        if cz > zl:
            continue
        if not valid_arc(g, cu, cz, R, ul, ur):
            continue
        return cu, cz, R, ul, ur
    return None


def valid_arc(g, cu, cz, R, ul, ur, gap=0.02):
    """lower arc strictly in the ground between ul and ur"""
    cr = [c for c in ref.crossings(g, cu, cz, R) if ul - gap < c[0] < ur + gap]
    for c in cr:
        if min(abs(c[0] - ul), abs(c[0] - ur)) > 1e-6 * (1 + abs(c[0])):
            return False
    if ref.corner_touch(g, cu, cz, R, ul, ur):
        return False
    n = 64
    for k in range(1, n):
        u = ul + (ur - ul) * k / n
        d = R * R - (u - cu) ** 2
        if d <= 0 or cz + sqrt(d) <= g.depth(u):
            return False
    # no other crossing of crest to the left (the library takes the first)
    for c in ref.crossings(g, cu, cz, R):
        if c[0] < ul - 1e-6 * (1 + abs(c[0])):
            return False
    return True
