"""Driving the real library from specifications, and reading what it reports."""
import json
import math

from .core import Violation
import pyslope
from pyslope import Slope, Material, Udl, LineLoad  # the code under test


def mk_material(m):
    return Material(
        unit_weight=m["uw"], friction_angle=m["phi"], cohesion=m["c"],
        depth_to_bottom=m["d"], name=m.get("name", ""),
        color=m.get("color", ""),
    )


def mk_udl(u):
    return Udl(
        magnitude=u["q"], offset=u["off"], length=u["len"],
        color=u.get("color", "red"), dynamic_offset=u.get("dyn", False),
    )


def mk_ll(p):
    return LineLoad(
        magnitude=p["P"], offset=p["off"], color=p.get("color", "blue"),
        dynamic_offset=p.get("dyn", False),
    )


def new_slope(spec):
    if spec.get("length") is None:
        return Slope(height=spec["h"], angle=spec["angle"])
    if spec.get("angle") is not None:
        return Slope(height=spec["h"], angle=spec["angle"], length=spec["length"])
    return Slope(height=spec["h"], length=spec["length"])


def set_boundary(s, spec):
    if spec.get("length") is None:
        s.set_external_boundary(height=spec["h"], angle=spec["angle"])
    else:
        s.set_external_boundary(height=spec["h"], length=spec["length"])


def set_options(s, spec):
    s.update_analysis_options(
        slices=spec["slices"], iterations=spec["iterations"],
        tolerance=spec["tol"], max_iterations=spec["maxit"],
    )


def set_mfd(s, spec):
    if spec.get("mfd"):
        s.update_analysis_options(min_failure_dist=spec["mfd"])


def set_water_factor(s, spec):
    if spec.get("H") is None:
        s.update_water_analysis_options(auto=True)
    else:
        s.update_water_analysis_options(auto=False, H=spec["H"])


def set_extents(s, spec):
    if spec.get("ext_L") or spec.get("ext_H"):
        s.update_boundary_options(
            MIN_EXT_L=spec.get("ext_L"), MIN_EXT_H=spec.get("ext_H")
        )


def set_limits(s, spec):
    lim = spec.get("limits")
    if lim:
        s.set_analysis_limits(
            left_x=lim[0], left_x_right=lim[1], right_x_left=lim[2],
            right_x=lim[3],
        )


def build(spec, planes=()):
    """straightforward construction"""
    s = new_slope(spec)
    set_extents(s, spec)
    s.set_materials(*[mk_material(m) for m in spec["materials"]])
    s.set_udls(*[mk_udl(u) for u in spec["udls"]])
    s.set_lls(*[mk_ll(p) for p in spec["lls"]])
    if spec.get("water") is not None:
        s.set_water_table(spec["water"])
    set_water_factor(s, spec)
    set_options(s, spec)
    set_limits(s, spec)
    set_mfd(s, spec)
    for p in planes:
        s.add_single_circular_plane(*p)
    return s


def results(s):
    """the result list of the last analysis"""
    return s._search


def find(res, c, tol=1e-6):
    """results for circle c = (c_x, c_y, R)"""
    return [
        x for x in res
        if abs(x["c_x"] - c[0]) <= tol and abs(x["c_y"] - c[1]) <= tol
        and abs(x["radius"] - c[2]) <= tol
    ]


def fos_of(s, circles):
    """factors of given circles (model coordinates) by individual analysis.

    Leaves the slope without individual planes."""
    s.remove_individual_planes()
    for c in circles:
        s.add_single_circular_plane(*c)
    s.analyse_slope()
    res = list(results(s))
    out = []
    for c in circles:
        m = find(res, c)
        out.append(m[0]["FOS"] if m else None)
    s.remove_individual_planes()
    return out


def close(a, b, rel=1e-9, ab=1e-9):
    if a is None or b is None:
        return a is b
    if isinstance(a, float) and math.isnan(a):
        return isinstance(b, float) and math.isnan(b)
    return abs(a - b) <= max(ab, rel * max(abs(a), abs(b)))


def key(x):
    return (
        round(x["c_x"], 5), round(x["c_y"], 5), round(x["radius"], 5),
        round(x["l_c"][0], 5),
    )


def same_results(ra, rb, what, rel=1e-9, **w):
    """two result lists describe the same surfaces with the same factors"""
    if len(ra) != len(rb):
        raise Violation(
            f"{what}: {len(ra)} surfaces against {len(rb)}", **w
        )
    for a, b in zip(sorted(ra, key=key), sorted(rb, key=key)):
        for k in ("c_x", "c_y", "radius", "FOS"):
            if not close(a[k], b[k], rel, 1e-7 if k != "FOS" else 1e-9):
                # sorting by rounded keys can pair neighbours differently:
                # look it up properly before deciding
                m = find(rb, (a["c_x"], a["c_y"], a["radius"]))
                if not any(close(a["FOS"], x["FOS"], rel) for x in m):
                    raise Violation(
                        f"{what}: surface {a} against {b}", **w
                    )
                break
        else:
            for k in ("l_c", "r_c"):
                if not (
                    close(a[k][0], b[k][0], rel, 1e-6)
                    and close(a[k][1], b[k][1], rel, 1e-6)
                ):
                    raise Violation(f"{what}: {k} of {a} against {b}", **w)


def figure(fig):
    """plain data of a plotly figure"""
    if isinstance(fig, dict):
        return json.loads(json.dumps(fig))
    return json.loads(fig.to_json())


def diff(a, b, path="", tol=1e-7):
    """first difference of two plain structures, or None"""
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not (
        isinstance(a, bool) or isinstance(b, bool)
    ):
        if abs(a - b) <= tol * max(1, abs(a), abs(b)):
            return None
        return f"{path}: {a} != {b}"
    if type(a) is not type(b):
        return f"{path}: {a!r} != {b!r}"
    if isinstance(a, dict):
        if set(a) != set(b):
            return f"{path}: keys {sorted(set(a) ^ set(b))}"
        for k in a:
            d = diff(a[k], b[k], f"{path}.{k}", tol)
            if d:
                return d
        return None
    if isinstance(a, list):
        if len(a) != len(b):
            return f"{path}: length {len(a)} != {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, f"{path}[{i}]", tol)
            if d:
                return d
        return None
    return None if a == b else f"{path}: {a!r} != {b!r}"


def canon(fig, palette=True):
    """figure data with the order of shapes and annotations made irrelevant"""
    f = figure(fig)
    if not palette:
        f = _strip_colors(f)
    lay = f.get("layout", {})
    lay.pop("template", None)

    def k(o):
        return json.dumps(_round(o), sort_keys=True)

    for n in ("shapes", "annotations"):
        if n in lay:
            lay[n] = sorted(lay[n], key=k)
    return f


def _round(o):
    if isinstance(o, float):
        return round(o, 6)
    if isinstance(o, dict):
        return {k: _round(v) for k, v in o.items()}
    if isinstance(o, list):
        return [_round(v) for v in o]
    return o


def _strip_colors(o):
    if isinstance(o, dict):
        return {k: _strip_colors(v) for k, v in o.items() if k != "fillcolor"}
    if isinstance(o, list):
        return [_strip_colors(v) for v in o]
    return o


def same_figure(fa, fb, what, palette=True, **w):
    d = diff(canon(fa, palette), canon(fb, palette))
    if d:
        raise Violation(f"{what}: {d}", **w)


def sorted_materials(spec):
    return sorted(spec["materials"], key=lambda m: abs(m["d"]))
