"""Exact plane geometry on numbers that floating point represents exactly."""

import itertools


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def on_segment(p, a, b):
    return (
        cross(a, b, p) == 0
        and min(a[0], b[0]) <= p[0] <= max(a[0], b[0])
        and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])
    )


def edges(poly):
    return list(zip(poly, poly[1:] + poly[:1]))


def in_polygon(p, poly):
    """1 inside, 0 on the border, -1 outside."""
    inside = False
    for a, b in edges(poly):
        if on_segment(p, a, b):
            return 0
        if (a[1] > p[1]) != (b[1] > p[1]):
            s = cross(a, b, p)
            if (s > 0) == (b[1] > a[1]):
                inside = not inside
    return 1 if inside else -1


def crosses(a, b, c, d):
    if a in (c, d) or b in (c, d):
        return any(on_segment(x, c, d) and x not in (c, d) for x in (a, b)) or any(
            on_segment(x, a, b) and x not in (a, b) for x in (c, d)
        )
    o = [(v > 0) - (v < 0) for v in (cross(a, b, c), cross(a, b, d), cross(c, d, a), cross(c, d, b))]
    if o[0] * o[1] < 0 and o[2] * o[3] < 0:
        return True
    return on_segment(c, a, b) or on_segment(d, a, b) or on_segment(a, c, d) or on_segment(b, c, d)


def simple(poly):
    """Neither degenerate nor self-intersecting."""
    e = edges(poly)
    if any(a == b for a, b in e):
        return False
    area = sum(a[0] * b[1] - a[1] * b[0] for a, b in e)
    return area != 0 and not any(crosses(*e[i], *e[j]) for i, j in itertools.combinations(range(len(e)), 2))


def hull(points):
    """Corners of the convex hull, anticlockwise."""
    p = sorted(set(points))
    out = []
    for seq in (p, p[::-1]):
        h = []
        for q in seq:
            while len(h) > 1 and cross(h[-2], h[-1], q) <= 0:
                h.pop()
            h.append(q)
        out += h[:-1]
    return out
