"""Strategies for plain-data models shared by the checks."""
import random

from hypothesis import strategies as st

eighth = st.integers(-24, 24).map(lambda n: n / 8)
small_int_val = st.integers(-3, 3).map(float)
real_val = st.one_of(eighth, small_int_val, st.floats(-3, 3).map(lambda x: round(x, 6)))
pos_comp = st.one_of(st.integers(-8, 16).map(lambda n: n / 8), st.sampled_from([0.0, 1 / 3, 2 / 3, 0.5, -1.0, -2.0, 1.0]),
                     st.floats(-1, 2).map(lambda x: round(x, 5)))
pos_in = st.integers(0, 31).map(lambda n: n / 32)       # inside [0, 1)


def weighted(*pairs):
    """One of the strategies with the given integer weights (st.one_of drops duplicates)."""
    table = [strat for w, strat in pairs for _ in range(w)]
    return st.integers(0, len(table) - 1).flatmap(table.__getitem__)


def sized(elem, lo, hi):
    """A list whose length is uniform on lo..hi (st.lists prefers short ones)."""
    return st.integers(lo, hi).flatmap(lambda n: st.lists(elem, min_size=n, max_size=n))


def nonzero_complex():
    """Complex number of magnitude between 0.1 and ~4, sometimes a small one of magnitude 1e-4..4e-3."""
    plain = st.tuples(real_val, real_val).map(lambda t: t if abs(complex(*t)) >= 0.1 else (t[0] + 1.0, t[1]))
    return weighted((14, plain), (1, plain.map(lambda t: (t[0] * 1e-3, t[1] * 1e-3))))


def lattice(planar=False):
    """Well conditioned lattice vectors (lengths 1..5, Angstrom)."""
    length = st.integers(8, 40).map(lambda n: n / 8)
    shear = st.integers(-5, 5).map(lambda n: n / 10)

    def make(t):
        a, b, c, s1, s2, s3, perm = t
        v = [[a, 0.0, 0.0], [s1 * b, b, 0.0], [s2 * c, s3 * c, c]]
        if planar:
            v[2] = [0.0, 0.0, c]
        if perm in (1, 2):  # cyclic permutation of the axes keeps the handedness
            v = [[r[-perm], r[1 - perm], r[2 - perm]] for r in v]
        if perm == 3:       # rotation by pi about z: lattice vectors along negative directions
            v = [[-r[0], -r[1], r[2]] for r in v]
        return v
    perm = st.sampled_from([0, 3]) if planar else st.integers(0, 3)
    return st.tuples(length, length, length, shear, shear, shear, perm).map(make)


def origin():
    return st.one_of(st.just([0.0, 0.0, 0.0]), st.lists(eighth, min_size=3, max_size=3))


def rn_strategy(max_r=2, dims=3):
    r = st.integers(-max_r, max_r)
    comps = [r if i < dims else st.just(0) for i in range(3)]
    return st.tuples(*comps).map(list)


def canon(rn, i, j):
    """Canonical key and whether to conjugate."""
    neg = [-x for x in rn]
    a, b = (tuple(rn), i, j), (tuple(neg), j, i)
    return (a, False) if a >= b else (b, True)


@st.composite
def cell(draw, min_orb=1, max_orb=4, min_hop=1, max_hop=8, max_r=2, dims=3, planar=False, inside=False, complex_hop=True,
         with_origin=True, distinct=False):
    """A random primitive cell: {"lat","origin","orbs","hops"}; no duplicate and no diagonal terms."""
    n = draw(st.integers(min_orb, max_orb))
    comp = pos_in if inside else pos_comp
    pos = st.tuples(comp, comp, comp).map(list)
    orbs = draw(st.lists(st.tuples(pos, real_val, st.sampled_from(["X", "A", "B", "pz"])).map(list), min_size=n,
                         max_size=n, unique_by=(lambda o: tuple(round(x % 1.0, 3) for x in o[0])) if distinct else None))
    idx = st.integers(0, n - 1)
    eng = nonzero_complex() if complex_hop else st.tuples(real_val.map(lambda x: x if abs(x) >= 0.1 else x + 1.0), st.just(0.0))
    raw = draw(st.lists(st.tuples(rn_strategy(max_r, dims), idx, idx, eng).map(list), min_size=min_hop, max_size=max_hop))
    seen, hops = set(), []
    for rn, i, j, e in raw:
        if rn == [0, 0, 0] and i == j:
            rn = [1, 0, 0]
        key, _ = canon(rn, i, j)
        if key not in seen:
            seen.add(key)
            hops.append([rn, i, j, list(e)])
    return {"lat": draw(lattice(planar)), "origin": draw(origin()) if with_origin else [0.0, 0.0, 0.0],
            "orbs": orbs, "hops": hops}


@st.composite
def bulk(draw, orbs=(20, 120), hops=(40, 400), max_r=3, dims=3, planar=False, distinct=False):
    """A large cell of the same form; its content follows from a drawn seed, so it shrinks by size only."""
    rng = random.Random(draw(st.integers(0, 2 ** 32 - 1)))
    n, m = draw(st.integers(*orbs)), draw(st.integers(*hops))
    o = [[[rng.randint(-64, 128) / 64 for _ in range(3)], rng.randint(-24, 24) / 8, rng.choice(["X", "A", "B"])] for _ in range(n)]
    if distinct:
        cells = rng.sample(range(64 ** 3), n)
        for x, c in zip(o, cells):
            x[0] = [c % 64 / 64, c // 64 % 64 / 64, c // 4096 / 64]
    seen, h = set(), []
    for _ in range(m):
        i, j = rng.randrange(n), rng.randrange(n)
        rn = [rng.randint(-max_r, max_r) if d < dims else 0 for d in range(3)]
        if rn == [0, 0, 0] and i == j:
            rn = [1, 0, 0]
        key, _ = canon(rn, i, j)
        if key not in seen:
            seen.add(key)
            h.append([rn, i, j, [rng.randint(-24, 24) / 8 or 0.5, rng.choice([0.0, rng.randint(-24, 24) / 8])]])
    return {"lat": draw(lattice(planar)), "origin": draw(origin()), "orbs": o, "hops": h}


def kpoint(lo=-3, hi=3):
    comp = st.one_of(st.integers(lo * 12, hi * 12).map(lambda n: n / 12), st.floats(lo, hi).map(lambda x: round(x, 5)))
    return st.tuples(comp, comp, comp).map(list)
