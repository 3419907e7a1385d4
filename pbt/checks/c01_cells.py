"""C01: edit histories of a primitive cell against a plain table."""
import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt.harness import sub
from pbt.ref import cplx

val = st.one_of(st.sampled_from([-1.0, -2.0, 1.0, 2.0, 0.0]), g.real_val)
comp = st.one_of(st.sampled_from([-1.0, -2.0, 0.0, 0.5]), g.pos_comp)
label = st.sampled_from(["X", "A", "pz"])


def lists(elem, lo, hi):
    return st.lists(elem, min_size=lo, max_size=hi)


# position: mostly length 3, sometimes 2, rarely illegal
pos = g.weighted((12, lists(comp, 3, 3)), (3, lists(comp, 2, 2)), (1, lists(comp, 1, 1)), (1, lists(comp, 4, 4)))
far = st.lists(st.sampled_from([-300, -129, -10, -3, 0, 0, 3, 9, 128, 40000]), min_size=3, max_size=3)
rn = g.weighted((6, g.rn_strategy(2)), (6, g.rn_strategy(1)), (1, far), (2, lists(st.integers(-1, 1), 2, 2)), (1, lists(st.integers(-1, 1), 1, 1)))
# index: [kind, n]: kind 0 -> n modulo the number of orbitals, kind 1 -> n as it is (possibly out of range)
okidx = st.tuples(st.just(0), st.integers(0, 7) | st.integers(0, 300))
idx = g.weighted((12, okidx), (1, st.tuples(st.just(1), st.integers(-2, 8)))).map(list)
nnidx = g.weighted((12, okidx), (1, st.tuples(st.just(1), st.integers(0, 8)))).map(list)
eng = st.one_of(st.tuples(val, val), st.tuples(val, st.just(0.0))).map(list)
opt = lambda s: st.one_of(st.none(), s)     # noqa: E731
unit = st.sampled_from([0.1, 1.0])

add_orb = st.tuples(st.just("add_orb"), pos, val, label)
add_hop = st.tuples(st.just("add_hop"), rn, idx, idx, eng)
op = g.weighted(
    (3, add_orb), (8, add_hop),
    (1, st.tuples(st.just("add_orb_cart"), pos, unit, val, label)),
    (2, st.tuples(st.just("set_orb"), nnidx, opt(pos), opt(val), opt(label))),
    (1, st.tuples(st.just("set_orb_cart"), nnidx, opt(pos), unit, opt(val), opt(label))),
    (2, st.tuples(st.just("set_eng"), nnidx, val)),
    (1, st.tuples(st.just("rm_orb"), idx)),
    (1, st.tuples(st.just("rm_orbs"), lists(idx, 0, 4))),
    # edits of a term that exists: addressed directly or through its conjugate
    (3, st.tuples(st.just("re_hop"), (st.integers(0, 50) | st.integers(0, 1000)), st.booleans(), eng)),
    (2, st.tuples(st.just("get_ex"), (st.integers(0, 50) | st.integers(0, 1000)), st.booleans())),
    (2, st.tuples(st.just("rm_ex"), (st.integers(0, 50) | st.integers(0, 1000)), st.booleans())),
    (1, st.tuples(st.just("get_hop"), rn, idx, idx)),
    (1, st.tuples(st.just("rm_hop"), rn, idx, idx)),
    (1, st.tuples(st.just("get_orb"), nnidx)),
    (2, st.tuples(st.just("add_dict"), lists(st.tuples(g.rn_strategy(1), st.integers(0, 5), st.integers(0, 5), eng).map(list), 0, 5),
                  st.sampled_from([0, 0, 0, 1]))),
    # changes by very little
    (2, st.tuples(st.just("nudge"), st.sampled_from(["eng", "pos", "hop"]), (st.integers(0, 50) | st.integers(0, 1000)), st.sampled_from([1e-6, -3e-7, 1e-4]))),
    (1, st.tuples(st.just("trim"))),
    (1, st.tuples(st.just("pbc"), lists(st.booleans(), 3, 3))),
    (1, st.tuples(st.just("reset_lat"), opt(g.lattice()), opt(g.origin()), unit, st.booleans())),
    (1, st.tuples(st.just("reset_bad"), st.integers(0, 1))),
    (1, st.tuples(st.just("lock"), st.booleans())), (3, st.tuples(st.just("unlock"))),
    (3, st.tuples(st.just("read"), st.sampled_from(["orb_pos", "orb_eng", "hop_ind", "hop_eng", "dr", "dr_nm", "orb_pos_nm", "sync"]))),
    (1, st.tuples(st.just("sync"), st.booleans())),
).map(list)


@st.composite
def history(draw):
    # start from a few orbitals and terms so that the interesting operations have something to act on
    head = [list(draw(add_orb)) for _ in range(draw(st.integers(1, 5)))]
    mid = [list(draw(add_hop)) for _ in range(draw(st.integers(1, 8)))]
    return {"lat": draw(g.lattice()), "origin": draw(g.origin()), "unit": draw(unit), "read_every": draw(st.booleans()), "form": draw(st.integers(0, 3)),
            "subs": draw(st.sampled_from([1, 1, 2, 3, 5])), "ops": head + mid + draw(g.sized(op, 1, 25))}


@st.composite
def long_history(draw):
    c = draw(g.bulk(orbs=(20, 150), hops=(40, 500)))
    head = [["add_orb", p, e, lab] for p, e, lab in c["orbs"]] + [["add_hop", rn, [0, i], [0, j], e] for rn, i, j, e in c["hops"]]
    return {"lat": c["lat"], "origin": c["origin"], "unit": draw(unit), "read_every": False, "ops": head + draw(g.sized(op, 5, 40))}


def canon(rn, i, j):
    return g.canon(rn, i, j)


class Model:
    def __init__(self, lat, origin, unit):
        self.lat, self.origin = np.array(lat) * unit, np.array(origin) * unit
        self.orbs = []          # [pos, eng, label]
        self.terms = {}         # canonical key -> energy
        self.locked = False

    def remove(self, indices):
        drop = set(indices)
        remap, n = {}, 0
        for i in range(len(self.orbs)):
            if i not in drop:
                remap[i] = n
                n += 1
        self.orbs = [o for i, o in enumerate(self.orbs) if i not in drop]
        new = {}
        for (r, i, j), e in self.terms.items():
            if i in remap and j in remap:
                key, conj = canon(r, remap[i], remap[j])
                new[key] = e.conjugate() if conj else e
        self.terms = new

    def cart(self):
        return np.array([o[0] for o in self.orbs]).reshape(-1, 3) @ self.lat + self.origin


def compare(cell, m, ctx, where):
    n = len(m.orbs)
    ctx.equal(cell.num_orb, n, f"{where}: number of orbitals")
    ctx.equal(cell.num_hop, len(m.terms), f"{where}: number of hopping terms")
    ctx.close(cell.lat_vec, m.lat, 1e-12, f"{where}: lat_vec")
    ctx.close(cell.origin, m.origin, 1e-12, f"{where}: origin")
    for i, (o, r) in enumerate(zip(cell.orbitals, m.orbs)):
        ctx.close(o.position, r[0], 1e-9, f"{where}: position of orbital {i}")
        ctx.check(o.energy == r[1] and o.label == r[2], f"{where}: orbital {i} is {o}, expected {r}")
    # arrays
    pos = np.array([o[0] for o in m.orbs]).reshape(-1, 3)
    ctx.close(np.asarray(cell.orb_pos).reshape(-1, 3), pos, 1e-9, f"{where}: orb_pos")
    ctx.equal(np.asarray(cell.orb_eng).tolist(), [o[1] for o in m.orbs], f"{where}: orb_eng")
    ind = np.asarray(cell.hop_ind)
    eng = np.asarray(cell.hop_eng)
    ctx.equal(ind.size, 5 * len(m.terms), f"{where}: size of hop_ind")
    ctx.equal(eng.size, len(m.terms), f"{where}: size of hop_eng")
    got = {}
    rows = ind.reshape(-1, 5).tolist()
    for row, e in zip(rows, eng.tolist()):
        key, conj = canon(row[:3], row[3], row[4])
        ctx.check(key not in got, f"{where}: term {key} listed twice in hop_ind")
        got[key] = e.conjugate() if conj else e
    ctx.equal(sorted(got.items(), key=str), sorted(m.terms.items(), key=str), f"{where}: hop_ind/hop_eng")
    objs = {}
    for r, hop_rn in cell.hoppings.items():
        for (i, j), e in hop_rn.items():
            key, conj = canon(r, i, j)
            ctx.check(key not in objs, f"{where}: term {key} listed twice in hoppings")
            objs[key] = complex(e).conjugate() if conj else complex(e)
    ctx.equal(sorted(objs.items(), key=str), sorted(m.terms.items(), key=str), f"{where}: hoppings")
    # derived
    if n:
        ctx.close(cell.orb_pos_nm, m.cart(), 1e-8, f"{where}: orb_pos_nm")
        ctx.close(cell.orb_pos_ang, 10 * m.cart(), 1e-7, f"{where}: orb_pos_ang")
    if rows:
        dr = np.array([pos[r[4]] + r[:3] - pos[r[3]] for r in rows])
        ctx.close(cell.dr, dr, 1e-9, f"{where}: dr")
        ctx.close(cell.dr_nm, dr @ m.lat, 1e-8, f"{where}: dr_nm")
        ctx.close(cell.dr_ang, dr @ m.lat * 10, 1e-7, f"{where}: dr_ang")


@sub("C01", history, quick=2400, thorough=80000, shards=6,
     rule="the history contains an edit after arrays were read, and at least one hopping term was stored")
def edits(case, ctx):
    import tbplas as tb
    from tbplas.builder import exceptions as exc
    lat, origin = case["lat"], case["origin"]
    if case.get("form", 0) != 1:
        lat, origin = np.array(lat), np.array(origin)
    cell = tb.PrimitiveCell(lat, origin, unit=case["unit"])
    if case.get("form", 0) != 1:          # the cell keeps nothing of its arguments
        lat *= 1.5
        origin += 0.25
    m = Model(case["lat"], case["origin"], case["unit"])

    class Sub_:
        calls = 0

        def update(self):
            Sub_.calls += 1
    subs = case.get("subs", 1)
    for q in range(subs):
        cell.add_subscriber("s" if q == 0 else f"s{q}", Sub_())
    was_read, edits_after_read = False, 0

    def ix(t):
        kind, n = t
        if kind == 0:
            return n % len(m.orbs) if m.orbs else 0
        return n

    def attempt(where, call, errors, apply):
        """errors: the errors the arguments deserve; when locked LockError is due (or one of errors)."""
        nonlocal edits_after_read
        if m.locked:
            ctx.raises(tuple(errors) + (exc.LockError,), call, f"{where} on a locked cell")
            ctx.label("rejected:lock")
        elif errors:
            ctx.raises(tuple(errors), call, f"{where} with illegal arguments")
            ctx.label("rejected:args")
        else:
            call()
            apply()
            if was_read:
                edits_after_read += 1

    form = case.get("form", 0)

    def tup(x):
        """Positions and cell indices as tuple, list or array."""
        return (tuple, list, np.array, tuple)[form](x)

    def num(i):
        return np.int64(i) if form == 2 else i

    def many(x):
        return (list, tuple, lambda y: np.array(y, dtype=np.int64), set)[form](x)

    def bad(i):
        return not 0 <= i < len(m.orbs)

    def pad(p):
        return list(p) + [0.0] * (3 - len(p))

    def hop_errors(r, i, j):
        e = []
        if len(r) not in (2, 3):
            e.append(exc.CellIndexLenError)
        if bad(i) or bad(j):
            e.append(exc.PCOrbIndexError)
        if i == j and not any(r):
            e.append(exc.PCHopDiagonalError)
        return e

    def put(r, i, j, e):
        key, conj = canon(pad_rn(r), i, j)
        m.terms[key] = e.conjugate() if conj else e

    def pad_rn(r):
        return list(r) + [0] * (3 - len(r))

    def energy_arg(e):
        e = cplx(e)
        return e.real if e.imag == 0 else e

    for step, o in enumerate(case["ops"]):
        name, a = o[0], o[1:]
        where = f"step {step} {name}"
        ctx.label("op:" + name)
        if name == "add_orb":
            attempt(where, lambda: cell.add_orbital(tup(a[0]), a[1], a[2]),
                    [] if len(a[0]) in (2, 3) else [exc.OrbPositionLenError],
                    lambda: m.orbs.append([pad(a[0]), a[1], a[2]]))
        elif name == "add_orb_cart":
            def app():
                frac = np.linalg.solve(m.lat.T, np.array(pad(a[0])) * a[1] - m.origin)
                m.orbs.append([frac.tolist(), a[2], a[3]])
            attempt(where, lambda: cell.add_orbital_cart(tup(a[0]), unit=a[1], energy=a[2], label=a[3]),
                    [] if len(a[0]) in (2, 3) else [exc.OrbPositionLenError], app)
        elif name in ("set_orb", "set_orb_cart", "set_eng"):
            i = ix(a[0])
            if name == "set_eng":
                p, u, e, lab = None, 1.0, a[1], None
            elif name == "set_orb":
                p, u, e, lab = a[1], None, a[2], a[3]
            else:
                p, u, e, lab = a[1:]
            errors = [exc.PCOrbIndexError] if bad(i) else []
            if p is not None and len(p) not in (2, 3):
                errors.append(exc.OrbPositionLenError)

            def app():
                if p is not None:
                    q = pad(p)
                    if name == "set_orb_cart":
                        q = np.linalg.solve(m.lat.T, np.array(q) * u - m.origin).tolist()
                    m.orbs[i][0] = q
                if e is not None:
                    m.orbs[i][1] = e
                if lab is not None:
                    m.orbs[i][2] = lab
            tp = None if p is None else tup(p)
            if name == "set_orb_cart":
                attempt(where, lambda: cell.set_orbital_cart(i, tp, unit=u, energy=e, label=lab), errors, app)
            else:
                attempt(where, lambda: cell.set_orbital(i, position=tp, energy=e, label=lab), errors, app)
        elif name == "get_orb":
            i = ix(a[0])
            if bad(i):
                ctx.raises(exc.PCOrbIndexError, lambda: cell.get_orbital(i), where)
            else:
                orb = cell.get_orbital(i)
                ctx.close(orb.position, m.orbs[i][0], 1e-9, where)
                ctx.check([orb.energy, orb.label] == m.orbs[i][1:], f"{where}: {orb}")
        elif name == "rm_orb":
            i = ix(a[0])
            attempt(where, lambda: cell.remove_orbital(num(i)), [exc.PCOrbIndexError] if bad(i) else [], lambda: m.remove([i]))
        elif name == "rm_orbs":
            ids = [ix(t) for t in a[0]]
            attempt(where, lambda: cell.remove_orbitals(many(ids)), [exc.PCOrbIndexError] if any(bad(i) for i in ids) else [],
                    lambda: m.remove(ids))
        elif name == "add_hop":
            r, i, j, e = a[0], ix(a[1]), ix(a[2]), energy_arg(a[3])
            attempt(where, lambda: cell.add_hopping(tup(r), num(i), num(j), e), hop_errors(r, i, j),
                    lambda: put(r, i, j, complex(e)))
        elif name in ("re_hop", "get_ex", "rm_ex"):
            if not m.terms:
                continue
            keys = sorted(m.terms)
            r, i, j = keys[a[0] % len(keys)]
            stored = m.terms[(r, i, j)]
            key = (r, i, j)
            if a[1]:
                r, i, j = tuple(-x for x in r), j, i
                stored = stored.conjugate()
            if name == "get_ex":
                ctx.equal(complex(cell.get_hopping(r, i, j)), stored, f"{where} {r} {i} {j}")
            elif name == "rm_ex":
                attempt(where, lambda: cell.remove_hopping(r, i, j), [], lambda: m.terms.pop(key))
            else:
                e = energy_arg(a[2])
                attempt(where, lambda: cell.add_hopping(r, i, j, e), [], lambda: put(r, i, j, complex(e)))
        elif name in ("get_hop", "rm_hop"):
            r, i, j = a[0], ix(a[1]), ix(a[2])
            errors = hop_errors(r, i, j)
            key, conj = (None, False) if errors else canon(pad_rn(r), i, j)
            if key is not None and key not in m.terms:
                errors.append(exc.PCHopNotFoundError)
            if name == "rm_hop":
                attempt(where, lambda: cell.remove_hopping(tup(r), num(i), num(j)), errors, lambda: m.terms.pop(key))
            elif errors:
                ctx.raises(tuple(errors), lambda: cell.get_hopping(tup(r), num(i), num(j)), where)
            else:
                e = m.terms[key]
                ctx.equal(complex(cell.get_hopping(tup(r), num(i), num(j))), e.conjugate() if conj else e, where)
        elif name == "add_dict":
            n = len(m.orbs) + a[1]
            if n == 0:
                continue
            hd = tb.HopDict(n)
            content = {}
            for r, i, j, e in a[0]:
                i, j, e = i % n, j % n, cplx(e)
                if i == j and not any(r) or e == 0:
                    continue
                # never both a term and its conjugate: which one wins is not specified
                if canon(r, i, j)[0] in content:
                    continue
                content[canon(r, i, j)[0]] = True
                hd[tuple(r)][i, j] = e
            entries = [(r, i, j, complex(mat[i, j])) for r, mat in hd.hoppings.items()
                       for i, j in zip(*map(lambda x: x.tolist(), np.nonzero(mat)))]
            errors = [exc.PCOrbIndexError] if any(bad(i) or bad(j) for _, i, j, _ in entries) else []
            attempt(where, lambda: cell.add_hopping_dict(hd), errors, lambda: [put(*t) for t in entries])
        elif name == "nudge":
            if a[0] == "hop":
                if not m.terms:
                    continue
                keys = sorted(m.terms)
                key = keys[a[1] % len(keys)]
                e = m.terms[key] + (a[2] if a[1] % 2 else 1j * a[2])
                attempt(where, lambda: cell.add_hopping(*key, e), [], lambda: m.terms.update({key: e}))
            elif m.orbs:
                i = a[1] % len(m.orbs)
                old = m.orbs[i]
                if a[0] == "eng":
                    e = old[1] + a[2]
                    attempt(where, lambda: cell.set_orbital(i, energy=e), [], lambda: m.orbs[i].__setitem__(1, e))
                else:
                    q = list(old[0])
                    q[a[1] % 3] += a[2]
                    attempt(where, lambda: cell.set_orbital(i, position=tup(q)), [], lambda: m.orbs[i].__setitem__(0, q))
        elif name == "trim":
            count = [0] * len(m.orbs)
            for (_, i, j) in m.terms:
                count[i] += 1
                count[j] += 1
            attempt(where, cell.trim, [], lambda: m.remove([i for i, c in enumerate(count) if c <= 1]))
        elif name == "pbc":
            def app():
                m.terms = {k: v for k, v in m.terms.items() if all(p or r == 0 for p, r in zip(a[0], k[0]))}
            attempt(where, lambda: cell.apply_pbc((tuple, list, np.array, lambda x: tuple(int(y) for y in x))[form](a[0])), [], app)
        elif name == "reset_lat":
            lat_vec, org, u, fix = a

            def app():
                cart = m.cart()
                if lat_vec is not None:
                    m.lat = np.array(lat_vec) * u
                if org is not None:
                    m.origin = np.array(org) * u
                if fix and m.orbs:
                    frac = np.linalg.solve(m.lat.T, (cart - m.origin).T).T
                    for orb, p in zip(m.orbs, frac.tolist()):
                        orb[0] = p
            arg = [x if x is None or form == 1 else np.array(x, dtype=float) for x in (lat_vec, org)]

            def reset(arg=arg):
                cell.reset_lattice(arg[0], arg[1], unit=u, fix_orb=fix)
                for x in arg:
                    if isinstance(x, np.ndarray):
                        x *= 1.5
            attempt(where, reset, [], app)
        elif name == "reset_bad":
            if a[0]:
                attempt(where, lambda: cell.reset_lattice(np.eye(2)), [exc.LatVecError], None)
            else:
                attempt(where, lambda: cell.reset_lattice(np.eye(3) * 3, np.zeros(2)), [ValueError], None)
        elif name == "lock":
            if a[0]:
                cell.lock("s" if step % subs == 0 else f"s{step % subs}")
                m.locked = True
            else:
                ctx.raises(ValueError, lambda: cell.lock("nobody"), where)
        elif name == "unlock":
            cell.unlock()
            m.locked = False
        elif name == "sync":
            cell.sync_array(force_sync=a[0])
        elif name == "read":
            if a[0] == "sync":
                before = Sub_.calls
                cell.update()
                ctx.equal(Sub_.calls, before + subs, "number of subscriber updates")
            elif a[0] in ("orb_pos_nm", "dr_nm") and not (m.orbs and m.terms):
                pass
            else:
                getattr(cell, a[0])
            was_read = True
        if case["read_every"]:
            compare(cell, m, ctx, where)
            was_read = True
    compare(cell, m, ctx, "end of history")
    # every term can be read back, directly and as its conjugate, and nothing else is there
    for (r, i, j), e in m.terms.items():
        ctx.equal(complex(cell.get_hopping(r, i, j)), e, f"readback of {r} {i} {j}")
        ctx.equal(complex(cell.get_hopping(tuple(-x for x in r), j, i)), e.conjugate(), f"readback of the conjugate of {r} {i} {j}")
    for i in range(min(len(m.orbs), 6)):
        ctx.close(cell.get_orbital(i).position, m.orbs[i][0], 1e-9, f"position of orbital {i} read back")
        key = canon((1, 0, -1), i, 0)[0]
        if key not in m.terms:
            ctx.raises(exc.PCHopNotFoundError, lambda: cell.get_hopping((1, 0, -1), i, 0), "term that does not exist")
    compare(cell, m, ctx, "after reading back")
    ctx.nontrivial(edits_after_read > 0 and len(m.terms) > 0)
    ctx.label(f"orbs:{min(len(m.orbs), 6)}")


sub("C01", long_history, quick=80, shards=2, rule="edit after arrays were read in a cell of at least 20 orbitals", name="large")(edits)
