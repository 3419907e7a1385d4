"""C09: histories of edits, refreshes, rescalings, saves and loads of a sample."""
import copy
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from pbt import gens as g
from pbt import ref
from pbt.harness import sub
from pbt.checks.c08_sample import RefSample, compare_arrays

idx = st.integers(0, 400)
factor = st.one_of(st.sampled_from([0.5, 1.0, 2.0, 3.7, 8.0, 25.0]), st.floats(0.3, 40))
op = g.weighted(
    (2, st.tuples(st.just("pc_eng"), idx, idx, g.real_val)),
    (1, st.tuples(st.just("pc_pos"), idx, idx, st.lists(g.pos_comp, min_size=3, max_size=3))),
    (2, st.tuples(st.just("pc_hop"), idx, idx, g.nonzero_complex())),
    (1, st.tuples(st.just("vac"), idx, idx)),
    (1, st.tuples(st.just("setvac"), idx, st.lists(idx, max_size=2))),
    (1, st.tuples(st.just("mod"), idx, g.rn_strategy(1), idx, idx, g.nonzero_complex())),
    (1, st.tuples(st.just("inter"), idx, g.rn_strategy(1), idx, idx, g.nonzero_complex())),
    (1, st.tuples(st.just("locked"), idx)),
    (4, st.tuples(st.just("reset"))),
    (2, st.tuples(st.just("notify"), idx, st.sampled_from(["cell", "super", "inter"]))),
    (3, st.tuples(st.just("rescale"), factor)),
    (3, st.tuples(st.just("auto"))),
    (1, st.tuples(st.just("init"), st.sampled_from(["eng", "pos", "hop"]), st.booleans())),
    (2, st.tuples(st.just("saveload"), st.booleans())),
    (1, st.tuples(st.just("field"), st.integers(1, 40).map(lambda n: n * 30.0), st.integers(0, 2))),
    (1, st.tuples(st.just("kpoint"), g.kpoint(-1, 1))),
    (2, st.tuples(st.just("read"))))


@st.composite
def history(draw):
    parts = []
    for _ in range(draw(st.integers(1, 2))):
        c = draw(g.cell(max_orb=3, max_hop=5, max_r=1, dims=draw(st.integers(1, 2))))
        dim = [m + draw(st.integers(0, 1)) for m in ref.dim_min(c)]
        parts.append({"cell": c, "dim": dim, "pbc": draw(st.lists(st.booleans(), min_size=3, max_size=3)), "vac": []})
    term = st.tuples(g.rn_strategy(1), idx, idx, g.nonzero_complex()).map(list)
    return {"parts": parts, "inter": draw(st.lists(term, min_size=1, max_size=3)) if len(parts) == 2 else [],
            "back": draw(st.lists(term, max_size=2)) if len(parts) == 2 else [],
            "share": draw(st.booleans()), "ops": draw(g.sized(op.map(list), 3, 18))}


class Model:
    """Plain description of what the parts currently are."""
    def __init__(self, case):
        self.parts = copy.deepcopy(case["parts"])
        for p in self.parts:
            p["mods"] = {}
        self.inter = [{}, {}]

    def size(self, p):
        return int(np.prod(self.parts[p]["dim"])) * len(self.parts[p]["cell"]["orbs"])

    def live(self, p):
        return self.size(p) - len(self.parts[p]["vac"])

    def ref(self):
        tiled = []
        for p in self.parts:
            t = ref.Tiled(p["cell"], p["dim"], p["pbc"], p["vac"])
            for (i, j), (rn, e) in p["mods"].items():
                t.modify(rn, i, j, e)
            tiled.append(t)
        inter = [(b, 1 - b, [(k[0], k[1], k[2], t) for k, t in self.inter[b].items()]) for b in (0, 1)]
        return RefSample(None).assemble(tiled, inter, list(range(len(tiled))))


def same_arrays(ctx, sample, saved, what):
    for name, val in saved.items():
        got = getattr(sample, name)
        if val is None:
            continue
        ctx.check(got is not None and np.array_equal(got, val), f"{what}: {name} changed")


NAMES = ("orb_eng", "orb_pos", "hop_i", "hop_j", "hop_v", "dr")


def snapshot(sample):
    return {n: (None if getattr(sample, n) is None else getattr(sample, n).copy()) for n in NAMES}


def run_history(case, ctx, scratch):
    import tbplas as tb
    from tbplas.builder import exceptions as exc
    m = Model(case)
    cells = [ref.build_cell(p["cell"]) for p in m.parts]
    scs = [tb.SuperCell(c, dim=tuple(p["dim"]), pbc=tuple(p["pbc"])) for c, p in zip(cells, m.parts)]
    if case["share"] and len(scs) == 2:      # both supercells from one primitive cell
        cells[1], m.parts[1]["cell"] = cells[0], m.parts[0]["cell"]
        m.parts[1]["dim"] = [max(a, b) for a, b in zip(m.parts[0]["dim"], m.parts[1]["dim"])]
        scs[1] = tb.SuperCell(cells[0], dim=tuple(m.parts[1]["dim"]), pbc=tuple(m.parts[1]["pbc"]))
    # inter-hopping indices stay below the smallest size the supercells may reach
    limit = [max(1, m.size(p) // 2) for p in range(len(scs))]
    inter = []
    if len(scs) == 2:
        inter = [tb.SCInterHopping(scs[0], scs[1])]
        if case["back"]:
            inter.append(tb.SCInterHopping(scs[1], scs[0]))
        for b, terms in enumerate((case["inter"], case["back"])):
            for rn, i, j, t in terms:
                inter[b].add_hopping(tuple(rn), i % limit[b], j % limit[1 - b], ref.cplx(t))
                m.inter[b][(tuple(rn), i % limit[b], j % limit[1 - b])] = t
    sample = tb.Sample(*scs, *inter)
    have = {"eng": None, "pos": None, "hop": None}      # reference each group of arrays was built from
    state = {"scale": 1.0, "dirty": False}              # hop_v modified by a field or a k-point
    did = set()

    def build(group, force=False):
        if have[group] is None or force:
            have[group] = m.ref()
            if group == "hop":
                state["scale"], state["dirty"] = 1.0, False

    def fresh():
        now = m.ref()
        for grp in have:
            if have[grp] is not None:
                build(grp, True)
        return now

    def verify(what):
        ctx.check(abs(sample.rescale - state["scale"]) <= 1e-9 * abs(state["scale"]),
                  f"{what}: rescale is {sample.rescale}, expected {state['scale']}")
        ctx.check(abs(sample.energy_range - 2 * state["scale"]) <= 1e-8 * abs(state["scale"]), f"{what}: energy_range")
        if have["eng"] is not None:
            ctx.close(np.asarray(sample.orb_eng) * sample.rescale, have["eng"].eng, 1e-8, f"{what}: factor times orbital energies")
        if have["pos"] is not None:
            ctx.close(sample.orb_pos, have["pos"].pos, 1e-8, f"{what}: orbital positions")
        if have["hop"] is not None:
            got = list(zip(sample.hop_i.tolist(), sample.hop_j.tolist(), (sample.hop_v * sample.rescale).tolist(), sample.dr))
            if not state["dirty"]:
                ref.compare_terms(ctx, got, have["hop"].terms, f"{what}: factor times hopping terms", 1e-7)
            else:
                a = sorted(np.abs(sample.hop_v * sample.rescale).tolist())
                b = sorted(abs(t[2]) for t in have["hop"].terms)
                ctx.close(np.array(a), np.array(b), 1e-7, f"{what}: moduli of the hopping terms")

    edited = False
    for n_op, o in enumerate(case["ops"]):
        name = o[0]
        what = f"after step {n_op} ({name})"
        if name in ("pc_eng", "pc_pos", "pc_hop"):
            p = o[1] % len(cells)
            c, cell = m.parts[p]["cell"], cells[p]
            cell.unlock()
            if name == "pc_eng":
                i = o[2] % len(c["orbs"])
                cell.set_orbital(i, energy=o[3])
                c["orbs"][i][1] = o[3]
            elif name == "pc_pos":
                i = o[2] % len(c["orbs"])
                cell.set_orbital(i, position=tuple(o[3]))
                c["orbs"][i][0] = o[3]
            else:
                h = c["hops"][o[2] % len(c["hops"])]
                cell.add_hopping(tuple(h[0]), h[1], h[2], ref.cplx(o[3]))
                h[3] = o[3]
            edited = True
        elif name in ("vac", "setvac"):
            p = o[1] % len(scs)
            part = m.parts[p]
            ids = ref.Tiled(part["cell"], part["dim"], part["pbc"]).ids
            want = set(map(tuple, part["vac"])) | {ids[o[2] % len(ids)]} if name == "vac" else {ids[v % len(ids)] for v in o[2]}
            top = max([max(k) for k in part["mods"]], default=-1)
            if len(ids) - len(want) < limit[p] or len(ids) - len(want) <= top:
                continue
            scs[p].unlock()
            if name == "vac":
                scs[p].add_vacancy(ids[o[2] % len(ids)])
            else:
                scs[p].set_vacancies(sorted(want))
            part["vac"] = sorted(want)
            edited = True
        elif name == "mod":
            p = o[1] % len(scs)
            i, j = o[3] % limit[p], o[4] % limit[p]
            if i == j or (j, i) in m.parts[p]["mods"] or (i, j) in m.parts[p]["mods"]:
                continue
            scs[p].unlock()
            scs[p].add_hopping(tuple(o[2]), i, j, ref.cplx(o[5]))
            m.parts[p]["mods"][(i, j)] = (o[2], o[5])
            edited = True
        elif name == "inter":
            if not inter:
                continue
            b = o[1] % len(inter)
            inter[b].unlock()
            key = (tuple(o[2]), o[3] % limit[b], o[4] % limit[1 - b])
            inter[b].add_hopping(*key, ref.cplx(o[5]))
            m.inter[b][key] = o[5]
            edited = True
        elif name == "locked":
            sample.reset_array()
            fresh()
            p = o[1] % len(scs)
            ctx.raises(exc.LockError, lambda: scs[p].add_vacancy((0, 0, 0, 0)), "edit of a locked supercell")
            ctx.raises(exc.LockError, lambda: scs[p].add_hopping((0, 0, 0), 0, 1, 9.0), "edit of a locked supercell")
            for h in inter:
                ctx.raises(exc.LockError, lambda: h.add_hopping((0, 0, 0), 0, 0, 9.0), "edit of a locked inter-hopping")
            sample.reset_array()
            fresh()
            edited = False
        elif name == "reset":
            sample.reset_array()
            fresh()
            edited = False
        elif name == "notify":
            # 'update' of any part brings the subscribed sample up to date
            (cells[o[1] % len(cells)] if o[2] == "cell" else scs[o[1] % len(scs)] if o[2] == "super" or not inter else inter[o[1] % len(inter)]).update()
            fresh()
            edited = False
        elif name in ("rescale", "auto"):
            if name == "auto" and edited:
                continue                     # the arrays may mix old and new parts
            sample.rescale_ham(o[1] if name == "rescale" else None)
            build("eng"), build("hop")
            if name == "rescale":
                state["scale"] = o[1]
            else:
                r = RefSample(None)
                r.num, r.eng, r.terms, r.lat = have["hop"].num, have["eng"].eng, have["hop"].terms, have["hop"].lat
                f = sample.rescale
                ctx.check(np.isfinite(f) and f > 0, f"{what}: factor {f}")
                if not state["dirty"]:
                    top = np.abs(np.linalg.eigvalsh(r.ham())).max()
                    ctx.check(top <= f * (1 + 1e-9), f"{what}: automatic factor {f} does not bound the spectrum ({top})")
                bound = np.zeros(r.num)
                bound += np.abs(r.eng)
                for i, j, e, _ in r.terms:
                    bound[i] += abs(e)
                    bound[j] += abs(e)
                ctx.check(f <= 10 * bound.max(), f"{what}: automatic factor {f} is far above the row-sum estimate {bound.max()}")
                state["scale"] = f
        elif name == "init":
            if o[1] == "pos":
                sample.init_orb_pos(force_init=o[2])
                build("pos", o[2])
            elif o[1] == "eng":
                force = o[2] and state["scale"] == 1.0
                sample.init_orb_eng(force_init=force)
                build("eng", force)
            else:
                force = o[2] and state["scale"] == 1.0
                sample.init_hop(force_init=force)
                build("hop", force)
        elif name == "saveload":
            path = os.path.join(scratch, "s%d" % n_op) if n_op % 3 else "sample"
            saved, scale = snapshot(sample), sample.rescale
            sample.save_array(path)
            same_arrays(ctx, sample, saved, "save_array")
            other = sample
            if o[1]:
                other = tb.Sample(*scs, *inter) if n_op % 2 else tb.Sample(scs[-1])
                if n_op % 4 < 2:             # a sample with arrays of its own
                    other.init_orb_eng(), other.init_orb_pos(), other.init_hop()
                    other.dr += 0.5
                    other.rescale_ham(5.0)
                scs[0].unlock()
            else:
                sample.rescale_ham(11.0)
            if saved["hop_i"] is not None:
                if not o[1] and saved["orb_eng"] is None:
                    sample.orb_eng = None
                other.load_array(path)
                same_arrays(ctx, other, saved, "load_array")
                ctx.equal(other.rescale, scale, "rescaling factor after load_array")
                for nm, val in saved.items():
                    if val is not None:
                        ctx.equal(getattr(other, nm).dtype, val.dtype, f"type of {nm} after load_array")
            elif not o[1]:
                sample.reset_array()
                build("eng", True), build("hop", True)
                for grp in have:
                    if have[grp] is not None:
                        build(grp, True)
                edited = False
        elif name == "field":
            if edited:
                continue                     # old bonds and new positions do not go together
            sample.set_magnetic_field(o[1], gauge=o[2])
            build("pos"), build("hop")
            state["dirty"] = True
        elif name == "kpoint":
            sample.set_k_point(np.array(o[1]))
            build("hop")
            state["dirty"] = True
        elif name == "read":
            if edited or state["dirty"]:
                continue
            h = sample.build_ham_csr().toarray()
            build("eng"), build("hop")
            now = m.ref()
            ctx.close(h * sample.rescale, now.ham(), 1e-7, f"{what}: factor times Hamiltonian")
            ctx.close(sample.set_ham_csr(np.zeros(3)).toarray(), now.ham(), 1e-7, f"{what}: set_ham_csr undoes the rescaling")
            k = np.array([0.25, 0.125, 0.0])
            dense = np.zeros(h.shape, dtype=complex)
            sample.set_ham_dense(k, dense)
            ctx.close(dense, now.ham(k), 1e-7, f"{what}: set_ham_dense undoes the rescaling")
        did.add(name)
        verify(what)
    # the final refresh makes everything current
    sample.reset_array()
    sample.init_orb_eng(), sample.init_orb_pos(), sample.init_hop()
    compare_arrays(ctx, sample, m.ref(), "after the final refresh")
    ctx.equal(sample.rescale, 1.0, "rescaling factor after reset_array")
    ctx.label(*("op:" + d for d in sorted(did)))
    ctx.nontrivial(bool(did & {"pc_eng", "pc_pos", "pc_hop", "vac", "setvac", "mod", "inter"}) and bool(did & {"rescale", "auto", "saveload"}))


@sub("C09", history, quick=2000, shards=8, rule="the history edits the model and rescales, saves or loads")
def histories(case, ctx):
    scratch, cwd = tempfile.mkdtemp(prefix="c09"), os.getcwd()
    os.chdir(scratch)
    try:
        run_history(case, ctx, scratch)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
