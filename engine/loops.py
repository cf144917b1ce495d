"""Loop summarisation (see core.py).  summarise() leaves ctx in the state after the loop (forking
through ctx.branch where control flow needs it) and returns the loop's outcome."""
from core import *

MAXUNROLL = 8


class Vocab:
    """contract vocabulary for the contents of a logical matrix: content(e, row, col)"""

    def __init__(self, name, stride, rows, cols, fn, pool=None):
        self.name, self.stride, self.rows, self.cols, self.fn, self.pool = name, t(stride), t(rows), t(cols), fn, pool


def free_of(x, ids):
    if isinstance(x, (T, F)):
        return not ({a.id for a in closure_atoms(x)} & ids)
    if isinstance(x, Ptr):
        return free_of(x.off, ids)
    return True


def fpred_names(f, out):
    if f.op == "pred":
        out.add(f.args[0])
    for a in f.args:
        if isinstance(a, F):
            fpred_names(a, out)
        elif isinstance(a, T):
            for at in closure_atoms(a):
                for y in at.args:
                    if isinstance(y, F):
                        fpred_names(y, out)
    return out


def mentions(x, ids, preds):
    if isinstance(x, Ptr):
        x = x.off
    if not isinstance(x, (T, F)):
        return False
    if not free_of(x, ids):
        return True
    if preds:
        names = set()
        if isinstance(x, F):
            fpred_names(x, names)
        else:
            for at in closure_atoms(x):
                for y in at.args:
                    if isinstance(y, F):
                        fpred_names(y, names)
        return bool(names & preds)
    return False


def emptied(x, N):
    """x simplified under N <= 0: sums, products and existentials over 0..N are empty"""
    if isinstance(x, F):
        if x.op == "ex" and x.args[2] == N:
            return FALSE
        if x.op == "not":
            return Not(emptied(x.args[0], N))
        if x.op == "and":
            return And(*[emptied(y, N) for y in x.args])
        if x.op == "or":
            return Or(*[emptied(y, N) for y in x.args])
        return x
    m = {}
    for i in x.atoms():
        a = atom(i)
        if a.kind == "bind" and a.args[2] == N:
            m[i] = t(0) if a.name == "SUM" else t(1)
        elif a.name == "ITE":
            r = ite(emptied(a.args[0], N), emptied(a.args[1], N), emptied(a.args[2], N))
            if r != t(a):
                m[i] = r
    return subst(x, m) if m else x


def emptyguard(g):
    """N such that g says N <= 0 (or N < 1), else None"""
    if g.op == "le":
        return g.args[0]
    return None


def mergetree(results, val):
    """merge per-path values along the decision tree: results = [(guards, r)]"""

    def go(items):
        if len(items) == 1 and not items[0][0]:
            return val(items[0][1])
        if any(not g for g, _ in items):
            # a path without further guards next to guarded ones cannot happen in a binary tree
            raise Unsupported("path merge")
        g = items[0][0][0]
        ng = Not(g)
        a = [(gs[1:], r) for gs, r in items if gs[0] == g]
        b = [(gs[1:], r) for gs, r in items if gs[0] == ng]
        if len(a) + len(b) != len(items):
            raise Unsupported(f"path merge {[ [str(x) for x in gs] for gs, r in items]}")
        va = go(a)
        if not b:      # other side infeasible / non-normal
            return va
        vb = go(b)
        for gg, x, y in ((g, va, vb), (ng, vb, va)):
            N = emptyguard(gg)
            if N is not None and isinstance(x, (T, F)) and isinstance(y, type(x)) and emptied(y, N) == x:
                return y
        if isinstance(va, F):
            if va == vb:
                return va
            return Or(And(g, va), And(ng, vb))
        return ite(g, va, vb)

    return go(results)


def tripcount(c, va, bad):
    """(N, rest) from loop condition c, linear in v"""
    conj = list(c.args) if c.op == "and" else [c]
    v = t(atom(va))
    for i, f in enumerate(conj):
        d = None
        if f.op in ("lt", "le"):
            d = f.args[0]
            off = 0 if f.op == "lt" else 1
        elif f.op == "not" and f.args[0].op == "eq":
            d = f.args[0].args[0]
            off = None
        if d is None:
            continue
        k = lincoeff(d, va)
        if k is None or k.const() is None or k.const() == 0:
            continue
        kc = k.const()
        r = d - k * v
        if not free_of(r, bad):
            continue
        if off is None:
            if abs(kc) != 1:
                continue
            return -r / k, [g for j, g in enumerate(conj) if j != i], "ne"
        if kc <= 0:
            continue
        if not (isint(r) and kc.denominator == 1):
            continue
        n = -r + off
        if kc != 1:
            n = simp_div(n + int(kc) - 1, t(kc))
        return n, [g for j, g in enumerate(conj) if j != i], "lt"
    return None


def summarise(ctx, cond, step, name, N=None, bind=None):
    """cond(): F (or None when N is given); step(): outcome; bind(v): set loop variable for iteration v"""
    entry = ctx.snap()
    v = fresh("v")
    va = single_atom(v).id
    hav, havids, havpreds = {}, set(), set()
    solved = {}
    kinds = {}
    modarr = set()
    H = {}
    cells = {}          # arrays written at constant addresses only -> those addresses
    notcells = set()
    known_N = t(N) if N is not None else None

    if known_N is not None and known_N.iconst() is not None and known_N.iconst() <= MAXUNROLL:
        return unroll(ctx, step, bind, known_N.iconst(), name)

    def havoc(loc, val):
        if isinstance(val, Ptr):
            h = fresh("h_" + str(loc)[-12:])
            havids.add(single_atom(h).id)
            return Ptr(val.arr, h)
        if isinstance(val, F):
            n = fresh_name("hb_" + str(loc)[-12:])
            havpreds.add(n)
            return Pred(n)
        if isinstance(val, T):
            h = fresh("h_" + str(loc)[-12:], "Int" if isint(val) or loc in ctx.inttyped else "Real")
            havids.add(single_atom(h).id)
            return h
        if isinstance(val, str) and getattr(ctx, "strstate", None):
            val = ctx.strstate(val)
        if hasattr(val, "loopstate"):
            solved[loc] = val.loopstate(ctx, v, va)
            kinds[loc] = "seq"
            return solved[loc]
        if isinstance(val, tuple) and loc[0] == "l":
            import py as P
            solved[loc] = P.AppendSeq(val, ctx, v, va)
            kinds[loc] = "seq"
            return solved[loc]
        return Poison(f"loop-carried {loc}")

    extra = []

    def setup(start, content, arrays=True):
        """state at the start of iteration v"""
        ctx.restore(start)
        for loc in hav:
            ctx.store[loc] = solved[loc] if loc in solved else hav[loc]
        ctx.assume(Ge(v, 0))
        if known_N is not None:
            ctx.assume(Lt(v, known_N))
        if arrays:
            for a in modarr:
                ctx.heap[a] = content(a)
        if bind is not None:
            before = dict(ctx.store)
            bind(v)
            for loc, val in ctx.store.items():
                if loc in before and val is not before[loc]:
                    bound[loc] = val

    bound = {}          # outer locations the loop header assigns

    def one(with_cond=True):
        def fn():
            if cond is not None:
                c = cond()
                if isinstance(c, Poison):
                    raise Unsupported(c.why)
                if known_N is None:
                    ctx.assume(c)
                else:
                    rest = extra
                    for g in (list(c.args) if c.op == "and" else [c]):
                        if ctx.known(g) is True:
                            continue
                        if not ctx.branch(g):
                            return "break"
            return step()
        return fn

    def havoc_arr(a):
        arr = entry[1][a]
        if a not in H:
            H[a] = fresh_name("hv_" + arr.name)
        nm, el = H[a], arr.elem
        if a in cells:
            # written at fixed addresses only: everything else keeps its value
            return arr.with_layers(arr.layers + tuple(Layer((), TRUE, t(i), app(nm, t(i), sort=el)) for i in sorted(cells[a])))
        return arr.with_layers((), base=lambda i: app(nm, i, sort=el))

    havoc_arr.cells = cells
    ctx.muted += 1
    outer_discover = ctx.discover
    ctx.discover = True
    try:
        # ---- stage 1: discover carried locations, closed forms of linear scalars, trip count
        for _round in range(12):
            setup(entry, havoc_arr)
            begin = ctx.snap()
            results = ctx.explore(one())
            grew = False
            for gs, out, s in results:
                for loc, val in s[0].items():
                    if loc in entry[0] and loc not in hav and val is not begin[0].get(loc) and val != begin[0].get(loc):
                        hav[loc] = havoc(loc, entry[0][loc])
                        grew = True
                for a, arr in s[1].items():
                    if a in entry[1] and a not in modarr and arr is not begin[1].get(a):
                        modarr.add(a)
                        grew = True
                for a in entry[1]:
                    if a not in s[1]:
                        raise Unsupported("loop frees an outer array")
            for a in modarr:
                ws = written(results, begin, a)
                if ws is None or len(ws) > 8:
                    grew |= cells.pop(a, None) is not None
                    notcells.add(a)
                elif a in cells or (a not in notcells and not grew):
                    if not ws <= cells.get(a, set()):
                        cells[a] = cells.get(a, set()) | ws
                        grew = True
            if grew:
                continue
            normal = [(gs, s) for gs, out, s in results if out is None]
            if not normal:
                break
            progress = False
            for loc in hav:
                if loc in solved or isinstance(hav[loc], Poison):
                    continue
                h = hav[loc]
                vals = [s[0].get(loc) for gs, s in normal]
                if isinstance(h, Ptr):
                    if not all(isinstance(x, Ptr) and x.arr == h.arr for x in vals):
                        continue
                    ds = [x.off - h.off for x in vals]
                    e0 = entry[0][loc].off
                elif isinstance(h, T):
                    if not all(isinstance(x, T) for x in vals):
                        continue
                    ds = [x - h for x in vals]
                    e0 = entry[0][loc]
                else:
                    continue
                d = ds[0]
                if all(x == d for x in ds) and d.d is P1 and free_of(d, havids | {va}) and not _mentions_H(d, H):
                    val = e0 + d * v
                    solved[loc] = Ptr(h.arr, val) if isinstance(h, Ptr) else val
                    kinds[loc] = "linear"
                    progress = True
            if progress:
                continue
            if known_N is None:
                setup(entry, havoc_arr)
                c = cond()
                if c.op == "true":
                    raise Unsupported("loop without a bound")
                tc = tripcount(c, va, havids | {va})
                if tc is None:
                    raise Unsupported(f"no trip count from {c}")
                known_N, rest, how = tc
                if how == "ne":
                    ctx.restore(entry)
                    if not prove(ctx.pc, Ge(known_N, 0)):
                        raise Unsupported("!= loop bound")
                continue
            break
        else:
            raise Unsupported("loop discovery did not stabilise")
    finally:
        ctx.muted -= 1
        ctx.discover = outer_discover
    if known_N is None:
        # every path leaves the loop in its first iteration: execute it once
        ctx.restore(entry)
        return once(ctx, cond, step)
    ctx.restore(entry)
    n = known_N.iconst()
    if n is not None and n <= MAXUNROLL:
        return unroll_c(ctx, cond, step, bind, n, name)
    if ctx.discover:
        # an enclosing loop only wants to know what this loop modifies (and which ways it can be left)
        left = [o for _, o, _ in results if o is not None and o != "break"]
        for i, o in enumerate(left):
            if ctx.branch(Pred(fresh_name("left"))):
                return o
        for loc in hav:
            h = hav[loc]
            if loc in solved and isinstance(solved[loc], T) and ctx.known(Gt(known_N, 0)):
                ctx.store[loc] = subst(solved[loc], {va: known_N})
            elif kinds.get(loc) == "seq":
                ctx.store[loc] = Poison("sequence written in an inner loop")
            else:
                ctx.store[loc] = havoc(loc, entry[0][loc])
        for loc in bound:
            if loc not in hav:
                ctx.store[loc] = Poison("loop variable after the loop")
        for a in modarr:
            ctx.heap[a] = havoc_arr(a)
        return None
    if ctx.branch(Le(known_N, 0)):
        return None
    entry = ctx.snap()      # now includes N > 0
    ctx.muted += 1
    try:
        # ---- stage 2: accumulators, latches, temporaries
        for _round in range(8):
            setup(entry, havoc_arr)
            outer_shape, ctx.shape = ctx.shape, True
            try:
                results = ctx.explore(one())
            finally:
                ctx.shape = outer_shape
            normal = [(gs, s) for gs, out, s in results if out is None]
            progress = False
            un_ids = {i for l, h in hav.items() if l not in solved for i in _ids(h)}
            un_preds = {p for l, h in hav.items() if l not in solved for p in _preds(h)}
            for loc in hav:
                if loc in solved or not normal:
                    continue
                r = solve_scalar(ctx, loc, hav[loc], entry[0][loc], normal, v, va, known_N, un_ids, un_preds, H)
                if r is not None:
                    kinds[loc], solved[loc] = r
                    progress = True
                    break
            if not progress:
                r = solve_once(ctx, hav, solved, entry, normal, v, va, un_ids, un_preds, H) if normal else None
                if not r:
                    break
                for loc, x in r.items():
                    kinds[loc], solved[loc] = "sum", x
        for loc in hav:
            if loc not in solved:
                solved[loc] = Poison(f"loop-carried {loc} at {name}")
                kinds[loc] = "dead"
    finally:
        ctx.muted -= 1

    exits = [r for r in results if r[1] is not None]
    # ---- stage 3: arrays
    layers_final, runs, prevcount = summarise_arrays(ctx, entry, setup, one, modarr, hav, solved, kinds, v, va, known_N, name, havoc_arr, H)

    # ---- final unmuted pass happened in summarise_arrays: runs = [(guards, outcome, snapshot)]
    normal = [(gs, s) for gs, out, s in runs if out is None]
    exits = [(gs, out, s) for gs, out, s in runs if out is not None]
    inductive(ctx, entry, runs, hav, solved, kinds, modarr, va, v, name, bound)

    def finalise(count, lastv):
        """state after `count` complete iterations"""
        pc_, gd_ = list(ctx.pc), list(ctx.guards)
        ctx.restore(entry)
        ctx.pc, ctx.guards = pc_, gd_
        for loc in bound:
            if loc not in hav:
                ctx.store[loc] = Poison("loop variable after the loop")
        for loc in hav:
            sv = solved[loc]
            if kinds[loc] == "dead":
                vals = [s[0].get(loc) for gs, s in normal]
                ok = normal and all(isinstance(x, (T, F)) for x in vals)
                if ok:
                    try:
                        mv = mergetree([(gs, s) for gs, s in normal], lambda s: s[0][loc])
                        if _mentions_any(mv, H, hav):
                            raise Unsupported("x")
                        if lastv is not None:
                            sv = (subst if isinstance(mv, T) else fsubst)(mv, {va: lastv})
                    except Unsupported:
                        pass
                ctx.store[loc] = sv
            elif kinds[loc] == "seq":
                if exits:
                    raise Unsupported("search loop that writes a sequence")
                ctx.store[loc] = sv.finish(ctx, count, [(gs, s[0][loc], s) for gs, s in normal], entry)
            elif isinstance(sv, Ptr):
                ctx.store[loc] = Ptr(sv.arr, subst(sv.off, {va: count}))
            elif isinstance(sv, T):
                ctx.store[loc] = subst(sv, {va: count})
            elif isinstance(sv, F):
                ctx.store[loc] = fsubst(sv, {va: count})
        for a, ls in layers_final(count).items():
            arr = entry[1][a]
            ctx.heap[a] = ls if isinstance(ls, Arr) else arr.with_layers(arr.layers + tuple(ls))

    if not exits:
        finalise(known_N, known_N - 1)
        return None
    # search loop: some path breaks/returns at iteration v
    bg = []
    for gs, out, s in exits:
        bg.append(And(*gs))
    B = Or(*bg)
    if any(mentions(g, {i for h in hav.values() for i in _ids(h)}, {p for h in hav.values() for p in _preds(h)}) for g in bg):
        raise Unsupported("break condition depends on carried state")
    if _mentionsF(B, H):
        raise Unsupported("break condition reads memory the loop writes")
    ex = Exists(v, 0, known_N, B)
    if ctx.branch(ex):
        # first such iteration
        vs = fresh("first")
        vsa = single_atom(vs).id
        finalise(vs, vs - 1)
        base = ctx.snap()
        facts = [Ge(vs, 0), Lt(vs, known_N)]
        # which exit path?
        for i, (gs, out, s) in enumerate(exits):
            g = fsubst(And(*gs), {va: vs})
            if i < len(exits) - 1:
                taken = ctx.branch(g)
            else:
                taken = True
            if not taken:
                continue
            # apply effects of this path at v = vs
            dirty = False
            for loc, val in s[0].items():
                if loc in entry[0] and val is not entry[0][loc]:
                    if isinstance(val, (T, F)):
                        nv = subst(val, {va: vs}) if isinstance(val, T) else fsubst(val, {va: vs})
                    elif isinstance(val, Ptr):
                        nv = Ptr(val.arr, subst(val.off, {va: vs}))
                    else:
                        nv = val
                    ctx.store[loc] = nv
                    if not free_of(nv, {vsa}):
                        dirty = True
            if modarr:
                for a in modarr:
                    new = s[1][a].layers[prevcount.get(a, 0):]
                    for L in new:
                        dirty = True
                        ctx.addlayer(a, Layer([(p, subst(hh, {va: vs})) for p, hh in L.params], fsubst(L.guard, {va: vs}), subst(L.addr, {va: vs}), subst(L.value, {va: vs})))
            if dirty:
                for f in facts:
                    ctx.assume(f)
                ctx.assume(g)
                ctx.assume(Not(Exists(v, 0, vs, B)))
            if out == "break":
                return None
            if isinstance(out, tuple) and out[0] == "return":
                rv = out[1]
                if isinstance(rv, T):
                    rv = subst(rv, {va: vs})
                elif isinstance(rv, F):
                    rv = fsubst(rv, {va: vs})
                return ("return", rv)
            return out
        raise AssertionError
    finalise(known_N, known_N - 1)
    return None


def written(results, begin, a):
    """the constant addresses at which the paths write array a (None: some address is not constant)"""
    ws = set()
    for gs, out, s in results:
        if a not in s[1]:
            continue
        b, e = begin[1][a], s[1][a]
        if e is b:
            continue
        n = len(b.layers)
        if e.layers[:n] != b.layers or e.base is not b.base:
            return None
        for L in e.layers[n:]:
            k = L.addr.iconst()
            if k is None:
                return None
            ws.add(k)
    return ws


def inductive(ctx, entry, runs, hav, solved, kinds, modarr, va, v, name, bound):
    """the summaries found by discovery are checked against the final pass over the body: nothing outside the
    carried locations changes, and every linear closed form is preserved by every path"""
    for gs, out, s in runs:
        for loc, val in s[0].items():
            if loc in entry[0] and loc not in hav and val is not entry[0][loc] and val != entry[0][loc]:
                if out is None and not (loc in bound and (val is bound[loc] or (isinstance(val, (T, F)) and val == bound[loc]))):
                    raise Unsupported(f"loop-carried {loc} missed by discovery at {name}")
        for a, arr in s[1].items():
            if a in entry[1] and a not in modarr and arr is not entry[1][a] and arr.layers != entry[1][a].layers and out is None:
                raise Unsupported(f"array {a} missed by discovery at {name}")
        if out is not None:
            continue
        for loc in hav:
            if kinds.get(loc) != "linear":
                continue
            sv, val = solved[loc], s[0].get(loc)
            if isinstance(sv, Ptr):
                if not isinstance(val, Ptr) or val.arr != sv.arr:
                    raise Unsupported(f"pointer {loc} is not linear at {name}")
                sv, val = sv.off, val.off
            want = subst(sv, {va: v + 1})
            if not isinstance(val, T) or not (val == want or teq(val, want) or prove(s[2], Eq(val, want))):
                raise Unsupported(f"{loc} is not linear in the loop counter at {name}")


def _ids(h):
    if isinstance(h, Ptr):
        return {a.id for a in closure_atoms(h.off)}
    if isinstance(h, T):
        return {a.id for a in closure_atoms(h)}
    return set()


def _preds(h):
    return {h.args[0]} if isinstance(h, F) and h.op == "pred" else set()


def _mentions_H(x, H):
    names = set(H.values())
    return any(a.name in names for a in closure_atoms(x))


def _mentionsF(f, H):
    names = set()
    for val in H.values():
        names |= set(val) if isinstance(val, (set, list, tuple)) else {val}
    return any(a.name in names for a in closure_atoms(f))


def _mentions_any(x, H, hav):
    if _mentionsF(x, H):
        return True
    ids = {i for h in hav.values() for i in _ids(h)}
    preds = {p for h in hav.values() for p in _preds(h)}
    return mentions(x, ids, preds)


def solve_scalar(ctx, loc, h, e0, normal, v, va, N, un_ids, un_preds, H):
    vals = [s[0].get(loc) for gs, s in normal]
    gss = [And(*gs) for gs, s in normal]
    if any(mentions(g, un_ids, un_preds) or _mentionsF(g, H) for g in gss):
        # guards depend on unsolved state
        if not isinstance(h, F):
            return None
        hid = un_preds - {h.args[0]}
        if any(mentions(g, un_ids, un_preds) for g in gss):
            return None
    u = fresh("u")
    ua = single_atom(u).id
    if isinstance(h, T):
        if all(isinstance(x, T) for x in vals):
            ds = [x - h for x in vals]
            if all(not mentions(d, un_ids, un_preds) and not _mentionsF(d, H) for d in ds):
                delta = mergetree([(gs, s) for gs, s in normal], lambda s: s[0][loc] - h)
                return "sum", e0 + binder("SUM", u, 0, v, subst(delta, {va: u}))
            ha = single_atom(h).id
            # multiplicative
            fs = []
            for x in vals:
                c = lincoeff(x, ha) if x.d is P1 else None
                if c is None and x.d is not P1:
                    c = None
                if c is None or not c.n or not teq(c * h, x) or mentions(c, un_ids, un_preds) or _mentionsF(c, H):
                    fs = None
                    break
                fs.append(c)
            if fs:
                fac = mergetree([(gs, s) for gs, s in normal], lambda s: lincoeff(s[0][loc], ha))
                return "prod", e0 * binder("PROD", u, 0, v, subst(fac, {va: u}))
            # latch to a constant
            consts = {x for x in vals if x != h}
            if len(consts) == 1 and any(x == h for x in vals):
                (k,) = consts
                if not mentions(k, un_ids | {va}, un_preds):
                    g = Or(*[g for g, x in zip(gss, vals) if x != h])
                    return "latch", ite(Exists(u, 0, v, fsubst(g, {va: u})), k, e0)
        return None
    if isinstance(h, F):
        if all(isinstance(x, F) for x in vals):
            consts = {x for x in vals if x != h}
            if len(consts) == 1 and any(x == h for x in vals):
                (k,) = consts
                if not mentions(k, un_ids | {va}, un_preds):
                    g = Or(*[g for g, x in zip(gss, vals) if x != h])
                    ex = Exists(u, 0, v, fsubst(g, {va: u}))
                    return "latch", Or(And(ex, k), And(Not(ex), e0))
            # h' = h or g / h and g
            def split(x):
                if x == h:
                    return "id", FALSE
                if x.op == "or" and h in x.args:
                    return "or", Or(*[y for y in x.args if y != h])
                if x.op == "and" and h in x.args:
                    return "and", And(*[y for y in x.args if y != h])
                return None, None
            sp = [split(x) for x in vals]
            if all(k in ("id", "or") for k, _ in sp) and all(not mentions(y, un_ids, un_preds) for _, y in sp):
                g = Or(*[And(gg, y) for gg, (k, y) in zip(gss, sp)])
                return "latch", Or(e0, Exists(u, 0, v, fsubst(g, {va: u})))
            if all(k in ("id", "and") for k, _ in sp) and all(not mentions(y, un_ids, un_preds) for _, y in sp):
                g = Or(*[And(gg, Not(y)) for gg, (k, y) in zip(gss, sp) if k == "and"])
                return "latch", And(e0, Not(Exists(u, 0, v, fsubst(g, {va: u}))))
    return None


def solve_once(ctx, hav, solved, entry, normal, v, va, un_ids, un_preds, H):
    """locations written at most once, while a flag K still has its entry value ek; the write changes K.
    L(v) = e0 + SUM_{u<v} delta(u), delta computed with K = ek and L = e0; the inductive step is proved per path
    together with the invariant K == ek => L == e0."""
    cand = [l for l in hav if l not in solved and isinstance(hav[l], T) and isinstance(entry[0][l], T)
            and all(isinstance(s[0].get(l), T) for gs, s in normal)]
    for K in cand:
        hk, ek = hav[K], entry[0][K]
        ka = single_atom(hk).id
        out = {}
        for L in cand:
            hl, e0 = hav[L], entry[0][L]
            la = single_atom(hl).id
            sub = {ka: ek, la: e0}
            items = []
            for gs, s in normal:
                g2 = [fsubst(g, sub) for g in gs]
                if any(g.op == "false" for g in g2):
                    continue
                items.append(([g for g in g2 if g.op != "true"], subst(s[0][L], sub) - e0))
            if any(mentions(x, un_ids, un_preds) or _mentionsF(x, H) or any(mentions(g, un_ids, un_preds) or _mentionsF(g, H) for g in gs) for gs, x in items):
                continue
            try:
                d = mergetree(items, lambda x: x)
            except Unsupported:
                continue
            out[L] = (d, hl, e0)
        if K not in out:
            continue
        while True:
            inv = [Or(Ne(hk, ek), Eq(hl, e0)) for d, hl, e0 in out.values()]
            bad = None
            for gs, s in normal:
                pc = s[2] + inv if isinstance(s[2], list) else list(s[2]) + inv
                for L, (d, hl, e0) in out.items():
                    x = s[0][L]
                    if prove(pc, Eq(x, hl + d)) is not True or prove(pc, Or(Ne(s[0][K], ek), Eq(x, e0))) is not True:
                        bad = L
                        break
                if bad is not None:
                    break
            if bad is None:
                break
            del out[bad]
            if bad == K:
                break
        if K in out:
            u = fresh("u")
            return {L: e0 + binder("SUM", u, 0, v, subst(d, {va: u})) for L, (d, hl, e0) in out.items()}
    return None


def once(ctx, cond, step):
    if cond is not None and not ctx.branch(cond()):
        return None
    out = step()
    if out is None:
        raise Unsupported("unbounded loop")
    return None if out == "break" else out


def unroll(ctx, step, bind, n, name):
    for i in range(n):
        if bind is not None:
            bind(t(i))
        out = step()
        if out == "break":
            return None
        if out is not None:
            return out
    return None


def unroll_c(ctx, cond, step, bind, n, name):
    for i in range(n + 1):
        if cond is not None:
            if not ctx.branch(cond()):
                return None
        elif i == n:
            return None
        if bind is not None:
            bind(t(i))
        out = step()
        if out == "break":
            return None
        if out is not None:
            return out
    raise Unsupported("unrolled loop did not end")


# ---------------------------------------------------------------------------- arrays
def canon_params(params):
    return tuple(params)


def summarise_arrays(ctx, entry, setup, one, modarr, hav, solved, kinds, v, va, N, name, havoc_arr, H):
    """returns (layers_final(count) -> {arr: [layers] or Arr}, runs of the final unmuted pass)"""
    accs = {loc: single_atom(hav[loc]).id for loc in hav if kinds.get(loc) == "sum" and isinstance(hav[loc], T)}
    rev = {aid: loc for loc, aid in accs.items()}

    def run(content, muted=True, hav_accs=False):
        save = {}
        if hav_accs:
            for loc in accs:
                save[loc] = solved.pop(loc)
        if muted:
            ctx.muted += 1
        try:
            setup(entry, content)
            ctx._begin = {a: len(ctx.heap[a].layers) for a in modarr}
            begin = dict(ctx._begin)
            res = ctx.explore(one())
        finally:
            if muted:
                ctx.muted -= 1
            solved.update(save)
        return res, begin

    if not modarr:
        res, begin = run(havoc_arr, muted=False)
        return (lambda count: {}), res, {}

    # pass A: write sites
    outer_shape, ctx.shape = ctx.shape, True
    try:
        resA, begA = run(havoc_arr, hav_accs=True)
    finally:
        ctx.shape = outer_shape
    sites = {}
    for a in modarr:
        lst = []
        seen = {}
        for gs, out, s in resA:
            if out is not None and out != "continue":
                continue
            for L in s[1][a].layers[begA[a]:]:
                ren = {p: t(mkatom("var", f"%cp{i}", (), "Int")) for i, (p, _) in enumerate(L.params)}
                k = (subst(L.addr, ren), tuple(subst(hh, ren) for _, hh in L.params))
                g = And(*gs, L.guard)
                if k in seen:
                    L0 = lst[seen[k]]
                    ren2 = {p: t(atom(q)) for (p, _), (q, _) in zip(L.params, L0.params)}
                    L0.guard = Or(L0.guard, fsubst(g, ren2))
                else:
                    seen[k] = len(lst)
                    lst.append(Layer(L.params, g, L.addr, L.value))
        sites[a] = lst
    for a in modarr:
        if not sites[a]:
            # only written on exiting paths
            pass

    prev_layers, mode = {}, {}
    Hn = {}
    allacc = set(rev)

    def classify(L):
        ids = {x.id for x in closure_atoms(L.addr)}
        acc = ids & allacc
        bad = ids & {i for l, h in hav.items() if l not in accs and kinds.get(l) == "dead" for i in _ids(h)}
        if bad:
            raise Unsupported("array address depends on an untracked loop variable")
        if acc:
            return "counter"
        if va in ids:
            return "strided"
        return "cell"

    def prev_for(a, valfn):
        """content of array a at the start of iteration v"""
        arr = entry[1][a]
        ls = list(arr.layers)
        for i, L in enumerate(sites[a]):
            kind = classify(L)
            if kind == "strided":
                u = fresh("u")
                ua = single_atom(u).id
                sub = {va: u}
                g = sub_acc(L.guard, v)
                addr = sub_acc(L.addr, v)
                ls.append(Layer(tuple((p, subst(sub_acc(hh, v), sub)) for p, hh in L.params) + ((ua, v),), fsubst(g, sub) if kind else TRUE, subst(addr, sub), valfn(a, i, L, subst(addr, sub), [u] + [t(atom(p)) for p, _ in L.params])))
            elif kind == "counter":
                (aid,) = {x.id for x in closure_atoms(L.addr)} & allacc
                c = lincoeff(L.addr, aid)
                if c is None:
                    raise Unsupported("counter address")
                loc = rev[aid]
                off, rest = counter_split(L, c, aid)
                q = fresh("q")
                qa = single_atom(q).id
                c0 = entry[0][loc]
                lo, hi = off
                start = c0 + lo
                length = (solved[loc] + lo) - start
                ps = tuple((p, hh) for p, hh in L.params if p in {x.id for x in closure_atoms(rest)})
                if va in {x.id for x in closure_atoms(rest)}:
                    raise Unsupported("counter address with a strided part in the same loop variable")
                ls.append(Layer(ps + ((qa, length),), TRUE, rest + c * (start + q), Poison("content written by an earlier iteration through a counter")))
            else:
                raise Unsupported("cell")
        return arr.with_layers(ls)

    def sub_acc(x, vv):
        m = {accs[loc]: subst(solved[loc], {va: t(vv)}) if vv is not v else solved[loc] for loc in accs}
        if isinstance(x, F):
            return fsubst(x, m)
        return subst(x, m)

    def counter_split(L, c, aid):
        """coordinate multiplying stride c is acc + off; returns ((lo,hi) bounds of off, rest-of-address)"""
        rest = L.addr - c * t(atom(aid))
        # separate the part of rest with stride c that belongs to the coordinate (const or SUM atoms)
        if c.const() == 1:
            off, rs = {}, {}
            for m, k in rest.n.items():
                if not m:
                    off[m] = k
                elif len(m) == 1 and m[0][1] == 1 and atom(m[0][0]).kind == "bind":
                    off[m] = k
                else:
                    rs[m] = k
            o = T(off)
            return (t(off.get((), 0)), o), T(rs)
        raise Unsupported("counter stride")

    # per-array classification
    akind = {}
    for a in modarr:
        ks = {classify(L) for L in sites[a]}
        akind[a] = "none" if not ks else ks.pop() if len(ks) == 1 else "mixed"

    def base_content(a):
        return prev_for(a, lambda a, i, L, addr, ps: app(hname(a, i), *ps, sort=entry[1][a].elem))

    def hname(a, i):
        if (a, i) not in Hn:
            Hn[(a, i)] = fresh_name("H_" + entry[1][a].name)
        return Hn[(a, i)]

    contents = {}
    chosen = {}

    def shape_final(a):
        """shape mode: the write sites with unknown values"""
        nm = fresh_name("any_" + entry[1][a].name)
        el = entry[1][a].elem
        out = []
        for L in sites[a]:
            ps = L.params
            if va in {x.id for x in closure_atoms(L.addr)} | {x.id for x in closure_atoms(L.guard)}:
                ps = ps + ((va, N),)
            out.append(Layer(ps, L.guard, L.addr, app(nm, L.addr, sort=el)))
        return out
    results = begin = None
    hset = lambda: set(Hn.values()) | set(H.values())

    def content_of(a):
        if akind[a] in ("strided", "counter"):
            return chosen[a](a) if a in chosen else base_content(a)
        if akind[a] == "none":
            return entry[1][a]
        return chosen[a](a) if a in chosen else havoc_arr(a)

    # cells: accumulate / overwrite / invariant
    for a in modarr:
        if akind[a] in ("cell", "mixed"):
            ctx.muted += 1
            try:
                c = None
                if akind[a] == "cell":
                    c = solve_cell(ctx, a, entry, run, content_of, sites, v, va, N, H, modarr)
            finally:
                ctx.muted -= 1
            if c is None and ctx.shape:
                nm = fresh_name("any_" + entry[1][a].name)
                arr0, el = entry[1][a], entry[1][a].elem
                hv0 = arr0.with_layers((), base=lambda i, nm=nm, el=el: app(nm, i, sort=el))
                c = (lambda a_, hv0=hv0: hv0), (lambda cnt, a=a: shape_final(a))
            if c is None and a in havoc_arr.cells:
                # scratch cells: every iteration writes them before reading them
                arr0 = entry[1][a]
                sc = tuple(Layer((), TRUE, t(i), Poison("cell written by an earlier iteration")) for i in sorted(havoc_arr.cells[a]))
                hv0 = arr0.with_layers(arr0.layers + sc)
                chosen[a] = lambda a_, hv0=hv0: hv0
                try:
                    run(content_of)
                    c = chosen[a], (lambda cnt, sc=sc: list(sc))
                except (Unsupported, Refuted):
                    del chosen[a]
            if c is None:
                c = invariant(ctx, a, entry, run, content_of, v, va, N, name, hav, solved, chosen)
            chosen[a] = c[0]
            contents[a] = c[1]

    def tryrun(muted=True):
        r, b = run(content_of, muted=muted)
        return r, b

    strided = [a for a in modarr if akind[a] == "strided"]
    res, beg = tryrun()
    names = set(Hn.values())

    def mentions_hn(res, beg, a):
        for gs, out, s in res:
            for L in s[1][a].layers[beg[a]:]:
                if isinstance(L.value, Poison):
                    continue
                if any(x.name in names for x in closure_atoms(L.value)) or any(x.name in names for x in closure_atoms(L.addr)) or any(x.name in names for x in closure_atoms(L.guard)):
                    return True
            if any(any(x.name in names for x in closure_atoms(g)) for g in gs):
                return True
        return False

    need = [a for a in strided if mentions_hn(res, beg, a)]
    inv_used = {}
    if ctx.shape:
        # only the written locations matter to the enclosing loop: forget carried values
        for a in need:
            nm = fresh_name("any_" + entry[1][a].name)
            el = entry[1][a].elem
            inv_used[a] = ("any", lambda addr, nm=nm, el=el: app(nm, addr, sort=el))
            chosen[a] = lambda a_, cf=inv_used[a][1]: prev_for(a_, lambda a__, i, L, addr, ps: cf(addr))
        need = []
    for a in need:
        ok = None
        fails = []
        for cname, cf in candidates(ctx, entry, v, va):
            def cont(a_, cf=cf):
                return prev_for(a_, lambda a__, i, L, addr, ps: cf(addr))
            chosen[a] = cont
            try:
                r, b = tryrun()
                good, why = check_inv(ctx, r, b, a, cf, record=False)
            except (Unsupported, Refuted) as e:
                good, why = False, {"status": "unknown", "why": str(e)}
            if good:
                ok = (cname, cf)
                break
            fails.append((cname, why))
        if ok is None:
            del chosen[a]
            key = (ctx.label, f"loop invariant of {entry[1][a].name} preserved ({name})", ctx.where)
            st = "refuted" if any(w.get("status") == "refuted" for _, w in fails) and entry[1][a].name not in ("new", "vec") else "unknown"
            best = next((f for f in fails if f[1].get("status") == "refuted"), fails[0] if fails else ("none", {}))
            if not ctx.muted:
                ctx.obls.append((key, st, {"candidate": best[0], **best[1]}))
            raise Refuted(key[1])
        inv_used[a] = ok
        chosen[a] = lambda a_, cf=ok[1]: prev_for(a_, lambda a__, i, L, addr, ps: cf(addr))

    # final pass, unmuted: bounds / initialisation obligations of the body for a generic iteration
    res, beg = tryrun(muted=False)
    for a in need:
        good, why = check_inv(ctx, res, beg, a, inv_used[a][1], record=True, name=name)
        if not good:
            raise Refuted("invariant")

    final = {}
    for a in modarr:
        if a in contents:
            continue
        ls = []
        for gs, out, s in res:
            if out is not None:
                continue
            for L in s[1][a].layers[beg[a]:]:
                val = inv_used[a][1](L.addr) if a in inv_used else L.value
                if not isinstance(val, Poison) and any(x.name in names for x in closure_atoms(val)):
                    raise Unsupported("layer value refers to loop-carried content")
                tag = ("counter", va) if akind[a] == "counter" else L.tag
                ls.append(Layer(L.params + ((va, N),), And(*gs, L.guard), L.addr, val, tag))
        if len(ls) > 1:
            order_check(ctx, entry, ls, va, v, N, akind[a])
        if akind[a] == "counter":
            counter_check(ctx, entry, sites[a], resA, accs, rev, hav, v, va, N, name)
        final[a] = ls

    def layers_final(count):
        out = {}
        for a in modarr:
            if a in contents:
                out[a] = contents[a](count)
                continue
            ls = []
            for L in final[a]:
                if count is N or count == N:
                    # rename parameters so that repeated use stays independent
                    ls.append(L)
                else:
                    ls.append(Layer(L.params[:-1] + ((va, count),), L.guard, L.addr, L.value, L.tag))
            out[a] = ls
        return out

    return layers_final, res, dict(beg)


def candidates(ctx, entry, v, va):
    ints = [t(0)]
    for loc, val in entry[0].items():
        if isinstance(val, T) and isint(val) and val not in ints:
            ints.append(val)
    for x in ctx.intpool:
        if x not in ints:
            ints.append(x)
    more = [x + 1 for x in ints if (x + 1) not in ints]
    if getattr(ctx, "prefer", None):
        pref = ctx.prefer()
        ints = pref + [x for x in ints if x not in pref]
    for voc in getattr(ctx, "vocab", []):
        for e in (voc.pool() if voc.pool else ints + more):
            def cf(addr, voc=voc, e=e):
                row, col = ctx.divrem(addr, voc.stride, voc.rows)
                return voc.fn(e, row, col)
            yield f"{voc.name}[{e}]", cf


def check_inv(ctx, res, beg, a, cf, record, name=""):
    for gs, out, s in res:
        if out is not None:
            continue
        for L in s[1][a].layers[beg[a]:]:
            save = ctx.snap()
            ctx.restore(s)
            try:
                for p, hh in L.params:
                    ctx.assume(Ge(t(atom(p)), 0))
                    ctx.assume(Lt(t(atom(p)), hh))
                for g in (L.guard.args if L.guard.op == "and" else (L.guard,)):
                    ctx.assume(g)
                if check(ctx.pc) == "unsat":
                    continue
                try:
                    want = cf(L.addr)
                except Unsupported as e:
                    return False, {"status": "unknown", "why": str(e)}
                ok, info = ctx.prove_eq(L.value, want)
                if not ok:
                    info = dict(info)
                    info["lhs"], info["rhs"] = str(L.value)[:500], str(want)[:300]
                    if record and not ctx.muted:
                        ctx.obls.append(((ctx.label, f"loop invariant preserved ({name})", ctx.where), info["status"], info))
                    return False, info
                if record and not ctx.muted:
                    ctx.obls.append(((ctx.label, f"loop invariant preserved ({name})", ctx.where), "proved", None))
            except Infeasible:
                continue
            finally:
                ctx.restore(save)
    return True, None


def order_check(ctx, entry, ls, va, v, N, kind):
    """a layer placed later in the list must not, at an earlier iteration, hide a write of an earlier layer"""
    if kind == "counter":
        return
    for i in range(len(ls)):
        for j in range(i + 1, len(ls)):
            A, B = ls[i], ls[j]
            save = ctx.snap()
            ctx.restore(entry)
            try:
                ctx.assume(Ge(v, 0))
                ctx.assume(Lt(v, N))
                for p, hh in A.params:
                    if p != va:
                        ctx.assume(Ge(t(atom(p)), 0))
                        ctx.assume(Lt(t(atom(p)), hh))
                ctx.assume(A.guard)
                if check(ctx.pc) == "unsat":
                    continue
                u = fresh("u")
                ua = single_atom(u).id
                Bu = Layer(tuple((p, subst(hh, {va: u})) for p, hh in B.params if p != va) + ((ua, v),), fsubst(B.guard, {va: u}), subst(B.addr, {va: u}), t(0))
                # the two layers may share inner parameter atoms: rename B's
                ren = {p: fresh("r") for p, _ in Bu.params if p != ua}
                Bu = Layer(tuple((single_atom(ren[p]).id if p in ren else p, subst(hh, ren)) for p, hh in Bu.params), fsubst(Bu.guard, ren), subst(Bu.addr, ren), t(0))
                cond, _ = ctx.match(Bu, A.addr)
                if ctx.known(cond) is not False:
                    raise Unsupported(f"overlapping writes in one loop: {A} / {B}: {cond}")
            except Infeasible:
                continue
            finally:
                ctx.restore(save)


def counter_check(ctx, entry, sites, resA, accs, rev, hav, v, va, N, name):
    """every write through a counter coordinate c+off happens with 0 <= off and c' >= c + off + 1, and the
    counter never decreases: coordinates of different iterations differ"""
    save = ctx.snap()
    try:
        for gs, out, s in resA:
            if out is not None:
                continue
            for loc in accs:
                ctx.restore(s)
                h = hav[loc]
                used = False
                for a, L in ((a, L) for a in s[1] for L in s[1][a].layers if accs[loc] in {x.id for x in closure_atoms(L.addr)}):
                    used = True
                    ctx.restore(s)
                    try:
                        for p, hh in L.params:
                            ctx.assume(Ge(t(atom(p)), 0))
                            ctx.assume(Lt(t(atom(p)), hh))
                        ctx.assume(L.guard)
                    except Infeasible:
                        continue
                    off = {}
                    rest = L.addr - h
                    for m, k in rest.n.items():
                        if not m or (len(m) == 1 and m[0][1] == 1 and atom(m[0][0]).kind == "bind"):
                            off[m] = k
                    off = T(off)
                    first = t(off.n.get((), 0))
                    if not prove(ctx.pc, And(Ge(off, first), Ge(s[0][loc] + first, h + off + 1))):
                        raise Unsupported(f"counter coordinate not strictly increasing: {off} vs {s[0][loc] - h}")
                ctx.restore(s)
                if not prove(ctx.pc, Ge(s[0][loc], h)):
                    raise Unsupported("counter may decrease")
    finally:
        ctx.restore(save)


def solve_cell(ctx, a, entry, run, content_of, sites, v, va, N, H, modarr):
    """array cells whose address does not depend on the loop: accumulate or overwrite.
    Returns (content(a) at iteration v, final(count)) or None"""
    arr = entry[1][a]
    L0s = sites[a]
    if len(L0s) != 1:
        return None
    L0 = L0s[0]
    hv = fresh_name("cell_" + arr.name)

    def cellval(ps):
        return app(hv, *ps, sort=arr.elem)

    def content(a_):
        return arr.push(Layer(L0.params, TRUE, L0.addr, cellval([t(atom(p)) for p, _ in L0.params]), L0.tag))

    import types
    r = run(lambda b: content(b) if b == a else (entry[1][b] if b not in H else content_of(b)))
    res, beg = r
    norm = [(gs, s) for gs, out, s in res if out is None]
    if not norm or len(norm) != len(res):
        return None

    def lastval(s):
        ls = s[1][a].layers[beg[a]:]
        if not ls:
            return None
        L = ls[-1]
        if len(L.params) != len(L0.params):
            raise Unsupported("cell")
        ren = {p: t(atom(q)) for (p, _), (q, _) in zip(L.params, L0.params)}
        if subst(L.addr, ren) != L0.addr or L.guard.op != "true":
            raise Unsupported("cell")
        return subst(L.value, ren)

    try:
        vals = [lastval(s) for gs, s in norm]
    except Unsupported:
        return None
    cv = cellval([t(atom(p)) for p, _ in L0.params])
    ca = single_atom(cv).id
    vals = [cv if x is None else x for x in vals]
    if any(any(x.name == hv for x in closure_atoms(And(*gs))) for gs, s in norm):
        return None
    ix = {id(s): x for (gs, s), x in zip(norm, vals)}
    u = fresh("u")

    def hmention(x):
        return any(y.name == hv for y in closure_atoms(x))

    def entry_val():
        """initial content at the generic cell, under the parameters' ranges (single path only)"""
        save = ctx.snap()
        ctx.restore(entry)
        try:
            for p, hh in L0.params:
                ctx.assume(Ge(t(atom(p)), 0))
                ctx.assume(Lt(t(atom(p)), hh))
            rr = ctx.explore(lambda: ctx.lookup(arr, L0.addr))
            if not rr:
                return t(0)
            return mergetree([(gs, o) for gs, o, s in rr], lambda o: o)
        finally:
            ctx.restore(save)

    ds = [x - cv for x in vals]
    if all(not hmention(d) for d in ds):
        delta = mergetree([(gs, s) for gs, s in norm], lambda s: ix[id(s)] - cv)
        e0 = entry_val()
        acc = lambda cnt: e0 + binder("SUM", u, 0, cnt, subst(delta, {va: u}))
    else:
        cs = [lincoeff(x, ca) for x in vals]
        if all(c is not None and c.n and teq(c * cv, x) and not hmention(c) for c, x in zip(cs, vals)):
            fac = mergetree([(gs, s) for gs, s in norm], lambda s: lincoeff(ix[id(s)], ca))
            e0 = entry_val()
            acc = lambda cnt: e0 * binder("PROD", u, 0, cnt, subst(fac, {va: u}))
        elif all(not hmention(x) for x in vals):
            mv = mergetree([(gs, s) for gs, s in norm], lambda s: ix[id(s)])
            # overwritten every iteration
            def content2(a_):
                return content(a_)

            def final2(cnt):
                return [Layer(L0.params, L0.guard if va not in {x.id for x in closure_atoms(L0.guard)} else TRUE, L0.addr, subst(mv, {va: t(cnt) - 1}))]
            if L0.guard.op != "true":
                return None
            return content2, final2
        else:
            return None
    if L0.guard.op != "true" and va in {x.id for x in closure_atoms(L0.guard)}:
        pass

    def content3(a_):
        return arr.push(Layer(L0.params, TRUE, L0.addr, acc(v)))

    def final3(cnt):
        return [Layer(L0.params, TRUE, L0.addr, acc(t(cnt)))]

    return content3, final3


def invariant(ctx, a, entry, run, content_of, v, va, N, name, hav, solved, chosen):
    """whole-matrix invariant from the vocabulary: content(e(v), row, col) at the start of iteration v"""
    arr = entry[1][a]
    exprs = [x for l, x in solved.items() if isinstance(x, T) and isint(x)] + [v, t(0)]
    pool = []
    for x in exprs:
        for k in (0, 1, -1):
            if x + k not in pool:
                pool.append(x + k)
    fails = []
    for voc in getattr(ctx, "vocab", []):
        for e in pool:
            row, col = fresh("row"), fresh("col")
            ra, ca = single_atom(row).id, single_atom(col).id

            def lay(ev):
                return Layer(((ra, voc.rows), (ca, voc.cols)), TRUE, voc.stride * row + col, voc.fn(ev, row, col))

            def content(a_, e=e):
                return arr.push(lay(e))

            def generic(state, arrv, ev, record, what):
                """arr content equals voc(ev) at every (row, col)"""
                save = ctx.snap()
                ctx.restore(state)
                r2, c2 = fresh("r"), fresh("c")
                try:
                    for f in (Ge(r2, 0), Lt(r2, voc.rows), Ge(c2, 0), Lt(c2, voc.cols)):
                        ctx.assume(f)
                    def go():
                        got = ctx.lookup(arrv, voc.stride * r2 + c2)
                        ok, info = ctx.prove_eq(got, voc.fn(ev, r2, c2))
                        return ok, info
                    for gs, (ok, info), s in ctx.explore(go):
                        if not ok:
                            return False, info
                        if record and not ctx.muted:
                            ctx.obls.append(((ctx.label, f"{what} ({name})", ctx.where), "proved", None))
                    return True, None
                finally:
                    ctx.restore(save)

            ctx.muted += 1
            try:
                ok, why = generic(entry, arr, subst(e, {va: t(0)}), False, "")
                if ok:
                    chosen[a] = content
                    res, beg = run(content_of)
                    for gs, out, s in res:
                        if out is not None:
                            continue
                        ok, why = generic(s, s[1][a], subst(e, {va: v + 1}), False, "")
                        if not ok:
                            break
            except (Unsupported, Refuted) as ex:
                ok, why = False, {"status": "unknown", "why": str(ex)}
            finally:
                ctx.muted -= 1
                chosen.pop(a, None)
            if ok:
                generic(entry, arr, subst(e, {va: t(0)}), True, "loop invariant initiation")
                for gs, out, s in res:
                    if out is None:
                        generic(s, s[1][a], subst(e, {va: v + 1}), True, "loop invariant preserved")
                return content, lambda cnt, e=e: [lay(subst(e, {va: t(cnt)}))]
            fails.append((f"{voc.name}[{e}]", why))
    raise Unsupported(f"no invariant for {arr.name} in {name}: {[f[0] for f in fails]}")
