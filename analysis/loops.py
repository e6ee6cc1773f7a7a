"""Loop summaries from one generic iteration."""
from values import *
import interp as IN
import mir


def diff(a, b, path, out):
    if a == b:
        return
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0]:
        h = a[0]
        if h == 'adt' and a[1] == b[1] and a[2] == b[2] and len(a[3]) == len(b[3]):
            for i in range(len(a[3])):
                diff(a[3][i], b[3][i], path + (('f', i),), out)
            return
        if h == 'tup' and len(a[1]) == len(b[1]):
            for i in range(len(a[1])):
                diff(a[1][i], b[1][i], path + (('f', i),), out)
            return
        if h == 'clo' and a[1] == b[1]:
            for i in range(len(a[2])):
                diff(a[2][i], b[2][i], path + (('f', i),), out)
            return
        if h == 'it' and a[1] == b[1] and len(a) == len(b):
            for i in range(2, len(a)):
                diff(a[i], b[i], path + (('t', i),), out)
            return
    out.add(path)


def get(v, path):
    for p in path:
        if p[0] == 't':
            v = v[p[1]]
        elif v[0] == 'adt':
            v = v[3][p[1]]
        elif v[0] == 'tup':
            v = v[1][p[1]]
        elif v[0] == 'clo':
            v = v[2][p[1]]
        else:
            raise IN.Unsupported('leaf')
    return v


def put(v, path, x):
    if not path:
        return x
    p = path[0]
    if p[0] == 't':
        l = list(v)
        l[p[1]] = put(v[p[1]], path[1:], x)
        return tuple(l)
    if v[0] == 'adt':
        fs = list(v[3])
        fs[p[1]] = put(fs[p[1]], path[1:], x)
        return ('adt', v[1], v[2], tuple(fs))
    if v[0] == 'tup':
        fs = list(v[1])
        fs[p[1]] = put(fs[p[1]], path[1:], x)
        return ('tup', tuple(fs))
    if v[0] == 'clo':
        fs = list(v[2])
        fs[p[1]] = put(fs[p[1]], path[1:], x)
        return ('clo', v[1], tuple(fs))
    raise IN.Unsupported('leaf')


def leaf_ty(I, fr, cell, path):
    if cell[0] != fr.id:
        return None
    ty = fr.fn.locals[cell[1]]
    for p in path:
        ty = IN.peel(ty)
        if p[0] == 't':
            return ('int', 64, False)
        if ty[0] == 'tuple' and p[1] < len(ty[1]):
            ty = ty[1][p[1]]
        elif ty[0] == 'adt':
            fs = I.P.fields(ty[1], 0, ty[2])
            if not fs or p[1] >= len(fs) or I.P.nvariants(ty[1]) != 1:
                return None
            ty = fs[p[1]]
        else:
            return None
    return ty


class Leaf:
    __slots__ = ('cell', 'path', 'v0', 'X', 'ty', 'kind', 'form', 'val')


def mentions(t, syms):
    if isinstance(t, Lin):
        return any(mentions(a, syms) for a in t.t)
    return occurs(t, lambda x: x in syms)


SEQSYMS = set()     # loop-carried values known to be sequences


def summarise(I, fr, h, st0):
    fn = fr.fn
    body = mir.loops_of(fn)[h]
    live = mir.liveness(fn)[h]
    st0 = st0.copy()
    for c in [c for c in st0.mem if c[0] == fr.id and c[1] not in live]:
        del st0.mem[c]
    cells = list(st0.mem)
    mark = len(st0.log)

    outer = I.pan
    caught = []

    def run(leaves, vals, extra=()):
        st = st0.copy()
        for l, v in zip(leaves, vals):
            st.mem[l.cell] = put(st.mem[l.cell], l.path, v)
        for f in extra:
            if not st.add(f, False):
                return [], []
        I.pan = []
        try:
            rets, exits, conts = I.run_region(fr, h, st, body, h)
        finally:
            caught[:] = I.pan
            I.pan = outer
        if rets:
            raise IN.Unsupported('return inside loop')
        return exits, conts

    # ---- 1. loop-carried leaves
    leaves = []
    for rnd in range(12):
        exits, conts = run(leaves, [l.val for l in leaves])
        if not conts and rnd == 0:
            # the loop never iterates: run it once for real
            outer.extend(caught)
            return exits
        found = {}
        for c in conts:
            for cell in cells:
                base = st0.mem[cell]
                for l in leaves:
                    if l.cell == cell:
                        base = put(base, l.path, l.val)
                out = set()
                if cell in c.mem:
                    diff(base, c.mem[cell], (), out)
                for p in out:
                    found.setdefault(cell, set()).add(p)
        new = []
        for cell, ps in found.items():
            for p in ps:
                if not any(l.cell == cell and l.path == p for l in leaves):
                    if not any(l.cell == cell and l.path == p[:len(l.path)] for l in leaves):
                        new.append((cell, p))
        if not new:
            break
        # keep only the shallowest paths
        for cell, p in new:
            if any(c2 == cell and p2 != p and p[:len(p2)] == p2 for c2, p2 in new):
                continue
            leaves = [l for l in leaves if not (l.cell == cell and l.path[:len(p)] == p)]
            l = Leaf()
            l.cell, l.path = cell, p
            l.v0 = get(st0.mem[cell], p)
            l.X = fresh('a')
            l.ty = leaf_ty(I, fr, cell, p)
            l.form = None
            if is_int(l.v0):
                l.kind = 'int'
                if l.ty is not None and l.ty[0] in ('int', 'char'):
                    lo, hi = IN.int_range(l.ty)
                    set_range(l.X, lo, hi)
                elif l.ty is None or l.path and l.path[-1][0] == 't':
                    set_range(l.X, 0 if rng(l.v0)[0] is not None and rng(l.v0)[0] >= 0 else None, None)
                l.val = as_int(l.X)
            elif is_formula(l.v0):
                l.kind = 'bool'
                l.val = ('b', l.X)
            else:
                l.kind = 'seq' if (l.v0[0] == 'seq' or l.v0 in SEQSYMS or (l.ty is not None and IN.is_seq_ty(IN.peel(l.ty)))) else 'any'
                l.val = l.X
                if l.kind == 'seq':
                    SEQSYMS.add(l.X)
                if l.ty is not None:
                    pt = IN.peel(l.ty)
                    if pt[0] == 'array' and isinstance(pt[2], int):
                        STATICLEN[l.X] = pt[2]
                    if pt[0] == 'adt':
                        n = I.P.nvariants(pt[1])
                        if n:
                            IN.VARN[l.X] = n
            leaves.append(l)
    else:
        raise IN.TooComplex('loop does not stabilise')

    # ---- 2. integer induction variables
    k = fresh('k')
    RANGE[k] = (0, None)
    kk = as_int(k)
    Xs = {l.X for l in leaves}
    for l in leaves:
        if l.kind == 'int':
            ds = {sub(get(c.mem[l.cell], l.path), as_int(l.X)) for c in conts}
            if len(ds) == 1:
                d = ds.pop()
                if not mentions(d, Xs):
                    l.form = add(l.v0, mul(kk, d) if not isinstance(d, int) else scale(kk, d))
    # checked arithmetic: induction variables stay in the range of their type
    ranges = []
    for l in leaves:
        if l.form is not None and l.X in RANGE and not isinstance(l.form, int):
            lo, hi = RANGE[l.X]
            if lo is not None:
                ranges.append(le(lo, l.form))
        # a sequence that grows by the same number of elements in every iteration
        if l.kind == 'seq' and l.X not in STATICLEN:
            gs = set()
            for c in conts:
                n = get(c.mem[l.cell], l.path)
                sg = segs_of(n) if n != l.X else ()
                if sg and sg[0][0] == 'sub' and sg[0][1] == l.X and sg[0][2] == 0 and sg[0][3] == slen(l.X):
                    gs.add(slen(mkseq(sg[1:])))
                else:
                    gs.add(None)
            if len(gs) == 1 and isinstance(next(iter(gs)), int):
                STATICLEN[l.X] = add(slen(l.v0), scale(kk, next(iter(gs))))
    exits, conts = run(leaves, [l.form if l.form is not None else l.val for l in leaves], ranges)
    pans = list(caught)
    rest = [l for l in leaves if l.form is None]
    # ---- 3. sums and appended sequences
    guards = [fand(*c.log[mark:]) for c in conts]
    exits = split_exits(exits, conts, mark, k, kk)
    cguards = set()
    counting = find_counting(st0, exits, conts, mark, k, kk, cguards)
    Ns = [n for n in counting.values()]

    def strip(fs):
        out = []
        for f in fs:
            if any(f == lt(kk, n) for n in Ns) or f in cguards:
                continue
            out.append(f)
        return out
    gstr = [fand(*strip(c.log[mark:])) for c in conts]
    # guards for choosing the next value, given that some continuing path is taken: conjuncts on loop-carried
    # values that are not needed to tell the continuing paths apart are dropped
    gsel = []
    for i, c in enumerate(conts):
        fs = strip(c.log[mark:])
        if len(conts) > 1:
            for f in list(fs):
                if not mentions(f, Xs):
                    continue
                cand = [x for x in fs if x is not f]
                ok = True
                for j, d in enumerate(conts):
                    if j == i:
                        continue
                    t = d.copy()
                    if all(t.add(x) for x in cand) and not t.refuted(fand(*cand)):
                        ok = False
                        break
                if ok:
                    fs = cand
        else:
            fs = []
        gsel.append(fand(*fs))
    S = {}          # X -> closed form in k
    newloops = set()

    def cur(t):
        return Subst(dict(S))(t) if S else t
    todo = list(rest)

    def deps(l):
        """leaves of todo that the next value of l (or the choice of it) depends on"""
        news = [cur(get(c.mem[l.cell], l.path)) for c in conts]
        d = set()
        terms = list(news)
        if len(set(news)) > 1:
            terms += [cur(g) for g in gsel]
        for m in todo:
            if any(mentions(t, {m.X}) for t in terms):
                d.add(m.X)
        return d

    def close_simple():
        progress = True
        while progress and todo:
            progress = False
            for l in list(todo):
                others = {m.X for m in todo}
                news = [cur(get(c.mem[l.cell], l.path)) for c in conts]
                gs = [cur(g) for g in gsel]
                if l.kind == 'int':
                    ds = [sub(n, as_int(l.X)) for n in news]
                    if any(mentions(d, others) for d in ds) or (len(set(ds)) > 1 and any(mentions(g, others) for g in gs)):
                        continue
                    dd = mk_cases(list(zip(gs, ds)))
                    l.form = add(l.v0, mk_sum(kk, mk_lam(as_int(dd), k)))
                    S[l.X] = l.form
                elif l.kind == 'seq':
                    app_ = []
                    ok = True
                    for n in news:
                        if n == l.X:
                            app_.append(EMPTY)
                            continue
                        sg = segs_of(n)
                        if sg and sg[0][0] == 'sub' and sg[0][1] == l.X and sg[0][2] == 0 and sg[0][3] == slen(l.X):
                            app_.append(mkseq(sg[1:]))
                        else:
                            ok = False
                    if not ok:
                        continue
                    lens = {slen(a) for a in app_}
                    if len(lens) == 1 and isinstance(next(iter(lens)), int):
                        c = next(iter(lens))
                        R = Subst({('len', l.X): add(slen(l.v0), scale(kk, c))})
                        app_ = [R(a) for a in app_]
                    if any(mentions(a, others) for a in app_) or (len(set(app_)) > 1 and any(mentions(g, others) for g in gs)):
                        continue
                    bodyv = mk_cases(list(zip(gs, app_)))
                    l.form = mkseq(tuple(segs_of(l.v0)) + (('flat', kk, mk_lam(bodyv, k)),))
                    S[l.X] = l.form
                else:
                    continue
                todo.remove(l)
                progress = True

    while todo:
        close_simple()
        if not todo:
            break
        # ---- 4. accumulators: the smallest mutually dependent group
        D = {l.X: deps(l) for l in todo}
        best = None
        for l in todo:
            grp, work = set(), [l.X]
            while work:
                x = work.pop()
                if x in grp:
                    continue
                grp.add(x)
                work.extend(D[x])
            if best is None or len(grp) < len(best):
                best = grp
        group = [l for l in todo if l.X in best]
        inits = tuple(l.v0 for l in group)
        steps = {}
        for c, g in zip(conts, gsel):
            nv = tuple(cur(get(c.mem[l.cell], l.path)) for l in group)
            steps.setdefault(nv, []).append(cur(g))
        if len(steps) == 1:
            steps = [(TT, next(iter(steps)))]
        else:
            steps = [(for_(*gs), nv) for nv, gs in steps.items()]
        # canonical order of the group: by initial value and shape of the step
        pre = {k: ('ck',)}
        for l in group:
            pre[l.X] = ('cx', l.kind)
        PS = Subst(pre)
        order = sorted(range(len(group)), key=lambda i: (hashkey(group[i].v0), hashkey(
            sorted((hashkey(PS(nv[i])) for _, nv in steps)))))
        group = [group[i] for i in order]
        inits = tuple(l.v0 for l in group)
        steps = [(g, tuple(nv[i] for i in order)) for g, nv in steps]
        can = {k: ('ck',)}
        for i, l in enumerate(group):
            can[l.X] = ('cx', i)
        C = Subst(can)
        key = (inits, tuple(sorted((C(tuple(s)) for s in steps), key=hashkey)), tuple(l.kind for l in group))
        L = IN.intern_loop(key, {'k': k, 'X': [l.X for l in group], 'kinds': [l.kind for l in group],
                                 'init': inits, 'steps': steps, 'fn': fr.fn.key})
        if len(steps) == 1 and all(l.kind == 'int' for l in group):
            newloops.add(L)
        for i, l in enumerate(group):
            a = ('acc', L, i, kk)
            if l.kind == 'int':
                if l.X in RANGE:
                    set_range(a, *RANGE[l.X])
                l.form = as_int(a)
            elif l.kind == 'bool':
                l.form = ('b', a)
            else:
                l.form = a
                if l.X in STATICLEN:
                    STATICLEN[a] = STATICLEN[l.X]
                if l.X in IN.VARN:
                    IN.VARN[a] = IN.VARN[l.X]
            S[l.X] = a
            todo.remove(l)
    SS = Subst(dict(S)) if S else None
    if SS:
        ex2 = []
        cnt2 = {}
        for i, (b, s) in enumerate(exits):
            s2 = s.subst(SS)
            if s2 is not None:
                if i in counting:
                    cnt2[len(ex2)] = SS(counting[i])
                ex2.append((b, s2))
        exits, counting = ex2, cnt2
        Ns = [n for n in counting.values()]
        gs = [SS(g) for g in gstr]
    else:
        gs = gstr
    inv = []
    if I.modeP:
        inv = invariants(I, st0, leaves, conts, k, kk, S)
        run(leaves, [l.form for l in leaves], ranges + inv)
        pans = list(caught)
    # ---- 5. exits
    cont_f = for_(*gs) if gs else FF
    lamC = mk_lam(cont_f, k)
    early = [i for i in range(len(exits)) if i not in counting]
    out = []
    Nset = list(dict.fromkeys(Ns))
    if len(Nset) == 1 or not any(I.bounded(st0, n) for n in Nset):
        for n in Nset:
            I.check_bound(st0, n, 'loop count', fr, '')
    def leave(b, s, K, pre, f=None):
        """the exit (b, s) taken in iteration K, all iterations before it continuing"""
        s2 = s.copy()
        if f is not None and not s2.add(f):
            return
        s2 = s2.subst(Subst({k: K}))
        if s2 is None:
            return
        if pre and not s2.add(mk_all(K, lamC)):
            return
        if isinstance(K, int) and K <= 8 and newloops:
            import refine
            s2 = s2.subst(refine.UnrollAcc(newloops))
            if s2 is None:
                return
        if inv and not all(s2.add(Subst({k: K})(f), False) for f in inv):
            return
        out.append((b, s2))

    def reached(s, N):
        """the exit in iteration N, with no other counter ending before"""
        s = s.copy()
        for M in Nset:
            f = le(N, M)
            if M == N or f == TT:
                continue
            if not s.add(f):
                return None
            if f not in s.log and not st0.prove(f):
                s.log.append(f)
        return s

    def minimal():
        """(bound, condition) such that the bound is the least of all counters"""
        if len(Nset) < 2:
            return [(N, TT) for N in Nset] or [(None, TT)]
        res = []
        for i, N in enumerate(Nset):
            f = fand(*[le(N, M) if j > i else lt(N, M) for j, M in enumerate(Nset) if j != i])
            if not st0.refuted(f):
                res.append((N, TT if st0.prove(f) else f))
        return res
    mins = minimal()
    for i, (b, s) in enumerate(exits):
        if i in counting:
            N = counting[i]
            if st0.prove(le(0, N)):
                s = reached(s, N)
                if s is not None:
                    leave(b, s, N, early)
            else:
                s1 = reached(s, N)
                if s1 is not None:
                    leave(b, s1, N, early, le(0, N))
                leave(b, s, 0, early, lt(N, 0))
        else:
            for Nb, f in mins:
                at = ('first', Nb, lamC)
                RANGE[at] = (0, None)
                s2 = s.copy()
                if not s2.add(f):
                    continue
                s2 = s2.subst(Subst({k: at}))
                if s2 is None:
                    continue
                if Nb is not None:
                    s2.add(lt(as_int(at), Nb), False)
                    if not s2.add(fnot(mk_all(Nb, lamC))):
                        continue
                if inv and not all(s2.add(Subst({k: as_int(at)})(g), False) for g in inv):
                    continue
                out.append((b, s2))
            # an exit tested before the counter is also possible when the counter has ended
            for N in Nset:
                if s.prove(lt(kk, N)):
                    continue
                s1 = reached(s, N)
                if s1 is not None:
                    if st0.prove(le(0, N)):
                        leave(b, s1, N, True)
                    else:
                        leave(b, s1, N, True, le(0, N))
                        leave(b, s1, 0, True, lt(N, 0))
    if pans:
        # a panic in some iteration j all of whose predecessors continue
        small = Nset and isinstance(Nset[0], int) and len(Nset) == 1 and Nset[0] <= 8 and newloops
        for s, v in pans:
            if small:
                import refine
                for j in range(Nset[0]):
                    R, U = Subst({k: j}), refine.UnrollAcc(newloops)
                    s2 = s.subst(R)
                    s2 = s2 and s2.subst(U)
                    if s2 is None or early and not s2.add(mk_all(j, lamC)):
                        continue
                    outer.append((s2, v[:3] + (U(R(v[3])),) + v[4:]))
                continue
            j = fresh('j')
            RANGE[j] = (0, None)
            R = Subst({k: as_int(j)})
            s2 = s.subst(R)
            if s2 is None:
                continue
            if early and not s2.add(mk_all(as_int(j), lamC)):
                continue
            outer.append((s2, v[:3] + (R(v[3]),) + v[4:]))
    return out


def invariants(I, st0, leaves, conts, k, kk, S):
    """inductive facts about accumulators, in terms of the iteration counter"""
    inv = []
    for l in leaves:
        if l.kind != 'int' or l.X not in S:
            continue
        X = as_int(l.X)
        news = [get(c.mem[l.cell], l.path) for c in conts]
        ds = [sub(n, X) for n in news]
        if all(isinstance(d, int) for d in ds):
            inv.append(le(add(l.v0, scale(kk, min(ds))), l.form))
            inv.append(le(l.form, add(l.v0, scale(kk, max(ds)))))
            continue
        # set to the current position or left alone
        T_, strs, ok = None, True, True
        for n, d in zip(news, ds):
            if d == 0:
                continue
            if not isinstance(n, Lin) or len(n.t) != 1 or n.c > 1:
                ok = False
                break
            (a, c), = n.t.items()
            if c != 1 or not (a == k or (a[0] == 'cpos' and a[2] == kk)) or (T_ is not None and T_ != a):
                ok = False
                break
            T_ = a
        if not ok or T_ is None:
            continue
        inv.append(for_(le(l.form, l.v0), le(l.form, as_int(T_))))
        if T_[0] == 'cpos':
            import models
            B = T_[1]
            if models.boundary(I, st0, B, l.v0) == TT and all(d == 0 or models.boundary(I, c, B, n) == TT
                                                              for c, n, d in zip(conts, news, ds)):
                inv.append(('b', ('cb', B, l.form)))
    return inv


def find_counting(st0, exits, conts, mark, k, kk, cguards):
    """exit index -> N for exits taken exactly when the iteration counter reaches N"""
    res = {}
    for i, (b, s) in enumerate(exits):
        for f in s.log[mark:]:
            N = counting_of(f, conts, k, kk)
            if N is not None:
                res[i] = N
                if f[0] == 'le':
                    cguards.add(fnot(f))
                break
    return res


def split_exits(exits, conts, mark, k, kk):
    """exits taken when one of several counters ends become one exit per counter"""
    out = []
    for b, s in exits:
        done = False
        for f in s.log[mark:]:
            if f[0] != 'or' or len(f[1]) > 4:
                continue
            alts = []
            for x in f[1]:
                cs = x[1] if x[0] == 'and' else (x,)
                alts.append(any(counting_of(c, conts, k, kk) is not None for c in cs))
            if not any(alts):
                continue
            prev = []
            for x in f[1]:
                s2 = s.copy()
                s2.log = [g for g in s2.log if g != f]
                s2.ors = [g for g in s2.ors if g != f]
                if all(s2.add(fnot(p)) for p in prev) and s2.add(x):
                    out.append((b, s2))
                prev.append(x)
            done = True
            break
        if not done:
            out.append((b, s))
    return out


def counting_of(f, conts, k, kk):
    """N if f says that the iteration counter k has reached N, which every continuing path excludes"""
    N = g = None
    if f[0] == 'le' and isinstance(f[1], Lin) and f[1].t.get(k, 0) < 0:
        c = -f[1].t[k]
        N = add(f[1], scale(kk, c))
        g = lt(scale(kk, c), N)
        if not mentions(N, {k}) and c > 1:
            N = div(add(N, c - 1), c)
    elif f[0] == 'eq' and isinstance(f[1], Lin) and abs(f[1].t.get(k, 0)) == 1:
        c = f[1].t[k]
        N = scale(sub(f[1], scale(kk, c)), -c)
        g = lt(kk, N)
    if N is None or mentions(N, {k}):
        return None
    return N if all(c.prove(g) for c in conts) else None
