"""Loop handling: exact summaries (guessed, then proved) or invariants from the contract files, else havoc."""
import ast, itertools
import z3
import core
from core import *
from vals import *


def hidden_cands(W, a, depth=2):
    """Candidates for the value of a, from W and from the bodies of the operators in W."""
    out = list(invert_cands(W, a))
    if depth:
        seen, st = set(), [W]
        while st:
            x = st.pop()
            if x.get_id() in seen or not z3.is_app(x):
                continue
            seen.add(x.get_id())
            d = agg_of(x)
            if d is not None and x.sort() == B:
                _, args, ex = agg_parts(x, d)
                ws = [z3.Const('!hb%d' % uid(), b.sort()) for b in d.bvs]
                core._keep.extend(ws)
                for t in hidden_cands(z3.simplify(agg_body(d, args, *ws)), a, depth - 1):
                    if not any(has_const(t, w) for w in ws) and not any(t.eq(o) for o in out):
                        out.append(t)
            elif x.sort() == B:
                st.extend(x.children())
    return out


class Cell:
    """How a scalar or a buffer modified by the loop evolves: value at the start of iteration q."""
    def __init__(self, how, at):
        self.how, self.at = how, at


def leaves(e, stop, out):
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        leaves(e.arg(1), stop, out)
        leaves(e.arg(2), stop, out)
    elif not any(e.eq(s) for s in out) and not e.eq(stop):
        out.append(e)


def delta(f, m):
    """f - m as an expression without m, or None."""
    if f.eq(m):
        return z3.IntVal(0) if m.sort() == I else z3.RealVal(0)
    if z3.is_app_of(f, z3.Z3_OP_TO_REAL) and m.sort() == R:
        return None
    if z3.is_app_of(f, z3.Z3_OP_ITE):
        a, b = delta(f.arg(1), m), delta(f.arg(2), m)
        if a is None or b is None or _has(f.arg(0), m):
            return None
        return z3.If(f.arg(0), a, b)
    if not _has(f, m):
        return None
    d = z3.simplify(f - m, som=True)
    if not _has(d, m):
        return d
    # additive with conditionals inside
    if z3.is_add(f):
        rest, found = [], 0
        for c in f.children():
            if _has(c, m):
                x = delta(c, m)
                if x is None:
                    return None
                found += 1
                rest.append(x)
            else:
                rest.append(c)
        if found == 1:
            return z3.simplify(z3.Sum(*rest))
    return None


def _has(e, m):
    return mentions(e, {m.decl().get_id()}) if z3.is_app(m) else False


class Loop:
    def __init__(self, ip, node, st, cnt, item, par, iterable):
        self.ip, self.node, self.st, self.cnt, self.item, self.par = ip, node, st, to_z3(cnt), item, par
        self.iterable = iterable
        self.plain, self.aug = assigned_names(node.body)
        tp, _ = assigned_names([ast.Assign(targets=[node.target], value=ast.Constant(0))])
        self.targets = tp
        self.plain |= tp
        self.outer_level = len(ip.loopvars)

    # one execution of the body for iteration q
    def body(self, q, scalars, bufs, quiet, poison=()):
        ip = self.ip
        s = self.st.copy()
        s.pc = s.pc + [0 <= q, q < self.cnt]
        for nme in self.plain | self.aug:
            if nme in s.locals:
                v = s.locals[nme]
                if nme in scalars:
                    s.locals[nme] = scalars[nme]
                elif nme in poison:
                    s.locals[nme] = Poison('loop-carried variable')
                elif is_num(v) or nme in self.plain:
                    if isinstance(v, Arr) and nme not in self.plain:
                        continue
                    s.locals[nme] = Poison('%s may change in the loop' % nme)
        self.start_heap = {}
        for b, rec in list(s.heap.items()):
            if isinstance(rec, Buf):
                r = rec.with_(wr=lambda *a: z3.BoolVal(False))
                if b in bufs:
                    r = r.with_(content=bufs[b])
                s.heap[b] = r
                self.start_heap[b] = r
        if self.extra_pc:
            s.pc = s.pc + self.extra_pc
        if self.before is not None:
            self.before(s, q)
        ip.loopvars.append(q)
        if quiet:
            ip.quiet += 1
        if self.par:
            ip.par_depth += 1
        lvl = len(s.pc)
        k = len(ip.raised)
        try:
            ip.assign(self.node.target, self.item(s, q), s)
            outs = ip.exec_block(self.node.body, s)
        finally:
            ip.loopvars.pop()
            if quiet:
                ip.quiet -= 1
            if self.par:
                ip.par_depth -= 1
        if len(ip.raised) > k:
            outs = [Outcome('raise', s_, v_) for s_, v_ in ip.raised[k:]] + outs
            del ip.raised[k:]
        nexts = [(o.st, None) for o in outs if o.kind in ('next', 'continue')]
        exits = [o for o in outs if o.kind in ('return', 'raise', 'break')]
        if not nexts:
            end = None
        else:
            end, _ = ip.merge_states(nexts)
        self.lvl = lvl
        return end, exits

    def exit_cond(self, exits):
        cs = []
        for o in exits:
            br = [c for c in o.st.pc[self.lvl:] if c.get_id() not in self.ip.derived]
            cs.append(z3.And(*br) if br else z3.BoolVal(True))
        return z3.simplify(z3.Or(*cs)) if cs else None

    def run(self):
        ip, st = self.ip, self.st
        cnt = self.cnt
        self.extra_pc, self.before = [], None
        q = z3.Const('!q%d' % uid(), I)
        self.q = q
        spec = ip.loop_spec(ip, self) if ip.loop_spec is not None else None
        # ---- discovery run
        types = {}
        for nme in self.plain | self.aug:
            v = st.locals.get(nme)
            if is_num(v) and nme not in self.targets:
                types[nme] = to_z3(v).sort()
        for attempt in range(4):
            place = {n_: z3.Const('!m%d_%s' % (uid(), n_), srt) for n_, srt in types.items()}
            end, exits = self.body(q, place, {}, True)
            if end is None:
                break
            again = False
            for n_ in list(types):
                v = end.locals.get(n_)
                if is_num(v) and to_z3(v).sort() != types[n_]:
                    if R in (to_z3(v).sort(), types[n_]):
                        again = types[n_] != R
                        types[n_] = R
                    elif I in (to_z3(v).sort(), types[n_]) and types[n_] == B:
                        types[n_] = I
                        again = True
            if not again:
                break
        if end is None:
            # every path of the body leaves the loop: first iteration decides
            return self.no_next(exits)
        mod = [b for b, r in end.heap.items() if b in st.heap and isinstance(r, Buf) and r.content is not self.start_heap[b].content]
        objmod = [b for b, r in end.heap.items() if b in st.heap and not isinstance(r, Buf) and r is not st.heap[b]
                  and not (isinstance(r, dict) and isinstance(st.heap[b], dict) and set(r) == set(st.heap[b]) and all(ip.same(r[k], st.heap[b][k]) for k in r))]
        if objmod:
            return self.object_loop(objmod)
        # ---- placeholder run: how do scalars and buffers change?
        pdecl, pf = {}, {}
        for b in mod:
            rec = st.heap[b]
            f = z3.Function('!P%d' % uid(), *([I] * len(rec.shape) + [DT_SORT[rec.dtype]]))
            pdecl[b] = f
            pf[b] = (lambda f: lambda *a: f(*a))(f)
        place = {n_: z3.Const('!m%d_%s' % (uid(), n_), srt) for n_, srt in types.items()}
        end, exits = self.body(q, place, pf, True)
        pids = {f.get_id() for f in pdecl.values()}
        mids = {m.decl().get_id(): n_ for n_, m in place.items()}
        self.closed = {}
        solved = self.scalars(place, end, pids, mids, q)
        sub = lambda e, t: z3.substitute(e, *([(place[n_], c.at(q)) for n_, c in solved.items()])) if solved else e

        def clean(e, t=None):
            """e with solved placeholders replaced by their closed forms, or None if others remain."""
            for _ in range(6):
                e2 = self.subst_deep(e, place, solved, q)
                if e2 is None or e2.eq(e):
                    break
                e = e2
            if e is None:
                return None
            if mentions(e, set(mids)):
                return None
            return e
        self.clean = clean
        # boolean marking buffers first: scalars may depend on them
        bplans = {}
        for _ in range(2):
            new = False
            for b in mod:
                if b not in bplans and st.heap[b].dtype == 'bool' and st.heap[b].wc is None:
                    bp = self.plan_bool(b, st.heap[b], end.heap[b], pdecl[b], pids, clean, q)
                    if bp is not None:
                        bplans[b] = bp
                        self.closed[pdecl[b].get_id()] = (pdecl[b], self.bool_content(st.heap[b], bp, q, q))
                        new = True
            if not new:
                break
            solved.update(self.scalars({n_: m for n_, m in place.items()}, end, pids, mids, q, solved))
        # early exits: later iterations know that earlier ones did not leave
        ec = self.exit_cond(exits)
        ec_ok = None
        if ec is not None:
            e = clean(ec)
            if e is not None and not mentions(e, pids):
                ec_ok = e
        self.ec = ec_ok
        # ---- buffers
        cells, plans = {}, {}
        for b in mod:
            if b in bplans:
                plans[b] = bplans[b]
                bp = plans[b]
                w_ = clean(z3.simplify(self.subst_closed(z3.simplify(end.heap[b].wr(*bp['av'])))))
                if w_ is not None and not mentions(w_, pids):
                    bp['W'] = w_
                    continue
            plans[b] = self.plan_buffer(b, st.heap[b], end.heap[b], pdecl[b], pids, clean, q)
        # ---- final run
        return self.final(q, solved, types, mod, plans, exits, ec_ok, spec)

    def subst_deep(self, e, place, solved, q):
        ps = [(place[n_], c.at(q)) for n_, c in solved.items()]
        r = self.subst_closed(e)
        if not ps:
            return r
        r = z3.substitute(r, *ps)
        # placeholders are constants, hence always arguments of operators, never hidden in their bodies
        return z3.simplify(r)

    def subst_closed(self, e):
        """Reads of buffers whose content at the start of the iteration is known in closed form."""
        for _ in range(8):
            hit = [a for a in collect(e)[0] if a.decl().get_id() in self.closed]
            if not hit:
                return e
            # innermost first
            hit = [a for a in hit if not any(h is not a and not h.eq(a) and contains(a, h) for h in hit)]
            e = z3.substitute(e, *[(a, self.closed[a.decl().get_id()][1](*a.children())) for a in hit])
        return e

    def plan_bool(self, b, rec0, rec1, P, pids, clean, q):
        """A boolean array in which places are only ever set, or only ever cleared."""
        av = [z3.Const('!a%d' % uid(), I) for _ in rec0.shape]
        F = z3.simplify(to_z3(rec1.content(*av)))
        apps = [a for a in collect(F)[0] if a.decl().get_id() == P.get_id()]
        if not apps:
            return None
        pv = z3.Const('!pv%d' % uid(), B)
        F2 = z3.substitute(F, *[(a, pv) for a in apps])
        if mentions(F2, {P.get_id()}):
            return None
        own = P(*av)
        if any(not a.eq(own) for a in apps) and not prove(F == z3.substitute(F2, (pv, own)), [], quick=True, depth=3):
            return None
        ft = z3.simplify(z3.substitute(F2, (pv, z3.BoolVal(True))))
        ff = z3.simplify(z3.substitute(F2, (pv, z3.BoolVal(False))))
        for how, e, c in (('any', ff, ft), ('all', ft, ff)):
            if z3.is_true(c) if how == 'any' else z3.is_false(c):
                e = clean(e)
                if e is not None and not mentions(e, pids):
                    return dict(kind='bool', how=how, e=e, av=av)
        return None

    def bool_content(self, rec, p, q, upto):
        def c(*a):
            sub = list(zip(p['av'], [to_z3(x) for x in a]))
            e = lambda t: z3.substitute(p['e'], *(sub + [(q, to_z3(t))]))     # simultaneous: the address may mention q
            o = rec.content(*a)
            if p['how'] == 'any':
                return z3.simplify(z3.Or(o, Any(upto, e)))
            return z3.simplify(z3.And(o, z3.Not(Any(upto, lambda t: z3.Not(e(t))))))
        return c

    # ---------------------------------------------------------------- scalars
    def scalars(self, place, end, pids, mids, q, done=None):
        ip, st = self.ip, self.st
        solved = dict(done or {})
        todo = {}
        for n_, m in place.items():
            if n_ in solved:
                continue
            v = end.locals.get(n_)
            if is_num(v):
                z = to_z3(v)
                if z.sort() != m.sort():
                    if m.sort() == R:
                        z = real(z)
                    elif m.sort() == I:
                        z = integer(z)
                    else:
                        continue
                todo[n_] = z3.simplify(z)
        v0s = {n_: conv_sort(st.locals[n_], place[n_].sort()) for n_ in place}
        progress = True
        while progress and todo:
            progress = False
            for n_ in list(todo):
                m, v0 = place[n_], v0s[n_]
                f = z3.simplify(self.subst_deep(todo[n_], place, solved, q))
                others = set(mids) - {m.decl().get_id()}
                if mentions(f, pids):
                    continue
                c = None
                if f.eq(m):
                    c = Cell('const', lambda t, v0=v0: v0)
                elif not mentions(f, set(mids)):
                    c = Cell('last', lambda t, v0=v0, f=f: ite(to_z3(t) <= 0, v0, lambda: z3.substitute(f, (q, to_z3(t) - 1))))
                elif mentions(f, others):
                    continue
                else:
                    c = self.fold(f, m, v0, q, solved)
                if c is not None:
                    solved[n_] = c
                    del todo[n_]
                    progress = True
        return solved

    def fold(self, f, m, v0, q, solved):
        ip = self.ip
        rng = self.st.pc + [0 <= q, q < self.cnt]
        if m.sort() != B:
            h = delta(f, m)
            if h is not None:
                if not has_const(h, q):
                    return Cell('linear', lambda t: z3.simplify(v0 + (to_z3(t) if m.sort() == I else real(to_z3(t))) * h))
                return Cell('sum', lambda t: z3.simplify(v0 + conv_sort(Sum(t, lambda i: z3.substitute(h, (q, i))), m.sort())))
        # (m + c) mod n
        if m.sort() == I and z3.is_app(f) and (f.decl().eq(MODF) or z3.is_mod(f)):
            n_ = f.arg(1)
            c = delta(f.arg(0), m)
            if c is not None and not _has(n_, m) and not has_const(c, q) and not has_const(n_, q):
                form = lambda t: mod(v0 + to_z3(t) * c, n_)
                if prove(z3.And(v0 >= 0, v0 < n_), self.st.pc + [self.cnt > 0], quick=True):
                    return Cell('mod', form)
                return Cell('mod', lambda t: ite(to_z3(t) <= 0, v0, lambda: form(t)))
        if m.sort() == B:
            ft, ff = z3.simplify(z3.substitute(f, (m, z3.BoolVal(True)))), z3.simplify(z3.substitute(f, (m, z3.BoolVal(False))))
            if z3.is_true(ft):
                return Cell('any', lambda t: z3.Or(v0, Any(t, lambda i: z3.substitute(ff, (q, i)))))
            if z3.is_false(ff):
                return Cell('all', lambda t: z3.And(v0, All(t, lambda i: z3.substitute(ft, (q, i)))))
            return None
        # running minimum / maximum and its position
        ls = []
        leaves(f, m, ls)
        if len(ls) == 1 and not _has(ls[0], m) and z3.is_app_of(f, z3.Z3_OP_ITE):
            e = ls[0]
            cands = []
            for op in (Min, Max):
                cands.append(('minmax', lambda t, op=op: ite(to_z3(t) <= 0, v0, lambda: conv_sort(op(t, lambda i: z3.substitute(e, (q, i))), m.sort()))))
            for how, form in cands:
                if self.step_ok(f, m, form, q, rng):
                    return Cell(how, form)
            # position of a running minimum
            c = lin_coef(e, q) if e.sort() == I else None
            if e.sort() == R and z3.is_app_of(e, z3.Z3_OP_TO_REAL):
                c = lin_coef(e.arg(0), q)
            if c and c[0] == 1:
                for n2, cell in list(solved.items()):
                    if cell.how != 'minmax':
                        continue
                    mv = cell.at(q)
                    for a in outer_aggs(mv):
                        d = agg_of(a)
                        if d.kind in ('min', 'max'):
                            ar = lambda t, a=a, d=d: related(d, agg_parts(a)[1], 'arg' + d.kind, [to_z3(t)], I)
                            form = lambda t: ite(to_z3(t) <= 0, v0, lambda: conv_sort(ar(t) + c[1], m.sort()))
                            if self.step_ok(f, m, form, q, rng):
                                return Cell('arg', form)
        return None

    def step_ok(self, f, m, form, q, rng):
        a = z3.substitute(f, (m, form(q)))
        b = form(q + 1)
        return bool(prove(a == b, rng, [q], timeout=6, quick=False, depth=1))

    # ---------------------------------------------------------------- buffers
    def plan_buffer(self, b, rec0, rec1, P, pids, clean, q):
        """-> dict(kind=..., ...)"""
        if rec0.wc is not None:
            return dict(kind='wc')
        n = len(rec0.shape)
        av = [z3.Const('!a%d' % uid(), I) for _ in range(n)]
        F = to_z3(rec1.content(*av))
        F = z3.simplify(F)
        W = z3.simplify(rec1.wr(*av))
        self_app = P(*av)
        W1 = clean(W)
        F1 = clean(F)
        if W1 is None or mentions(W1, pids):
            return dict(kind='havoc', why='the places written depend on the data written', frames=self.frames(W, av, pids, q))
        if F1 is not None:
            if rec0.dtype in ('int', 'real'):
                h = delta_uf(F1, self_app, pids)
                if h is not None:
                    return dict(kind='acc', h=h, av=av, W=W1)
            ls = []
            leaves_under(F1, W1, self_app, ls)
            if len(ls) == 1 and not has_const(ls[0], q) and not any(has_const(ls[0], x) for x in av) and not mentions(ls[0], pids):
                return dict(kind='const', c=ls[0], av=av, W=W1)
        return dict(kind='map', av=av, W=W1)

    def frames(self, W, av, pids, q):
        """Axes whose index is known at every place written: ('fix', axis, t) or ('upto', axis) when it is the number of
        the iteration. W holds whatever the data written before."""
        out = []
        rng = self.st.pc + [0 <= q, q < self.cnt]
        for k, a in enumerate(av):
            for t in [q] + hidden_cands(W, a):
                if mentions(t, pids) or any(x.decl().name().startswith('!m') for x in free_consts(t)):
                    continue
                if not t.eq(q) and has_const(t, q):
                    continue
                if any(x.decl().name().startswith('!q') and not x.eq(q) and not any(x.eq(v) for v in self.ip.loopvars) for x in free_consts(t)):
                    continue
                if prove(z3.Implies(W, a == t), rng, quick=True, depth=3):
                    out.append(('upto', k) if t.eq(q) else ('fix', k, t))
                    break
        return out

    def framed(self, p, new, old, upto):
        """content: new inside the frame, old outside"""
        fr = p.get('frames')
        if not fr:
            return new

        def inside(a):
            return z3.simplify(z3.And(*[z3.And(0 <= to_z3(a[f[1]]), to_z3(a[f[1]]) < to_z3(upto)) if f[0] == 'upto' else to_z3(a[f[1]]) == f[2] for f in fr]))
        return lambda *a: ite(inside(a), lambda: new(*a), lambda: old(*a))

    def kappa(self, W, av, q, rng):
        """q as a function of the address: a term, or a partial inverse function."""
        ip = self.ip
        cands = []
        st_ = [W]
        seen = set()
        while st_:
            x = st_.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_eq(x) and x.arg(0).sort() == I:
                d = z3.simplify(x.arg(0) - x.arg(1))
                c = lin_coef(d, q)
                if c and c[0] in (1, -1) and any(has_const(d, a) for a in av):
                    cands.append(z3.simplify(-c[1] if c[0] == 1 else c[1]))
            if z3.is_app(x):
                st_.extend(x.children())
        for a in av:
            cands.append(a)
        for k in cands:
            if prove(z3.Implies(W, q == k), rng, quick=True, depth=3):
                return ('term', k)
        # uniqueness
        q2 = z3.Const('!q%d' % uid(), I)
        W2 = z3.substitute(W, (q, q2))
        r2 = [z3.substitute(h, (q, q2)) for h in rng]
        if prove(z3.BoolVal(False), rng + r2 + [W, W2, q < q2], [], timeout=8):
            cnt = self.cnt
            vs = list(ip.loopvars)
            f = z3.Function('!inv%d' % uid(), *([v.sort() for v in vs] + [I] * len(av) + [I]))

            def rule(app):
                ch = app.children()
                lv, addr = ch[:len(vs)], ch[len(vs):]
                out = []
                Wi = z3.substitute(W, *(list(zip(vs, lv)) + list(zip(av, addr))))
                ci = z3.substitute(cnt, *list(zip(vs, lv))) if vs else cnt
                for t in inverse_cands(addr) + [t for t in invert_cands(Wi, q, ci)]:
                    sub = list(zip(vs, lv)) + list(zip(av, addr)) + [(q, t)]
                    Wt = z3.substitute(W, *sub)
                    c = z3.substitute(cnt, *list(zip(vs, lv))) if vs else cnt
                    out.append(z3.Implies(z3.And(0 <= t, t < c, Wt), app == t))
                return out
            TH.rule(f, rule)
            return ('fun', f(*(vs + av)))
        return None

    # ---------------------------------------------------------------- final run
    def final(self, q, solved, types, mod, plans, exits, ec, spec):
        ip, st, cnt = self.ip, self.st, self.cnt
        quiet = ip.quiet > 0
        base_rng = [0 <= q, q < cnt]
        start_sc, bufs = {}, {}
        unsolved = [n_ for n_ in types if n_ not in solved]
        outer_vars = list(ip.loopvars)
        ip.loopvars.append(q)
        for n_ in unsolved:
            start_sc[n_] = ip.fresh('h_' + n_, types[n_])
        hav = {}

        def havoc(b):
            rec = st.heap[b]
            hav[b] = ip.fresh_fn('H%d' % b, [I] * len(rec.shape), DT_SORT[rec.dtype])
            return self.framed(plans[b], hav[b], rec.content, q)
        for n_, c in solved.items():
            start_sc[n_] = c.at(q)
        for b in mod:
            rec, p = st.heap[b], plans[b]
            if p['kind'] == 'acc':
                bufs[b] = self.acc_content(rec, p, q, q)
            elif p['kind'] == 'const':
                bufs[b] = self.const_content(rec, p, q, q)
            elif p['kind'] == 'bool':
                bufs[b] = self.bool_content(rec, p, q, q)
            elif p['kind'] == 'map':
                bufs[b] = rec.content
            elif p['kind'] == 'wc':
                bufs[b] = havoc(b)
            else:
                bufs[b] = havoc(b)
        ip.loopvars.pop()
        if spec is not None:
            spec.prepare(ip, self, st, q, plans, unsolved, start_sc, bufs, hav, havoc, mod)
        before_extra = []
        if ec is not None:
            before_extra.append(z3.Not(Any(q, lambda t: z3.substitute(ec, (q, t)))))
        self.extra_pc = before_extra
        # map buffers: need an inverse of the write address
        for b in mod:
            p = plans[b]
            if p['kind'] == 'map':
                k = ('term', p['av'][0]) if False else self.kappa(p['W'], p['av'], q, st.pc + base_rng)
                if k is None:
                    p['kind'] = 'havoc'
                    p['why'] = 'two iterations may write the same place'
                    ip.loopvars.append(q)
                    bufs[b] = havoc(b)
                    ip.loopvars.pop()
                else:
                    p['kappa'] = k
        if spec is not None and not quiet:
            spec.establish(ip, self, st)
        if spec is not None:
            self.before = lambda s, t: spec.assume(ip, self, s, t)
        outer_log = ip.log
        mark = len(ip.obls)
        n_ev = len(ip.events)
        if not quiet:
            ip.log = []
        end, exits = self.body(q, start_sc, bufs, False)
        log = ip.log
        ip.log = outer_log
        # dependency check of the map summaries
        if not quiet:
            redo = []
            for b in mod:
                if plans[b]['kind'] == 'map' and not self.reads_ok(b, plans[b], log, q):
                    redo.append(b)
            if redo:
                del ip.obls[mark:]
                del ip.events[n_ev:]
                ip.loopvars.append(q)
                for b in redo:
                    plans[b]['kind'] = 'havoc'
                    plans[b]['why'] = 'an iteration may read what another one writes'
                    bufs[b] = havoc(b)
                ip.loopvars.pop()
                ip.log = []
                end, exits = self.body(q, start_sc, bufs, False)
                log = ip.log
                ip.log = outer_log
            if self.par:
                self.race_check(log, q, types, st)
            if outer_log is not None:
                for (b, rw, addr, binders, pc, line) in log:
                    if b in st.heap:
                        outer_log.append((b, rw, addr, [q] + binders, pc, line))
        if spec is not None and end is not None:
            spec.preserve(ip, self, end, q)
        # ---- state after the loop
        res = []
        for o in exits:
            o.st.pc = list(o.st.pc)
            if o.kind == 'break':
                res.append(Outcome('next', o.st))
            else:
                res.append(o)
        after = st.copy()
        total = cnt if prove(cnt >= 0, st.pc, quick=True, depth=9) else z3.If(cnt > 0, cnt, z3.IntVal(0))
        total = z3.simplify(total)
        for n_ in self.plain | self.aug:
            if n_ in solved:
                after.locals[n_] = z3.simplify(to_z3(solved[n_].at(total)))
            elif n_ in types:
                after.locals[n_] = ip.fresh('after_' + n_, types[n_])
            elif n_ in self.plain:
                after.locals[n_] = Poison('%s is assigned in a loop' % n_)
        for b in mod:
            rec, p = st.heap[b], plans[b]
            owr = rec.wr
            if p['kind'] == 'acc':
                c = self.acc_content(rec, p, q, total)
                wr = self.any_wr(p, q, total)
            elif p['kind'] == 'bool':
                c = self.bool_content(rec, p, q, total)
                wr = self.any_wr(p, q, total)
            elif p['kind'] == 'const':
                c = self.const_content(rec, p, q, total)
                wr = self.any_wr(p, q, total)
            elif p['kind'] == 'map':
                c, wr = self.map_content(rec, end.heap[b], p, q, total)
            elif p['kind'] == 'wc':
                W = end.heap[b].wr
                av = [z3.Const('!a%d' % uid(), I) for _ in rec.shape]
                Wt = z3.simplify(W(*av))
                wr = (lambda av, Wt: lambda *a: Any(total, lambda t: z3.substitute(Wt, *(list(zip(av, a)) + [(q, to_z3(t))]))))(av, Wt)
                wc, oc = rec.wc, rec.content
                c = (lambda wr, wc, oc: lambda *a: ite(wr(*a), lambda: wc.value(*a), lambda: oc(*a)))(wr, wc, oc)
            else:
                H = ip.fresh_fn('A%d' % b, [I] * len(rec.shape), DT_SORT[rec.dtype])
                W = end.heap[b].wr if end is not None else rec.wr
                av = [z3.Const('!a%d' % uid(), I) for _ in rec.shape]
                c = self.framed(p, (lambda H: lambda *a: H(*a))(H), rec.content, total)
                wr = self.framed(p, lambda *a: z3.BoolVal(True), lambda *a: z3.BoolVal(False), total)
                p['after'] = H
            after.heap[b] = rec.with_(content=c, wr=(lambda wr, owr: lambda *a: z3.simplify(z3.Or(wr(*a), owr(*a))))(wr, owr))
        if spec is not None:
            spec.after(ip, self, after, total, plans)
        if ec is not None:
            after.pc = after.pc + [z3.Not(Any(total, lambda t: z3.substitute(ec, (q, t))))]
        outs = ip.exec_block(self.node.orelse, after) if self.node.orelse else [Outcome('next', after)]
        return res + outs

    def no_next(self, exits):
        """The body always leaves the loop in its first iteration."""
        ip, st = self.ip, self.st
        q0 = z3.IntVal(0)
        s = st.copy()
        s.pc.append(self.cnt > 0)
        ip.assign(self.node.target, self.item(s, q0), s)
        outs = ip.exec_block(self.node.body, s)
        z = st.copy()
        z.pc.append(self.cnt <= 0)
        res = [Outcome('next', o.st) if o.kind in ('break', 'continue') else o for o in outs]
        return res + [Outcome('next', z)]

    def object_loop(self, objmod):
        raise Unsupported('loop modifying lists or objects (line %d)' % self.ip.line(self.node))

    def acc_content(self, rec, p, q, upto):
        h, av = p['h'], p['av']

        def c(*a):
            sub = list(zip(av, [to_z3(x) for x in a]))
            o = rec.content(*a)
            return z3.simplify(o + conv_sort(Sum(upto, lambda t: z3.substitute(h, *(sub + [(q, to_z3(t))]))), o.sort()))
        return c

    def any_wr(self, p, q, upto):
        W, av = p['W'], p['av']
        return lambda *a: Any(upto, lambda t: z3.substitute(W, *(list(zip(av, [to_z3(x) for x in a])) + [(q, to_z3(t))])))

    def const_content(self, rec, p, q, upto):
        wr = self.any_wr(p, q, upto)
        return lambda *a: ite(wr(*a), p['c'], lambda: rec.content(*a))

    def map_content(self, rec, rec1, p, q, total):
        av, W = p['av'], p['W']
        av2 = [z3.Const('!a%d' % uid(), I) for _ in av]
        F = z3.simplify(to_z3(rec1.content(*av2)))
        Wf = z3.simplify(rec1.wr(*av2))
        kind, kt = p['kappa']

        def parts(a):
            a = [to_z3(x) for x in a]
            k = z3.simplify(z3.substitute(kt, *list(zip(av, a))))
            sub = list(zip(av2, a)) + [(q, k)]
            w = z3.simplify(z3.And(0 <= k, k < total, z3.substitute(Wf, *sub)))
            return w, sub
        c = lambda *a: (lambda ws: ite(ws[0], lambda: z3.simplify(z3.substitute(F, *ws[1])), lambda: rec.content(*a)))(parts(a))
        wr = lambda *a: parts(a)[0]
        return c, wr

    def reads_ok(self, b, p, log, q):
        """No read of iteration q touches a place written by an earlier iteration."""
        ok = True
        W, av = p['W'], p['av']
        seen = set()
        for (bb, rw, addr, binders, pc, line) in log:
            if bb != b or rw != 'r':
                continue
            key = tuple(a.get_id() for a in addr)
            if key in seen:
                continue
            seen.add(key)
            q2 = z3.Const('!q%d' % uid(), I)
            W2 = z3.substitute(W, *(list(zip(av, addr)) + [(q, q2)]))
            # the write predicate of the other iteration must not use q of this one
            if not prove(z3.Not(z3.And(0 <= q2, q2 < q, W2)), pc, [], timeout=5, quick=True, depth=3):
                if not prove(z3.BoolVal(False), pc + [0 <= q2, q2 < q, W2], [], timeout=8):
                    return False
        return ok

    # ---------------------------------------------------------------- parallel independence
    def race_check(self, log, q, types, st):
        ip = self.ip
        if ip.kinds is not None and 'race' not in ip.kinds:
            return
        # scalars: an iteration must not use a value left by another one (sum reductions are private per thread)
        red = set()
        for s in ast.walk(ast.Module(body=self.node.body, type_ignores=[])):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                red.add(s.target.id)
        try:
            place = {n_: z3.Const('!m%d_%s' % (uid(), n_), types[n_]) for n_ in types if n_ in red}
            bef, self.before = self.before, None
            self.body(q, place, {}, True, poison=[n_ for n_ in types if n_ not in red])
            ip.obls.append(self.obl('race', 'no scalar carries a value from one parallel iteration to another', True))
        except Unsupported as e:
            ip.obls.append(self.obl('race', 'no scalar carries a value from one parallel iteration to another: %s' % e, False))
        finally:
            self.before = bef
        shared = [x for x in log if x[0] in st.heap and isinstance(st.heap[x[0]], Buf)]
        writes = [x for x in shared if x[1] == 'w']
        done = set()
        for w in writes:
            for x in shared:
                if x[0] != w[0]:
                    continue
                key = (tuple(a.get_id() for a in w[2]), tuple(a.get_id() for a in x[2]), tuple(c.get_id() for c in w[4][:]), len(x[4]))
                if key in done:
                    continue
                done.add(key)
                q2 = z3.Const('!q%d' % uid(), I)
                ren = [(q, q2)] + [(bd, z3.Const('!r%d' % uid(), bd.sort())) for bd in x[3]]
                inner = innermost_vars(x[4], q)
                ren += [(v, z3.Const('!v%d' % uid(), v.sort())) for v in inner if not any(v.eq(a) for a, _ in ren)]
                a2 = [z3.substitute(a, *ren) for a in x[2]]
                pc2 = [z3.substitute(c, *ren) for c in x[4]]
                same = [a == c for a, c in zip(w[2], a2)]
                hy = w[4] + pc2 + same + [q != q2]
                r = prove(z3.BoolVal(False), dedupe(hy), [], timeout=ip.timeout)
                what = 'writes' if x[1] == 'w' else 'reads'
                ip.obls.append(self.obl('race', 'iteration q writes (line %d) no place of %s that another iteration %s (line %d)'
                                        % (w[5], st.heap[w[0]].name or 'an array', what, x[5]), bool(r), r.how, r.t, '' if r else r.model))

    def obl(self, kind, msg, ok, how='z3', t=0.0, model=''):
        from interp import Obl
        return Obl(kind, self.ip.fname(), self.ip.line(self.node), msg, ok, how, t, model)


def dedupe(l):
    out, seen = [], set()
    for x in l:
        if x.get_id() not in seen:
            seen.add(x.get_id())
            out.append(x)
    return out


def innermost_vars(pc, q):
    out = []
    for c in pc:
        for k in free_consts(c):
            if k.decl().name().startswith('!q') and not k.eq(q) and not any(k.eq(o) for o in out):
                out.append(k)
    return out


def conv_sort(v, s):
    v = to_z3(v)
    if v.sort() == s:
        return v
    if s == R:
        return real(v)
    if s == I:
        return integer(v)
    return v


def delta_uf(F, app, pids):
    """F - app, free of the placeholder functions, or None."""
    if F.eq(app):
        return z3.IntVal(0) if app.sort() == I else z3.RealVal(0)
    if z3.is_app_of(F, z3.Z3_OP_ITE):
        if mentions(F.arg(0), pids):
            return None
        a, b = delta_uf(F.arg(1), app, pids), delta_uf(F.arg(2), app, pids)
        return None if a is None or b is None else z3.If(F.arg(0), a, b)
    if z3.is_add(F):
        rest, n = [], 0
        for c in F.children():
            if c.eq(app):
                n += 1
            else:
                rest.append(c)
        if n == 1 and not any(mentions(r, pids) for r in rest):
            return z3.Sum(*rest) if len(rest) > 1 else rest[0]
    return None


def leaves_under(F, W, app, out):
    """Values other than the old one."""
    if z3.is_app_of(F, z3.Z3_OP_ITE):
        leaves_under(F.arg(1), W, app, out)
        leaves_under(F.arg(2), W, app, out)
    elif F.sort() == B and not F.eq(app) and z3.is_app(F) and F.num_args() > 0 and F.decl().kind() in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        # boolean marking: if W then c else old, simplified by the solver into a conjunction or disjunction
        cs = F.children()
        if any(c.eq(app) for c in cs):
            v = z3.BoolVal(F.decl().kind() == z3.Z3_OP_OR)
            if not any(v.eq(o) for o in out):
                out.append(v)
        else:
            out.append(F)
    elif not F.eq(app) and not any(F.eq(o) for o in out):
        out.append(F)


def inverse_cands(addr):
    """Terms of the address that may be the iteration number: bounds of prefix sums, factors of products, atoms."""
    out = []

    def add(t):
        if t.sort() == I and not any(t.eq(o) for o in out):
            out.append(t)
    for a in addr:
        s = z3.simplify(a, som=True)
        apps, prods = collect(s)
        for x in apps:
            d = TH.aggs.get(x.decl().get_id())
            if d is not None and d.kind in ('sum', 'cnt'):
                add(x.children()[-1])
        for x in prods:
            for c in x.children():
                if not (z3.is_int_value(c)):
                    add(c)
        for x in apps:
            d = TH.aggs.get(x.decl().get_id())
            if d is None and not (z3.is_app(x) and x.decl().name().startswith('!inv')):
                add(x)
    return out[:8]


from interp import assigned_names, mentions, has_const, lin_coef   # noqa: E402
