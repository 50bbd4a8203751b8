"""Closed forms of loops: guessed from one symbolic iteration, then proved by induction."""
import time
from term import *
import term as T
import prove as PV
import race as RC
from prove import entails, simp
from val import *
import val as VL
from val import refs_of as regions_of
from exec import GiveUp, SV, St, merge_all, pc_cond, MAX_UNROLL, key_str, as_term


class Unroll(Exception):
    pass


def run_loop(ex, fr, L, st, rets):
    save = ex.checking
    n0 = len(rets)
    o0 = len(ex.obligs)
    if 'concrete' in ex.contract.opts:
        # every number of iterations is a literal
        return unroll(ex, fr, L, st, rets)
    try:
        r = Solver(ex, fr, L, st, rets).run()
        return r
    except (GiveUp, MergeFail, Unsupported, T.TooBig) as e:
        why = e
        if PV.TRACE:
            print('LOOP', fr.fn.name, loop_pos(fr, L), type(e).__name__, str(e)[:600])
        del rets[n0:]
        del ex.obligs[o0:]
        ex.checking = save
    try:
        return unroll(ex, fr, L, st, rets)
    except GiveUp:
        del rets[n0:]
        del ex.obligs[o0:]
        raise GiveUp('loop of %s at %s: %s' % (fr.fn.name, loop_pos(fr, L), why))


def loop_pos(fr, L):
    for b in sorted(L.body):
        for i in fr.fn.blocks[b]['i']:
            if i.get('pos'):
                return i['pos']
    return fr.fn.pos


def unroll(ex, fr, L, st, rets, limit=None):
    limit = limit or ex.unroll_limit
    cur = [(None, st)]
    out = []
    for n in range(limit + 2):
        backs, exits = [], []
        if ex.deadline and time.time() > ex.deadline:
            raise GiveUp('time budget exhausted')
        ex.iters.append(I(n))
        try:
            ex.region(fr, cur, L.header, L.body, L.header, backs, exits, rets)
        finally:
            ex.iters.pop()
        out.extend(exits)
        if not backs:
            return merge_exits(ex, fr, out)
        if n > limit:
            break
        cur = backs
    raise GiveUp('loop not unrolled within %d iterations' % limit)


def merge_exits(ex, fr, out):
    return out


class Solver:
    def __init__(self, ex, fr, L, st, rets):
        self.ex, self.fr, self.L, self.st, self.rets = ex, fr, L, st, rets
        self.key = '%s|%s|%d' % (fr.stack, fr.fn.name.split('/')[-1], L.header)
        self.t = T.var('nat:%s' % self.key)
        self.ta = T.as_atom(self.t)
        self.blk = fr.fn.blocks[L.header]
        self.phis = [i['d'] for i in self.blk['i'] if i['o'] == 'phi']
        self.pshape = {d: st.regs[d] for d in self.phis}
        self.mshape = {}
        self.svs = {}
        self.N = None
        self.Nfacts = []
        self.cont = None
        self.owned = {}
        self.skolem = False
        self.peeled = False
        self.nilborn = set()
        self.guess = {}
        self.omem = {}
        for d in self.phis:
            for path, v in leaves(self.pshape[d]):
                self.add_sv(('phi', d, path), v, 0, ())

    def unknown(self, what):
        """a natural number that depends on the enclosing iterations"""
        its = tuple(self.ex.iters)
        if not its:
            return T.var('nat:%s:%s' % (what, self.key))
        return T.lift(T.atom('app', ('len%s:%s' % (what, self.key),) + its, 'I'))

    def add_sv(self, key, entry, dims, bounds):
        if key not in self.svs:
            self.svs[key] = SV((self.key,) + key, entry, dims, bounds)
            return True
        return False

    # -------------------------------------------------- head states
    def value(self, sv, t):
        if sv.closed is not None:
            r = T.subst(sv.closed, {self.ta: t})
            return r
        return sv.symt

    def head(self, t, facts=()):
        st = self.st.copy()
        for d in self.phis:
            m = {k[2]: self.value(sv, t) for k, sv in self.svs.items() if k[0] == 'phi' and k[1] == d}
            st.regs[d] = rebuild_leaves(self.pshape[d], m)
        for r, shape in self.mshape.items():
            m = {k[2]: self.value(sv, t) for k, sv in self.svs.items() if k[0] == 'mem' and k[1] is r}
            if r in self.guess:
                # a guess: the cells written by this iteration still hold their entry value (the induction step decides)
                c = T.subst(self.guess[r], {self.ta: t})
                for k, sv in self.svs.items():
                    if k[0] == 'mem' and k[1] is r and sv.closed is None:
                        m[k[2]] = T.ite(c, sv.entry, m[k[2]])
            st.mem[r] = rebuild_leaves(shape, m)
        for f in facts:
            st.fact(f)
        return st

    def facts_at(self, t):
        fs = [T.le(I(0), t)]
        if self.N is not None:
            fs.append(T.lt(t, self.N))
            fs.extend(self.Nfacts)
            if self.skolem:
                fs.append(T.subst(self.cont, {self.ta: t}))
        return fs

    def body(self, t, checking, fam=None):
        ex = self.ex
        save = ex.checking
        ex.checking = save and checking
        ex.iters.append(t)
        try:
            head = self.head(t, self.facts_at(t))
            backs, exits, rets = [], [], []
            ex.region(self.fr, [(None, head)], self.L.header, self.L.body, self.L.header, backs, exits, rets)
            nb = []
            for f, s in backs:
                nb.append(self.ex.phis(self.fr, self.blk, f, s))
            return head, nb, exits, rets
        finally:
            ex.iters.pop()
            ex.checking = save

    # -------------------------------------------------- main
    def run(self):
        ex = self.ex
        ex.stats['loops'] += 1 if ex.checking else 0
        for rnd in range(18):
            self.trip()
            if self.N is not None:
                v = cval(self.N)
                if v is not None and v <= ex.unroll_now:
                    raise GiveUp('short loop')
            head, backs, exits, rets = self.body(self.t, False)
            if not backs:
                # the body never comes back to the header: not a loop on this path
                return self.straight()
            backs = merge_all(backs, ex.root)
            if len(backs) > 1:
                raise GiveUp('iterations with different shapes')
            back = backs[0]
            if self.discover(head, back):
                continue
            if self.nilborn and self.guess_unwritten(back):
                continue
            uns = [sv for sv in self.svs.values() if sv.closed is None]
            if not uns:
                if self.N is None and self.has_header_exit():
                    self.trip(final=True)
                break
            if not self.solve(head, back):
                if self.N is None and self.trip_now():
                    continue
                if not self.fallback(head, back):
                    raise GiveUp('no closed form for %s' % ', '.join('/'.join(map(str, key_str(s.key[1:]))) for s in uns))
        else:
            raise GiveUp('no closed form found')
        return self.finish()

    def guess_unwritten(self, back):
        U = self.unsolved()
        ch = False
        for r in self.nilborn:
            cond = T.FALSE
            for k, sv in self.svs.items():
                if k[0] == 'mem' and k[1] is r and sv.closed is None and isinstance(sv.symt, Poly):
                    ls = []
                    ite_leaves(simp(back.ctx.add(*[T.le(I(0), DIM[i]) for i in range(sv.dims)]), self.next_of(back, k)), T.TRUE, ls)
                    for c, v in ls:
                        if v is not sv.symt and c is not T.TRUE and not (c.fv & U):
                            cond = T.bor(cond, c)
            if cond is not T.FALSE and self.guess.get(r) is not cond and r not in self.guess:
                self.guess[r] = cond
                ch = True
        return ch

    def trip_now(self):
        return False

    def straight(self):
        ex = self.ex
        backs, exits, rets = [], [], []
        ex.region(self.fr, [(None, self.st)], self.L.header, self.L.body, self.L.header, backs, exits, rets)
        if backs:
            raise GiveUp('loop shape')
        self.rets.extend(rets)
        return exits

    # -------------------------------------------------- trip count
    def header_edges(self, t, facts):
        ex = self.ex
        save = ex.checking
        ex.checking = False
        ex.iters.append(t)
        try:
            head = self.head(t, facts)
            r = []
            edges = ex.block(self.fr, self.L.header, head, r)
        finally:
            ex.iters.pop()
            ex.checking = save
        inl = [(to, s) for to, s in edges if to in self.L.body]
        out = [(to, s) for to, s in edges if to not in self.L.body]
        return head, inl, out

    def has_header_exit(self):
        return any(s not in self.L.body for s in self.blk['succ'])

    def trip(self, final=False):
        if self.N is not None or not self.has_header_exit():
            return
        head, inl, out = self.header_edges(self.t, [T.le(I(0), self.t)])
        if len(inl) != 1 or len(out) > 1:
            if len(inl) == 0:
                self.N = I(0)
                self.cont = T.FALSE
            return
        c = pc_cond(inl[0][1].pc[len(head.pc):])
        if not out:
            return
        c = T.bnot(pc_cond(out[0][1].pc[len(head.pc):]))
        fv = c.fv
        if any(sv.closed is None and sv.sym in fv for sv in self.svs.values()):
            return
        self.cont = c
        t, ta = self.t, self.ta
        N = None
        if c.op == 'le' or (c.op == 'not' and c.args[0].op == 'eq' and c.args[0].args[0].sort == 'I'):
            p = c.args[0] if c.op == 'le' else c.args[0].args[0]
            a, b = linear_in(p, ta)
            if a is not None:
                if c.op == 'not':
                    if cval(a) == -1:
                        a, b = T.neg(a), T.neg(b)
                    if cval(a) == 1:
                        N = T.neg(b)
                elif cval(a) == 1:
                    N = T.sub(I(1), b)
                elif entails(self.st.ctx, T.le(I(1), a)):
                    num = T.sub(a, b)
                    if entails(self.st.ctx, T.le(I(0), num)):
                        q = PV.exact_div(self.st.ctx, num, a)
                        N = q if q is not None else T.idiv(num, a)
                        self.Nfacts = [T.le(I(0), N), T.le(T.mul(a, N), num), T.lt(num, T.mul(a, T.add(N, I(1))))]
        if N is not None:
            N = simp(self.st.ctx, N)
            if not entails(self.st.ctx, T.le(I(0), N)):
                if entails(self.st.ctx, T.le(N, I(0))):
                    N = I(0)
                else:
                    N = T.ite(T.le(I(0), N), N, I(0))
            self.N = N
            return
        if final:
            n = self.unknown('N')
            self.N = n
            self.Nfacts = [T.forall(ta, n, c)] if True else []
            self.skolem = True

    # -------------------------------------------------- discovery of the modified state
    def leaf_map(self, v):
        return dict(leaves(v))

    def discover(self, head, back):
        ch = False
        self.snap_mems(back)
        # phis
        for d in self.phis:
            hv, bv = head.regs[d], back.regs[d]
            if d in self.owned:
                bv = self.snap_owned(d, back)
            if skeleton(hv) != skeleton(bv):
                self.pshape[d] = self.reshape(('phi', d), self.pshape[d], bv, back)
                for path, v in leaves(self.pshape[d]):
                    self.add_sv(('phi', d, path), v, 0, ())
                ch = True
                continue
            bl = self.leaf_map(bv)
            for path, v in leaves(hv):
                key = ('phi', d, path)
                sv = self.svs.get(key)
                if sv is not None and sv.closed is None and bl[path] is sv.symt:
                    # constant through the loop
                    del self.svs[key]
                    ch = True
        if ch:
            return True
        # memory
        for r, bt in list(back.mem.items()):
            if r in head.mem and r not in self.owned.values():
                ht = head.mem[r]
                if ht is not bt and ht != bt and skeleton(ht) != skeleton(bt):
                    self.mshape[r] = self.reshape(('mem', r), self.mshape.get(r, self.st.mem[r]), bt, back)
                    for k in [k for k in self.svs if k[0] == 'mem' and k[1] is r]:
                        del self.svs[k]
                    self.all_leaves(r)
                    ch = True
        if ch and self.omem:
            return True
        roots = set()
        for d in self.phis:
            regions_of(back.regs[d], roots)
        for r in head.mem:
            if r in back.mem:
                regions_of(back.mem[r], roots)
        for k, v in back.regs.items():
            if k == '$defers':
                regions_of(v, roots)
        st = list(roots)
        while st:
            r = st.pop()
            if r in back.mem:
                new = set()
                regions_of(back.mem[r], new)
                for q in new:
                    if q not in roots:
                        roots.add(q)
                        st.append(q)
        for r, bt in back.mem.items():
            if r in self.owned.values():
                continue
            if r not in head.mem:
                if r in roots:
                    self.mshape[r] = zero_like(bt)
                    self.st = self.st.copy()
                    self.st.mem[r] = self.mshape[r]
                    ch = True
                continue
            ht = head.mem[r]
            if ht is bt or ht == bt or skeleton(ht) != skeleton(bt):
                continue
            hl, bl = self.leaf_map(ht), self.leaf_map(bt)
            if r not in self.mshape:
                self.mshape[r] = self.st.mem[r]
            for path in bl:
                if bl[path] is not hl[path] and ('mem', r, path) not in self.svs:
                    nd = ndims(self.mshape[r])
                    ent = self.leaf_map(self.mshape[r])[path]
                    self.add_sv(('mem', r, path), ent, nd[path] + r.fam, self.bounds_of(r, path))
                    ch = True
        return ch

    def all_leaves(self, r):
        nd = ndims(self.mshape[r])
        own = any(r is o or r in us for o, (nm, us) in self.omem.items())
        for path, ent in leaves(self.mshape[r]):
            if own and ('p' in path or path[-1:] == ('off',)):
                continue
            self.add_sv(('mem', r, path), ent, nd[path] + r.fam, self.bounds_of(r, path))

    def bounds_of(self, r, path):
        """length of the arrays along the path, when fixed"""
        t = self.mshape[r]
        out = [None] * r.fam
        for p in path:
            if isinstance(t, Arr):
                out.append(t.n)
                t = t.e
            elif isinstance(t, Struct):
                t = t.f[p]
            else:
                break
        return tuple(out)

    def reshape(self, key, entry, new, back):
        """adapt the entry value so that it has the shape of the value after one iteration"""
        try:
            v = unify_shape(entry, new)
            if key[0] == 'mem':
                self.nilborn.add(key[1])
            return v
        except MergeFail:
            pass
        if key[0] == 'phi' and isinstance(entry, Slice) and isinstance(new, Slice):
            return self.own(key[1], entry, new)
        if key[0] == 'mem':
            return self.own_mem(key[1], entry, back)
        raise GiveUp('the shape of %s changes from %r to %r' % (key, skeleton(entry), skeleton(new)))

    def own(self, d, entry, new):
        """a slice variable rebound to new storage: view it through its contents"""
        ex = self.ex
        src = entry if entry.p is not None else new
        regs = {}
        v = snapshot(ex, self.st, entry, 'ghost:%s:%s' % (self.key, d), regs, src_tid(src))
        self.st = self.st.copy()
        for r, tm in regs.items():
            self.st.mem[r] = tm
            self.mshape[r] = tm
            self.owned.setdefault(d, [])
            self.owned[d] = r if not isinstance(self.owned[d], Region) else self.owned[d]
        self.owned_regs = getattr(self, 'owned_regs', {})
        self.owned_regs[d] = list(regs)
        for r in regs:
            self.all_leaves(r)
        # the storage the variable had before the loop is still that of other variables
        orig = set()
        if entry.p is not None:
            regions_from(self.st, [entry], orig)
        ext = None
        if entry.p is not None and not entry.p.path and not ex.iters and len(orig) == 1:
            ext = (entry.off, T.add(entry.off, entry.len))
        self.ex.link(regs, orig, ext)
        return v

    def snap_owned(self, d, back):
        regs = {}
        mine, others = set(), set()
        regions_from(back, [back.regs[d]], mine)
        regions_from(back, [v for k, v in back.regs.items() if k in self.phis and k != d or k == '$defers'], others)
        ghosts = {r for r in mine if r.kind == 'ghost'}
        fresh = {r for r in mine - ghosts if r not in self.st.mem}
        for r, tm in back.mem.items():
            if r not in mine and (r in self.st.mem or r in others):
                regions_from(back, [tm], others)
        for v in self.fr.args:
            regions_from(back, [v], others)
        if fresh & others:
            raise GiveUp('storage of %s is shared after the iteration' % d)
        old = mine - ghosts - fresh
        if old:
            self.ex.link(set(self.owned_regs[d]), old)
        v = snapshot(self.ex, back, back.regs[d], 'ghost:%s:%s' % (self.key, d), regs, None)
        for r, tm in regs.items():
            back.mem[r] = tm
        back.regs[d] = v
        return v

    # -------------------------------------------------- arrays whose elements are slices of different storage
    def own_mem(self, r, entry, back):
        """the slices held in r change their storage: view each of them through its contents, in a ghost region per position"""
        ex = self.ex
        if r in self.omem:
            raise GiveUp('the shape of %s changes' % (r,))
        nm = 'own:%s:%s' % (self.key, r.name)
        b = MemSnap(self, back, nm, r.fam)
        vb = b.value(back.mem[r], T.TRUE, r.fam)
        e = MemSnap(self, self.st, nm, r.fam, b.regs)
        ve = e.value(entry, T.TRUE, r.fam)
        if skeleton(ve) != skeleton(vb):
            raise GiveUp('the shape of %s changes from %r to %r' % (r, skeleton(ve), skeleton(vb)))
        self.omem[r] = (nm, list(b.regs))
        self.st = self.st.copy()
        # storage captured before the loop may still be reached otherwise
        old = {q for q, c, p, D in e.caught}
        if not all(e.single(q, c, p, D) for q, c, p, D in e.caught) or len({q for q, c, p, D in e.caught}) != len(e.caught):
            raise GiveUp('elements of %s may share storage' % (r,))
        others = set()
        regions_from(self.st, [v for k, v in self.st.regs.items() if isinstance(v, V)] + list(self.fr.args), others, skip=r)
        for q in list(old):
            if q.name.startswith('own:') and q not in others and not ex.partners.get(q):
                old.discard(q)
        if old:
            ex.link(set(b.regs), old)
        for q in b.regs:
            tm = e.regs[q] if q in e.regs else zero_like(b.regs[q])
            self.st.mem[q] = tm
            self.mshape[q] = tm
        self.mshape[r] = ve
        self.st.mem[r] = ve
        for q in b.regs:
            self.all_leaves(q)
        back.mem[r] = vb
        return ve

    def snap_mems(self, back):
        for r, (nm, us) in self.omem.items():
            b = MemSnap(self, back, nm, r.fam)
            v = b.value(back.mem[r], T.TRUE, r.fam)
            if b.caught:
                others = set()
                vals = [x for k, x in back.regs.items() if k in self.phis or k == '$defers'] + list(self.fr.args)
                regions_from(back, vals, others, skip=r)
                for q, tm in back.mem.items():
                    if q is not r and q not in us and q in self.st.mem:
                        regions_from(back, [tm], others, skip=r)
                seen = set()
                for q, c, p, D in b.caught:
                    if q in self.st.mem or q in seen or q in others or not b.single(q, c, p, D):
                        raise GiveUp('storage in %s may be shared after the iteration: %s' % (r, (q, c, p, q in self.st.mem, q in seen, q in others)))
                    seen.add(q)
                    ps = [x for x in self.ex.partners.get(q, ()) if x not in us]
                    if ps:
                        self.ex.link(set(us), ps)
                if others & set(us):
                    raise GiveUp('storage in %s is shared' % (r,))
            back.mem[r] = v
            for q in us:
                back.mem[q] = b.regs[q] if q in b.regs else zero_like(self.mshape[q])

    # -------------------------------------------------- solving
    def next_of(self, back, key):
        if key[0] == 'phi':
            return self.leaf_map(back.regs[key[1]])[key[2]]
        return self.leaf_map(back.mem[key[1]])[key[2]]

    def unsolved(self):
        return {sv.sym for sv in self.svs.values() if sv.closed is None}

    def solve(self, head, back):
        prog = False
        ctx = back.ctx
        U = self.unsolved()
        for key, sv in list(self.svs.items()):
            if sv.closed is not None:
                continue
            E = self.next_of(back, key)
            if isinstance(E, (Poly, Bool)):
                c2 = ctx
                for i in range(sv.dims):
                    c2 = c2.add(T.le(I(0), DIM[i]))
                E = simp(c2, E)
                E = self.first_step(E)
                if sv.dims:
                    E = self.by_cell(sv, E, U, c2)
            import os
            if os.environ.get('DBGSV') and os.environ['DBGSV'] in str(key): print('SV', self.key, key, 'E=', str(E)[:700])
            c = self.solve_one(sv, E, U, ctx)
            if os.environ.get('DBGSV') and os.environ['DBGSV'] in str(key): print('   ->', str(c)[:500])
            if c is None and sv.dims:
                c = self.solve_point(sv, E, U, ctx)
            if c is not None:
                sv.closed = c
                prog = True
        return prog

    def first_step(self, E):
        """a case for the first iteration that agrees with the other one there is none"""
        z = T.eq(self.t, I(0))
        m = {}
        for a in T.atoms_in(E, lambda a: a.op == 'ite' and a.args[0] in (z, T.bnot(z))):
            x, y = a.args[1:] if a.args[0] is z else a.args[:0:-1]
            sub = {self.ta: I(0)}
            for sv in self.svs.values():
                if sv.closed is None and sv.dims == 0 and isinstance(sv.entry, T.Node):
                    sub[sv.sym] = sv.entry
            if any(sv.dims and sv.closed is None and sv.sym in (x.fv | y.fv) for sv in self.svs.values() if isinstance(x, T.Node) and isinstance(y, T.Node)):
                continue
            if isinstance(x, Poly) and isinstance(y, Poly) and T.subst(x, sub) is T.subst(y, sub):
                m[a] = y
        return T.subst(E, m) if m else E

    def by_cell(self, sv, E, U, ctx):
        """a sum of brackets and of the own cell, as cases: the cells with one index change, the others do not"""
        if not isinstance(E, Poly) or T.as_atom(E) is not None or E is sv.symt or not (E.fv & {sv.sym}):
            return E
        cs = []
        for a in T.atoms_in(E, lambda a: a.op in ('ite', 'br')):
            c = a.args[0]
            for l in (c.args if c.op == 'and' else (c,)):
                if l.op == 'eq' and l.args[0].sort == 'I' and not (l.fv & U) and (l.fv & set(DIMA[:sv.dims])) and l not in cs:
                    cs.append(l)
        for c in cs[:4]:
            if simp(ctx.add(T.bnot(c)), E) is sv.symt:
                return T.ite(c, simp(ctx.add(c), E), sv.symt)
        return E

    def at_point(self, sv, E, U, ctx):
        """an array of which the loop writes cells with one fixed index only: the array (or scalar) of these cells"""
        ls = []
        ite_leaves(E, T.TRUE, ls)
        ws = [c for c, v in ls if v is not sv.symt and c is not T.FALSE]
        if not ws or len(ws) == len(ls) or any(c.fv & U for c in ws):
            return None
        for i in range(sv.dims):
            at = None
            for c in ws:
                r = None
                for l in (c.args if c.op == 'and' else (c,)):
                    if l.op == 'eq' and l.args[0].sort == 'I' and DIMA[i] in l.args[0].fv:
                        a, b = linear_in(l.args[0], DIMA[i])
                        if a is None or cval(a) not in (1, -1) or self.ta in b.fv or (b.fv & U) or (b.fv & set(DIMA)):
                            continue
                        r = T.scale(b, -cval(a))
                        break
                if r is None or (at is not None and at is not r):
                    at = None
                    break
                at = r
            if at is None:
                continue
            others = [j for j in range(sv.dims) if j != i]
            down = {DIMA[j]: DIM[n] for n, j in enumerate(others)}
            m = dict(down)
            m[DIMA[i]] = at
            ent = T.subst(sv.entry, m) if isinstance(sv.entry, T.Node) else sv.entry
            sv2 = SV(sv.key + ('at', i), ent, sv.dims - 1, tuple(sv.bounds[j] for j in others if j < len(sv.bounds)))
            E2 = T.subst(E, m)
            ok = True
            rep = {}
            for a in T.atoms_in(E2, lambda a: a.op == 'fapp' and a.args[0] is sv.sym):
                ix = a.args[1:]
                if ix[i] is not at and not entails(ctx, T.eq(ix[i], at)):
                    ok = False
                    break
                rest = tuple(x for j, x in enumerate(ix) if j != i)
                rep[a] = as_term(T.atom('fapp', (sv2.sym,) + rest, sv.sort)) if rest else sv2.symt
            if not ok:
                continue
            c2 = ctx
            for j in range(sv2.dims):
                c2 = c2.add(T.le(I(0), DIM[j]))
            E2 = T.subst(E2, rep) if rep else E2
            if isinstance(E2, (Poly, Bool)):
                E2 = simp(c2, E2)
            up = {DIMA[n]: DIM[j] for n, j in enumerate(others)}
            return sv2, E2, T.eq(DIM[i], at), up
        return None

    def solve_point(self, sv, E, U, ctx):
        r = self.at_point(sv, E, U, ctx)
        if r is None:
            return None
        sv2, E2, here, up = r
        c = self.solve_one(sv2, E2, (U - {sv.sym}) | {sv2.sym}, ctx)
        if c is None and sv2.dims:
            c = self.solve_point(sv2, E2, (U - {sv.sym}) | {sv2.sym}, ctx)
        if c is None:
            return None
        return T.ite(here, T.subst(c, up) if isinstance(c, T.Node) else c, sv.entry)

    def entry_at(self, sv):
        return sv.entry

    def at(self, e, u):
        return T.subst(e, {self.ta: u}) if isinstance(e, T.Node) else e

    def solve_one(self, sv, E, U, ctx):
        t, ta = self.t, self.ta
        own = sv.symt
        if E is own:
            return sv.entry
        if sv.dims:
            return self.solve_array(sv, E, U, ctx)
        if sv.sort in ('I', 'F'):
            if not (E.fv & U):
                return self.last_write(sv, E)
            D = T.sub(E, own)
            if not (D.fv & U):
                return T.add(sv.entry, self.sum_to(D))
            a, b = linear_in(E, sv.sym)
            if a is not None and not (a.fv & U) and not (b.fv & U):
                if not b.items:
                    if ta not in a.fv:
                        if sv.sort == 'F':
                            return T.mul(sv.entry, T.fpow(a, t))
                        l = T.log2_of(a)
                        if l is not None and cval(l) is not None and cval(l) > 0:
                            return T.mul(sv.entry, T.pow2(T.mul(l, t)))
                        if cval(sv.entry) == 0:
                            return I(0)
                    if sv.sort == 'F' or True:
                        u = T.as_atom(T.fresh('u'))
                        return T.mul(sv.entry, T.mk_prod(u, t, self.at(a, T.lift(u))))
                elif sv.sort == 'F' and ta not in a.fv:
                    # a^t X0 + sum_j a^j b(t-1-j)
                    u = T.as_atom(T.fresh('u'))
                    bb = self.at(b, T.sub(T.sub(t, I(1)), T.lift(u)))
                    return T.add(T.mul(sv.entry, T.fpow(a, t)), T.mk_sum(u, t, T.mul(T.fpow(a, T.lift(u)), bb)))
            at = T.as_atom(E)
            if sv.sort == 'I' and at is not None and at.op == 'div' and at.args[0] is own and ta not in at.args[1].fv and not (at.args[1].fv & U):
                l = T.log2_of(at.args[1])
                if l is not None:
                    e = T.pow2(T.mul(l, t))
                    q = PV.exact_div(self.st.ctx.add(*self.facts_at(t)), sv.entry, e)
                    return q if q is not None else T.idiv(sv.entry, e)
            r = self.solve_max(sv, E, U, ctx)
            if r is not None:
                return r
            # own halved when known even
            if sv.sort == 'I' and a is not None and not b.items and ta not in a.fv:
                pass
            return None
        if sv.sort == 'B':
            if not (E.fv & U):
                return self.last_write(sv, E)
            u = T.as_atom(T.fresh('u'))
            if E.op == 'and' and own in E.args:
                R = T.band(*[x for x in E.args if x is not own])
                if not (R.fv & U):
                    return T.band(sv.entry, T.forall(u, t, self.at(R, T.lift(u))))
            if E.op == 'or' and own in E.args:
                R = T.bor(*[x for x in E.args if x is not own])
                if not (R.fv & U):
                    return T.bor(sv.entry, T.exists(u, t, self.at(R, T.lift(u))))
            return None
        if not (E.fv & U):
            return self.last_write(sv, E)
        return None

    def solve_max(self, sv, E, U, ctx):
        """a running maximum"""
        if sv.sort != 'I':
            return None
        own = sv.symt
        ls = []
        ite_leaves(E, T.TRUE, ls)
        gs = []
        for c, v in ls:
            if v is not own and v not in gs:
                gs.append(v)
        if len(ls) < 2 or not gs or len(gs) > 3 or len(ls) > 8 or any(g.fv & U for g in gs):
            return None
        if any((c.fv & U) - {sv.sym} for c, v in ls):
            return None
        for c, v in ls:
            if not entails(ctx.add(c), T.band(T.le(own, v), *[T.le(g, v) for g in gs])):
                return None
        g = gs[0]
        for x in gs[1:]:
            g = T.ite(T.lt(g, x), x, g)
        r = T.mk_maxo(sv.entry, self.t, T.lam((self.ta,), g))
        self.maxos = getattr(self, 'maxos', []) + [r]
        return r

    def last_write(self, sv, E):
        t = self.t
        prev = self.at(E, T.sub(t, I(1)))
        if self.ta not in E.fv and E is sv.entry:
            return sv.entry
        if isinstance(E, Poly):
            if self.at(E, I(-1)) is sv.entry:
                return prev
        return T.ite(T.eq(t, I(0)), sv.entry, prev)

    def sum_to(self, D):
        t, ta = self.t, self.ta
        if ta not in D.fv:
            return T.mul(D, t if D.sort == 'I' else T.ofint(t))
        if D.sort == 'I':
            # linear in t: closed arithmetic
            a, b = linear_in(D, ta)
            if a is not None and ta not in a.fv:
                return T.add(T.mul(b, t), T.scale(T.mul(a, T.mul(t, T.sub(t, I(1)))), T.Fraction(1, 2)))
        u = T.as_atom(T.fresh('u'))
        return T.mk_sum(u, t, self.at(D, T.lift(u)))

    def solve_array(self, sv, E, U, ctx):
        t, ta = self.t, self.ta
        own, A = sv.symt, sv.sym
        ls = []
        if isinstance(E, Bool) and E.op in ('or', 'and') and own in E.args:
            # a flag that is only set (or only cleared)
            X = (T.bor if E.op == 'or' else T.band)(*[x for x in E.args if x is not own])
            ls = [(X, T.TRUE)] if E.op == 'or' else [(T.bnot(X), T.FALSE)]
        else:
            ite_leaves(E, T.TRUE, ls)
        if not (E.fv & U):
            return self.last_write_arr(sv, E, ls)
        ls = [(c, self.own_reads(ctx, c, v, sv)) for c, v in ls if v is not own and c is not T.FALSE]
        if any(c.fv & U for c, v in ls):
            return None
        if isinstance(own, Poly):
            D = [(c, T.sub(v, own)) for c, v in ls]
            if all(not (d.fv & U) for c, d in D):
                tot = T.const(sv.sort, 0)
                for c, d in D:
                    tot = T.add(tot, T.mul(T.br(sv.sort, c), d))
                # a sum is only natural when some cell is written more than once
                once = [self.find_u(c, sv) for c, d in D]
                if not all(x is not None for x in once):
                    return T.add(sv.entry, self.sum_to(tot))
        elif isinstance(own, Bool):
            pass
        # reads of other unsolved state are not allowed
        if any((v.fv & U) - {A} for c, v in ls):
            return None
        ent = sv.entry

        def rd(args):
            return T.subst(ent, dict(zip(DIMA[:sv.dims], args))) if isinstance(ent, T.Node) else ent
        res = sv.entry
        # the conditions of one iteration are mutually exclusive; a cell that gets its first value (again) gets others later
        ls.sort(key=lambda cv: cv[1] is not sv.entry)
        for c, v in ls:
            v2 = T.subst(v, {}, fun={A: rd}) if A in v.fv else v
            if ta not in c.fv:
                if A in v.fv:
                    return None
                res = T.ite(T.band(T.le(I(1), t), c), self.at(v2, T.sub(t, I(1))), res)
                continue
            u = self.find_u(c, sv)
            if u is None:
                return None
            cc = T.band(T.le(I(0), u), T.lt(u, t), self.at(c, u))
            if A in v.fv:
                # the cells read have to be untouched when they are read: own cell, or checked by the induction step
                pass
            res = T.ite(cc, self.at(v2, u), res)
        for c, v in ls:
            u = self.find_u(c, sv) if A in v.fv and ta in c.fv else None
            for r in T.atoms_in(v, lambda a: a.op == 'fapp' and a.args[0] is A, under=True) if u is not None else ():
                if T.sub(T.subst(u, dict(zip(DIMA[:sv.dims], r.args[1:]))), t) is I(-1):
                    return None         # what is read is what the iteration before wrote
        if any(A in v.fv for c, v in ls) and not self.trial(sv, E, res, None, ctx):
            return None
        return res

    def own_reads(self, ctx, c, v, sv):
        """reads of the array that are reads of the own cell where c holds"""
        if not isinstance(v, T.Node) or sv.sym not in v.fv:
            return v
        own = T.as_atom(sv.symt) or sv.symt
        m = {}
        for a in T.atoms_in(v, lambda a: a.op == 'fapp' and a.args[0] is sv.sym):
            if a is not own and entails(ctx.add(c), T.band(*[T.eq(x, y) for x, y in zip(a.args[1:], DIM)])):
                m[a] = sv.symt
        return T.subst(v, m) if m else v

    def last_write_arr(self, sv, E, ls):
        return T.ite(T.eq(self.t, I(0)), sv.entry, self.at(E, T.sub(self.t, I(1))))

    def find_u(self, c, sv):
        """the iteration that writes cell ($0, $1, ...), from the condition of the write"""
        ta = self.ta
        lits = c.args if c.op == 'and' else (c,)
        dims = set(DIMA[:sv.dims])
        best = None
        for l in lits:
            if l.op == 'eq' and l.args[0].sort == 'I' and ta in l.args[0].fv:
                p = l.args[0]
                a, b = linear_in(p, ta)
                if a is None or ta in a.fv or (a.fv & dims):
                    continue
                k = cval(a)
                if k in (1, -1):
                    return T.scale(b, -k)
                n = T.neg(b)
                if k is not None and k < 0 or (k is None and not T.nonneg_syn(a) and T.nonneg_syn(T.neg(a))):
                    a, n = T.neg(a), b
                ctx = self.st.ctx.add(*self.facts_at(self.t))
                best = self.div(ctx, n, a)
        if best is not None:
            return best
        for l in lits:
            if l.op == 'le' and ta in l.args[0].fv and (l.args[0].fv & dims):
                a, b = linear_in(l.args[0], ta)
                if a is None or ta in a.fv or (a.fv & dims):
                    continue
                if entails(self.st.ctx.add(*self.facts_at(self.t)), T.le(I(1), a)):
                    return self.div(self.st.ctx, T.neg(b), a)
        return None

    def div(self, ctx, n, a):
        if cval(a) == 1:
            return n
        # u = (k - c) / a is k div a when 0 <= c < a
        dims = set(DIMA)
        k, c = I(0), I(0)
        for m, co in n.items:
            p = T.mono_poly('I', m, co)
            if p.fv & dims:
                k = T.add(k, p)
            else:
                c = T.sub(c, p)
        g = T.mono_poly('I', (), T._content(T.add(k, a)))
        if cval(g) != 1:
            k, c, a = T.mul(k, g), T.mul(c, g), T.mul(a, g)
        if c.items and entails(ctx, T.band(T.le(I(0), c), T.lt(c, a))):
            n = k
        else:
            n = T.sub(k, c)
        if cval(a) == 1:
            return n
        return T.idiv(n, a)

    def fallback(self, head, back):
        U = self.unsolved()
        arrs = [(k, s) for k, s in self.svs.items() if s.closed is None and s.dims]
        scs = [(k, s) for k, s in self.svs.items() if s.closed is None and not s.dims]
        t, ta = self.t, self.ta
        prog = False
        for k, s in arrs:
            E = self.next_of(back, k)
            ctx = back.ctx
            for i in range(s.dims):
                ctx = ctx.add(T.le(I(0), DIM[i]))
            if isinstance(E, (Poly, Bool)):
                E = simp(ctx, E)
            for h in self.ex.loop_hints:
                for c, rng in h(self, k, s, E, ctx):
                    if self.trial(s, E, c, rng, ctx):
                        s.closed = c
                        s.how = 'hint'
                        return True
            r = self.at_point(s, E, U, ctx)
            if r is not None:
                s2, E2, here, up = r
                for h in self.ex.loop_hints:
                    for c, rng in h(self, k, s2, E2, ctx):
                        if self.trial(s2, E2, c, rng, ctx):
                            s.closed = T.ite(here, T.subst(c, up), s.entry)
                            if rng is not None:
                                s.range = T.bor(T.bnot(here), T.subst(rng, up))
                            s.how = 'hint'
                            return True
        # fixed-size arrays of scalars are spread over scalars
        for k, s in arrs:
            E = self.next_of(back, k)
            if s.sort not in ('F', 'I'):
                continue
            ctx = back.ctx
            for i in range(s.dims):
                ctx = ctx.add(T.le(I(0), DIM[i]))
            E = simp(ctx, E)
            if (E.fv & U) <= {s.sym}:
                step = T.lam((ta,) + tuple(DIMA[:s.dims]) + (s.sym,), E)
                base = T.lam(tuple(DIMA[:s.dims]), s.entry)
                s.closed = T.mk_arec(step, base, t, DIM[:s.dims])
                s.how = 'rec'
                prog = True
        if prog:
            return True
        # scalars: smallest closed subsets
        dep = {}
        by = {s.sym: (k, s) for k, s in scs}
        for k, s in scs:
            E = self.next_of(back, k)
            if not isinstance(E, Poly):
                dep[s.sym] = None
                continue
            d = E.fv & U
            dep[s.sym] = d if all(x in by for x in d) else None
        for k, s in scs:
            if s.closed is not None:
                continue
            cl, st, ok = {s.sym}, [s.sym], True
            while st and ok:
                x = st.pop()
                if dep.get(x) is None:
                    ok = False
                    break
                for y in dep[x]:
                    if y not in cl:
                        cl.add(y)
                        st.append(y)
            if not ok:
                continue
            sy = sorted(cl, key=lambda a: (list(by).index(a)))
            Es = [self.next_of(back, by[x][0]) for x in sy]
            step = T.lam((ta,) + tuple(sy), tuple(Es))
            bases = tuple(by[x][1].entry for x in sy)
            for i, x in enumerate(sy):
                by[x][1].closed = T.mk_rec(i, step, bases, t)
                by[x][1].how = 'rec'
            return True
        return False

    def trial(self, sv, E, c, rng, ctx):
        """does the candidate closed form c satisfy the entry and the step (for the cells in range)?"""
        ta = self.ta
        m = {}
        for i in range(sv.dims):
            m[DIMA[i]] = ctx.fresh('x%d' % i, E, c, rng, *self.st.ctx.facts)
        tr, PV.TRACE = PV.TRACE, False
        try:
            c0 = self.st.ctx
            for x in m.values():
                c0 = c0.add(T.le(I(0), x))
            for i, b in enumerate(sv.bounds):
                if b is not None and i < sv.dims:
                    c0 = c0.add(T.lt(m[DIMA[i]], I(b)))
            if self.N is not None:
                c0 = c0.add(T.le(I(0), self.N))
            if rng is not None:
                c0 = c0.add(T.subst(T.subst(rng, {ta: I(0)}), m))
            g = T.eq(T.subst(T.subst(c, {ta: I(0)}), m), T.subst(sv.entry, m))
            if not PV.prove(c0, g):
                if tr:
                    print('HINT entry fails', str(c)[:300])
                return False

            def rd(args):
                return T.subst(c, dict(zip(DIMA[:sv.dims], args)))
            E2 = T.subst(T.subst(E, {}, fun={sv.sym: rd}), m)
            c1 = ctx
            for x in m.values():
                c1 = c1.add(T.le(I(0), x))
            for i, b in enumerate(sv.bounds):
                if b is not None and i < sv.dims:
                    c1 = c1.add(T.lt(m[DIMA[i]], I(b)))
            if rng is not None:
                c1 = c1.add(T.subst(T.subst(rng, {ta: T.add(self.t, I(1))}), m))
            if not PV.prove(c1, T.eq(T.subst(T.subst(c, {ta: T.add(self.t, I(1))}), m), E2)):
                if tr:
                    PV.TRACE = True
                    PV.prove(c1, T.eq(T.subst(T.subst(c, {ta: T.add(self.t, I(1))}), m), E2))
                    print('HINT step fails', str(c)[:300])
                return False
            sv.range = rng
            return True
        except T.TooBig:
            return False
        finally:
            PV.TRACE = tr

    # -------------------------------------------------- verification
    def finish(self):
        ex, t, ta = self.ex, self.t, self.ta
        st = self.st
        pos = loop_pos(self.fr, self.L)
        checking = ex.checking
        # trial of the induction step without recording, to choose another closed form when it fails
        if self.N is not None and not self.skolem and not (self.N is not None and cval(self.N) == 0):
            ctx = st.ctx.add(*self.facts_at(t))
            c = self.cont_now(t)
            ex.oblige('loop-count', pos, ctx, c, 'iteration condition %s' % (c,))
        for k, sv in self.svs.items():
            z = T.subst(sv.closed, {ta: I(0)}) if isinstance(sv.closed, T.Node) else sv.closed
            self.check_eq(sv, z, sv.entry, st.ctx.add(*([T.le(I(0), self.N)] if self.N is not None else [])), 'loop-entry', pos, k, I(0))
        n0 = len(ex.obligs)
        head, backs, exits, rets = self.body(t, True)
        log = RC.loop(ta, head, backs + [s for f, to, s in exits] + [s for v, s in rets])
        if backs:
            backs = merge_all(backs, ex.root)
            if len(backs) > 1:
                raise GiveUp('iterations with different shapes')
            back = backs[0]
            self.snap_mems(back)
            for d in self.owned:
                self.snap_owned(d, back)
            t1 = T.add(t, I(1))
            self.complete(head, back)
            for k, sv in self.svs.items():
                E = self.next_of(back, k)
                want = T.subst(sv.closed, {ta: t1}) if isinstance(sv.closed, T.Node) else sv.closed
                self.check_eq(sv, E, want, back.ctx, 'loop-step', pos, k, t1)
        # early exits
        early = []
        hp = len(head.pc)
        if exits or rets:
            conds = [pc_cond(s.pc[hp:]) for f, to, s in exits] + [pc_cond(s.pc[hp:]) for v, s in rets]
            E = T.bor(*conds)
        else:
            E = T.FALSE
        out = []
        if self.N is not None:
            u = T.as_atom(T.fresh('u'))
            noexit = T.forall(u, self.N, T.bnot(T.subst(E, {ta: T.lift(u)})))
            Nst = self.final_state(pos)
            if Nst is not None:
                to, s = Nst
                s = s.copy()
                s.log = log
                if noexit is not T.TRUE:
                    s = s.assume(noexit)
                out.append((self.L.header, to, s))
        else:
            noexit = T.FALSE
        if exits or rets:
            sk = self.unknown('s')
            u = T.as_atom(T.fresh('u'))
            pre = [T.le(I(0), sk)]
            if self.N is not None:
                pre.append(T.lt(sk, self.N))
            pre.append(T.forall(u, sk, T.bnot(T.subst(E, {ta: T.lift(u)}))))
            m = {ta: sk}
            base = self.st.pc

            def move(s):
                regs = {k: vsubst(v, m) if not isinstance(v, dict) else v for k, v in s.regs.items()}
                mem = {r: vsubst(v, m) for r, v in s.mem.items()}
                n = St(regs, mem, self.st.ctx, base, log)
                if noexit is not T.FALSE:
                    n = n.assume(T.bnot(noexit))
                for f in pre + list(self.Nfacts):
                    n.fact(f)
                for x, f in s.pc[hp:]:
                    n.fact(T.subst(x, m))
                return n
            for f, to, s in exits:
                out.append((f, to, move(s)))
            for v, s in rets:
                self.rets.append(([vsubst(x, m) for x in v], move(s)))
        ex.loopnotes.append((self.fr.fn.name, pos, {'/'.join(map(str, key_str(k))): str(sv.closed)[:200] for k, sv in self.svs.items()}, str(self.N)))
        return out

    def complete(self, head, back):
        """whatever an iteration changes has a closed form"""
        for d in self.phis:
            if skeleton(head.regs[d]) != skeleton(back.regs[d]):
                raise GiveUp('the shape of %s changes' % d)
            hl, bl = self.leaf_map(head.regs[d]), self.leaf_map(back.regs[d])
            for path in hl:
                if ('phi', d, path) not in self.svs and hl[path] is not bl[path]:
                    raise GiveUp('%s changes' % d)
        for r, ht in head.mem.items():
            bt = back.mem.get(r)
            if r in self.owned.values() or bt is None or ht is bt:
                continue
            if skeleton(ht) != skeleton(bt):
                raise GiveUp('the shape of %s changes' % r)
            hl, bl = self.leaf_map(ht), self.leaf_map(bt)
            for path in hl:
                if ('mem', r, path) not in self.svs and hl[path] is not bl[path]:
                    raise GiveUp('%s changes' % r)

    def cont_now(self, t):
        head, inl, out = self.header_edges(t, [])
        if not out:
            return T.TRUE
        return T.bnot(pc_cond(out[0][1].pc[len(head.pc):]))

    def check_eq(self, sv, a, b, ctx, kind, pos, key, at):
        if a is b:
            self.ex.oblige(kind, pos, ctx, T.TRUE)
            return
        if sv.dims:
            m = {}
            for i in range(sv.dims):
                x = ctx.fresh('x', a, b, getattr(sv, 'range', None))
                m[DIMA[i]] = x
                ctx = ctx.add(T.le(I(0), x))
                if i < len(sv.bounds) and sv.bounds[i] is not None:
                    ctx = ctx.add(T.lt(x, I(sv.bounds[i])))
            rng = getattr(sv, 'range', None)
            a, b = T.subst(a, m), T.subst(b, m)
            if rng is not None:
                ctx = ctx.add(T.subst(T.subst(rng, {self.ta: at}), m))
        if isinstance(a, Bool):
            a, b = peel(a, at), peel(b, at)
        g = T.eq(a, b) if a is not b else T.TRUE
        self.ex.oblige(kind, pos, ctx, g, '%s of %s' % (kind, '/'.join(map(str, key_str(key)))))

    def final_state(self, pos):
        ex = self.ex
        N = self.N
        facts = [T.le(I(0), N)] + list(self.Nfacts)
        ex.iters.append(N)
        try:
            head = self.head(N, facts)
            ctx = head.ctx
            # simplify the closed forms at the end of the loop
            for d in self.phis:
                head.regs[d] = vmap(head.regs[d], lambda x: simp(ctx, x) if isinstance(x, (Poly, Bool)) else x)
            cd = ctx.add(*[T.le(I(0), x) for x in DIM[:4]])
            for r in self.mshape:
                head.mem[r] = vmap(head.mem[r], lambda x: simp(cd, x) if isinstance(x, (Poly, Bool)) else x)
            r = []
            edges = ex.block(self.fr, self.L.header, head, r)
        finally:
            ex.iters.pop()
        out = [(to, s) for to, s in edges if to not in self.L.body]
        inl = [(to, s) for to, s in edges if to in self.L.body]
        if len(out) != 1:
            if not out and not inl:
                return None
            if not out:
                ex.oblige('loop-count', pos, head.ctx, T.FALSE, 'the loop does not end after %s iterations' % (N,))
                return None
            raise GiveUp('several exits from the header')
        to, s = out[0]
        s = s.copy()
        for m in getattr(self, 'maxos', ()):
            a = T.as_atom(T.subst(m, {self.ta: N}))
            if a is not None and a.op == 'app' and a.args[0] == 'maxo':
                for f in T.maxo_facts(a):
                    s.fact(f)
        if inl:
            c = pc_cond(s.pc[len(head.pc):])
            if self.skolem:
                pass
            else:
                ex.oblige('loop-count', pos, head.ctx, c, 'the loop ends after %s iterations' % (N,))
            # the exit condition holds as a fact, not as a branch
            n = len(head.pc)
            s.pc = s.pc[:n] + tuple((x, True) for x, f in s.pc[n:])
        return to, s


def linear_in(p, a):
    """p = x*a + y as (x, y); (None, None) if a occurs otherwise"""
    x, y = {}, {}
    for m, c in p.items:
        d = dict(m)
        if a in d:
            if d[a] != 1:
                return None, None
            mm = tuple((b, e) for b, e in m if b is not a)
            if any(a in b.fv for b, e in mm):
                return None, None
            x[mm] = c
        else:
            if any(a in b.fv for b, e in m):
                return None, None
            y[m] = c
    if not x:
        return None, None
    return T.mkpoly(p.sort, x), T.mkpoly(p.sort, y)


def ite_leaves(e, c, out):
    a = T.as_atom(e) if isinstance(e, (Poly, Bool)) else e
    if isinstance(a, Atom) and a.op == 'ite':
        ite_leaves(a.args[1], T.band(c, a.args[0]), out)
        ite_leaves(a.args[2], T.band(c, T.bnot(a.args[0])), out)
        return
    if c is not T.FALSE:
        out.append((c, e))


class MemSnap:
    """contents of the slices in a template, in ghost regions named by their position"""

    def __init__(self, S, st, name, fam, like=None):
        self.S, self.ex, self.st, self.name, self.like = S, S.ex, st, name, like
        self.regs, self.caught = {}, []

    def value(self, v, c, D, path=''):
        if isinstance(v, Arr):
            return Arr(self.value(v.e, c, D + 1, path), v.d, v.n)
        if isinstance(v, Struct):
            return Struct([self.value(x, c, D, '%s.%d' % (path, i)) for i, x in enumerate(v.f)])
        if isinstance(v, Slice) or (isinstance(v, Obj) and v.k == 'ite'):
            ls = []
            obj_leaves(v, c, ls)
            if all(isinstance(x, Slice) for b, x in ls):
                return self.slice(ls, D, path)
            raise GiveUp('values of different kinds in one array')
        if isinstance(v, Ptr):
            raise GiveUp('pointers in an array of slices')
        return v

    def slice(self, ls, D, path):
        U = Region('%s%s#%d' % (self.name, path, D), -1, D, 'ghost')
        ident = Ptr(U, tuple(DIM[:D]), ())
        el = None
        hdr = None
        for c, s in reversed(ls):
            off = I(0)
            e = None
            if s.p is not None:
                e = elem_template(self.ex, self.st, s, D)
                if s.p.r is not U and T.atoms_in(s.cap, lambda a: a.op == 'ite'):
                    # the contents of a slice without storage are irrelevant
                    some = simp(self.st.ctx.add(c, *[T.le(I(0), x) for x in DIM[:D]]), T.le(I(1), s.cap))
                    if isinstance(some, Bool):
                        e = vmap(e, lambda x: T.ite(some, x, T.const(x.sort, 0)) if isinstance(x, Poly) else x)
                if s.p.r is not U:
                    cx = self.st.ctx.add(c, T.le(I(1), s.cap), *[T.le(I(0), x) for x in DIM[:D]])
                    if not cx.inconsistent():
                        for a in T.atoms_in(s.cap, lambda a: a.op == 'ite'):
                            for l in (a.args[0], T.bnot(a.args[0])):
                                if entails(cx, l):
                                    c = T.band(c, l)
                        self.caught.append((s.p.r, c, Ptr(s.p.r, [simp(cx, x) for x in s.p.fam], s.p.path), D))
                elif s.p != ident:
                    cx = self.st.ctx.add(c, *[T.le(I(0), x) for x in DIM[:D]])
                    if s.p.path or not all(entails(cx, T.eq(x, y)) for x, y in zip(s.p.fam, ident.fam)):
                        raise GiveUp('a slice moves inside its array: %s %s' % (c, s.p))
            if hdr is None:
                hdr, el = (s.len, s.cap), e
            else:
                hdr = (T.ite(c, s.len, hdr[0]), T.ite(c, s.cap, hdr[1]))
                if el is None:
                    el = merge_obj(c, e, zero_like(e)) if e is not None else None
                else:
                    el = merge_obj(c, e if e is not None else zero_like(el), el)
        if el is None:
            if self.like is None or U not in self.like:
                return Slice(ident, I(0), hdr[0], hdr[1])
            for q, tm in self.like.items():
                if q.name.startswith('%s%s/' % (self.name, path)) or q is U:
                    self.regs[q] = zero_like(tm)
            return Slice(ident, I(0), hdr[0], hdr[1])
        self.regs[U] = None
        cc = ls[0][0] if len(ls) == 1 else T.TRUE
        self.regs[U] = Arr(self.value(el, cc, D + 1, path + '/'), D, None)
        return Slice(ident, I(0), hdr[0], hdr[1])

    def single(self, q, c, p, D):
        """no two positions hold the same object"""
        lits = [l for l in (c.args if c.op == 'and' else (c,)) if l.op == 'eq' and l.args[0].sort == 'I']
        for i in range(D):
            if any(x is DIM[i] for x in p.fam):
                continue
            ok = False
            for l in lits:
                a, b = linear_in(l.args[0], DIMA[i]) if DIMA[i] in l.args[0].fv else (None, None)
                if a is not None and cval(a) and not (b.fv & set(DIMA[:D])):
                    ok = True
            if not ok:
                return False
        return True


def obj_leaves(v, c, out):
    if isinstance(v, Obj) and v.k == 'ite':
        obj_leaves(v.a[1], T.band(c, v.a[0]), out)
        obj_leaves(v.a[2], T.band(c, T.bnot(v.a[0])), out)
    elif c is not T.FALSE:
        out.append((c, v))


def regions_from(st, vals, out, skip=None):
    """regions reachable from the values (not through skip)"""
    new = set()
    for v in vals:
        regions_of(v, new)
    new.discard(skip)
    todo = [r for r in new if r not in out]
    out |= new
    while todo:
        r = todo.pop()
        if r in st.mem:
            new = set()
            regions_of(st.mem[r], new)
            new.discard(skip)
            todo.extend(x for x in new if x not in out)
            out |= new


def peel(e, n):
    """universals below n (at least 1) as universals below n - 1 and the last case"""
    if e.op in ('and', 'or'):
        return (T.band if e.op == 'and' else T.bor)(*[peel(x, n) for x in e.args])
    if e.op == 'not':
        return T.bnot(peel(e.args[0], n))
    if e.op == 'all' and e.args[0] is n:
        (x,), b = T.lam_open(e.args[1])
        m = T.sub(n, I(1))
        return T.band(T.forall(x, m, b), T.subst(b, {x: m}))
    return e


def zero_like(t):
    """a template of the same shape with zero leaves"""
    m = {}
    for path, v in leaves(t):
        if isinstance(v, Poly):
            m[path] = T.const(v.sort, 0)
        elif isinstance(v, Bool):
            m[path] = T.FALSE
        else:
            m[path] = T.atom('const', ('',), v.sort)
    return rebuild_leaves(t, m)


def unify_shape(a, b):
    """a with nil parts given the shape of b"""
    if skeleton(a) == skeleton(b):
        return a
    if isinstance(a, Slice) and isinstance(b, Slice):
        if a.p is None:
            z = zero_like(b.p)
            return Slice(z, I(0), I(0), I(0))
        if b.p is None:
            return a
    if a == NIL and isinstance(b, Ptr):
        return zero_like(b)
    if a == NIL and isinstance(b, Obj) and b.k == 'opt':
        return Obj('opt', T.FALSE, zero_like(b.a[1]))
    if isinstance(a, Struct) and isinstance(b, Struct):
        return Struct([unify_shape(x, y) for x, y in zip(a.f, b.f)])
    if isinstance(a, Arr) and isinstance(b, Arr):
        return Arr(unify_shape(a.e, b.e), a.d, a.n)
    raise MergeFail()


def src_tid(s):
    return s.p.r.tid if s.p is not None else None


def snapshot(ex, st, v, name, regs, tid, depth=0):
    """copy of the contents reachable from a slice value, in ghost regions.
    v may mention the placeholders below depth (the indices of the enclosing ghost arrays)"""
    if isinstance(v, Slice):
        r = Region('%s.%d' % (name, depth), tid if depth == 0 else -1, depth, 'ghost')
        r = Region('%s.%d' % (name, depth), -1, depth, 'ghost')
        if v.p is None:
            raise MergeFail()
        el = elem_template(ex, st, v, depth)
        el = snapshot(ex, st, el, name, regs, tid, depth + 1)
        regs[r] = Arr(el, depth, None)
        return Slice(Ptr(r, tuple(DIM[:depth]), ()), I(0), v.len, v.cap)
    if isinstance(v, Struct):
        return Struct([snapshot(ex, st, x, name + '.%d' % i, regs, tid, depth) for i, x in enumerate(v.f)])
    return v


def elem_template(ex, st, s, depth):
    """element $depth of slice s; s may use the placeholders below depth"""
    names = [T.var('~p%d' % i) for i in range(10)]
    ren = {DIMA[i]: names[i] for i in range(depth)}
    s2 = vsubst(s, ren)
    save, ex.trace = ex.trace, None
    try:
        v = ex.read(st, ex.slice_elem(s2, names[depth]))
    finally:
        ex.trace = save
    v = shift(v, -(depth + 1))
    back = {T.as_atom(names[i]): DIM[i] for i in range(depth + 1)}
    return vsubst(v, back)
