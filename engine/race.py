"""Goroutines: they are executed where they start; this is justified here by proving that what runs between the start
of a goroutine and the Wait that joins it neither writes what the goroutine accesses nor reads what it writes."""
import term as T
from term import I
import prove as PV
import val as VL
from val import *

PENDING = Region('ghost:pending', -1, 0, 'ghost:pending')
DONE = Region('ghost:done', -1, 0, 'ghost:done')


def quiet(ex):
    return _Quiet(ex)


class _Quiet:
    def __init__(self, ex):
        self.ex = ex

    def __enter__(self):
        self.save, self.ex.trace = self.ex.trace, None

    def __exit__(self, *a):
        self.ex.trace = self.save


def access(ex, st, kind, what):
    """what: ('cell', None, pointer), ('slice', None, slice) or ('region', None, region)"""
    if ex.trace is None:
        return
    r = region(what)
    if r.kind.startswith('ghost:'):
        return
    st.log = st.log + (('acc', kind, what, st.ctx, ex.site),)
    if ex.in_go and ex.checking:
        d = st.mem.get(DONE, T.FALSE)
        if d is not T.FALSE and not (what[0] == 'cell' and kind == 'r' and False):
            ex.oblige('race', ex.site, st.ctx, T.bnot(d), 'no access to shared storage after the goroutine has signalled its end')


def region(what):
    return what[2] if what[0] == 'region' else what[2].p.r if what[0] == 'slice' else what[2].r


def start(ex, st):
    """a goroutine starts; returns the state in which its body runs"""
    st = st.copy()
    st.log = st.log + (('go', ex.site, st.ctx),)
    st.mem[PENDING] = T.TRUE
    st.mem[DONE] = T.FALSE
    return st


def end(ex, st, pos):
    st = st.copy()
    ex.oblige('join', pos, st.ctx, st.mem.get(DONE, T.FALSE), 'the goroutine signals its end on every path')
    st.mem[DONE] = T.FALSE
    st.log = st.log + (('end',),)
    return st


def late(ex, st, c, pos):
    """a send of a goroutine that may have signalled its end: nobody waits for it"""
    d = st.mem.get(DONE, T.FALSE)
    if ex.in_go:
        ex.gosent.add(c.r)
    if ex.in_go and ex.checking and d is not T.FALSE:
        ex.late.append((c.r, st.ctx, d, pos))


def closed(ex, st, c, pos):
    if c.r in ex.gosent:
        ex.oblige('channel', pos, st.ctx, T.bnot(st.mem.get(PENDING, T.FALSE)), 'the goroutines that send on the channel have ended when it is closed')
    for r, ctx, d, p in ex.late if ex.checking else ():
        if r is c.r:
            ex.oblige('channel', p, ctx, T.bnot(d), 'no send on a channel that is closed meanwhile')


def done(ex, st, wg):
    if ex.in_go:
        st.mem[DONE] = T.TRUE
        st.log = st.log + (('done', wg, st.ctx),)


def add(ex, st, wg, pos):
    if ex.in_go:
        ex.oblige('join', pos, st.ctx, T.FALSE, 'the counter is increased before the goroutine starts')


def loop(ta, head, states):
    """event for a loop, from the states at the end of its iterations"""
    n = len(head.log)
    evs = ()
    for s in states:
        evs = evs + s.log[n:] if s.log[:n] == head.log else evs + s.log
    if not evs:
        return head.log
    return head.log + (('loop', ta, evs),)


def merge_logs(a, b):
    if a is b or a == b:
        return a
    p = 0
    n = min(len(a), len(b))
    while p < n and (a[p] is b[p] or a[p] == b[p]):
        p += 1
    return a + b[p:]


class Acc:
    def __init__(self, kind, what, ctx, site, path, go, gob, order):
        self.kind, self.what, self.ctx, self.site = kind, what, ctx, site
        self.binders, self.go, self.gob, self.order = path, go, gob, order


def flatten(log, binders, order, out, gos, state):
    """accesses with their enclosing loops; order is the list of positions at every level"""
    i = 0
    go = None
    for k, e in enumerate(log):
        if e[0] == 'loop':
            flatten(e[2], binders + (e[1],), order + (k,), out, gos, go or state)
        elif e[0] == 'go':
            go = (e[1], binders, order + (k,))
            gos.append([go, e[2], []])
        elif e[0] == 'end':
            go = None
        elif e[0] == 'done':
            for g in gos:
                if g[0] == (go or state):
                    g[2].append((e[1], e[2], binders))
        elif e[0] == 'wait':
            # joined inside: what was started earlier in this list is over
            for g in list(gos):
                if g[0][2][:len(order)] == order:
                    gos.remove(g)
            out[:] = [a for a in out if not (a.order[:len(order)] == order)]
        elif e[0] == 'acc':
            out.append(Acc(e[1], e[2], e[3], e[4], binders, (go or state), None, order + (k,)))


def subst_what(w, m):
    if w[0] == 'region':
        return w
    return (w[0], None, vsubst(w[2], m))


def wait(ex, st, wg, pos):
    if not ex.checking:
        return
    accs, gos = [], []
    flatten(st.log, (), (), accs, gos, None)
    if not gos:
        return
    for g, ctx, dones in gos:
        for w, c, b in dones:
            ok = isinstance(w, Ptr) and isinstance(wg, Ptr) and w.r is wg.r and w.path == wg.path
            ex.oblige('join', pos, c, T.band(*[T.eq(x, y) for x, y in zip(w.fam, wg.fam)]) if ok else T.FALSE,
                      'the goroutine signals the group that is waited for')
    first = min(g[0][2] for g in gos)
    seen = set()
    n = 0
    for a in accs:
        if a.go is None:
            continue
        for b in accs:
            if a.kind == 'r' and b.kind == 'r':
                continue
            if not same_region(ex, region(a.what), region(b.what)):
                continue
            if b.go is not None and b.order < a.order and b.go != a.go:
                continue            # the pair is seen from the other side
            if b.go == a.go and b.order < a.order:
                continue
            key = (a.kind == 'w' or b.kind == 'w', id(a.ctx), id(b.ctx), repr(a.what), repr(b.what), a.binders, b.binders, a.go, b.go, b.order < a.order)
            if key in seen:
                continue
            seen.add(key)
            n += 1
            pair(ex, a, b, pos)


def same_region(ex, r, q):
    return r is q or q in ex.partners.get(r, ())


def pair(ex, a, b, pos):
    gsite, gb, gorder = a.go
    # rename the loops of b apart
    m = {}
    for t in b.binders:
        m[t] = T.fresh('nat:t')
    wb = subst_what(b.what, m)
    ctx = a.ctx.add(*[T.subst(f, m) if isinstance(f, T.Node) else f for f in b.ctx.facts])
    common = []
    for x, y in zip(gb, b.binders):
        if x is not y:
            break
        common.append(x)
    # only loops around both
    k = 0
    while k < len(common) and gorder[:k + 1] == b.order[:k + 1]:
        k += 1
    common = common[:k]
    if b.go is not None and b.go == a.go:
        if not gb:
            return
        rels = []
        for t in gb:
            rels.append(T.lt(T.lift(t), m[t]))
            if a is not b or len(gb) > 1:
                rels.append(T.lt(m[t], T.lift(t)))
    elif b.go is not None:
        rels = [T.TRUE]
    else:
        # the starter: later than the start
        later = b.order > gorder
        rel = T.TRUE if later else T.FALSE
        for t in reversed(common):
            rel = T.bor(T.lt(T.lift(t), m[t]), T.band(T.eq(T.lift(t), m[t]), rel))
        rels = [rel]
    import spec
    g = spec.disjoint(a.what, wb)
    if not same_exact(region(a.what), region(b.what)):
        g = T.FALSE
    if g is T.TRUE:
        return
    for rel in rels:
        if rel is T.FALSE:
            continue
        if ex.debug_race:
            print('RACE', rel, '|', show(a.what), '|', show(wb), '|', g)
        ex.oblige('race', pos, ctx.add(rel), g, 'no conflict between %s of %s in the goroutine and %s of %s' % (
            {'r': 'the read', 'w': 'the write'}[a.kind], show(a.what), {'r': 'the read', 'w': 'the write'}[b.kind], show(wb)))


def same_exact(r, q):
    return r is q


def show(w):
    return str(w[2])[:160]


def has_go(prog, name, seen=None):
    """may the function start goroutines, itself or through what it calls?"""
    seen = set() if seen is None else seen
    if name in seen or name not in prog.fns:
        return False
    seen.add(name)
    fn = prog.fns[name]
    for b in fn.blocks:
        for i in b['i']:
            if i['o'] == 'go':
                return True
            c = i.get('call') or {}
            for v in [c.get('fn'), i.get('x')] + list(c.get('args', [])):
                if isinstance(v, dict) and v.get('k') == 'func' and has_go(prog, v['n'], seen):
                    return True
            if i['o'] == 'closure' and has_go(prog, i['fn'], seen):
                return True
    return False
