"""Symbolic executor: computes the final state of a function as terms over its entry state.

Loops are replaced by closed forms that are guessed from one symbolic iteration and then proved by
induction (base case and step are obligations); nothing is unrolled unless the trip count is a small constant.
"""
import time
from term import *
import term as T
import prove as PV
from prove import Ctx, entails, simp
from val import *
import val as VL
import race as RC

FR = 'github.com/consensys/gurvy/bn256/fr.Element'
VAR = 'github.com/consensys/gnark/frontend.Variable'
OPAQUE_I = ('sync.WaitGroup', 'sync.Mutex', 'sync.RWMutex', 'sync.Once')
MAX_UNROLL = 6


class GiveUp(Exception):
    pass


class St:
    __slots__ = ('regs', 'mem', 'ctx', 'pc', 'log')

    def __init__(self, regs, mem, ctx, pc, log=()):
        self.regs, self.mem, self.ctx, self.pc, self.log = regs, mem, ctx, pc, log

    def copy(self):
        return St(dict(self.regs), dict(self.mem), self.ctx, self.pc, self.log)

    def assume(self, b, fact=False):
        if b is T.TRUE:
            return self
        s = self.copy()
        s.pc = s.pc + ((b, fact),)
        s.ctx = s.ctx.add(b)
        return s

    def fact(self, b):
        """in place"""
        if b is not T.TRUE:
            self.pc = self.pc + ((b, True),)
            self.ctx = self.ctx.add(b)


def split_pc(a, b):
    p = 0
    n = min(len(a.pc), len(b.pc))
    while p < n and a.pc[p] == b.pc[p]:
        p += 1
    return p


def pc_cond(pc):
    return T.band(*[x for x, f in pc if not f])


def merge_states(a, b, root):
    p = split_pc(a, b)
    ra, rb = a.pc[p:], b.pc[p:]
    ca, cb = pc_cond(ra), pc_cond(rb)
    la = [x for x, f in ra if not f]
    lb = [x for x, f in rb if not f]
    if la and lb and la[0] is T.bnot(lb[0]):
        c = la[0]
    else:
        c = ca
    regs = {}
    for k, v in a.regs.items():
        if k in b.regs:
            w = b.regs[k]
            regs[k] = v if (v is w or v == w) else merge(c, v, w)
    mem = {}
    for r, v in a.mem.items():
        w = b.mem.get(r)
        mem[r] = v if (w is None or w is v) else merge(c, v, w)
    for r, w in b.mem.items():
        if r not in mem:
            mem[r] = w
    pc = list(a.pc[:p])
    o = T.bor(ca, cb)
    if o is not T.TRUE:
        pc.append((o, False))
    for rest, cc in ((ra, ca), (rb, cb)):
        for x, f in rest:
            if f:
                x = T.implies(cc, x)
                if x is not T.TRUE:
                    pc.append((x, True))
    pc = tuple(pc)
    ctx = root
    ctx = ctx.add(*[x for x, f in pc])
    return St(regs, mem, ctx, pc, RC.merge_logs(a.log, b.log))


def merge_all(sts, root):
    """merge as many states as possible; longest common prefixes first"""
    sts = list(sts)
    bad = set()
    while len(sts) > 1:
        best = None
        for i in range(len(sts)):
            for j in range(i):
                if (id(sts[i]), id(sts[j])) in bad:
                    continue
                p = split_pc(sts[i], sts[j])
                if best is None or p > best[0]:
                    best = (p, j, i)
        if best is None:
            break
        p, j, i = best
        try:
            m = merge_states(sts[j], sts[i], root)
        except MergeFail:
            bad.add((id(sts[i]), id(sts[j])))
            continue
        sts = [s for k, s in enumerate(sts) if k not in (i, j)] + [m]
    return sts


class Frame:
    def __init__(self, fn, args, free, stack):
        self.fn, self.args, self.free, self.stack = fn, args, free, stack
        self.defers = []


class Oblig:
    __slots__ = ('fn', 'kind', 'pos', 'ok', 'desc', 'time')

    def __init__(self, fn, kind, pos, ok, desc, tm):
        self.fn, self.kind, self.pos, self.ok, self.desc, self.time = fn, kind, pos, ok, desc, tm


class SV:
    """a loop-carried scalar or array of scalars"""

    def __init__(self, key, entry, dims, bounds):
        self.key, self.entry, self.dims, self.bounds = key, entry, dims, bounds
        self.sort = 'B' if isinstance(entry, Bool) else entry.sort
        self.closed = None
        self.how = None
        nm = '@%s' % '/'.join(map(str, key_str(key)))
        if dims == 0:
            self.sym = T.atom('var', ('X' + nm,), self.sort)
            self.symt = as_term(self.sym)
        else:
            self.sym = T.atom('var', ('A' + nm,), 'fun')
            self.symt = as_term(T.atom('fapp', (self.sym,) + tuple(DIM[:dims]), self.sort))


def key_str(k):
    if isinstance(k, tuple):
        for x in k:
            yield from key_str(x)
    else:
        yield getattr(k, 'name', k)


def as_term(a):
    """atom -> term of its sort"""
    return T.lift(a) if a.sort in ('I', 'F', 'B') else a


class Exec:
    def __init__(self, prog, contracts=None, intr=None):
        self.prog = prog
        self.contracts = contracts
        self.intr = intr
        self.obligs = []
        self.checking = True
        self.curfn = '?'
        self.iters = []
        self.partners = {}
        self.notouch = 0
        self.extent = {}
        self.site = ''
        self.depth = 0
        self.trace = None
        self.in_go = 0
        self.late, self.gosent = [], set()
        self.debug_race = False
        self.loopnotes = []
        self.stats = {'loops': 0, 'inlined': set(), 'contracts': set(), 'intrinsics': set()}
        self.root = PV.EMPTYCTX
        self.deadline = None
        self.split_returns = False
        self.inline_stack = []

    # ------------------------------------------------------------ obligations
    def oblige(self, kind, pos, ctx, goal, desc=''):
        if not self.checking:
            return
        if self.deadline and time.time() > self.deadline:
            raise GiveUp('time budget exhausted')
        t0 = time.time()
        ok = goal is T.TRUE or entails(ctx, goal) or PV.prove(ctx, goal)
        if not ok and ctx.inconsistent():
            ok = True
        self.obligs.append(Oblig(self.curfn, kind, pos, ok, desc or (str(goal)[:400] if not ok else ''), time.time() - t0))
        if not ok and PV.TRACE:
            print('FAILED', kind, pos, desc, goal)

    # ------------------------------------------------------------ types
    def zero(self, tid, depth=0):
        ty = self.prog.types[tid]
        if ty['k'] == 'named':
            full = ty.get('pkg', '') + '.' + ty['name']
            if full in (FR, VAR):
                return Fc(0)
            if full in OPAQUE_I:
                return I(0)
            if full == 'gkr-mimc/circuit.Gate' or full.endswith('snark/gkr.Gate'):
                return T.atom('const', ('nil',), 'G')
            return self.zero(ty['u'], depth)
        k = ty['k']
        if k == 'basic':
            n = ty['n']
            if n == 'bool':
                return T.FALSE
            if n == 'string':
                return T.atom('const', ('',), 'S')
            if n in ('float64', 'float32'):
                return Obj('float')
            return I(0)
        if k == 'struct':
            return Struct([self.zero(f['t'], depth) for f in ty['f']])
        if k == 'array':
            return Arr(self.zero(ty['e'], depth + 1), depth, ty['n'])
        if k == 'slice':
            return NILSLICE
        return NIL

    def is_scalar(self, tid):
        ty = self.prog.types[tid]
        return ty['k'] == 'named' and (ty.get('pkg', '') + '.' + ty['name']) in (FR, VAR)

    # ------------------------------------------------------------ memory
    def new_region(self, st, name, tid, tmpl):
        fam = tuple(self.iters)
        if fam and 'concrete' in self.contract.opts:
            # every iteration is executed: a region for each
            name += '@' + ','.join(str(x) for x in fam)
            tmpl, fam = shift(tmpl, 0), ()
        r = Region(name, tid, len(fam), 'alloc')
        if fam:
            tm = shift(tmpl, -len(fam))
            tm = self.shift_arr(tm, 0)
            old = st.mem.get(r)
            if old is not None and old != tm:
                c = T.band(*[T.eq(DIM[i], f) for i, f in enumerate(fam)])
                tm = merge(c, tm, old)
            st.mem[r] = tm
        else:
            st.mem[r] = tmpl
        return Ptr(r, fam, ())

    def shift_arr(self, t, k):
        return t

    def read(self, st, p):
        if not isinstance(p, Ptr):
            raise Unsupported('read through %r' % (p,))
        if p.r not in st.mem:
            self.region_default(st, p.r)
        t = st.mem[p.r]
        binds = {DIMA[i]: f for i, f in enumerate(p.fam)}
        node, d = tmpl_get(t, p.path, binds, p.r.fam)
        if isinstance(node, Poly):
            node = pick(node, binds)
        if self.trace is not None:
            RC.access(self, st, 'r', ('cell', None, p))
        if d:
            m = dict(binds)
            for i in range(d, 10):
                m[DIMA[i]] = DIM[i - d]
            node = vsubst(node, m)

            def fix(x):
                if isinstance(x, Arr):
                    return Arr(fix(x.e), x.d - d, x.n)
                if isinstance(x, Struct):
                    return Struct([fix(y) for y in x.f])
                return x
            node = fix(node)
        return node

    def region_default(self, st, r):
        st.mem[r] = self.intr.global_template(self, r)

    def write(self, st, p, v):
        if not isinstance(p, Ptr):
            raise Unsupported('write through %r' % (p,))
        if p.r not in st.mem:
            self.region_default(st, p.r)
        if self.trace is not None:
            RC.access(self, st, 'w', ('cell', None, p))
        conds = [T.eq(DIM[i], f) for i, f in enumerate(p.fam)]

        def go(t, path, depth, conds):
            if not path:
                nv = shift(v, -depth) if depth else v
                c = T.band(*conds)
                return nv if c is T.TRUE else merge_obj(c, nv, t)
            h = path[0]
            if isinstance(h, int):
                f = list(t.f)
                f[h] = go(f[h], path[1:], depth, conds)
                return Struct(f)
            if not isinstance(t, Arr):
                raise Unsupported('index write into %r' % (t,))
            return Arr(go(t.e, path[1:], depth + 1, conds + [T.eq(DIM[depth], h)]), t.d, t.n)
        st.mem[p.r] = go(st.mem[p.r], p.path, p.r.fam, conds)
        self.touched(st, p.r)

    def link(self, a, b, extent=None):
        """regions of a may be the same storage as (the cells in extent of) regions of b"""
        for r in a:
            self.extent[r] = None
        for r in b:
            if extent is None or r in self.extent and self.extent[r] is None:
                self.extent[r] = None
            else:
                self.extent.setdefault(r, []).append(extent)
        for x, y in ((a, b), (b, a)):
            for r in x:
                self.partners.setdefault(r, set()).update(y)
        # transitively
        ch = True
        while ch:
            ch = False
            for r, ps in self.partners.items():
                n = set(ps)
                for q in ps:
                    n |= self.partners.get(q, set())
                n.discard(r)
                if n != ps:
                    self.partners[r] = n
                    ch = True

    def widen(self, r):
        """cells of r beyond the length of the slices that gave its extents may be written"""
        for q in self.partners.get(r, ()):
            self.extent[q] = None

    def touched(self, st, r, site=None):
        """after a write to r: the regions that may share its storage are unknown"""
        for q in () if self.notouch else self.partners.get(r, ()):
            if q in st.mem:
                nm = 'shared:%s:%s' % (q.name, site or self.site)
                its = tuple(self.iters)
                tm = st.mem[q]
                inner = set()
                VL.refs_of(tm, inner)
                if inner:
                    raise GiveUp('a write to storage that may be shared')
                nd = VL.ndims(tm)
                m = {}
                for path, v in VL.leaves(tm):
                    k = nd[path] + q.fam
                    args = its + tuple(DIM[:k])
                    name = nm + '/' + '/'.join(map(str, path))
                    srt = v.sort
                    x = T.atom('fapp', (T.atom('var', (name,), 'fun'),) + args, srt) if args else T.atom('var', (name,), srt)
                    x = T.lift(x) if srt in ('I', 'F', 'B') else x
                    if self.extent.get(q) is not None:
                        x = merge(T.bor(*[T.band(T.le(lo, DIM[q.fam]), T.lt(DIM[q.fam], hi)) for lo, hi in self.extent[q]]), x, v)
                    m[path] = x
                st.mem[q] = VL.rebuild_leaves(tm, m)

    def write_range(self, st, base, lo, n, fn):
        """cells lo..lo+n of the array at base become fn(k) (k relative to lo, a term); value built over placeholders"""
        if base.r not in st.mem:
            self.region_default(st, base.r)
        if self.trace is not None:
            RC.access(self, st, 'w', ('slice', None, Slice(base, lo, n, n)))
        conds = [T.eq(DIM[i], f) for i, f in enumerate(base.fam)]

        def go(t, path, depth, conds):
            if not path:
                k = DIM[depth]
                c = T.band(*(conds + [T.le(lo, k), T.lt(k, T.add(lo, n))]))
                nv = fn(T.sub(k, lo), depth + 1)
                return Arr(merge(c, nv, t.e) if c is not T.TRUE else nv, t.d, t.n)
            h = path[0]
            if isinstance(h, int):
                f = list(t.f)
                f[h] = go(f[h], path[1:], depth, conds)
                return Struct(f)
            return Arr(go(t.e, path[1:], depth + 1, conds + [T.eq(DIM[depth], h)]), t.d, t.n)
        st.mem[base.r] = go(st.mem[base.r], base.path, base.r.fam, conds)
        self.touched(st, base.r)

    def elem(self, p, i):
        """pointer to element i of the array at p"""
        return Ptr(p.r, p.fam, p.path + (i,))

    def slice_elem(self, s, i):
        return self.elem(s.p, T.add(s.off, i))

    def read_elem_tmpl(self, st, s, k, depth):
        """element k (a term over placeholders below depth) of slice s, as a template whose own placeholders start at depth"""
        v = self.read(st, self.slice_elem(s, k))
        # the placeholders of the element start at 0: move them to depth. k itself may use placeholders, so rename apart
        tmp = [T.var('~%d' % i) for i in range(10)]
        p = self.slice_elem(s, T.var('~k'))
        v = self.read(st, p)
        v = shift(v, -depth) if depth else v
        return vsubst(v, {T.as_atom(T.var('~k')): k})

    # ------------------------------------------------------------ values of operands
    def val(self, fr, st, o):
        k = o['k']
        if k == 'reg':
            return st.regs[o['n']]
        if k == 'param':
            return fr.args[o['i']]
        if k == 'free':
            return fr.free[o['i']]
        if k == 'const':
            if 'i' in o:
                if o.get('float'):
                    return Obj('float')
                return self.int_const(o)
            if o.get('v') is None:
                return self.zero(o['t'])
            if isinstance(o['v'], bool):
                return T.TRUE if o['v'] else T.FALSE
            return T.atom('const', (o['v'],), 'S')
        if k == 'func':
            return Obj('func', o['n'])
        if k == 'builtin':
            return Obj('builtin', o['n'])
        if k == 'global':
            return self.intr.global_ptr(self, st, o['n'], o['t'])
        raise Unsupported('operand %r' % (o,))

    def int_const(self, o):
        ty = self.prog.under(o['t'])
        if ty['k'] == 'basic' and ty['n'].startswith('float'):
            return Obj('float')
        return I(int(o['i']))

    # ------------------------------------------------------------ function execution
    def call_fn(self, name, args, free, st, stack, pos=''):
        """inline execution; returns a list of (results tuple, state)"""
        fn = self.prog.fns.get(name)
        if fn is None:
            raise Unsupported('no body for ' + name)
        if self.inline_stack.count(name) > 1 or self.depth > 25:
            raise Unsupported('recursion in ' + name)
        self.prog.cfg(fn)
        self.depth += 1
        self.inline_stack.append(name)
        save = self.curfn
        try:
            fr = Frame(fn, args, free, stack)
            st0 = St({}, st.mem, st.ctx, st.pc, st.log)
            rets = []
            self.region(fr, [(None, st0)], 0, set(fn.order), None, [], [], rets)
            if not rets:
                return []
            out = []
            for vals, s in rets:
                s = s.copy()
                s.regs = {'$ret': tuple(vals)}
                out.append(s)
            merged = out if self.depth == 1 and self.split_returns else merge_all(out, self.root)
            res = []
            for s in merged:
                v = s.regs['$ret']
                n = s.copy()
                n.regs = dict(st.regs)
                res.append((v, n))
            return res
        finally:
            self.depth -= 1
            self.inline_stack.pop()
            self.curfn = save

    def region(self, fr, incoming, start, allowed, header, backs, exits, rets):
        """execute the acyclic graph of blocks in allowed from start; inner loops are summarised.
        incoming: [(pred, state)] for start; edges to header go to backs, edges out of allowed to exits"""
        pend = {start: list(incoming)}
        fn = fr.fn
        order = [b for b in fn.order if b in allowed]
        skip = set()
        for b in order:
            if b in skip or b not in pend:
                continue
            inc = pend.pop(b)
            states = self.enter(fr, b, inc)
            if b in fn.loops and not (b == header):
                L = fn.loops[b]
                skip |= L.body - {b}
                for st in states:
                    for (f, to, s) in self.loop(fr, L, st, rets):
                        self.edge(fr, f, to, s, allowed, header, pend, backs, exits)
                continue
            for st in states:
                for (to, s) in self.block(fr, b, st, rets):
                    self.edge(fr, b, to, s, allowed, header, pend, backs, exits)

    def edge(self, fr, f, to, s, allowed, header, pend, backs, exits):
        if header is not None and to == header:
            backs.append((f, s))
        elif to not in allowed:
            exits.append((f, to, s))
        else:
            pend.setdefault(to, []).append((f, s))

    def enter(self, fr, b, inc):
        """evaluate the phis per edge, then merge"""
        blk = fr.fn.blocks[b]
        out = []
        for pred, st in inc:
            if pred is not None:
                st = self.phis(fr, blk, pred, st)
            out.append(st)
        if len(out) > 1:
            out = merge_all(out, self.root)
        return out

    def phis(self, fr, blk, pred, st):
        k = blk['pred'].index(pred)
        new = {}
        for i in blk['i']:
            if i['o'] != 'phi':
                break
            new[i['d']] = self.val(fr, st, i['e'][k])
        if new:
            st = st.copy()
            st.regs.update(new)
        return st

    def block(self, fr, b, st, rets):
        """returns [(succ, state)]"""
        return self.instrs(fr, b, 0, st.copy(), rets)

    def instrs(self, fr, b, k, st, rets):
        blk = fr.fn.blocks[b]
        ins = blk['i']
        n = len(ins)
        if self.deadline and time.time() > self.deadline:
            raise GiveUp('time budget exhausted')
        while k < n:
            i = ins[k]
            o = i['o']
            self.site = '%s/%s:%d.%d' % (fr.stack, fr.fn.name.split('/')[-1], b, k)
            if o == 'phi':
                k += 1
                continue
            if o == 'jump':
                return [(blk['succ'][0], st)]
            if o == 'if':
                c = self.val(fr, st, i['c'])
                if not isinstance(c, Bool):
                    raise Unsupported('condition %r' % (c,))
                c = simp(st.ctx, c) if c not in (T.TRUE, T.FALSE) else c
                if c is T.TRUE or entails(st.ctx, c):
                    return [(blk['succ'][0], st)]
                if c is T.FALSE or entails(st.ctx, T.bnot(c)):
                    return [(blk['succ'][1], st)]
                return [(blk['succ'][0], st.assume(c)), (blk['succ'][1], st.assume(T.bnot(c)))]
            if o == 'return':
                vals = [self.val(fr, st, r) for r in i['r']]
                rets.append((vals, st))
                return []
            if o == 'panic':
                self.oblige('no-panic', i['pos'] or fr.fn.pos, st.ctx, T.FALSE, 'explicit panic reachable')
                return []
            if o in ('call', 'go', 'defer', 'rundefers'):
                outs = self.do_call(fr, b, k, i, st)
                if outs is None:
                    k += 1
                    continue
                if len(outs) == 1:
                    st = outs[0]
                    k += 1
                    continue
                r = []
                for s in outs:
                    r.extend(self.instrs(fr, b, k + 1, s.copy(), rets))
                return r
            v = self.instr(fr, i, st, k, b)
            if 'd' in i:
                st.regs[i['d']] = v
            k += 1
        return []

    def do_call(self, fr, b, k, i, st):
        c = i['call'] if 'call' in i else None
        o = i['o']
        if o == 'rundefers':
            ds, fr_d = [], st.regs.get('$defers', ())
            for (ff, args) in reversed(fr_d):
                outs = self.apply(ff, args, st, '%s/%d.%d' % (fr.stack, b, k), i.get('pos', ''), fr)
                if len(outs) != 1:
                    raise Unsupported('defer with several outcomes')
                st2 = outs[0][1]
                st.mem, st.ctx, st.pc = st2.mem, st2.ctx, st2.pc
            return None
        args = [self.val(fr, st, a) for a in c['args']]
        pos = i.get('pos') or ''
        if 'invoke' in c:
            recv = self.val(fr, st, c['recv'])
            target = Obj('method', recv, c['invoke'], c['iface'])
        else:
            target = self.val(fr, st, c['fn'])
        if o == 'defer':
            st.regs['$defers'] = st.regs.get('$defers', ()) + ((target, args),)
            return None
        stack = '%s/%s:%d.%d' % (fr.stack, fr.fn.name.split('/')[-1], b, k)
        if o == 'go':
            if self.in_go:
                raise Unsupported('goroutine started by a goroutine')
            st = RC.start(self, st)
            self.in_go += 1
            try:
                outs = self.apply(target, args, st, stack, pos, fr, instr=i)
            finally:
                self.in_go -= 1
            return [RC.end(self, s, pos) for v, s in outs]
        outs = self.apply(target, args, st, stack, pos, fr, instr=i)
        res = []
        for v, s in outs:
            s = s.copy()
            if 'd' in i:
                nres = len(c['res'])
                s.regs[i['d']] = v[0] if nres == 1 else (tuple(v) if nres else None)
            res.append(s)
        return res

    def apply(self, target, args, st, stack, pos, fr, instr=None):
        """returns [(results, state)]"""
        if isinstance(target, Obj) and target.k == 'builtin':
            return self.intr.builtin(self, target.a[0], args, st, stack, pos, instr)
        if isinstance(target, Obj) and target.k == 'method':
            recv, name, iface = target.a
            return self.intr.invoke(self, recv, name, iface, args, st, stack, pos)
        if isinstance(target, Obj) and target.k == 'clo':
            return self.call_named(target.a[0], args, target.a[1], st, stack, pos)
        if isinstance(target, Obj) and target.k == 'func':
            return self.call_named(target.a[0], args, (), st, stack, pos)
        raise Unsupported('call of %r' % (target,))

    def call_named(self, name, args, free, st, stack, pos):
        h = self.intr.lookup(name)
        if h is not None:
            self.stats['intrinsics'].add(name)
            return h(self, args, st, stack, pos)
        if self.contracts is not None and not free:
            r = self.contracts.call(self, name, args, st, stack, pos)
            if r is not None:
                return r
        self.stats['inlined'].add(name)
        return self.call_fn(name, args, free, st, stack, pos)

    # ------------------------------------------------------------ instructions
    def instr(self, fr, i, st, k, b):
        o = i['o']
        if o == 'alloc':
            tid = self.prog.types[i['t']]['e']
            name = '%s/%s:%d.%d:%s' % (fr.stack, fr.fn.name.split('/')[-1], b, k, i.get('n', ''))
            return self.new_region(st, name, tid, self.zero(tid))
        if o == 'store':
            self.write(st, self.val(fr, st, i['a']), self.val(fr, st, i['v']))
            return None
        if o == 'un':
            x = self.val(fr, st, i['x'])
            op = i['op']
            if op == '*':
                if x == NIL:
                    self.oblige('nil', i['pos'], st.ctx, T.FALSE, 'nil dereference')
                return self.read(st, x)
            if op == '-':
                return T.neg(x)
            if op == '!':
                return T.bnot(x)
            if op == '<-':
                return self.intr.recv(self, x, st, i)
            raise Unsupported('unary ' + op)
        if o == 'bin':
            return self.binop(st, i['op'], self.val(fr, st, i['x']), self.val(fr, st, i['y']), i)
        if o == 'fieldaddr':
            x = self.val(fr, st, i['x'])
            if not isinstance(x, Ptr):
                raise Unsupported('field of %r' % (x,))
            return Ptr(x.r, x.fam, x.path + (i['f'],))
        if o == 'field':
            return self.val(fr, st, i['x']).f[i['f']]
        if o == 'indexaddr':
            x = self.val(fr, st, i['x'])
            ix = self.val(fr, st, i['i'])
            if isinstance(x, Slice):
                self.oblige('bounds', i['pos'], st.ctx, T.band(T.le(I(0), ix), T.lt(ix, x.len)), 'index %s < %s' % (ix, x.len) if self.checking else '')
                if x.p is None:
                    raise Unsupported('index of nil slice')
                return self.slice_elem(x, ix)
            if isinstance(x, Ptr):
                ty = self.prog.under(self.prog.under(i['xt'])['e'])
                self.oblige('bounds', i['pos'], st.ctx, T.band(T.le(I(0), ix), T.lt(ix, I(ty['n']))), 'index %s < %d' % (ix, ty['n']) if self.checking else '')
                return self.elem(x, ix)
            raise Unsupported('index of %r' % (x,))
        if o == 'index':
            x = self.val(fr, st, i['x'])
            ix = self.val(fr, st, i['i'])
            if isinstance(x, Arr):
                if x.n is not None:
                    self.oblige('bounds', i['pos'], st.ctx, T.band(T.le(I(0), ix), T.lt(ix, I(x.n))))
                return vsubst(shift(x.e, 1) if False else x.e, {DIMA[0]: ix})
            raise Unsupported('index of value %r' % (x,))
        if o == 'slice':
            return self.do_slice(fr, st, i)
        if o == 'makeslice':
            ln, cp = self.val(fr, st, i['len']), self.val(fr, st, i['cap'])
            self.oblige('make', i['pos'], st.ctx, T.band(T.le(I(0), ln), T.le(ln, cp)), 'make with length %s' % (ln,) if self.checking else '')
            el = self.prog.under(i['t'])['e']
            name = '%s/%s:%d.%d:make' % (fr.stack, fr.fn.name.split('/')[-1], b, k)
            return self.make_slice(st, name, el, ln, cp)
        if o == 'convert' or o == 'changetype':
            x = self.val(fr, st, i['x'])
            if o == 'convert':
                return self.convert(st, x, i)
            if self.is_scalar(i['t']) and isinstance(x, Arr):
                if isinstance(x.e, Poly) and cval(x.e) == 0:
                    return Fc(0)
                raise Unsupported('field element from its words')
            if not self.is_scalar(i['t']) and isinstance(x, Poly) and x.sort == 'F':
                raise Unsupported('words of a field element')
            return x
        if o == 'makeiface':
            x = self.val(fr, st, i['x'])
            return Obj('iface', self.prog.types[i['xt']]['s'], x)
        if o == 'closure':
            return Obj('clo', i['fn'], tuple(self.val(fr, st, x) for x in i['b']))
        if o == 'extract':
            x = self.val(fr, st, i['x'])
            return x[i['i']]
        if o in ('makemap', 'lookup', 'mapupdate', 'makechan', 'send', 'typeassert', 'range', 'next'):
            return self.intr.special(self, o, fr, st, i, k, b)
        raise Unsupported('instruction %s at %s' % (o, i.get('pos')))

    def make_slice(self, st, name, el, ln, cp):
        p = self.new_region(st, name, el, Arr(self.zero(el, 1), 0))
        return Slice(p, I(0), ln, cp)

    def convert(self, st, x, i):
        a, b = self.prog.under(i['xt']), self.prog.under(i['t'])
        if a['k'] == 'basic' and b['k'] == 'basic' and isinstance(x, Poly):
            if b['n'].startswith('uint') and not a['n'].startswith('uint'):
                self.oblige('convert', i['pos'], st.ctx, T.le(I(0), x), 'conversion to unsigned of a non negative value')
            if b['n'] in ('uint8', 'uint16', 'uint32', 'int8', 'int16', 'int32', 'byte') and cval(x) is None:
                raise Unsupported('narrowing conversion')
            if b['n'].startswith('float'):
                return Obj('float')
            return x
        if isinstance(x, Obj) and x.k == 'float':
            return x if b['n'].startswith('float') else T.fresh('fromfloat')
        return self.intr.convert(self, st, x, a, b, i)

    def do_slice(self, fr, st, i):
        x = self.val(fr, st, i['x'])
        lo = self.val(fr, st, i['lo']) if i['lo'] else I(0)
        if isinstance(x, Slice):
            hi = self.val(fr, st, i['hi']) if i['hi'] else x.len
            mx = self.val(fr, st, i['max']) if i['max'] else x.cap
            self.oblige('slice', i['pos'], st.ctx, T.band(T.le(I(0), lo), T.le(lo, hi), T.le(hi, mx), T.le(mx, x.cap)),
                        'slice bounds %s:%s of capacity %s' % (lo, hi, x.cap) if self.checking else '')
            if x.p is not None and x.p.r in self.partners and not entails(st.ctx, T.le(hi, x.len)):
                self.widen(x.p.r)
            return Slice(x.p, T.add(x.off, lo), T.sub(hi, lo), T.sub(mx, lo))
        if isinstance(x, Ptr):
            n = I(self.prog.under(self.prog.under(i['xt'])['e'])['n'])
            hi = self.val(fr, st, i['hi']) if i['hi'] else n
            self.oblige('slice', i['pos'], st.ctx, T.band(T.le(I(0), lo), T.le(lo, hi), T.le(hi, n)))
            return Slice(x, lo, T.sub(hi, lo), T.sub(n, lo))
        raise Unsupported('slice of %r' % (x,))

    def binop(self, st, op, x, y, i):
        if op in ('==', '!='):
            r = self.equal(st, x, y, i)
            return r if op == '==' else T.bnot(r)
        if isinstance(x, Obj) or isinstance(y, Obj):
            if op in ('<', '<=', '>', '>='):
                raise Unsupported('comparison of %r' % (x,))
            return Obj('float')
        if isinstance(x, Bool):
            if op in ('&', '&&'):
                return T.band(x, y)
            if op in ('|', '||'):
                return T.bor(x, y)
        if isinstance(x, Atom):
            if op == '+':
                return T.strcat(x, y)
            raise Unsupported('string operation ' + op)
        uns = self.prog.under(i['xt']).get('n', '').startswith('uint') if 'xt' in i else False
        if op == '+':
            return T.add(x, y)
        if op == '-':
            r = T.sub(x, y)
            if uns:
                self.oblige('unsigned', i['pos'], st.ctx, T.le(I(0), r), 'unsigned subtraction does not wrap')
            return r
        if op == '*':
            return T.mul(x, y)
        if op == '<':
            return T.lt(x, y)
        if op == '<=':
            return T.le(x, y)
        if op == '>':
            return T.lt(y, x)
        if op == '>=':
            return T.le(y, x)
        if op == '<<':
            self.oblige('shift', i['pos'], st.ctx, T.le(I(0), y), 'shift count non negative')
            return T.mul(x, T.pow2(y))
        if op in ('>>', '/', '%'):
            if op == '>>':
                self.oblige('shift', i['pos'], st.ctx, T.le(I(0), y), 'shift count non negative')
                y = T.pow2(y)
            else:
                self.oblige('div', i['pos'], st.ctx, T.band(T.le(I(1), y), T.le(I(0), x)), 'division of a non negative number by a positive one')
            q = PV.exact_div(st.ctx, x, y)
            if q is None:
                q = T.idiv(x, y)
            if op == '%':
                return T.sub(x, T.mul(y, q))
            return q
        if op == '&':
            for a, b in ((x, y), (y, x)):
                l = T.log2_of(T.add(b, I(1)))
                if l is not None:
                    return T.imod(a, T.add(b, I(1)))
            return T.app('band', (x, y), 'I')
        if op in ('|', '^', '&^'):
            if op in ('|', '^') and not x.items:
                return y
            if not y.items:
                return x
            # disjoint bits: multiple of 2^k with something below 2^k
            if op in ('|', '^'):
                for a, b in ((x, y), (y, x)):
                    for m, c in a.items:
                        g = T.mono_poly('I', tuple(z for z in m if z[0].op == 'pow2'), abs(c))
                        if T.log2_of(g) is not None and entails(st.ctx, T.band(T.le(I(0), b), T.lt(b, g))):
                            q, r = T.mono_div(a, g)
                            if not r.items and PV.integral(st.ctx, q):
                                return T.add(a, b)
            return T.app('b' + op, (x, y), 'I')
        raise Unsupported('operator ' + op)

    def equal(self, st, x, y, i):
        if isinstance(x, (Poly, Bool)):
            return T.eq(x, y)
        if isinstance(x, Atom) and isinstance(y, Atom):
            return T.eq(x, y)
        if isinstance(x, Struct) and isinstance(y, Struct):
            return T.band(*[self.equal(st, a, b, i) for a, b in zip(x.f, y.f)])
        if x == y and not isinstance(x, Slice):
            return T.TRUE
        if isinstance(x, Slice) and isinstance(y, Slice):
            s = x if y.p is None else y
            if s.p is None:
                return T.TRUE
            # only comparison with nil is allowed in the language; a nil slice has no elements
            return T.eq(s.cap, I(0))
        if isinstance(x, Ptr) and y == NIL or isinstance(y, Ptr) and x == NIL:
            return T.FALSE
        if isinstance(x, Obj) and isinstance(y, Obj) and x.k == 'iface' and y.k == 'iface':
            if x.a[0] != y.a[0]:
                return T.FALSE
            return self.equal(st, x.a[1], y.a[1], i)
        if isinstance(x, Obj) and x.k == 'iface' and y == NIL or isinstance(y, Obj) and y.k == 'iface' and x == NIL:
            return T.FALSE
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            if x.r is not y.r:
                return T.FALSE
            if len(x.path) == len(y.path) and all((isinstance(a, int)) == (isinstance(b, int)) and (not isinstance(a, int) or a == b) for a, b in zip(x.path, y.path)):
                return T.band(*[T.eq(a, b) for a, b in zip(x.fam, y.fam)] + [T.eq(a, b) for a, b in zip(x.path, y.path) if not isinstance(a, int)])
        raise Unsupported('comparison of %r and %r' % (x, y))

    # ------------------------------------------------------------ loops
    def loop(self, fr, L, st, rets):
        import loops
        return loops.run_loop(self, fr, L, st, rets)
