"""Trusted contracts of the functions outside of the repository, and of language built-ins."""
from term import *
import term as T
import prove as PV
from prove import entails, simp
from val import *
import loops as LP
import race as RC
from exec import FR, VAR, GiveUp

G = {}       # name -> handler
FRP = '(*%s).' % FR
CS = '(*github.com/consensys/gnark/frontend.ConstraintSystem).'
GHOST_ASSERT = Region('ghost:asserted', -1, 0, 'ghost:asserted')


def lookup(name):
    return G.get(name)


def reg(name):
    def d(f):
        G[name] = f
        return f
    return d


def ret1(v, st):
    return [((v,), st)]


# ------------------------------------------------------------------ fr.Element

def fr_op(name, f, nargs):
    def h(ex, args, st, stack, pos):
        xs = [ex.read(st, a) for a in args[1:1 + nargs]]
        st = st.copy()
        ex.write(st, args[0], f(*xs))
        return ret1(args[0], st)
    G[FRP + name] = h


fr_op('Add', lambda x, y: T.add(x, y), 2)
fr_op('Sub', lambda x, y: T.sub(x, y), 2)
fr_op('Mul', lambda x, y: T.mul(x, y), 2)
fr_op('Square', lambda x: T.mul(x, x), 1)
fr_op('Neg', lambda x: T.neg(x), 1)
fr_op('Double', lambda x: T.add(x, x), 1)
fr_op('Set', lambda x: x, 1)
fr_op('Inverse', lambda x: T.inv(x), 1)
fr_op('Div', lambda x, y: T.mul(x, T.inv(y)), 2)
fr_op('SetOne', lambda: Fc(1), 0)
fr_op('SetZero', lambda: Fc(0), 0)


def fr_assign(name, f):
    def h(ex, args, st, stack, pos):
        x, y = ex.read(st, args[0]), ex.read(st, args[1])
        st = st.copy()
        ex.write(st, args[0], f(x, y))
        return ret1(args[0], st)
    G[FRP + name] = h


fr_assign('AddAssign', T.add)
fr_assign('SubAssign', T.sub)
fr_assign('MulAssign', T.mul)


@reg(FRP + 'SetUint64')
def _(ex, args, st, stack, pos):
    st = st.copy()
    ex.write(st, args[0], T.ofint(args[1]))
    return ret1(args[0], st)


def num_of_string(s):
    if isinstance(s, Atom) and s.op == 'const':
        try:
            return Fc(int(s.args[0]))
        except ValueError:
            pass
    return T.app('frOfString', (s,), 'F')


@reg(FRP + 'SetString')
def _(ex, args, st, stack, pos):
    st = st.copy()
    ex.write(st, args[0], num_of_string(args[1]))
    return ret1(args[0], st)


@reg(FRP + 'SetInterface')
def _(ex, args, st, stack, pos):
    st = st.copy()
    ex.write(st, args[0], of_iface(ex, st, args[1]))
    return ret1(args[0], st)


@reg(FRP + 'SetRandom')
def _(ex, args, st, stack, pos):
    st = st.copy()
    if ex.iters:
        v = T.app('random:' + stack, tuple(ex.iters), 'F')
    else:
        v = T.fresh('random', 'F')
    ex.write(st, args[0], v)
    return [((args[0], NIL), st)]


@reg(FRP + 'IsZero')
def _(ex, args, st, stack, pos):
    return ret1(T.eq0(ex.read(st, args[0])), st)


@reg(FRP + 'Equal')
def _(ex, args, st, stack, pos):
    return ret1(T.eq(ex.read(st, args[0]), ex.read(st, args[1])), st)


@reg(FRP + 'String')
def _(ex, args, st, stack, pos):
    return ret1(T.decimal(ex.read(st, args[0])), st)


@reg('github.com/consensys/gurvy/bn256/fr.One')
def _(ex, args, st, stack, pos):
    return ret1(Fc(1), st)


# ------------------------------------------------------------------ gnark

def of_iface(ex, st, v):
    if isinstance(v, Obj) and v.k == 'opt':
        ex.oblige('nil', '', st.ctx, v.a[0], 'the operand is not nil')
        v = v.a[1]
    if isinstance(v, Obj) and v.k == 'iface':
        v = v.a[1]
    if isinstance(v, Ptr):
        v = ex.read(st, v)
    if isinstance(v, Poly):
        return v if v.sort == 'F' else T.ofint(v)
    if isinstance(v, Atom):
        return num_of_string(v)
    raise Unsupported('circuit operand %r' % (v,))


def fold_args(ex, st, args):
    xs = [of_iface(ex, st, a) for a in args[1:3]]
    if len(args) > 3:
        s = args[3]
        n = cval(s.len)
        if n is None:
            return xs, s
        for i in range(n):
            xs.append(of_iface(ex, st, ex.read(st, ex.slice_elem(s, I(i)))))
    return xs, None


def cs_op(name, f):
    def h(ex, args, st, stack, pos):
        xs, rest = fold_args(ex, st, args)
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        if rest is not None:
            # as many operands as the slice has
            if name != 'Add':
                raise Unsupported('variadic circuit operation')
            kt = T.fresh('nat:k')
            k = T.as_atom(kt)
            s2 = st.copy()
            s2.ctx = st.ctx.add(T.lt(kt, rest.len))
            r = T.add(r, T.mk_sum(k, rest.len, of_iface(ex, s2, ex.read(s2, ex.slice_elem(rest, kt)))))
        return ret1(r, st)
    G[CS + name] = h


cs_op('Add', T.add)
cs_op('Mul', T.mul)
cs_op('Sub', T.sub)


@reg(CS + 'Constant')
def _(ex, args, st, stack, pos):
    return ret1(of_iface(ex, st, args[1]), st)


@reg(CS + 'AssertIsEqual')
def _(ex, args, st, stack, pos):
    st = st.copy()
    cur = st.mem.get(GHOST_ASSERT, T.TRUE)
    e = T.eq(of_iface(ex, st, args[1]), of_iface(ex, st, args[2]))
    st.mem[GHOST_ASSERT] = T.band(cur, e)
    return [((), st)]


@reg('(*github.com/consensys/gnark/frontend.Variable).Assign')
def _(ex, args, st, stack, pos):
    st = st.copy()
    ex.write(st, args[0], of_iface(ex, st, args[1]))
    if getattr(ex, 'assign_ghost', None) is not None:
        ex.assign_ghost(ex, st, args[0])
    return [((), st)]


# ------------------------------------------------------------------ fmt, sync, os

@reg('fmt.Sprintf')
def _(ex, args, st, stack, pos):
    fmt, s = args[0], args[1]
    n = cval(s.len)
    opaque = ret1(T.atom('app', ('sprintf:' + stack,) + tuple(ex.iters), 'S'), st)
    if n is None or fmt.op != 'const':
        return opaque
    vals = []
    for i in range(n):
        v = ex.read(st, ex.slice_elem(s, I(i)))
        t = None
        if isinstance(v, Obj) and v.k == 'iface':
            t, v = v.a
        vals.append((t, v))
    out = []
    import re
    k = 0
    for part in re.split(r'(%.)', fmt.args[0]):
        if part == '%%':
            out.append(T.atom('const', ('%',), 'S'))
        elif part[:1] == '%':
            if k >= len(vals):
                return opaque
            t, v = vals[k]
            k += 1
            if isinstance(v, Atom) and v.sort == 'S' and t == 'string' and part in ('%v', '%s'):
                out.append(v)
            elif isinstance(v, Poly) and v.sort == 'I' and part in ('%v', '%d'):
                out.append(T.decimal(v))
            else:
                return opaque
        else:
            out.append(T.atom('const', (part,), 'S'))
    if k != len(vals):
        return opaque
    return ret1(T.strcat(*out), st)


@reg('(*sync.WaitGroup).Add')
def _(ex, args, st, stack, pos):
    st = st.copy()
    with RC.quiet(ex):
        ex.write(st, args[0], T.add(ex.read(st, args[0]), args[1]))
    RC.add(ex, st, args[0], pos)
    return [((), st)]


@reg('(*sync.WaitGroup).Done')
def _(ex, args, st, stack, pos):
    st = st.copy()
    with RC.quiet(ex):
        ex.write(st, args[0], T.sub(ex.read(st, args[0]), I(1)))
    RC.done(ex, st, args[0])
    return [((), st)]


@reg('(*sync.WaitGroup).Wait')
def _(ex, args, st, stack, pos):
    # sequential execution of the goroutines: at this point all of them have run
    st = st.copy()
    with RC.quiet(ex):
        v = ex.read(st, args[0])
    ex.oblige('wait', pos, st.ctx, T.eq(v, I(0)), 'every goroutine is waited for: counter %s is 0' % (v,) if ex.checking else '')
    if ex.in_go:
        ex.oblige('join', pos, st.ctx, T.FALSE, 'a goroutine waits')
    RC.wait(ex, st, args[0], pos)
    st.mem[RC.PENDING] = T.FALSE
    st.log = st.log + (('wait',),) if ex.trace is not None else st.log
    return [((), st)]


for n in ('Lock', 'Unlock', 'RLock', 'RUnlock'):
    for t in ('Mutex', 'RWMutex'):
        G['(*sync.%s).%s' % (t, n)] = lambda ex, args, st, stack, pos: [((), st)]


# ------------------------------------------------------------------ built-ins

def builtin(ex, name, args, st, stack, pos, instr):
    if name in ('len', 'cap'):
        x = args[0]
        if isinstance(x, Slice):
            return ret1(x.len if name == 'len' else x.cap, st)
        if isinstance(x, Arr):
            return ret1(I(x.n), st)
        if isinstance(x, Ptr):
            v = ex.read(st, x)
            return ret1(I(v.n), st)
        if isinstance(x, Atom):
            return ret1(T.app('lenstr', (x,), 'I'), st)
        raise Unsupported('len of %r' % (x,))
    if name == 'ssa:wrapnilchk':
        return ret1(args[0], st)
    if name == 'append':
        return append(ex, args, st, stack, pos, instr)
    if name == 'copy':
        return copy(ex, args, st, pos)
    if name == 'close':
        return close(ex, args[0], st, pos)
    if name in ('print', 'println'):
        return [((), st)]
    if name in ('min', 'max'):
        r = args[0]
        for x in args[1:]:
            c = T.le(r, x)
            r = T.ite(c, r, x) if name == 'min' else T.ite(c, x, r)
        return ret1(r, st)
    raise Unsupported('builtin ' + name)


def append(ex, args, st, stack, pos, instr):
    s, t = args
    if not isinstance(t, Slice):
        raise Unsupported('append of %r' % (t,))
    if cval(t.len) == 0:
        return ret1(s, st)
    st = st.copy()
    el = ex.prog.under(instr['t'])['e']
    total = T.add(s.len, t.len)
    et = LP.elem_template(ex, st, t, 0)
    for x in (s, t):
        if x.p is not None:
            RC.access(ex, st, 'r', ('slice', None, x))
    e = vsubst(et, {DIMA[0]: T.sub(DIM[0], s.len)})
    if s.p is not None and cval(s.len) != 0:
        es = LP.elem_template(ex, st, s, 0)
        e = merge(T.lt(DIM[0], s.len), es, e)
    z = ex.zero(el, 1)
    try:
        e = merge(T.lt(DIM[0], total), e, z)
    except MergeFail:
        pass
    # the spare capacity of s may be written, and the result may share the storage of s
    share = s.p is not None and cval(s.cap) != 0 and not entails(st.ctx, T.eq(s.len, s.cap))
    if share:
        ex.widen(s.p.r)
        fits = T.le(total, s.cap)
        old = LP.elem_template(ex, st, Slice(s.p, T.add(s.off, s.len), t.len, t.len), 0)
        lo = T.add(s.off, s.len)
        try:
            new = merge(fits, et, old)
        except MergeFail:
            new = None
        if new is not None:
            ex.write_range(st, s.p, lo, t.len, lambda k, d: vsubst(shift(new, -(d - 1)), {DIMA[d - 1]: k}))
        else:
            ex.touched(st, s.p.r)
    cap = T.add(total, T.app('lenspare:' + stack, tuple(ex.iters), 'I'))
    p = ex.new_region(st, stack + ':append', el, Arr(e, 0))
    if share and s.p.r is not p.r:
        ex.link({p.r}, {s.p.r})
    return ret1(Slice(p, I(0), total, cap), st)


def copy(ex, args, st, pos):
    d, s = args
    if not isinstance(s, Slice):
        raise Unsupported('copy of %r' % (s,))
    st = st.copy()
    c = T.le(d.len, s.len)
    if entails(st.ctx, c):
        n = d.len
    elif entails(st.ctx, T.le(s.len, d.len)):
        n = s.len
    else:
        n = T.ite(c, d.len, s.len)
    if cval(n) == 0 or d.p is None or s.p is None:
        return ret1(I(0), st)
    et = LP.elem_template(ex, st, s, 0)
    RC.access(ex, st, 'r', ('slice', None, s))

    def f(k, depth):
        return vsubst(shift(et, -(depth - 1)), {DIMA[depth - 1]: k})
    ex.write_range(st, d.p, d.off, n, f)
    return ret1(n, st)


# ------------------------------------------------------------------ interfaces

def invoke(ex, recv, name, iface, args, st, stack, pos):
    if isinstance(recv, Obj) and recv.k == 'iface':
        tn, v = recv.a
        ms = ex.prog.methods.get(tn)
        if ms and name in ms:
            return ex.call_named(ms[name], [v] + list(args), (), st, stack, pos)
        raise Unsupported('method %s of %s' % (name, tn))
    if isinstance(recv, Atom) and recv.sort == 'G':
        return gate_call(ex, recv, name, args, st, stack, pos)
    raise Unsupported('method %s of %r' % (name, recv))


def geval(g, l, r):
    return T.app('geval', (g, l, r), 'F')


def gate_call(ex, g, name, args, st, stack, pos):
    """the contract of circuit.Gate (each implementation is verified against it)"""
    ex.stats['contracts'].add('circuit.Gate.' + name)
    if name == 'Eval':
        l, r = ex.read(st, args[1]), ex.read(st, args[2])
        st = st.copy()
        ex.write(st, args[0], geval(g, l, r))
        return [((), st)]
    if name == 'GnarkEval':
        return ret1(geval(g, args[1], args[2]), st)
    if name == 'ID':
        return ret1(T.atom('app', ('gid', g), 'S'), st)
    if name == 'Degrees':
        return [((T.app('lenDegHL', (g,), 'I'), T.app('lenDegHR', (g,), 'I'), T.app('lenDegHP', (g,), 'I')), st)]
    if name in ('EvalManyVL', 'EvalManyVR'):
        res = args[0]
        many, one = (args[1], args[2]) if name == 'EvalManyVL' else (args[2], args[1])
        n = many.len
        ex.oblige('requires', pos, st.ctx, T.le(n, res.len), 'the destination is as long as the arguments')
        o = ex.read(st, one)
        et = LP.elem_template(ex, st, many, 0)
        RC.access(ex, st, 'r', ('slice', None, many))
        e = geval(g, et, o) if name == 'EvalManyVL' else geval(g, o, et)
        st = st.copy()
        ex.write_range(st, res.p, res.off, n, lambda k, d: vsubst(shift(e, -(d - 1)), {DIMA[d - 1]: k}))
        return [((), st)]
    raise Unsupported('gate method ' + name)


# ------------------------------------------------------------------ globals

GLOBALS = {}


def global_ptr(ex, st, name, t):
    tid = ex.prog.under(t)['e']
    return Ptr(Region('g:' + name, tid, 0, 'global'), (), ())


def global_template(ex, r):
    if r.kind == 'global':
        if r.name in GLOBALS:
            return GLOBALS[r.name](ex, r)
        st = ex.gstate
        return input_value(ex, st, r.name, r.tid, ())
    raise Unsupported('no contents for region %s' % r.name)


def input_value(ex, st, name, tid, idx):
    """an arbitrary value of the type; idx: index terms it depends on"""
    ty = ex.prog.types[tid]

    def leaf(sort, prefix=''):
        if idx:
            r = T.atom('app', (prefix + name,) + tuple(idx), sort)
        else:
            r = T.atom('var', (prefix + name,), sort)
        return T.lift(r) if sort in ('I', 'F', 'B') else r
    if ty['k'] == 'named':
        full = ty.get('pkg', '') + '.' + ty['name']
        if full in (FR, VAR):
            return leaf('F')
        if full == 'gkr-mimc/circuit.Gate':
            return leaf('G')
        if full.endswith('snark/gkr.Gate'):
            return leaf('G')
        u = ex.prog.types[ty['u']]
        if full in ('sync.WaitGroup', 'sync.Mutex') or full.startswith('github.com/consensys/gnark/'):
            return leaf('I') if full.startswith('sync') else Obj('opaque', name)
        return input_value(ex, st, name, ty['u'], idx)
    k = ty['k']
    if k == 'basic':
        if ty['n'] == 'bool':
            return leaf('B')
        if ty['n'] == 'string':
            return leaf('S')
        if ty['n'].startswith('float'):
            return Obj('float')
        return leaf('I', ('len:' if idx else 'nat:') if ty['n'].startswith('uint') else '')
    if k == 'struct':
        return Struct([input_value(ex, st, name + '.' + f['n'], f['t'], idx) for f in ty['f']])
    if k == 'slice':
        d = len(idx)
        r = Region(name, ty['e'], d, 'param')
        st.mem[r] = Arr(input_value(ex, st, name + '[]', ty['e'], tuple(DIM[:d + 1])), d)
        if idx:
            ln = T.app('len:' + name, idx, 'I')
            sp = T.app('lenspare:' + name, idx, 'I')
        else:
            ln = T.var('nat:len:' + name)
            sp = T.var('nat:spare:' + name)
        return Slice(Ptr(r, idx, ()), I(0), ln, T.add(ln, sp))
    if k == 'array':
        d = len(idx)
        return Arr(input_value(ex, st, name + '[]', ty['e'], tuple(idx) + (DIM[d],)), d, ty['n'])
    if k == 'ptr':
        e = ex.prog.types[ty['e']]
        if e['k'] == 'named' and e.get('pkg', '').startswith('github.com/consensys/gnark'):
            if e['pkg'] + '.' + e['name'] != VAR:
                return Obj('opaque', e['s'])
        d = len(idx)
        r = Region(name + '*', ty['e'], d, 'param')
        st.mem[r] = input_value(ex, st, name, ty['e'], tuple(DIM[:d]))
        return Ptr(r, idx, ())
    if k == 'iface' and not ty.get('m'):
        # interface{}: operands of the circuit API; a number, an element or a variable
        return Obj('iface', 'any', leaf('F'))
    return Obj('opaque', name)


# ------------------------------------------------------------------ maps, channels, ...

def special(ex, o, fr, st, i, k, b):
    if o == 'makechan':
        sz = ex.val(fr, st, i['size'])
        name = '%s/%s:%d.%d:chan' % (fr.stack, fr.fn.name.split('/')[-1], b, k)
        return ex.new_region(st, name, i['t'], Struct([I(0), sz, T.FALSE]))
    if o == 'send':
        c = ex.val(fr, st, i['c'])
        with RC.quiet(ex):
            v = ex.read(st, c)
        ex.oblige('channel', i['pos'], st.ctx, T.lt(v.f[0], v.f[1]), 'send does not block')
        ex.oblige('channel', i['pos'], st.ctx, T.bnot(v.f[2]), 'send on an open channel')
        RC.late(ex, st, c, i['pos'])
        with RC.quiet(ex):
            ex.write(st, Ptr(c.r, c.fam, c.path + (0,)), T.add(v.f[0], I(1)))
        return None
    if o == 'typeassert':
        x = ex.val(fr, st, i['x'])
        if isinstance(x, Obj) and x.k == 'iface':
            s = ex.prog.types[i['at']]['s']
            if x.a[0] == s:
                return (x.a[1], T.TRUE) if i['commaok'] else x.a[1]
    if o == 'makemap':
        name = '%s/%s:%d.%d:map' % (fr.stack, fr.fn.name.split('/')[-1], b, k)
        return make_map(ex, st, name, i)
    if o == 'mapupdate':
        m = ex.val(fr, st, i['x'])
        key, v = ex.val(fr, st, i['key']), ex.val(fr, st, i['v'])
        return map_update(ex, st, m, key, v)
    if o == 'lookup':
        x = ex.val(fr, st, i['x'])
        key = ex.val(fr, st, i['i'])
        return map_lookup(ex, st, x, key, i)
    raise Unsupported('%s at %s' % (o, i.get('pos')))


def make_map(ex, st, name, i):
    raise Unsupported('maps')


def map_update(ex, st, m, key, v):
    raise Unsupported('maps')


def map_lookup(ex, st, m, key, i):
    raise Unsupported('maps')


def close(ex, c, st, pos):
    if isinstance(c, Ptr):
        with RC.quiet(ex):
            v = ex.read(st, c)
        if isinstance(v, Struct) and len(v.f) == 3:
            ex.oblige('channel', pos, st.ctx, T.bnot(v.f[2]), 'the channel is closed once')
            RC.closed(ex, st, c, pos)
            st = st.copy()
            with RC.quiet(ex):
                ex.write(st, Ptr(c.r, c.fam, c.path + (2,)), T.TRUE)
    return [((), st)]


def recv(ex, x, st, i):
    with RC.quiet(ex):
        v = ex.read(st, x)
    if not isinstance(v, Struct):
        raise Unsupported('receive')
    ex.oblige('channel', i['pos'], st.ctx, T.lt(I(0), v.f[0]), 'receive does not block')
    with RC.quiet(ex):
        ex.write(st, Ptr(x.r, x.fam, x.path + (0,)), T.sub(v.f[0], I(1)))
    return Struct([]) if not i.get('commaok') else (Struct([]), T.TRUE)


def convert(ex, st, x, a, b, i):
    if isinstance(x, Atom) and x.sort == 'S':
        if b['k'] == 'slice' or b['k'] == 'basic':
            return x if b['k'] == 'basic' else Obj('bytes', x)
    raise Unsupported('conversion of %r' % (x,))
