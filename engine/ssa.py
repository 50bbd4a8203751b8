"""Loading of the extracted SSA, control flow helpers."""
import json


class Fn:
    pass


class Loop:
    def __init__(self, header):
        self.header = header
        self.body = {header}
        self.depth = 0


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        self.methods = d['methods']
        self.globals = d['globals']
        self.fns = {}
        self.byname = {t['s']: i for i, t in enumerate(self.types)}
        for f in d['funcs']:
            g = Fn()
            g.name = f['name']
            g.params = f['params']
            g.free = f['free']
            g.results = f['results']
            g.blocks = f['blocks']
            g.pos = f['pos']
            g.pkg = f.get('pkg')
            g.loops = None
            self.fns[g.name] = g

    def under(self, t):
        ty = self.types[t]
        while ty['k'] == 'named':
            ty = self.types[ty['u']]
        return ty

    def cfg(self, f):
        if f.loops is not None:
            return
        n = len(f.blocks)
        succ = [b['succ'] for b in f.blocks]
        # reverse post order
        seen, order = set(), []

        def dfs(b):
            st = [(b, iter(succ[b]))]
            seen.add(b)
            while st:
                x, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(succ[s])))
                        break
                else:
                    order.append(x)
                    st.pop()
        dfs(0)
        order.reverse()
        f.rpo = {b: i for i, b in enumerate(order)}
        f.order = order
        # dominators
        preds = {b: [p for p in f.blocks[b]['pred'] if p in f.rpo] for b in order}
        dom = {b: set(order) for b in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                s = set.intersection(*[dom[p] for p in preds[b]]) | {b}
                if s != dom[b]:
                    dom[b] = s
                    ch = True
        loops = {}
        for b in order:
            for s in succ[b]:
                if s in dom[b]:
                    L = loops.setdefault(s, Loop(s))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in L.body:
                            L.body.add(x)
                            st.extend(preds[x])
                elif f.rpo[s] <= f.rpo[b]:
                    raise ValueError('irreducible flow in ' + f.name)
        f.loops = loops
        hd = sorted(loops, key=lambda h: f.rpo[h])
        for i, h in enumerate(hd):
            loops[h].ordinal = i
