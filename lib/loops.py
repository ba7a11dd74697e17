"""Natural loops of a function (dominator based)."""
class Loop:
    __slots__ = ('header', 'body', 'parent', 'latches', 'id', 'fn')

def analyse(f):
    order = []; seen = set()
    st = [(f.entry, iter(f.blocks[f.entry].succ))]; seen.add(f.entry)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s); st.append((s, iter(f.blocks[s].succ))); break
        else:
            order.append(b); st.pop()
    rpo = order[::-1]; num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in f.blocks[b].succ: preds[s].append(b)
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None: new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while num[a] > num[c]: a = idom[a]
                            while num[c] > num[a]: c = idom[c]
                        new = a
            if idom.get(b) != new: idom[b] = new; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in f.blocks[b].succ:
            if dom(s, b):
                l = loops.get(s)
                if l is None:
                    l = Loop(); l.header = s; l.body = {s}; l.latches = []; l.parent = None; l.fn = f; loops[s] = l
                l.latches.append(b)
                work = [b]
                while work:
                    x = work.pop()
                    if x not in l.body:
                        l.body.add(x); work += preds[x]
    ls = sorted(loops.values(), key=lambda l: num[l.header])
    for i, l in enumerate(ls): l.id = i
    for l in ls:
        for o in ls:
            if o is not l and l.header in o.body and (l.parent is None or len(o.body) < len(l.parent.body)): l.parent = o
    f.loops = loops; f.num = num; f.preds = preds
