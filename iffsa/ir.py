"""Typed access to the exported IR: functions, control flow, natural loops, layouts."""


class Block:
    __slots__ = ('key', 'term', 'insts', 'succ')


class Loop:
    __slots__ = ('header', 'body', 'latches')


class Fn:
    def __init__(self, j):
        self.name = j['name']; self.decl = j['decl']; self.local = j['local']; self.vararg = j['vararg']
        self.ret = j['ret']; self.noreturn = j['noreturn']; self.args = j['args']
        self.line = j.get('line'); self.file = j.get('file'); self.dty = j.get('dty', [])
        self.blocks = {}
        self.entry = None
        self.inst = {}
        for b in j['blocks']:
            B = Block(); B.key = b['first']; B.term = b['term']; B.insts = b['insts']
            B.succ = B.insts[-1].get('succ', []) if B.insts else []
            self.blocks[B.key] = B
            if self.entry is None:
                self.entry = B.key
            for i in B.insts:
                self.inst[i['id']] = i
        self.block_of_term = {b.term: b.key for b in self.blocks.values()}
        self._loops = None

    @property
    def loops(self):
        if self._loops is None:
            self._loops = self._find_loops()
        return self._loops

    def _find_loops(self):
        if self.entry is None:
            return {}
        order, seen = [], set()

        def dfs(k):
            st = [(k, iter(self.blocks[k].succ))]
            seen.add(k)
            while st:
                n, it = st[-1]
                for x in it:
                    if x not in seen:
                        seen.add(x)
                        st.append((x, iter(self.blocks[x].succ)))
                        break
                else:
                    order.append(n)
                    st.pop()
        dfs(self.entry)
        rpo = order[::-1]
        idx = {k: i for i, k in enumerate(rpo)}
        preds = {k: [] for k in rpo}
        for k in rpo:
            for x in self.blocks[k].succ:
                preds[x].append(k)
        dom = {k: None for k in rpo}
        dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for k in rpo[1:]:
                ds = [dom[p] for p in preds[k] if dom[p] is not None]
                n = set.intersection(*ds) | {k} if ds else {k}
                if n != dom[k]:
                    dom[k] = n
                    ch = True
        loops = {}
        for k in rpo:
            for h in self.blocks[k].succ:
                if h in dom[k]:
                    L = loops.get(h)
                    if L is None:
                        L = loops[h] = Loop(); L.header = h; L.body = {h}; L.latches = set()
                    L.latches.add(k)
                    st = [k]
                    while st:
                        n = st.pop()
                        if n not in L.body:
                            L.body.add(n)
                            st.extend(preds[n])
        self.preds = preds
        return loops


class Module:
    def __init__(self, j):
        self.j = j
        self.fns = {f['name']: Fn(f) for f in j['functions']}
        self.globals = {g['name']: g for g in j['globals']}
        self.structs = j['structs']
        self.enums = j['enums']
        self.be = j['bigendian']
        self._ginit = {}

    def body(self, name):
        f = self.fns.get(name)
        return f if f is not None and not f.decl else None

    def field(self, struct, name):
        s = self.structs.get(struct)
        if not s:
            return None
        for f in s['fields']:
            if f['name'] == name:
                return f
        return None

    def off(self, struct, name):
        f = self.field(struct, name)
        return f['off'] if f else None

    def sizeof(self, struct):
        s = self.structs.get(struct)
        return s['size'] if s else None

    def slots(self):
        """offset -> name of the function pointers of IFF_ChunkType"""
        s = self.structs.get('IFF_ChunkType')
        return {f['off']: f['name'] for f in s['fields'] if f['ty'].startswith('fn')} if s else {}

    def gbytes(self, name):
        """dict off -> entry of the flattened initialiser"""
        if name not in self._ginit:
            g = self.globals.get(name)
            d = {}
            for e in (g or {}).get('init', []):
                d[e['off']] = e
            self._ginit[name] = d
        return self._ginit[name]

    def gstring(self, name, off=0):
        for o, e in self.gbytes(name).items():
            if 'str' in e and o <= off < o + e['len']:
                s = e['str'][off - o:]
                z = s.find('\0')
                return s[:z] if z >= 0 else s
        g = self.globals.get(name)
        if g and 'init' in g:
            # all-zero string or single char entries
            out = ''
            d = self.gbytes(name)
            o = off
            while o in d and d[o].get('val', {}).get('k') == 'c' and d[o]['size'] == 1:
                v = int(d[o]['val']['v'])
                if v == 0:
                    return out
                out += chr(v)
                o += 1
            if d.get(off, {}).get('val', {}).get('k') == 'zeroagg' or (not d):
                return ''
        return None
