"""Abstract containers (meaning of the vf_vec_* / vf_list_* functions of drivers/stubs) and the loop domain used with them.

A vector is a size (a linear form) and an element region.  Of the elements only the *witnesses* are represented: arbitrary but
fixed positions (linear forms) with the values of their fields; every other element is unknown.  A property of an arbitrary
element is checked on a witness, so it holds for vectors of every length.  At loop heads positions and sizes are abstracted to
their order relative to each other (a closed set of difference constraints), so that loops of any length reach a fixpoint."""
from absint import (Observer, Throw, AnalysisError, isptr, isnum, NULL, UNDEF, ptr, ladd, lsub, lmul, latom, parts, mklin, form, INF, ren)

BIG = 2 ** 31 - 1
BADALLOC = ('E', 'std::bad_alloc', None)


def tracked(st, v):
    if isptr(v):
        return isinstance(v[1], tuple) and v[1][0] == 'T'
    if isinstance(v, tuple) and v and v[0] == 'L' and v[1] == 0 and len(v[2]) == 1:
        l = st.lab.get(v[2][0][0][1])
        return isinstance(l, tuple) and l and l[0] == 'T'
    return False


def walk(v, f):
    """apply f to every linear form and element pointer inside v"""
    if isinstance(v, tuple):
        if not v:
            return v
        if v[0] == 'L':
            return f(v)
        if v[0] == 'P':
            if isinstance(v[1], tuple) and v[1][0] == 'el':
                return f(v)
            return v
        return tuple(walk(x, f) if isinstance(x, (tuple, frozenset)) else x for x in v)
    return v


# ---------------------------------------------------------------- difference constraints
def closure(st):
    """close the difference constraints of st; False when they are inconsistent"""
    nodes, ed = ['Z'], {}

    def put(a, b, c):           # a - b <= c
        if c != INF and c < ed.get((a, b), INF):
            ed[(a, b)] = c
    for f, (lo, hi, ex) in st.cons.items():
        if len(f) == 1 and f[0][0][0] == 's' and f[0][1] == 1:
            a = f[0][0]
            if a not in nodes:
                nodes.append(a)
            put(a, 'Z', hi)
            put('Z', a, -lo)
        elif len(f) == 2 and f[0][1] == 1 and f[1][1] == -1 and f[0][0][0] == 's' and f[1][0][0] == 's':
            a, b = f[0][0], f[1][0]
            for x in (a, b):
                if x not in nodes:
                    nodes.append(x)
            put(a, b, hi)
            put(b, a, -lo)
    n = len(nodes)
    if n > 40:
        raise AnalysisError('too many symbols')
    ub = [[0 if i == j else ed.get((x, y), INF) for j, y in enumerate(nodes)] for i, x in enumerate(nodes)]
    for k in range(n):
        uk = ub[k]
        for i in range(n):
            a = ub[i][k]
            if a == INF:
                continue
            ui = ub[i]
            for j in range(n):
                if a + uk[j] < ui[j]:
                    ui[j] = a + uk[j]
    for i in range(n):
        if ub[i][i] < 0:
            return False
    D = {}
    for i, x in enumerate(nodes):
        for j, y in enumerate(nodes):
            if i != j and ub[i][j] != INF:
                D[(x, y)] = ub[i][j]
    # write back
    for i in range(1, n):
        a = nodes[i]
        k = ((a, 1),)
        lo, hi = -ub[0][i], ub[i][0]
        old = st.cons.get(k, (-INF, INF, frozenset()))
        st.cons[k] = (max(lo, old[0]), min(hi, old[1]), old[2])
        for j in range(i + 1, n):
            b = nodes[j]
            v = ladd(latom(a), latom(b), -1)
            f, s, _ = form(v)
            lo, hi = (-ub[j][i], ub[i][j]) if s > 0 else (-ub[i][j], ub[j][i])
            old = st.cons.get(f)
            ex = old[2] if old else frozenset()
            while lo in ex:
                lo += 1
            while hi in ex:
                hi -= 1
            if lo > hi:
                return False
            if lo == -INF and hi == INF and not ex:
                continue
            if old is None:
                l2, h2 = st.arange(f[0][0])
                l3, h3 = st.arange(f[1][0])
                if lo <= l2 - h3 and hi >= h2 - l3:
                    continue
            st.cons[f] = (lo, hi, ex)
    return True


def clip(lo, hi, c):
    """positions are kept as symbol + {0, 1}: their order follows from differences up to 2"""
    if lo != -INF:
        lo = c if lo > c else (-INF if lo < -c else lo)
    if hi != INF:
        hi = -c if hi < -c else (INF if hi > c else hi)
    return lo, hi


def split_off(off, esz):
    """offset -> (index, field) or None"""
    c, t = parts(off)
    if any(k % esz for _, k in t):
        return None
    fld = c % esz
    return mklin((c - fld) // esz, {a: k // esz for a, k in t}), fld


class Containers(Observer):
    """obs keys: ('vec', base, off) -> (rid, size, esz); ('ew', rid) -> witness positions (None: gone);
    ('ef', rid, wi, off) -> (size, value)"""

    prec = 2

    def cont_models(self):
        return {'vf_vec_ctor': self.v_ctor, 'vf_vec_dtor': self.v_dtor, 'vf_vec_size': self.v_size, 'vf_vec_data': self.v_data,
                'vf_vec_resize': self.v_resize, 'vf_vec_fill': self.v_fill, 'vf_vec_reserve': self.v_reserve, 'vf_vec_swap': self.v_swap,
                'vf_vec_copy': self.v_copy, 'vf_vec_erase': self.v_erase, 'vf_vec_insert': self.v_insert}

    # hooks for the rules
    def on_vec(self, I, st, what, key):
        pass

    def on_elem(self, I, st, rw, key, idx, fld):
        pass

    def bad_mem(self, I, st, msg):
        raise AnalysisError(msg)

    def known_fields(self, origin):
        return ()

    def can_fail(self, I, st):
        return True

    # ---- descriptors
    def newrid(self, st, origin):
        used = set()

        def f(v):
            if v[0] == 'P':
                used.add(v[1])
            return v
        for fr in st.frames:
            for v in fr.env.values():
                walk(v, f)
        for m in st.mem.values():
            for s, v in m.values():
                walk(v, f)
        for k, v in st.obs.items():
            if isinstance(k, tuple) and k[0] == 'vec':
                used.add(v[0])
            elif isinstance(v, tuple):
                walk(v, f)
        n = 0
        while ('el', origin, n) in used:
            n += 1
        return ('el', origin, n)

    def vec(self, I, st, p):
        if not isptr(p) or not isinstance(p[2], int):
            raise AnalysisError('container address')
        k = ('vec', p[1], p[2])
        if k not in st.obs:
            if p[1] is None:
                self.bad_mem(I, st, 'a container is used through a null pointer')
                return None
            if p[1] in self.freed(st):
                self.bad_mem(I, st, 'a container of a destroyed object is used')
                return None
            self.materialise(I, st, p)
            if k not in st.obs:
                self.bad_mem(I, st, 'a container is used before it is constructed or after it is destroyed')
                return None
        return k

    def materialise(self, I, st, p):
        pass

    def freed(self, st):
        return st.obs.get('freed', ())

    def wit(self, st, rid):
        return st.obs.get(('ew', rid), ())

    def move(self, st, a, b):
        """region a becomes b"""
        for k in [k for k in st.obs if isinstance(k, tuple) and k[0] in ('ew', 'ef') and k[1] == a]:
            v = st.obs.pop(k)
            st.obs[(k[0], b) + k[2:]] = v

    def drop(self, st, rid):
        for k in [k for k in st.obs if isinstance(k, tuple) and k[0] in ('ew', 'ef') and k[1] == rid]:
            del st.obs[k]

    def attached(self, st, rid):
        for k, v in st.obs.items():
            if isinstance(k, tuple) and k[0] == 'vec' and v[0] == rid:
                return k
        return None

    def setwit(self, st, rid, wi, idx):
        w = list(self.wit(st, rid))
        while len(w) <= wi:
            w.append(None)
        w[wi] = idx
        st.obs[('ew', rid)] = tuple(w)

    def dropfacts(self, st, rid, wi):
        for k in [k for k in st.obs if isinstance(k, tuple) and k[0] == 'ef' and k[1] == rid and k[2] == wi]:
            del st.obs[k]

    # ---- order of two positions: -1, 0, 1 or None
    def order(self, st, a, b):
        d = lsub(a, b)
        lo, hi = st.rng(d)
        if lo > 0:
            return 1
        if hi < 0:
            return -1
        if lo == hi == 0:
            return 0
        if not st.can_be(d, 0):
            return 2              # different, direction unknown
        return None

    def le(self, st, a, b, strict=False):
        """True/False/None: a <= b (a < b)"""
        lo, hi = st.rng(lsub(a, b))
        t = -1 if strict else 0
        if hi <= t:
            return True
        if lo > t:
            return False
        return None

    def fork_le(self, I, st, a, b, strict=False):
        """states deciding a <= b; each closed"""
        t = -1 if strict else 0
        out = []
        for lo, hi in ((-INF, t), (t + 1, INF)):
            s = st.copy()
            if s.assume(lsub(a, b), lo, hi) and closure(s):
                out.append(s)
        return out

    def fork_order(self, I, st, a, b):
        out = []
        for lo, hi in ((-INF, -1), (0, 0), (1, INF)):
            s = st.copy()
            if s.assume(lsub(a, b), lo, hi) and closure(s):
                out.append(s)
        return out

    def again(self, sts):
        return [(s, 'CALL') for s in sts]

    # ---- models
    def v_ctor(self, I, st, a, i, f):
        k = ('vec', a[0][1], a[0][2])
        st.obs[k] = (self.newrid(st, 'l'), 0, a[1])
        return [(st, None)]

    def v_dtor(self, I, st, a, i, f):
        k = self.vec(I, st, a[0])
        if k is None:
            return [(st, 'END')]
        self.on_vec(I, st, 'destroy', k)
        self.drop(st, st.obs[k][0])
        del st.obs[k]
        return [(st, None)]

    def v_size(self, I, st, a, i, f):
        k = self.vec(I, st, a[0])
        if k is None:
            return [(st, 'END')]
        self.on_vec(I, st, 'size', k)
        n = st.obs[k][1]
        return [(st, st.fresh(('size',), 0, BIG) if n == '?' else n)]

    def v_data(self, I, st, a, i, f):
        k = self.vec(I, st, a[0])
        if k is None:
            return [(st, 'END')]
        self.on_vec(I, st, 'size', k)
        return [(st, ptr(st.obs[k][0]))]

    def fail(self, I, st, outs, what):
        if self.can_fail(I, st):
            s = st.copy()
            I.note(s, what + ' fails: std::bad_alloc')
            outs.append((s, Throw(BADALLOC)))

    def realloc(self, st, k):
        rid, n, esz = st.obs[k]
        r2 = self.newrid(st, rid[1])
        st.obs[k] = (r2, n, esz)
        self.move(st, rid, r2)

    def v_resize(self, I, st, a, i, f):
        k = self.vec(I, st, a[0])
        if k is None:
            return [(st, 'END')]
        rid, size, esz = st.obs[k]
        n = a[1]
        if size == '?':
            return self.vague(I, st, k, n != 0)
        if not isnum(n):
            raise AnalysisError('resize to an unknown size')
        if st.rng(n)[0] < 0:
            self.bad_mem(I, st, 'an element is removed from an empty container')
            return [(st, 'END')]
        g = self.le(st, n, size)
        if g is None:
            return self.again(self.fork_le(I, st, n, size))
        w = self.wit(st, rid)
        for x in w:
            if x is None:
                continue
            if self.le(st, n, x) is None:
                return self.again(self.fork_le(I, st, n, x))
            if not g and self.le(st, size, x) is None:
                return self.again(self.fork_le(I, st, size, x))
        self.on_vec(I, st, 'change', k)
        outs = []
        if g:
            if size != n:
                for wi, x in enumerate(w):
                    if x is not None and self.le(st, n, x) and not self.le(st, size, x):
                        self.on_drop(I, st, k, wi, x)
                st.obs[k] = (rid, n, esz)
                self.on_resized(I, st, k, size, n)
                for wi, x in enumerate(w):
                    if x is not None and self.le(st, n, x) and not self.le(st, size, x):
                        self.dropfacts(st, rid, wi)
        else:
            self.fail(I, st, outs, 'growing a table')
            st.obs[k] = (rid, n, esz)
            for wi, x in enumerate(w):
                if x is not None and self.le(st, size, x) and not self.le(st, n, x):
                    self.dropfacts(st, rid, wi)
                    st.obs[('ef', rid, wi, 'garbage')] = 1
            self.realloc(st, k)
            self.on_resized(I, st, k, size, n)
        outs.append((st, None))
        return outs

    def vague(self, I, st, k, grows=True):
        """a change of a container whose contents are not tracked"""
        self.on_vec(I, st, 'change', k)
        outs = []
        if grows:
            self.fail(I, st, outs, 'growing a table')
        self.realloc(st, k)
        return outs + [(st, None)]

    def on_drop(self, I, st, k, wi, idx):
        """a witness element is removed"""
        pass

    def on_resized(self, I, st, k, old, new):
        pass

    def v_fill(self, I, st, a, i, f):
        k = self.vec(I, st, a[0])
        if k is None:
            return [(st, 'END')]
        rid, size, esz = st.obs[k]
        fr, to, x = a[1], a[2], a[3]
        for w in self.wit(st, rid):
            if w is None:
                continue
            if self.le(st, fr, w) is None:
                return self.again(self.fork_le(I, st, fr, w))
            if self.le(st, to, w) is None:
                return self.again(self.fork_le(I, st, to, w))
        items = {o - x[2]: e for o, e in st.mem.get(x[1], {}).items() if isinstance(x[2], int) and x[2] <= o < x[2] + esz}
        if any(tracked(st, v) for _, v in items.values()):
            if lsub(to, fr) != 1:
                raise AnalysisError('several copies of a tracked value')
            hit = next((wi for wi, w in enumerate(self.wit(st, rid)) if w is not None and self.le(st, fr, w) and not self.le(st, to, w)), None)
            if hit is not None:
                self.dropfacts(st, rid, hit)
            self.putfact(I, st, rid, hit, fr, items)
            return [(st, None)]
        for wi, w in enumerate(self.wit(st, rid)):
            if w is not None and self.le(st, fr, w) and not self.le(st, to, w):
                self.dropfacts(st, rid, wi)
                for o, (sz, v) in st.mem.get(x[1], {}).items():
                    if isinstance(x[2], int) and x[2] <= o < x[2] + esz:
                        st.obs[('ef', rid, wi, o - x[2])] = (sz, v)
        return [(st, None)]

    def v_reserve(self, I, st, a, i, f):
        k = self.vec(I, st, a[0])
        if k is None:
            return [(st, 'END')]
        self.on_vec(I, st, 'change', k)
        outs = []
        self.fail(I, st, outs, 'growing a table')
        self.realloc(st, k)
        return outs + [(st, None)]

    def v_swap(self, I, st, a, i, f):
        k, l = self.vec(I, st, a[0]), self.vec(I, st, a[1])
        if k is None or l is None:
            return [(st, 'END')]
        self.on_vec(I, st, 'change', k)
        self.on_vec(I, st, 'change', l)
        st.obs[k], st.obs[l] = st.obs[l], st.obs[k]
        if '?' in (st.obs[k][1], st.obs[l][1]):
            for x in (k, l):
                st.obs[x] = (st.obs[x][0], '?', st.obs[x][2])
        return [(st, None)]

    def v_copy(self, I, st, a, i, f):
        k, l = self.vec(I, st, a[0]), self.vec(I, st, a[1])
        if k is None or l is None:
            return [(st, 'END')]
        self.on_vec(I, st, 'change', k)
        self.on_vec(I, st, 'size', l)
        outs = []
        self.fail(I, st, outs, 'copying a table')
        self.drop(st, st.obs[k][0])
        src = st.obs[l]
        r = self.newrid(st, src[0][1])
        st.obs[k] = (r, src[1], src[2])
        for kk in [kk for kk in st.obs if isinstance(kk, tuple) and kk[0] in ('ew', 'ef') and kk[1] == src[0]]:
            st.obs[(kk[0], r) + kk[2:]] = st.obs[kk]
        return outs + [(st, None)]

    def v_erase(self, I, st, a, i, f):
        k = self.vec(I, st, a[0])
        if k is None:
            return [(st, 'END')]
        rid, size, esz = st.obs[k]
        if size == '?':
            return self.vague(I, st, k, False)
        b, e = a[1], a[2]
        if e == size:
            return self.v_resize(I, st, [a[0], b], i, f)
        if self.le(st, 0, b) is not True or self.le(st, b, e) is not True or self.le(st, e, size) is not True:
            self.bad_mem(I, st, 'elements are erased outside a container')
            return [(st, 'END')]
        w = self.wit(st, rid)
        for x in w:
            if x is None:
                continue
            for y in (b, e):
                if self.le(st, y, x) is None:
                    return self.again(self.fork_le(I, st, y, x))
        self.on_vec(I, st, 'change', k)
        nw = []
        for wi, x in enumerate(w):
            if x is None:
                nw.append(None)
            elif self.le(st, e, x):
                nw.append(lsub(x, lsub(e, b)))
            elif self.le(st, b, x):
                self.on_drop(I, st, k, wi, x)
                self.dropfacts(st, rid, wi)
                nw.append(None)
            else:
                nw.append(x)
        if w:
            st.obs[('ew', rid)] = tuple(nw)
        st.obs[k] = (rid, lsub(size, lsub(e, b)), esz)
        self.on_resized(I, st, k, size, st.obs[k][1])
        return [(st, None)]

    def v_insert(self, I, st, a, i, f):
        k = self.vec(I, st, a[0])
        if k is None:
            return [(st, 'END')]
        rid, size, esz = st.obs[k]
        if size == '?':
            return self.vague(I, st, k)
        p, n = a[1], a[2]
        if self.le(st, 0, p) is not True or self.le(st, p, size) is not True:
            self.bad_mem(I, st, 'an element is inserted outside a container')
            return [(st, 'END')]
        w = self.wit(st, rid)
        for x in w:
            if x is not None:
                for y in (p, size, ladd(size, n)):
                    if self.le(st, y, x) is None:
                        return self.again(self.fork_le(I, st, y, x))
        self.on_vec(I, st, 'change', k)
        outs = []
        self.fail(I, st, outs, 'growing a table')
        if w:        # elements move; positions beyond the old end stay and get new contents
            for wi, x in enumerate(w):
                if x is not None and self.le(st, size, x) and not self.le(st, ladd(size, n), x):
                    self.dropfacts(st, rid, wi)
                    st.obs[('ef', rid, wi, 'garbage')] = 1
            st.obs[('ew', rid)] = tuple(None if x is None else (ladd(x, n) if self.le(st, p, x) and not self.le(st, size, x) else x) for x in w)
        st.obs[k] = (rid, ladd(size, n), esz)
        self.realloc(st, k)
        self.on_resized(I, st, k, size, st.obs[k][1])
        return outs + [(st, None)]

    # ---- element accesses
    def locate(self, I, st, rw, p):
        """-> (states, None) to retry, or (None, (key, rid, idx, fld, witness or None)), or (None, None) on an error"""
        rid = p[1]
        k = self.attached(st, rid)
        if k is None:
            self.bad_mem(I, st, 'an element is accessed through a reference or iterator that is no longer valid')
            return None, None
        esz = st.obs[k][2]
        r = split_off(p[2], esz)
        if r is None:
            raise AnalysisError('element offset')
        idx, fld = r
        size = st.obs[k][1]
        if size != '?' and (self.le(st, 0, idx) is not True or self.le(st, idx, size, True) is not True):
            self.bad_mem(I, st, 'an element outside the table is accessed')
            return None, None
        hit = None
        for wi, w in enumerate(self.wit(st, rid)):
            if w is None:
                continue
            o = self.order(st, idx, w)
            if o is None:
                return self.fork_order(I, st, idx, w), None
            if o == 0:
                hit = wi
        return None, (k, rid, idx, fld, hit)

    def on_access(self, I, st, rw, p, sz, ins, v=None):
        if not isptr(p):
            return None
        b = p[1]
        if b is None:
            self.bad_mem(I, st, 'a null pointer is dereferenced')
            I.ended += 1
            return []
        if b in self.freed(st):
            self.bad_mem(I, st, 'an object is used after it was destroyed')
            I.ended += 1
            return []
        if not (isinstance(b, tuple) and b[0] == 'el'):
            return None
        sts, r = self.locate(I, st, rw, p)
        if sts is not None:
            return sts
        if r is None:
            I.ended += 1
            return []
        k, rid, idx, fld, hit = r
        self.on_elem(I, st, rw, k, idx, fld)
        if ins['op'] in ('call', 'invoke'):
            return None
        if rw == 'r':
            I.setv(st, ins, self.getfact(I, st, rid, hit, fld, ins['ty']))
            return [st]
        self.putfact(I, st, rid, hit, idx, {fld: (sz, v)})
        st.frames[-1].idx += 1
        return [st]

    def getfact(self, I, st, rid, hit, fld, ty):
        if hit is not None:
            e = st.obs.get(('ef', rid, hit, fld))
            if e is not None:
                if not isinstance(e, tuple) or e[0] != (1 if ty == 'i1' else I_size(ty)):
                    raise AnalysisError('element accessed with another size')
                return e[1]
        v = I.unk(st, ty, ('el', rid[1], fld))
        if hit is not None:
            st.obs[('ef', rid, hit, fld)] = (I_size(ty), v)
        return v

    def putfact(self, I, st, rid, hit, idx, items):
        if hit is None:
            if any(tracked(st, v) for _, v in items.values()):
                w = self.wit(st, rid)
                if len(w) > 4:
                    raise AnalysisError('too many tracked elements')
                hit = len(w)
                for n, x in enumerate(w):
                    if x is None:
                        hit = n
                        break
                self.setwit(st, rid, hit, idx)
                self.dropfacts(st, rid, hit)
            else:
                return
        st.obs.pop(('ef', rid, hit, 'garbage'), None)
        for o, e in items.items():
            st.obs[('ef', rid, hit, o)] = e

    def on_memcpy(self, I, st, d, s, n, ins):
        de = isptr(d) and isinstance(d[1], tuple) and d[1][0] == 'el'
        se = isptr(s) and isinstance(s[1], tuple) and s[1][0] == 'el'
        if not de and not se:
            return None
        if not isinstance(n, int):
            raise AnalysisError('element copy of unknown size')
        items = {}
        if se:
            sts, r = self.locate(I, st, 'r', s)
            if sts is not None:
                return sts
            if r is None:
                I.ended += 1
                return []
            k, rid, idx, fld, hit = r
            if de:
                sts, r2 = self.locate(I, st, 'w', d)
                if sts is not None:
                    return sts
                if r2 is None:
                    I.ended += 1
                    return []
            self.on_elem(I, st, 'r', k, idx, fld)
            if hit is not None:
                for kk, e in list(st.obs.items()):
                    if isinstance(kk, tuple) and kk[0] == 'ef' and kk[1] == rid and kk[2] == hit and isinstance(kk[3], int) and fld <= kk[3] < fld + n:
                        items[kk[3] - fld] = e
            for o, ty in self.known_fields(rid[1]):
                if fld <= o < fld + n and o - fld not in items:
                    items[o - fld] = (I_size(ty), I.unk(st, ty, ('el', rid[1], o)))
        else:
            if s[1] in self.freed(st) or s[1] is None:
                self.bad_mem(I, st, 'an object is used after it was destroyed')
                I.ended += 1
                return []
            for o, e in st.mem.get(s[1], {}).items():
                if isinstance(s[2], int) and s[2] <= o < s[2] + n:
                    items[o - s[2]] = e
        if de:
            sts, r = self.locate(I, st, 'w', d)
            if sts is not None:
                return sts
            if r is None:
                I.ended += 1
                return []
            k, rid, idx, fld, hit = r
            self.on_elem(I, st, 'w', k, idx, fld)
            self.putfact(I, st, rid, hit, idx, {fld + o: e for o, e in items.items()})
        else:
            dm = I.objmem(st, d[1])
            if not isinstance(d[2], int):
                raise AnalysisError('element copy target')
            for kk in [kk for kk, (z, _) in dm.items() if kk < d[2] + n and d[2] < kk + z]:
                del dm[kk]
            for o, e in items.items():
                dm[d[2] + o] = e
        r = I.after_call(st, None)
        return [st] if r is None else r

    # ---- loops
    def on_loophead(self, I, st):
        # values of dead locals do not matter
        fr = st.frames[-1]
        lv = fr.fn.live_at(fr.blk, fr.idx)
        fr.env = {k: v for k, v in fr.env.items() if k in lv}
        self.gc(st)
        self.forget(I, st)
        self.renumber(st)
        if not closure(st):
            return 'DROP'
        loc = tuple((fr.fn.name, fr.blk) for fr in st.frames)
        hist = I.__dict__.setdefault('lh', {}).setdefault(loc, {})
        forms = {}          # value -> groups it belongs to
        esz = {}
        for k, v in st.obs.items():
            if isinstance(k, tuple) and k[0] == 'vec':
                esz[v[0]] = v[2]

        def add(v, g):
            forms.setdefault(v, set()).add(g)

        def coll(g):
            def c(v):
                if v[0] == 'L':
                    add(v, g)
                else:
                    e = esz.get(v[1])
                    if e:
                        r = split_off(v[2], e)
                        if r:
                            add(r[0], self.group(v[1]))
                return v
            return c
        for k, v in st.obs.items():
            if isinstance(k, tuple) and k[0] == 'vec':
                if v[1] != '?':
                    add(v[1], self.group(v[0]))
            elif isinstance(k, tuple) and k[0] == 'ew':
                for x in v:
                    if x is not None:
                        add(x, self.group(k[1]))
            elif isinstance(v, tuple):
                walk(v, coll('keys'))

        def slot(key, v, wide):
            if isinstance(v, int):
                if wide and v != 0:
                    h = hist.setdefault(key, set())
                    h.add(v)
                    if len(h) > 2:
                        add(v, '*')
                    else:
                        keep.add(v)
            else:
                walk(v, coll('*'))
        keep = {0}
        for d, fr in enumerate(st.frames):
            for k, v in fr.env.items():
                slot((d, k), v, wide_at(fr.fn, k))
        for b, m in st.mem.items():
            al = isinstance(b, tuple) and b[0] == 'a'
            for o, (s, v) in m.items():
                if al:
                    slot((b, o), v, s >= 4)
                elif not isinstance(v, int):
                    walk(v, coll('*'))
        vals = [v for v in forms if v != 0]
        vals.sort(key=lambda v: (repr(parts(v)[1]), parts(v)[0]))
        mp, reps = {}, []
        cons = {}
        for v in vals:
            pv = ladd(v, -1)
            if pv in mp and mp[pv][1] == 0:
                mp[v] = ladd(mp[pv], 1)
                for r in reps:
                    if r[1] == pv:
                        r[2].update(forms[v])
                continue
            lab = ('pos',)
            if not isinstance(v, int) and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1:
                lab = st.lab.get(v[2][0][0][1])
            z = st.fresh(lab)
            mp[v] = z
            reps.append((z, v, set(forms[v])))
        # bounds are kept relative to the constants that stay
        tlo = {-1} | keep | {c + 1 for c in keep}
        thi = keep | {c - 1 for c in keep}
        for j, (z, v, g) in enumerate(reps):
            lo, hi = st.rng(v)
            lo = max((t for t in tlo if t <= lo), default=-BIG)
            hi = min((t for t in thi if t >= hi), default=BIG)
            ex = frozenset({0}) if 0 in st.excl(v) and lo < 0 < hi else frozenset()
            cons[z[2]] = (lo, hi, ex)
            for (z2, v2, g2) in reps[:j]:
                if not ('*' in g or '*' in g2 or g & g2):
                    continue
                d = lsub(v2, v)
                lo, hi = st.rng(d)
                lo, hi = clip(lo, hi, self.prec)
                ex = frozenset({0}) if lo < 0 < hi and not st.can_be(d, 0) else frozenset()
                if lo != -INF or hi != INF or ex:
                    f, sg, _ = form(lsub(z2, z))
                    cons[f] = (lo, hi, ex) if sg > 0 else (-hi, -lo, ex)

        def rep(v):
            if v[0] == 'L':
                return mp[v]
            e = esz.get(v[1])
            if e:
                r = split_off(v[2], e)
                if r and r[0] in mp:
                    return ('P', v[1], ladd(lmul(mp[r[0]], e), r[1]))
            elif not isinstance(v[2], int):
                return ('P', v[1], 0)          # into a container that no longer exists: any use is an error
            return v

        def repslot(v, wide):
            if isinstance(v, int):
                return mp.get(v, v) if wide else v
            return walk(v, rep)
        for fr in st.frames:
            for k, v in fr.env.items():
                fr.env[k] = repslot(v, wide_at(fr.fn, k))
        for b, m in st.mem.items():
            al = isinstance(b, tuple) and b[0] == 'a'
            for o, (s, v) in m.items():
                if al or not isinstance(v, int):
                    m[o] = (s, repslot(v, al and s >= 4))
        for k, v in list(st.obs.items()):
            if isinstance(k, tuple) and k[0] == 'vec':
                st.obs[k] = (v[0], mp.get(v[1], v[1]), v[2])
            elif isinstance(k, tuple) and k[0] == 'ew':
                st.obs[k] = tuple(None if x is None else mp.get(x, x) for x in v)
            elif isinstance(v, tuple):
                st.obs[k] = walk(v, rep)
        st.cons = cons
        return None

    def renumber(self, st):
        """canonical names of the element regions"""
        mp, cnt = {}, {}

        def name(r):
            if r not in mp:
                n = cnt.get(r[1], 0)
                cnt[r[1]] = n + 1
                mp[r] = ('el', r[1], n)
            return mp[r]
        for k in sorted((k for k in st.obs if isinstance(k, tuple) and k[0] == 'vec'), key=repr):
            name(st.obs[k][0])

        def f(v):
            if v[0] == 'P':
                return ('P', name(v[1]), v[2])
            return v
        for fr in st.frames:
            for k in sorted(fr.env):
                fr.env[k] = walk(fr.env[k], f)
        for b in sorted(st.mem, key=repr):
            m = st.mem[b]
            for o in sorted(m):
                m[o] = (m[o][0], walk(m[o][1], f))
        if all(a == b for a, b in mp.items()):
            return
        new = {}
        for k, v in st.obs.items():
            if isinstance(k, tuple) and k[0] == 'vec':
                v = (name(v[0]),) + v[1:]
            elif isinstance(k, tuple) and k[0] in ('ew', 'ef'):
                k = (k[0], name(k[1])) + k[2:]
                v = walk(v, f)
            elif isinstance(v, tuple):
                v = walk(v, f)
            new[k] = v
        st.obs = new

    def forget(self, I, st):
        pass

    def group(self, rid):
        return rid

    def gc(self, st):
        """forget disequalities of unknown pointers that are no longer held"""
        ne = st.obs.get('ptrne')
        if not ne:
            return
        live = set()

        def see(v):
            if isinstance(v, tuple):
                if v and v[0] == 'P':
                    live.add(v[1])
                else:
                    for x in v:
                        if isinstance(x, tuple):
                            see(x)
        for fr in st.frames:
            lv = fr.fn.live_at(fr.blk, fr.idx)
            for k, v in fr.env.items():
                if fr is not st.frames[-1] or k in lv:
                    see(v)
        for b, m in st.mem.items():
            for z, v in m.values():
                see(v)
        for k, v in st.obs.items():
            if k != 'ptrne':
                see(v)
        ne = frozenset(x for x in ne if all(not (isinstance(p[1], tuple) and p[1][0] == 's') or p[1] in live for p in x))
        if ne:
            st.obs['ptrne'] = ne
        else:
            del st.obs['ptrne']
        self.live = live


def wide_at(fn, k):
    t = fn.__dict__.get('_wide')
    if t is None:
        t = fn._wide = {i['id'] for b in fn.blocks for i in (fn.blocks[b] if isinstance(fn.blocks, dict) else b) if i.get('ty') in ('i32', 'i64')}
    return k in t


def I_size(ty):
    if ty == 'p':
        return 8
    w = int(ty[1:])
    return max(1, w // 8)
