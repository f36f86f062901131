"""Trusted contracts for the C++ runtime and standard library (see DESIGN.md,
"assumed contracts").  Each handler returns a list of Outcomes."""
import re
from .term import *
from .sym import *
from .sym import PI
from . import solver

LAYOUT = {}      # demangled type -> (size, {off: irtype})


def deflayout(ty, size, cells):
    LAYOUT[ty] = (size, cells)


for _t, _n, _ir in (("double", 8, "double"), ("float", 4, "float"), ("long", 8, "i64"), ("unsigned long", 8, "i64"),
                    ("int", 4, "i32"), ("unsigned int", 4, "i32"), ("char", 1, "i8"), ("unsigned char", 1, "i8"), ("bool", 1, "i8"),
                    ("long long", 8, "i64"), ("unsigned long long", 8, "i64"), ("short", 2, "i16"), ("unsigned short", 2, "i16")):
    deflayout(_t, _n, {0: _ir})


def split_args(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "<([{":
            d += 1
        elif c in ">)]}":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


STRUCTS = {}     # identified struct types of the current verification unit


def struct_layout(ty):
    for pre in ("struct.", "class."):
        d = STRUCTS.get(pre + ty)
        if d is not None:
            break
    else:
        return None
    cells = {}

    def put(off, t):
        if isinstance(t, str) and t.startswith("%"):
            n = t[1:]
            if n.startswith("class.std::vector") or n.startswith("class.std::__cxx11::basic_string"):
                cells[off] = "vec"
                return True
            d = STRUCTS.get(n)
            return d is not None and all(put(off + o, x) for o, x in d[1])
        if isinstance(t, str):
            if t in ("double", "float", "ptr", "i8", "i16", "i32", "i64"):
                cells[off] = t
                return True
            return False
        if t[0] == "array":
            if t[2] == "i8" and t[1] < 8:
                return True               # padding
            return all(put(off + i * t[3], t[2]) for i in range(t[1]))
        if t[0] == "struct":
            return all(put(off + o, x) for o, x in t[2])
        return False

    if not all(put(o, x) for o, x in d[1]):
        return None
    return d[0], cells


def layout(ty):
    ty = ty.strip()
    if ty.endswith(" const"):
        ty = ty[:-6]
    if ty in LAYOUT:
        return LAYOUT[ty]
    r = None
    if ty.endswith("*"):
        r = (8, {0: "ptr"})
    elif ty.startswith("std::array<"):
        a = split_args(ty[11:-1])
        n = int(re.match(r"\d+", a[1]).group())
        sz, l = layout(a[0])
        r = (sz * n, {i * sz + o: t for i in range(n) for o, t in l.items()})
    elif ty.startswith("std::pair<"):
        a = split_args(ty[10:-1])
        s1, l1 = layout(a[0])
        s2, l2 = layout(a[1])
        c = dict(l1)
        c.update({s1 + o: t for o, t in l2.items()})
        r = (s1 + s2, c)
    elif ty.startswith("std::tuple<"):
        a = split_args(ty[11:-1])
        c, off = {}, 0
        for t in reversed(a):
            s, l = layout(t)
            al = 8 if s >= 8 else s
            off = -(-off // al) * al
            c.update({off + o: x for o, x in l.items()})
            off += s
        r = (-(-off // 8) * 8, c)
    elif ty.startswith("std::vector<"):
        r = (24, {0: "vec"})
    elif ty.startswith("std::__cxx11::basic_string<"):
        r = (32, {0: "vec"})
    elif ty.startswith("__gnu_cxx::__normal_iterator<"):
        r = (8, {0: "ptr"})
    elif ty.startswith("IntegratorXX::Quadrature<"):
        r = (48, {0: "vec", 24: "vec"})
    elif ty.startswith("std::shared_ptr<"):
        r = (16, {0: "ptr", 8: "ptr"})
    elif ty.startswith("std::unique_ptr<"):
        r = (8, {0: "ptr"})
    if r is None:
        r = struct_layout(ty)
    if r is None:
        raise Unsupported("layout of %s" % ty)
    LAYOUT[ty] = r
    return r


def match_close(s, i):
    """index just past the template argument list starting at s[i] == '<'"""
    d = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and s[i - 1] != "-":
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    return -1


def parse_member(dem, cls):
    """'... std::vector<T..>::name<...>(args) const' -> (targs, name, [arg types])"""
    d = 0
    i = 0
    while i < len(dem):
        if d == 0 and dem.startswith(cls + "<", i) and (i == 0 or dem[i - 1] in " "):
            e = match_close(dem, i + len(cls))
            if e > 0 and dem.startswith("::", e):
                targs = dem[i + len(cls) + 1:e - 1]
                rest = dem[e + 2:]
                # member name
                m = re.match(r"(operator\[\]|operator==|operator!=|operator\+=|operator=|operator\*|~?\w+)", rest)
                if not m:
                    return None
                name = m.group(1)
                j = m.end()
                if j < len(rest) and rest[j] == "<":
                    j = match_close(rest, j)
                if j >= len(rest) or rest[j] != "(":
                    return None
                # argument list
                k, dd = j, 0
                while k < len(rest):
                    if rest[k] == "(":
                        dd += 1
                    elif rest[k] == ")":
                        dd -= 1
                        if dd == 0:
                            break
                    k += 1
                return split_args(targs), name, split_args(rest[j + 1:k])
        c = dem[i]
        if c in "<(":
            d += 1
        elif c in ">)":
            d -= 1
        i += 1
    return None


def ret(st, v=None):
    return [Outcome(st, "ret", v)]


def elemptr(p, idx, es, off=0):
    return Ptr(p.root, p.path + ((idx, es), off))


def base_of(p):
    """vector object and index an element pointer refers to"""
    if isinstance(p, Ptr) and len(p.path) >= 3:
        return Ptr(p.root, p.path[:-2]), p.path[-2][0], p.path[-1]
    return None


def read_cells(eng, st, p, size, lay):
    """cells of an object of given layout at p -> {off: value}"""
    out = {}
    for o, ty in lay.items():
        q = p.plus(o) if o else p
        if len(q.path) == 1 and q.root in st.mem:
            v = eng.getcell(st, q.root, q.path[0], ty)
        else:
            v = st.read(q, ty)
        if v is UNDEF:
            continue
        if isinstance(v, T) and ty in SORT and v.sort == "I" and v.op == "const" and v.args[0] == 0:
            v = R(0)
        if isinstance(v, T) and v.sort == "B":
            v = ite(v, I(1), I(0))
        out[o] = v
    return out


def store_elem(v, idx, cells):
    return Vec(v.len, EStore(v.el, idx, cells), v.esize, v.layout)


def table(root, es, lay):
    """contents of a constant table of the code"""
    return ESpec("table " + root, lambda st, a, idx, off, ty: app("tbl:%s@%d" % (root, off), (idx,), SORT.get(ty, "I")))


def range_of(eng, st, a, b, es=None, lay=None):
    """[a,b) given as element pointers -> (elements, start, count, esize, layout)"""
    if es and isinstance(a, Ptr) and isinstance(b, Ptr) and a.root == b.root and a.root in eng.globals and eng.globals[a.root].get("const") and len(a.path) == len(b.path) == 1:
        o0, o1 = a.path[0], b.path[0]
        if o0 % es or o1 % es:
            raise Unsupported("misaligned table range")
        eng.oblig(st, TRUE if 0 <= o0 <= o1 <= eng.globals[a.root]["size"] else FALSE, "range within the constant table", "safety")
        return table(a.root, es, lay), I(o0 // es), I((o1 - o0) // es), es, lay
    if a is NULL and b is NULL:
        return EUninit(), I(0), I(0), 8, None
    x, y = base_of(a), base_of(b)
    if x is None or y is None:
        # a raw local array
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.root == b.root and len(a.path) == len(b.path) == 1:
            return ("raw", a, b.path[0] - a.path[0])
        raise Unsupported("iterator range %r %r" % (a, b))
    if not x[0].same(y[0]):
        raise Unsupported("iterator range over different containers")
    v = st.readvec(x[0])
    n = sub(y[1], x[1])
    eng.oblig(st, and_(ge(x[1], I(0)), ge(n, I(0)), le(y[1], v.len)), "iterator range within its container", "safety")
    return v.el, x[1], n, v.esize, v.layout


def slice_(el, start):
    if isinstance(start, T) and start.op == "const" and start.args[0] == 0:
        return el
    return ESlice(el, start)


def vec_member(eng, st, args, f, m, path):
    dem = f["dem"]
    p = parse_member(dem, "std::vector")
    if p is None:
        return NotImplemented
    targs, name, at = p
    T_ = targs[0]
    if T_ == "bool":
        raise Unsupported("std::vector<bool>")
    es, lay = layout(T_)
    # sret of non-trivial values never happens for the members handled here
    self_ = args[0]
    nat = [a.replace("std::allocator<%s> const&" % T_, "ALLOC") for a in at]
    vty = "std::vector<%s, std::allocator<%s>>" % (T_, T_)

    def setv(v):
        st.write(self_, v)

    if name == "vector" or name == "~vector":
        if name[0] == "~":
            return ret(st)
        if not nat or nat == ["ALLOC"]:
            setv(Vec(I(0), EUninit(), es, lay))
            return ret(st)
        if nat[0] == vty + " const&":
            v = st.readvec(args[1])
            setv(Vec(v.len, v.el, es, lay))
            return ret(st)
        if nat[0] == vty + "&&":
            v = st.readvec(args[1])
            setv(Vec(v.len, v.el, es, lay))
            st.write(args[1], Vec(I(0), EUninit(), es, lay))
            return ret(st)
        if nat[0] == "unsigned long":
            n = args[1]
            st.assume(le(n, I(1 << 59)))       # otherwise std::length_error / bad_alloc
            if len(nat) > 1 and nat[1] == T_ + " const&":
                setv(Vec(n, EVal(read_cells(eng, st, args[2], es, lay)), es, lay))
            else:
                setv(Vec(n, EZero(), es, lay))
            return ret(st)
        if nat[0].startswith("std::initializer_list<"):
            return assign_il(eng, st, self_, args[1], args[2], es, lay)
        if len(nat) >= 2 and nat[0] == nat[1]:
            return assign_range(eng, st, self_, args[1], args[2], es, lay)
        raise Unsupported("vector constructor %s" % nat)
    if name in ("begin", "cbegin"):
        v = st.readvec(self_)
        return ret(st, elemptr(self_, I(0), es))
    if name in ("end", "cend"):
        v = st.readvec(self_)
        return ret(st, elemptr(self_, v.len, es))
    if name == "data":
        st.readvec(self_)
        return ret(st, elemptr(self_, I(0), es))
    if name == "size":
        return ret(st, st.readvec(self_).len)
    if name == "empty":
        return ret(st, eq(st.readvec(self_).len, I(0)))
    if name == "operator[]":
        st.readvec(self_)
        return ret(st, elemptr(self_, args[1], es))
    if name == "at":
        v = st.readvec(self_)
        c = lt(args[1], v.len)
        d = st.decide(c)
        if d is True:
            return ret(st, elemptr(self_, args[1], es))
        if d is False:
            return [Outcome(st, "throw", "std::out_of_range")]
        s2 = st.fork()
        st.branch(c)
        s2.branch(not_(c))
        return [Outcome(st, "ret", elemptr(self_, args[1], es)), Outcome(s2, "throw", "std::out_of_range")]
    if name == "front":
        v = st.readvec(self_)
        eng.oblig(st, gt(v.len, I(0)), "front() of an empty vector", "safety")
        return ret(st, elemptr(self_, I(0), es))
    if name == "back":
        v = st.readvec(self_)
        eng.oblig(st, gt(v.len, I(0)), "back() of an empty vector", "safety")
        return ret(st, elemptr(self_, sub(v.len, I(1)), es))
    if name in ("push_back", "emplace_back"):
        v = st.readvec(self_)
        if len(at) == 1 and at[0].replace(" const&", "").replace("&&", "").replace("&", "") == T_:
            cells = read_cells(eng, st, args[1], es, lay)
        elif len(at) == 1 and len(lay) == 1:
            src = at[0].replace(" const&", "").replace("&&", "").replace("&", "")
            if layout(src)[1] != lay:
                raise Unsupported("emplace_back with conversion %s" % dem[:160])
            cells = read_cells(eng, st, args[1], es, lay)
        elif len(at) > 1 and T_.startswith("std::pair<") and len(at) == 2:
            cells = {}
            o = 0
            for a, t in zip(args[1:], at):
                t = t.replace(" const&", "").replace("&&", "").replace("&", "")
                s_, l_ = layout(t)
                for k, vv in read_cells(eng, st, a, s_, l_).items():
                    cells[o + k] = vv
                o += s_
        else:
            # run the element constructor on a temporary
            tmp = Ptr(st.new_root("elem:" + path), (0,))
            ctor = find_ctor(eng, T_, at)
            if ctor is None:
                raise Unsupported("emplace_back(%s) of %s" % (at, T_))
            outs = []
            for o in eng.call(st, ctor, [tmp] + list(args[1:]), path + ">ctor"):
                if o.kind != "ret":
                    outs.append(o)
                    continue
                s2 = o.st
                cells = read_cells(eng, s2, tmp, es, lay)
                v = s2.readvec(self_)
                s2.write(self_, Vec(add(v.len, I(1)), EStore(v.el, v.len, cells), es, lay))
                outs.append(Outcome(s2, "ret", elemptr(self_, v.len, es)))
            return outs
        st.write(self_, Vec(add(v.len, I(1)), EStore(v.el, v.len, cells), es, lay))
        return ret(st, elemptr(self_, v.len, es))
    if name == "pop_back":
        v = st.readvec(self_)
        eng.oblig(st, gt(v.len, I(0)), "pop_back() of an empty vector", "safety")
        st.write(self_, Vec(sub(v.len, I(1)), v.el, es, lay))
        return ret(st)
    if name == "insert":
        pos = base_of(args[1])
        v = st.readvec(self_)
        if pos is None or not pos[0].same(self_):
            raise Unsupported("insert position")
        if len(at) == 3 and at[1] == at[2]:
            r = range_of(eng, st, args[2], args[3], es, lay)
            if r[0] == "raw":
                raise Unsupported("insert of raw range")
            el, s0, n, _, _ = r
        elif len(at) == 2:
            el, s0, n = EVal(read_cells(eng, st, args[2], es, lay)), I(0), I(1)
        else:
            raise Unsupported("vector::insert %s" % at)
        i = pos[1]
        eng.oblig(st, and_(ge(i, I(0)), le(i, v.len)), "insert position within the vector", "safety")
        if st.decide(eq(i, v.len)) is True:
            nv = Vec(add(v.len, n), ECat(v.el, v.len, el, s0, n), es, lay)
        else:
            # prefix, block, shifted suffix
            nv = Vec(add(v.len, n), ECat(ECat(v.el, i, el, s0, n), add(i, n), v.el, i, sub(v.len, i)), es, lay)
        st.write(self_, nv)
        return ret(st, elemptr(self_, i, es))
    if name in ("reserve", "shrink_to_fit"):
        return ret(st)
    if name == "clear":
        st.write(self_, Vec(I(0), EUninit(), es, lay))
        return ret(st)
    if name == "resize":
        v = st.readvec(self_)
        n = args[1]
        fill = EVal(read_cells(eng, st, args[2], es, lay)) if len(at) > 1 else EZero()
        st.assume(le(n, I(1 << 59)))
        if st.decide(le(n, v.len)) is True:
            nv = Vec(n, v.el, es, lay)
        elif isconst(v.len) and cval(v.len) == 0:
            nv = Vec(n, fill, es, lay)
        else:
            nv = Vec(n, ECat(v.el, v.len, fill, I(0), ite(gt(n, v.len), sub(n, v.len), I(0))), es, lay)
        st.write(self_, nv)
        return ret(st)
    if name == "operator=":
        if at[0].startswith("std::initializer_list<"):
            o = assign_il(eng, st, self_, args[1], args[2], es, lay)
            o[0].val = self_
            return o
        v = st.readvec(args[1])
        st.write(self_, Vec(v.len, v.el, es, lay))
        if at[0].endswith("&&") and not self_.same(args[1]):
            st.write(args[1], Vec(I(0), EUninit(), es, lay))
        return ret(st, self_)
    if name == "swap":
        a, b = st.readvec(self_), st.readvec(args[1])
        st.write(self_, b)
        st.write(args[1], a)
        return ret(st)
    if name == "erase":
        v = st.readvec(self_)
        a = base_of(args[1])
        if a is None or not a[0].same(self_):
            raise Unsupported("erase position")
        i = a[1]
        if len(at) == 2:
            b = base_of(args[2])
            j = b[1]
        else:
            j = add(i, I(1))
        eng.oblig(st, and_(ge(i, I(0)), le(i, j), le(j, v.len)), "erase range within the vector", "safety")
        n = sub(j, i)
        if st.decide(eq(j, v.len)) is True:
            nv = Vec(i, v.el, es, lay)
        else:
            nv = Vec(sub(v.len, n), ECat(v.el, i, v.el, j, sub(v.len, j)), es, lay)
        st.write(self_, nv)
        return ret(st, elemptr(self_, i, es))
    if name == "assign":
        if len(at) == 2 and at[0] == "unsigned long":
            setv(Vec(args[1], EVal(read_cells(eng, st, args[2], es, lay)), es, lay))
            return ret(st)
        if len(at) == 2 and at[0] == at[1]:
            return assign_range(eng, st, self_, args[1], args[2], es, lay)
        if at[0].startswith("std::initializer_list<"):
            return assign_il(eng, st, self_, args[1], args[2], es, lay)
    if name in ("get_allocator",):
        return ret(st)
    if name == "swap":
        return swap_vectors(eng, st, self_, args[1])
    if name == "capacity":
        v = st.readvec(self_)
        c = st.skolem("capacity", "I")
        st.assume(ge(c, v.len))
        return ret(st, c)
    if name == "max_size":
        return ret(st, I(((1 << 63) - 1) // es))
    raise Unsupported("std::vector member %s(%s)" % (name, at))


def swap_vectors(eng, st, p, q):
    a, b = st.readvec(p), st.readvec(q)
    st.write(p, Vec(b.len, b.el, b.esize, b.layout))
    st.write(q, Vec(a.len, a.el, a.esize, a.layout))
    return ret(st)


def h_swap_vectors(eng, st, args, f, m, path):
    return swap_vectors(eng, st, args[0], args[1])


def find_ctor(eng, T_, at):
    base = re.sub(r"<.*", "", T_).split("::")[-1]
    want = [a.replace(" const&", "").replace("&&", "").replace("&", "").strip() for a in at]
    best = None
    for n, f in eng.fns.items():
        d = f["dem"]
        if d.startswith(T_ + "::" + base + "(") and not f.get("decl"):
            a = split_args(d[len(T_) + 2 + len(base) + 1:d.rindex(")")])
            aa = [x.replace(" const&", "").replace("&&", "").replace("&", "").strip() for x in a]
            if aa == want:
                return n
    return best


def assign_range(eng, st, self_, a, b, es, lay):
    r = range_of(eng, st, a, b, es, lay)
    if r[0] == "raw":
        _, p, nbytes = r
        v = Vec(I(0), EUninit(), es, lay)
        n = nbytes // es
        for i in range(n):
            v = Vec(I(i + 1), EStore(v.el, I(i), read_cells(eng, st, p.plus(i * es) if i else p, es, lay)), es, lay)
        st.write(self_, v)
        return ret(st)
    el, s0, n, es2, lay2 = r
    if es2 != es:
        raise Unsupported("range of differently sized elements")
    st.write(self_, Vec(n, slice_(el, s0), es, lay))
    return ret(st)


def assign_il(eng, st, self_, p, n, es, lay):
    if not isconst(n):
        raise Unsupported("initializer_list of symbolic size")
    v = Vec(I(0), EUninit(), es, lay)
    for i in range(cval(n)):
        q = p.plus(i * es) if i else p
        if q.root in st.mem:
            c = read_cells(eng, st, q, es, lay)
        else:
            c = {o: eng.read_global(st, q.plus(o) if o else q, ty) for o, ty in lay.items()}
        v = Vec(I(i + 1), EStore(v.el, I(i), c), es, lay)
    st.write(self_, v)
    return ret(st)


# ------------------------------------------------------------------ misc runtime
def h_noop(eng, st, args, f, m, path):
    return ret(st, None)


def h_noop_self(eng, st, args, f, m, path):
    return ret(st, args[0] if args else None)


def h_new(eng, st, args, f, m, path):
    return ret(st, Ptr(st.new_root("heap:" + path), (0,)))


def h_alloc_exc(eng, st, args, f, m, path):
    return ret(st, Ptr(st.new_root("exc:" + path), (0,)))


def h_throw(eng, st, args, f, m, path):
    ti = args[1]
    nm = ti.root if isinstance(ti, Ptr) else str(ti)
    return [Outcome(st, "throw", eng.typename(nm))]


def h_throw_std(eng, st, args, f, m, path):
    return [Outcome(st, "throw", f["dem"].split("(")[0])]


def h_assert(eng, st, args, f, m, path):
    msg = "assert"
    try:
        g = eng.globals[args[0].root]
        msg = bytes(g["init"][1]).split(b"\0")[0].decode()
    except Exception:
        pass
    return [Outcome(st, "abort", "assertion `%s' violated" % msg)]


def h_terminate(eng, st, args, f, m, path):
    return [Outcome(st, "abort", "std::terminate")]


def h_math(eng, st, args, f, m, path):
    return ret(st, eng.math(st, m.group(1), args))


def h_abs(eng, st, args, f, m, path):
    return ret(st, eng.fabs(st, args[0]))


def h_eps(eng, st, args, f, m, path):
    return ret(st, R(Fraction(1, 1 << 52)))


def h_inf(eng, st, args, f, m, path):
    return ret(st, var("inf", "R"))


def h_memmove(eng, st, args, f, m, path):
    dst, src, n = args[:3]
    copy_bytes(eng, st, dst, src, n)
    return ret(st, dst)


def copy_bytes(eng, st, dst, src, n):
    if isconst(n) and cval(n) == 0:
        return
    d, s = base_of(dst), base_of(src)
    if d is None and isconst(n):
        eng.memcpy(st, dst, src, cval(n))
        return
    if d is None or s is None:
        raise Unsupported("block copy %r <- %r" % (dst, src))
    dv, sv = st.readvec(d[0]), st.readvec(s[0])
    if dv.esize != sv.esize:
        raise Unsupported("block copy of different element sizes")
    cnt = n if dv.esize == 1 else idiv(n, I(dv.esize))
    eng.oblig(st, and_(le(add(d[1], cnt), dv.len), le(add(s[1], cnt), sv.len), ge(cnt, I(0))), "block copy in range", "safety")
    st.write(d[0], Vec(dv.len, ECat(dv.el, d[1], sv.el, s[1], cnt), dv.esize, dv.layout))


def h_std_copy(eng, st, args, f, m, path):
    a, b, o = args[:3]
    if f["dem"].startswith("std::back_insert_iterator<"):
        if not isinstance(o, Ptr) or not isinstance(a, Ptr):
            return NotImplemented
        dv = st.readvec(o)
        r = range_of(eng, st, a, b, dv.esize, dv.layout)
        if r[0] == "raw":
            return NotImplemented
        el, s0, n, es, lay = r
        if es != dv.esize or (lay and dv.layout and lay != dv.layout):
            return NotImplemented
        st.write(o, Vec(add(dv.len, n), ECat(dv.el, dv.len, el, s0, n), dv.esize, dv.layout))
        return ret(st, o)
    d = base_of(o) if isinstance(o, Ptr) else None
    if d is None or not isinstance(a, Ptr):
        return NotImplemented
    dv = st.readvec(d[0])
    if not (base_of(a) or a.root in eng.globals):
        return NotImplemented
    el, s0, n, es, lay = range_of(eng, st, a, b, dv.esize, dv.layout)
    if es != dv.esize:
        raise Unsupported("std::copy between different element sizes")
    eng.oblig(st, le(add(d[1], n), dv.len), "std::copy output in range", "safety")
    st.write(d[0], Vec(dv.len, ECat(dv.el, d[1], el, s0, n), dv.esize, dv.layout))
    return ret(st, elemptr(d[0], add(d[1], n), dv.esize))


# ------------------------------------------------------------------ shared_ptr control block
def h_true(eng, st, args, f, m, path):
    return ret(st, TRUE)


BUILTINS = [(re.compile(rx), h) for rx, h in [
    (r"[^()]*\bstd::copy<", h_std_copy),
    (r"(?:void |std::enable_if<.*>::type )?std::swap<[^()]*>\(std::vector<(?!bool).*>&, std::vector<.*>&\)$", h_swap_vectors),
    (r".*std::vector<", vec_member),
    (r"(?:.*::)?~\w+\(\)$|.*::~", h_noop),
    (r"operator new(\[\])?\(", h_new),
    (r"operator delete(\[\])?\(", h_noop),
    (r"__cxa_allocate_exception", h_alloc_exc),
    (r"__cxa_free_exception", h_noop),
    (r"__cxa_throw", h_throw),
    (r"__cxa_guard|__cxa_atexit", h_noop),
    (r"std::__throw_\w+", h_throw_std),
    (r"__assert_fail", h_assert),
    (r"std::terminate|__clang_call_terminate|abort$", h_terminate),
    (r"std::(?:runtime_error|logic_error|out_of_range|invalid_argument|bad_alloc|exception)::", h_noop),
    (r"(cos|sin|sqrt|log|exp|pow|tan|acos|asin|atan|tanh|sinh|cosh|floor|ceil|fabs|log1p|expm1|cbrt|log2|log10|atan2|hypot|exp2)$", h_math),
    (r"std::(?:abs|fabs)\(double\)", h_abs),
    (r"std::numeric_limits<double>::epsilon\(\)", h_eps),
    (r"std::numeric_limits<double>::infinity\(\)", h_inf),
    (r"mem(?:cpy|move)$", h_memmove),

    (r".*std::allocator<.*>::allocator|.*std::__new_allocator<.*>::__new_allocator|std::allocator_traits<.*>::select_on", h_noop),
]]


# ------------------------------------------------------------------ run-time types
def typeinfo_bases(eng, ti):
    """[(base typeinfo, offset)] from a class's typeinfo object"""
    g = eng.globals.get(ti)
    if g is None or "init" not in g:
        return []
    init = g["init"]
    if init[0] != "agg":
        return []
    vt = init[1][0]
    kind = vt[1] if vt[0] == "g" else ""
    if "__si_class_type_info" in kind:
        return [(init[1][2][1], 0)]
    if "__vmi_class_type_info" in kind:
        out = []
        fs = init[1][2:]
        n = int(fs[1][1])
        for k in range(n):
            b, fl = fs[2 + 2 * k], fs[3 + 2 * k]
            flags = int(fl[1])
            if flags >= 1 << 63:
                flags -= 1 << 64
            if flags & 1:
                raise Unsupported("virtual base")
            out.append((b[1], flags >> 8))
        return out
    return []


def dyn_type(eng, st, p):
    """(typeinfo symbol, pointer to the most derived object)"""
    v = st.read(p, "ptr")
    if not isinstance(v, Ptr):
        raise Unsupported("dynamic type of %r" % (p,))
    off = v.path[0]
    g = eng.globals.get(v.root)
    ti = eng.const_at(g["init"], g["ty"], off - 8, "ptr")
    top = eng.const_at(g["init"], g["ty"], off - 16, "ptr")
    t = 0
    if isinstance(top, Null):
        t = 0
    else:
        # offset-to-top is stored as inttoptr constant
        t = raw_int(g["init"], g["ty"], off - 16)
    return ti.root, (p.plus(t) if t else p)


def raw_int(c, cty, off):
    k = c[0]
    if k == "agg":
        t = c[2]
        if t[0] == "array":
            i, r = divmod(off, t[3])
            return raw_int(c[1][i], t[2], r)
        best = None
        for i, (o, et) in enumerate(t[2]):
            if o <= off:
                best = (i, o, et)
        return raw_int(c[1][best[0]], best[2], off - best[1])
    if k == "cast":
        v = int(c[1][1])
        return v - (1 << 64) if v >= 1 << 63 else v
    if k == "n":
        return 0
    raise Unsupported("vtable entry %s" % (c,))


def subobject(eng, ti, want, off=0):
    if ti == want:
        return [off]
    r = []
    for b, o in typeinfo_bases(eng, ti):
        r += subobject(eng, b, want, off + o)
    return r


def h_dynamic_cast(eng, st, args, f, m, path):
    p = args[0]
    if p is NULL:
        return ret(st, NULL)
    want = args[2].root
    ti, obj = dyn_type(eng, st, p)
    r = subobject(eng, ti, want)
    if len(r) != 1:
        return ret(st, NULL)
    return ret(st, obj.plus(r[0]) if r[0] else obj)


def h_bad_cast(eng, st, args, f, m, path):
    return [Outcome(st, "throw", "std::bad_cast")]


BUILTINS[:0] = [(re.compile(rx), h) for rx, h in [
    (r"__dynamic_cast$", h_dynamic_cast),
    (r"__cxa_bad_cast$", h_bad_cast),
]]


# ------------------------------------------------------------------ shared_ptr
def h_make_shared(eng, st, args, f, m, path):
    dem = f["dem"]
    i = dem.index("std::make_shared<") + len("std::make_shared")
    e = match_close(dem, i)
    T_ = split_args(dem[i + 1:e - 1])[0]
    at = split_args(dem[e + 1:dem.rindex(")")])
    # the placement construction the library performs (resolves conversions and default arguments)
    ctor = next((n for n, g in eng.fns.items() if g["dem"].startswith("void std::_Construct<%s" % T_) and g["dem"].endswith("(%s)" % ", ".join([T_ + "*"] + at)) and not g.get("decl")), None)
    if ctor is None:
        ctor = find_ctor(eng, T_, at)
    if ctor is None:
        raise Unsupported("make_shared<%s>(%s): no constructor found" % (T_, at))
    obj = Ptr(st.new_root("shared:" + path), (0,))
    outs = []
    for o in eng.call(st, ctor, [obj] + list(args[1:]), path + ">mk"):
        if o.kind == "ret":
            o.st.write(args[0], obj)
            o.st.write(args[0].plus(8), NULL)
            o = Outcome(o.st, "ret", None)
        outs.append(o)
    return outs


# ------------------------------------------------------------------ strings (contents only)
def cstring(eng, p):
    g = eng.globals.get(p.root) if isinstance(p, Ptr) else None
    if g is None or not g.get("const") or "init" not in g:
        raise Unsupported("C string %r" % (p,))
    return c_bytes(g["init"])[p.path[0]:].split(b"\0")[0]


def c_bytes(init):
    if init[0] == "n":
        return b"\0"
    return bytes(init[1])


def str_eq(eng, st, v, b):
    """the string equals the literal"""
    eng.mute += 1
    try:
        cs = []
        for k, c in enumerate(b):
            s2 = st.fork()
            s2.assume(eq(v.len, I(len(b))))
            x = v.el.get(s2, I(k), 0, "i8")
            if not isinstance(x, T):
                raise Unsupported("string contents")
            cs.append(eq(x, I(c)))
    finally:
        eng.mute -= 1
    return and_(eq(v.len, I(len(b))), *cs)


def string_member(eng, st, args, f, m, path):
    p = parse_member(f["dem"], "std::__cxx11::basic_string")
    if p is None:
        return NotImplemented
    targs, name, at = p
    if targs[0] != "char":
        raise Unsupported("strings of " + targs[0])
    self_ = args[0]
    lay = {0: "i8"}
    if name == "~basic_string":
        return ret(st)
    if name in ("begin", "cbegin", "data", "c_str"):
        st.readvec(self_)
        return ret(st, elemptr(self_, I(0), 1))
    if name in ("end", "cend"):
        return ret(st, elemptr(self_, st.readvec(self_).len, 1))
    if name in ("size", "length"):
        return ret(st, st.readvec(self_).len)
    if name == "empty":
        return ret(st, eq(st.readvec(self_).len, I(0)))
    if name == "operator[]":
        st.readvec(self_)
        return ret(st, elemptr(self_, args[1], 1))
    if name == "basic_string":
        if not at or at[0].startswith("std::allocator"):
            st.write(self_, Vec(I(0), EUninit(), 1, lay))
            return ret(st)
        if at[0].startswith("std::__cxx11::basic_string") and len(at) == 1:
            v = st.readvec(args[1])
            st.write(self_, Vec(v.len, v.el, 1, lay))
            return ret(st)
    if name == "operator=" and at[0].startswith("std::__cxx11::basic_string"):
        v = st.readvec(args[1])
        st.write(self_, Vec(v.len, v.el, 1, lay))
        return ret(st, self_)
    if name == "compare" and at == ["char const*"]:
        c = str_eq(eng, st, st.readvec(self_), cstring(eng, args[1]))
        r = st.skolem("compare", "I")
        st.assume(or_(and_(c, eq(r, I(0))), and_(not_(c), ge(r, I(1)), le(r, I(255)))))
        return ret(st, r)
    raise Unsupported("std::string member %s(%s)" % (name, at))


def h_str_eq(eng, st, args, f, m, path):
    a, b = (args[0], args[1]) if "const&, char const*)" in f["dem"] else (None, None)
    if a is None:
        return NotImplemented
    c = str_eq(eng, st, st.readvec(a), cstring(eng, b))
    return ret(st, c if m.group(1) == "==" else not_(c))


def h_toupper(eng, st, args, f, m, path):
    c = args[0]
    eng.oblig(st, and_(ge(c, I(0)), le(c, I(255))), "argument of %s is an unsigned char" % m.group(1), "safety")
    lo, d = (97, -32) if m.group(1) == "toupper" else (65, 32)
    return ret(st, ite(and_(ge(c, I(lo)), le(c, I(lo + 25))), add(c, I(d)), c))


BUILTINS[:0] = [(re.compile(rx), h) for rx, h in [
    (r"bool std::operator(==|!=)<char, std::char_traits<char>, std::allocator<char>>\(std::__cxx11::basic_string", h_str_eq),
    (r"std::__cxx11::basic_string<", string_member),
    (r"(toupper|tolower)$", h_toupper),
    (r".*std::make_shared<", h_make_shared),
    (r"std::__shared_count<.*>::", h_noop_self),
    (r"std::__weak_count<.*>::", h_noop_self),
]]
