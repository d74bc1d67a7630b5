"""Models of the standard-library calls that occur in (or are likely to be refactored into) the analysed code."""
from .interp import UNIT, PanicVal, Undecided, is_term, mklin, FnRef

OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"
NONE = ("A", OPT, 0, ())


def some(v):
    return ("A", OPT, 1, (v,))


def ok(v):
    return ("A", RES, 0, (v,))


def err(v):
    return ("A", RES, 1, (v,))


# ---------------------------------------------------------------- strings
def mkstr(prefix, items):
    if prefix is None:
        if all(type(i) is int for i in items):
            return "".join(map(chr, items))
        if len(items) == 1 and type(items[0]) is tuple and items[0][0] == "sub":
            return items[0][1]
    return ("S", prefix, tuple(items))


def sparts(v):
    if type(v) is str:
        return None, tuple(map(ord, v))
    if type(v) is tuple and v[0] == "S":
        return v[1], v[2]
    if is_term(v):
        return None, (("sub", v),)
    raise Undecided("string value %r" % (v,))


def sconcat(a, b):
    pa, ia = sparts(a)
    pb, ib = sparts(b)
    if pb is not None:
        ib = (("sub", pb),) + ib
    return mkstr(pa, ia + ib)


def mkvec(prefix, items):
    return ("V", prefix, tuple(items))


def formatted(parts):
    """the text of format!(..) with plain {} placeholders; None for anything else"""
    if len(parts) == 1 and type(parts[0]) is str:
        return parts[0]
    if len(parts) != 2 or any(type(p) is not tuple or p[0] != "V" or p[1] is not None for p in parts):
        return None
    tmpl, args = parts[0][2], parts[1][2]
    if any(type(b) is not int for b in tmpl):
        return None
    out, i, k = "", 0, 0
    while i < len(tmpl):
        n = tmpl[i]
        if n == 0:
            return out if k == len(args) else None
        if n < 0x80:
            try:
                out = sconcat(out, bytes(tmpl[i + 1:i + 1 + n]).decode("utf8"))
            except ValueError:
                return None
            i += 1 + n
        elif n == 0xC0 and k < len(args) and args[k][:2] == ("app", "fmtarg"):
            out = sconcat(out, args[k][2][0])
            k += 1
            i += 1
        else:
            return None
    return None


class Models:
    def __init__(self):
        self.extra = {}

    # ------------------------------------------------------------ helpers
    def cases(self, I, st, v, adt):
        """fork on the variant of an enum value: list of (state, variant index, fields)"""
        v = I.deref(st, v)
        if type(v) is tuple and v and v[0] == "A":
            return [(st, v[2], v[3])]
        if is_term(v):
            ds = I.P.discr[adt]
            out = []
            d = I.discriminant(st, v, None) if I.dom.discr(I, st, v, adt) is not None else ("discr", v, adt)
            for val, s in I.split(st, d, list(ds)):
                if val == "otherwise":
                    continue
                vi = ds.index(val)
                n = len(I.P.adts[adt]["v"][vi]["f"])
                out.append((s, vi, tuple(I.term_field(s, v, vi, j) for j in range(n))))
            return out
        raise Undecided("cases of %r" % (v,))

    def as_ref(self, v):
        """a reference value for an element"""
        return ("R", ("V", v), ())

    def booleans(self, I, st, t):
        return [(s, v) for v, s in I.split(st, t, [0, 1])]

    # ------------------------------------------------------------ dispatch
    def call(self, I, st, fr, args, dest, target, sp, mb):
        k = fr.key
        m = getattr(self, "m_" + k.replace("::", "__"), None)
        if m is None:
            m = self.extra.get(k)
        if m is None:
            return None
        self.I = I
        self.fr = fr
        self.ctx = (dest, target, sp, mb)
        return m(I, st, args)

    def resume(self, I, st, f, v):
        return getattr(self, "r_" + f.native)(I, st, f, v)

    def native(self, I, st, name, data):
        dest, target, sp, mb = self.ctx
        return I.push_native(st, name, data, dest, target)

    def r_stop(self, I, st, f, v):
        return [(st, ("emit", v))]

    # ------------------------------------------------------------ panics
    def panic(self, I, st, what):
        return [(st, PanicVal(what))]

    def m_rt__begin_panic(self, I, st, a):
        return self.panic(I, st, "panic:" + (a[0] if a and type(a[0]) is str else "?"))

    def m_panicking__panic(self, I, st, a):
        return self.panic(I, st, "panic:" + (a[0] if a and type(a[0]) is str else "?"))

    def m_panicking__panic_fmt(self, I, st, a):
        return self.panic(I, st, "panic")

    m_panicking__panic_display = m_panicking__panic_fmt
    m_panicking__panic_explicit = m_panicking__panic_fmt
    m_panicking__panic_str_2015 = m_panicking__panic_fmt

    def m_panicking__unreachable_default_msg(self, I, st, a):
        return self.panic(I, st, "unreachable!")

    m_panicking__unreachable_display = m_panicking__unreachable_default_msg

    def m_panicking__unimplemented_default_msg(self, I, st, a):
        return self.panic(I, st, "unimplemented!")

    def m_panicking__todo_default_msg(self, I, st, a):
        return self.panic(I, st, "todo!")

    def m_process__abort(self, I, st, a):
        return self.panic(I, st, "abort")

    def m_process__exit(self, I, st, a):
        return self.panic(I, st, "exit")

    # ------------------------------------------------------------ output (ignored)
    def m_io___eprint(self, I, st, a):
        return [(st, UNIT)]

    m_io___print = m_io___eprint

    def m_Arguments__from_str_nonconst(self, I, st, a):
        return [(st, ("app", "fmt", (str(a[0]),)))]

    m_Arguments__from_str = m_Arguments__from_str_nonconst

    def m_Arguments__new(self, I, st, a):
        return [(st, ("app", "fmt", tuple(I.deref(st, x) if not isinstance(x, str) else x for x in a)))]

    m_Arguments__new_v1 = m_Arguments__new
    m_Arguments__new_const = m_Arguments__new

    def m_Argument__new_display(self, I, st, a):
        r = self.m_ToString__to_string(I, st, a)
        return [(s, ("app", "fmtarg", (v,))) for s, v in r]

    def m_Argument__new_debug(self, I, st, a):
        return [(st, ("app", "fmtdbg", (I.deref(st, a[0]),)))]

    def m_fmt__format(self, I, st, a):
        v = I.deref(st, a[0])
        if type(v) is tuple and v[:2] == ("app", "fmt"):
            r = formatted(v[2])
            if r is not None:
                return [(st, r)]
        return [(st, ("app", "format", (a[0],)))]

    m_macros__format = m_fmt__format

    # ------------------------------------------------------------ Try
    def m_Try__branch(self, I, st, a):
        v = I.deref(st, a[0])
        adt = v[1] if type(v) is tuple and v[0] == "A" else self.tyadt(I, self.fr)
        out = []
        for s, vi, fs in self.cases(I, st, v, adt):
            if adt == RES:
                out.append((s, ("A", CF, 0, (fs[0],)) if vi == 0 else ("A", CF, 1, (err(fs[0]),))))
            elif adt == OPT:
                out.append((s, ("A", CF, 0, (fs[0],)) if vi == 1 else ("A", CF, 1, (NONE,))))
            else:
                raise Undecided("branch of %s" % adt)
        return out

    def tyadt(self, I, fr):
        for t in fr.targs:
            ty = I.P.types[t]
            if ty["k"] == "adt":
                return ty["p"]
        raise Undecided("type of %r" % fr)

    def m_FromResidual__from_residual(self, I, st, a):
        v = I.deref(st, a[0])
        if type(v) is tuple and v[0] == "A":
            return [(st, v)]
        raise Undecided("residual")

    def m_Try__from_output(self, I, st, a):
        adt = self.tyadt(I, self.fr)
        return [(st, ok(a[0]) if adt == RES else some(a[0]))]

    # ------------------------------------------------------------ Box / conversions
    def m_From__from(self, I, st, a):
        tys = [I.P.types[t] for t in self.fr.targs]
        to = tys[0] if tys else {}
        if to.get("k") == "adt":
            p = to["p"]
            if p == "std::boxed::Box":
                return [(st, a[0])]
            if p == "std::string::String":
                v = I.deref(st, a[0])
                src = tys[1] if len(tys) > 1 else {}
                if type(v) is int or src.get("k") == "char" or (is_term(v) and v[0] == "ch"):
                    return [(st, mkstr(None, (v,)))]
                return [(st, v)]
            if p == OPT:
                return [(st, some(a[0]))]
            if p in ("std::vec::Vec", "std::rc::Rc", "std::borrow::Cow"):
                return [(st, I.deref(st, a[0]))]
        if to.get("k") in ("uint", "int", "char") or to.get("k") == "float" and I.digits is not None:
            return [(st, a[0])]
        if len(tys) > 1 and self.fr.targs[0] == self.fr.targs[1]:
            return [(st, a[0])]
        return None

    def m_Into__into(self, I, st, a):
        tys = [I.P.types[t] for t in self.fr.targs]
        if len(tys) == 2:
            frm, to = tys
            if to.get("k") == "adt" and to["p"] in ("std::boxed::Box",):
                return [(st, a[0])]
            if to.get("k") == "adt" and to["p"] == "std::string::String":
                return [(st, I.deref(st, a[0]))]
            if to.get("k") == "adt" and to["p"] == OPT and not (frm.get("k") == "adt" and frm["p"] == OPT):
                return [(st, some(a[0]))]
            if self.fr.targs[0] == self.fr.targs[1]:
                return [(st, a[0])]
            # user From impl
            for n in I.P.bodies:
                if type(n) is str and n.startswith("<%s as std::convert::From<%s>>::from" % (to["s"], frm["s"])):
                    return ("body", I.P.bodies[n], a)
        return None

    def m_Box__new(self, I, st, a):
        return [(st, a[0])]

    def m_Box__new_uninit(self, I, st, a):
        return [(st, ("UN",))]

    def m_boxed__box_assume_init_into_vec_unsafe(self, I, st, a):
        v = a[0]
        return [(st, v if type(v) is tuple and v[0] == "V" else mkvec(None, ()))]

    def m_slice__into_vec(self, I, st, a):
        return [(st, I.deref(st, a[0]))]

    def m_Clone__clone(self, I, st, a):
        return [(st, I.deref(st, a[0]))]

    m_ToOwned__to_owned = m_Clone__clone

    def m_Deref__deref(self, I, st, a):
        v = a[0]
        if type(v) is tuple and v and v[0] == "R":
            r, x = I.lastref(st, v)
            if type(x) is str or (type(x) is tuple and x and x[0] == "S"):
                return [(st, r)]
            return [(st, r)]
        return [(st, v)]

    m_DerefMut__deref_mut = m_Deref__deref
    m_AsRef__as_ref = m_Deref__deref
    m_AsMut__as_mut = m_Deref__deref
    m_Borrow__borrow = m_Deref__deref
    m_String__as_str = m_Deref__deref
    m_String__as_mut_str = m_Deref__deref
    m_Vec__as_slice = m_Deref__deref
    m_Vec__as_mut_slice = m_Deref__deref

    def m_ToString__to_string(self, I, st, a):
        ty = I.P.types[self.fr.targs[0]] if self.fr.targs else {}
        v = I.deref(st, a[0])
        while ty.get("k") == "ref":
            ty = I.P.types[ty["t"]]
        if ty.get("k") == "str" or ty.get("p") == "std::string::String":
            return [(st, v)]
        if ty.get("k") == "char":
            return [(st, mkstr(None, (v,)))]
        return [(st, ("app", "to_string", (v,)))]

    def m_Index__index(self, I, st, a):
        v = I.deref(st, a[0])
        i = a[1]
        if type(i) is tuple and i and i[0] == "A" and i[1].endswith("RangeFull"):
            return [(st, I.lastref(st, a[0])[0] if type(a[0]) is tuple and a[0][0] == "R" else a[0])]
        if type(v) is tuple and v and v[0] == "V" and v[1] is None and type(i) is int:
            if i >= len(v[2]):
                return self.panic(I, st, "index out of bounds")
            return [(st, self.as_ref(v[2][i]))]
        if type(v) is str and type(i) is tuple and i and i[0] == "A" and "Range" in i[1]:
            f = i[3]
            if all(type(x) is int for x in f):
                if i[1].endswith("RangeFrom"):
                    return [(st, v[f[0]:])]
                if i[1].endswith("RangeTo"):
                    return [(st, v[:f[0]])]
                if i[1].endswith("Range"):
                    return [(st, v[f[0]:f[1]])]
        if type(v) is tuple and v and v[0] == "V" and i == 0 and is_term(v[1]):
            out = []
            for s, b in self.booleans(I, st, ("empty", v[1])):
                if b:
                    out.append((s, PanicVal("index out of bounds") if not v[2] else self.as_ref(v[2][0])))
                else:
                    out.append((s, self.as_ref(("head", v[1]))))
            return out
        return None

    # ------------------------------------------------------------ comparisons
    def m_PartialEq__eq(self, I, st, a):
        return self.equal(I, st, a[0], a[1])

    def m_PartialEq__ne(self, I, st, a):
        return [(s, 1 - v) if type(v) is int else (s, ("un", "Not", v)) for s, v in self.equal(I, st, a[0], a[1])]

    def m_str__eq(self, I, st, a):
        return self.equal(I, st, a[0], a[1])

    def m_str__eq_ignore_ascii_case(self, I, st, a):
        return None

    def m_PartialOrd__lt(self, I, st, a):
        return [(st, I.cmpterm(st, "Lt", I.deref(st, a[0]), I.deref(st, a[1])))]

    def m_PartialOrd__gt(self, I, st, a):
        return [(st, I.cmpterm(st, "Gt", I.deref(st, a[0]), I.deref(st, a[1])))]

    def m_PartialOrd__le(self, I, st, a):
        return [(st, I.cmpterm(st, "Le", I.deref(st, a[0]), I.deref(st, a[1])))]

    def m_PartialOrd__ge(self, I, st, a):
        return [(st, I.cmpterm(st, "Ge", I.deref(st, a[0]), I.deref(st, a[1])))]

    def m_Ord__min(self, I, st, a):
        return [(s, a[0] if b else a[1]) for s, b in self.booleans(I, st, I.cmpterm(st, "Le", I.deref(st, a[0]), I.deref(st, a[1])))]

    def m_Ord__max(self, I, st, a):
        return [(s, a[1] if b else a[0]) for s, b in self.booleans(I, st, I.cmpterm(st, "Le", I.deref(st, a[0]), I.deref(st, a[1])))]

    m_cmp__min = m_Ord__min
    m_cmp__max = m_Ord__max

    def m_Ord__cmp(self, I, st, a):
        x, y = I.deref(st, a[0]), I.deref(st, a[1])
        o = "std::cmp::Ordering"
        out = []
        for s, b in self.booleans(I, st, I.cmpterm(st, "Lt", x, y)):
            if b:
                out.append((s, ("A", o, 0, ())))
            else:
                out.extend((s2, ("A", o, 2 if b2 else 1, ())) for s2, b2 in self.booleans(I, s, I.cmpterm(s, "Lt", y, x)))
        return out

    def m_PartialOrd__partial_cmp(self, I, st, a):
        return [(s, some(v)) for s, v in self.m_Ord__cmp(I, st, a)]

    def equal(self, I, st, a, b):
        """structural equality: list of (state, 0/1/term)"""
        a = I.deref(st, a)
        b = I.deref(st, b)
        if a is None or b is None:
            raise Undecided("comparison of moved value")
        if a == b:
            return [(st, 1)]
        ta = a[0] if type(a) is tuple and a else type(a)
        tb = b[0] if type(b) is tuple and b else type(b)
        if ta is int and tb is int or (ta is str and tb is str):
            return [(st, int(a == b))]
        if ta == "A" and tb == "A":
            if a[2] != b[2]:
                return [(st, 0)]
            return self.eqlist(I, st, a[3], b[3])
        if ta == "T" and tb == "T":
            return self.eqlist(I, st, a[1], b[1])
        if tb == "A" and is_term(a):
            a, b, ta, tb = b, a, tb, ta
        if ta == "A" and is_term(b):
            out = []
            ds = I.P.discr.get(a[1])
            d = I.dom.discr(I, st, b, a[1]) or ("discr", b, a[1])
            for v, s in I.split(st, d, [ds[a[2]]]):
                if v == "otherwise":
                    out.append((s, 0))
                else:
                    fs = tuple(I.term_field(s, b, a[2], j) for j in range(len(a[3])))
                    out.extend(self.eqlist(I, s, a[3], fs))
            return out
        if ta == "V" and tb == "V" and a[1] is None and b[1] is None:
            if len(a[2]) != len(b[2]):
                return [(st, 0)]
            return self.eqlist(I, st, a[2], b[2])
        if (ta is str or ta == "S" or is_term(a)) and (tb is str or tb == "S" or is_term(b)):
            if ta is str or tb is str or ta == "S" or tb == "S":
                r = I.dom.streq(I, st, a, b)
                if r is not None:
                    return [(st, r)]
                x, y = sorted((a, b), key=repr)
                return [(st, ("app", "streq", (x, y)))]
            return [(st, I.eqterm(st, a, b))]
        if is_term(a) or is_term(b):
            return [(st, I.eqterm(st, a, b))]
        raise Undecided("equality of %r and %r" % (a, b))

    def eqlist(self, I, st, xs, ys):
        outs = [(st, 1)]
        for x, y in zip(xs, ys):
            nxt = []
            for s, acc in outs:
                if acc == 0:
                    nxt.append((s, 0))
                    continue
                for s2, v in self.equal(I, s, x, y):
                    if type(v) is int:
                        nxt.append((s2, v))
                    else:
                        for s3, b in self.booleans(I, s2, v):
                            nxt.append((s3, b))
            outs = nxt
        return outs

    def m_intrinsics__discriminant_value(self, I, st, a):
        v = I.deref(st, a[0])
        if type(v) is tuple and v[0] == "A":
            ds = I.P.discr.get(v[1])
            return [(st, ds[v[2]] if ds else v[2])]
        adt = None
        for t in self.fr.targs:
            if I.P.types[t]["k"] == "adt":
                adt = I.P.types[t]["p"]
        r = I.dom.discr(I, st, v, adt)
        return [(st, r if r is not None else ("discr", v, adt))]

    # ------------------------------------------------------------ mem
    def m_mem__replace(self, I, st, a):
        old = I.loadp(st, I.load_root(st, a[0][1]), a[0][2])
        I.store_ref(st, a[0], a[1])
        return [(st, old)]

    def m_mem__swap(self, I, st, a):
        x = I.loadp(st, I.load_root(st, a[0][1]), a[0][2])
        y = I.loadp(st, I.load_root(st, a[1][1]), a[1][2])
        I.store_ref(st, a[0], y)
        I.store_ref(st, a[1], x)
        return [(st, UNIT)]

    def m_mem__take(self, I, st, a):
        r, old = I.lastref(st, a[0])
        ty = I.P.types[self.fr.targs[0]]
        z = self.default(I, ty)
        if z is None:
            return None
        I.store_ref(st, r, z)
        return [(st, old)]

    def m_mem__drop(self, I, st, a):
        return [(st, UNIT)]

    def default(self, I, ty):
        if ty["k"] == "bool" or ty["k"] in ("int", "uint"):
            return 0
        if ty["k"] == "adt":
            if ty["p"] == "std::string::String":
                return ""
            if ty["p"] in ("std::vec::Vec", "std::collections::VecDeque"):
                return mkvec(None, ())
            if ty["p"] == OPT:
                return NONE
        return None

    def m_Default__default(self, I, st, a):
        z = self.default(I, I.P.types[self.fr.targs[0]])
        return None if z is None else [(st, z)]

    # ------------------------------------------------------------ Option / Result
    def adt1(self, I, st, v, dflt):
        v = I.deref(st, v)
        if type(v) is tuple and v[0] == "A":
            return v[1]
        return dflt

    def m_Option__unwrap(self, I, st, a):
        I.site(st, st.frames[-1], "unwrap", self.ctx[2])
        return [(s, fs[0] if vi == 1 else PanicVal("unwrap on None")) for s, vi, fs in self.cases(I, st, a[0], OPT)]

    m_Option__expect = m_Option__unwrap

    def m_Result__unwrap(self, I, st, a):
        I.site(st, st.frames[-1], "unwrap", self.ctx[2])
        return [(s, fs[0] if vi == 0 else PanicVal("unwrap on Err")) for s, vi, fs in self.cases(I, st, a[0], RES)]

    m_Result__expect = m_Result__unwrap

    def m_Option__ok_or(self, I, st, a):
        return [(s, ok(fs[0]) if vi == 1 else err(a[1])) for s, vi, fs in self.cases(I, st, a[0], OPT)]

    def m_Option__unwrap_or(self, I, st, a):
        return [(s, fs[0] if vi == 1 else a[1]) for s, vi, fs in self.cases(I, st, a[0], OPT)]

    def m_Result__unwrap_or(self, I, st, a):
        return [(s, fs[0] if vi == 0 else a[1]) for s, vi, fs in self.cases(I, st, a[0], RES)]

    def m_Option__is_some(self, I, st, a):
        return [(s, int(vi == 1)) for s, vi, fs in self.cases(I, st, a[0], OPT)]

    def m_Option__is_none(self, I, st, a):
        return [(s, int(vi == 0)) for s, vi, fs in self.cases(I, st, a[0], OPT)]

    def m_Result__is_ok(self, I, st, a):
        return [(s, int(vi == 0)) for s, vi, fs in self.cases(I, st, a[0], RES)]

    def m_Result__is_err(self, I, st, a):
        return [(s, int(vi == 1)) for s, vi, fs in self.cases(I, st, a[0], RES)]

    def m_Result__ok(self, I, st, a):
        return [(s, some(fs[0]) if vi == 0 else NONE) for s, vi, fs in self.cases(I, st, a[0], RES)]

    def m_Result__err(self, I, st, a):
        return [(s, some(fs[0]) if vi == 1 else NONE) for s, vi, fs in self.cases(I, st, a[0], RES)]

    def m_Option__as_ref(self, I, st, a):
        return [(s, some(self.as_ref(fs[0])) if vi == 1 else NONE) for s, vi, fs in self.cases(I, st, a[0], OPT)]

    m_Option__as_deref = m_Option__as_ref
    m_Option__copied = m_Clone__clone
    m_Option__cloned = m_Clone__clone

    def m_Option__copied(self, I, st, a):
        return [(s, some(I.deref(s, fs[0])) if vi == 1 else NONE) for s, vi, fs in self.cases(I, st, a[0], OPT)]

    m_Option__cloned = m_Option__copied

    def m_Option__take(self, I, st, a):
        r, old = I.lastref(st, a[0])
        I.store_ref(st, r, NONE)
        return [(st, old)]

    def m_Option__replace(self, I, st, a):
        r, old = I.lastref(st, a[0])
        I.store_ref(st, r, some(a[1]))
        return [(st, old)]

    def m_Option__or(self, I, st, a):
        return [(s, some(fs[0]) if vi == 1 else a[1]) for s, vi, fs in self.cases(I, st, a[0], OPT)]

    def m_Option__and(self, I, st, a):
        return [(s, a[1] if vi == 1 else NONE) for s, vi, fs in self.cases(I, st, a[0], OPT)]

    def m_Option__flatten(self, I, st, a):
        return [(s, fs[0] if vi == 1 else NONE) for s, vi, fs in self.cases(I, st, a[0], OPT)]

    def m_Option__xor(self, I, st, a):
        out = []
        for s, vi, fs in self.cases(I, st, a[0], OPT):
            for s2, v2, f2 in self.cases(I, s, a[1], OPT):
                out.append((s2, some((fs or f2)[0]) if vi != v2 else NONE))
        return out

    def m_Option__zip(self, I, st, a):
        out = []
        for s, vi, fs in self.cases(I, st, a[0], OPT):
            for s2, v2, f2 in self.cases(I, s, a[1], OPT):
                out.append((s2, some(("T", (fs[0], f2[0]))) if vi and v2 else NONE))
        return out

    def m_Option__insert(self, I, st, a):
        r, old = I.lastref(st, a[0])
        I.store_ref(st, r, some(a[1]))
        return [(st, self.as_ref(a[1]))]

    def m_Option__unwrap_or_default(self, I, st, a):
        z = self.default(I, I.P.types[self.fr.targs[0]])
        return None if z is None else [(s, fs[0] if vi == 1 else z) for s, vi, fs in self.cases(I, st, a[0], OPT)]

    def m_Result__unwrap_or_default(self, I, st, a):
        z = self.default(I, I.P.types[self.fr.targs[0]])
        return None if z is None else [(s, fs[0] if vi == 0 else z) for s, vi, fs in self.cases(I, st, a[0], RES)]

    def m_Result__unwrap_err(self, I, st, a):
        return [(s, fs[0] if vi == 1 else PanicVal("unwrap_err on Ok")) for s, vi, fs in self.cases(I, st, a[0], RES)]

    m_Result__expect_err = m_Result__unwrap_err

    def m_Result__and(self, I, st, a):
        return [(s, a[1] if vi == 0 else err(fs[0])) for s, vi, fs in self.cases(I, st, a[0], RES)]

    def m_Result__or(self, I, st, a):
        return [(s, ok(fs[0]) if vi == 0 else a[1]) for s, vi, fs in self.cases(I, st, a[0], RES)]

    def m_Result__as_ref(self, I, st, a):
        return [(s, ok(self.as_ref(fs[0])) if vi == 0 else err(self.as_ref(fs[0]))) for s, vi, fs in self.cases(I, st, a[0], RES)]

    def m_Option__transpose(self, I, st, a):
        out = []
        for s, vi, fs in self.cases(I, st, a[0], OPT):
            if vi == 0:
                out.append((s, ok(NONE)))
            else:
                for s2, v2, f2 in self.cases(I, s, fs[0], RES):
                    out.append((s2, ok(some(f2[0])) if v2 == 0 else err(f2[0])))
        return out

    def closure1(self, I, st, v, adt, on, post, other):
        """v is matched; variant `on` calls the closure a[1] with its payload and wraps with `post`"""
        acts = []
        dest, target, sp, mb = self.ctx
        for s, vi, fs in self.cases(I, st, v, adt):
            I.push_native(s, "wrap", post, dest, target)
            if vi == on:
                acts.append((s, ("callv", self._f, tuple(fs) if on is not None else ())))
            else:
                acts.append((s, ("val", other(fs))))
        return ("acts", acts)

    def r_wrap(self, I, st, f, v):
        w = f.data
        r = {"some": some, "ok": ok, "err": err, "id": lambda x: x}[w](v)
        return [(st, ("val", r))]

    def m_Option__map(self, I, st, a):
        self._f = a[1]
        return self.closure1(I, st, a[0], OPT, 1, "some", lambda fs: NONE)

    def m_Option__and_then(self, I, st, a):
        self._f = a[1]
        return self.closure1(I, st, a[0], OPT, 1, "id", lambda fs: NONE)

    def m_Option__map_or(self, I, st, a):
        self._f = a[2]
        return self.closure1(I, st, a[0], OPT, 1, "id", lambda fs: a[1])

    def m_Option__map_or_else(self, I, st, a):
        acts = []
        dest, target, sp, mb = self.ctx
        for s, vi, fs in self.cases(I, st, a[0], OPT):
            I.push_native(s, "wrap", "id", dest, target)
            acts.append((s, ("callv", a[2], (fs[0],)) if vi == 1 else ("callv", a[1], ())))
        return ("acts", acts)

    def m_Result__is_ok_and(self, I, st, a):
        self._f = a[1]
        return self.closure1(I, st, a[0], RES, 0, "id", lambda fs: 0)

    def m_Result__map_or(self, I, st, a):
        self._f = a[2]
        return self.closure1(I, st, a[0], RES, 0, "id", lambda fs: a[1])

    def m_Option__is_some_and(self, I, st, a):
        self._f = a[1]
        return self.closure1(I, st, a[0], OPT, 1, "id", lambda fs: 0)

    def m_Option__is_none_or(self, I, st, a):
        self._f = a[1]
        return self.closure1(I, st, a[0], OPT, 1, "id", lambda fs: 1)

    def m_Option__or_else(self, I, st, a):
        self._f = a[1]
        return self.closure1(I, st, a[0], OPT, 0, "id", lambda fs: some(fs[0]))

    def m_Option__unwrap_or_else(self, I, st, a):
        self._f = a[1]
        return self.closure1(I, st, a[0], OPT, 0, "id", lambda fs: fs[0])

    def m_Option__ok_or_else(self, I, st, a):
        self._f = a[1]
        return self.closure1(I, st, a[0], OPT, 0, "err", lambda fs: ok(fs[0]))

    def m_Option__filter(self, I, st, a):
        acts = []
        dest, target, sp, mb = self.ctx
        for s, vi, fs in self.cases(I, st, a[0], OPT):
            I.push_native(s, "optfilter", fs, dest, target)
            if vi == 1:
                acts.append((s, ("callv", a[1], (self.as_ref(fs[0]),))))
            else:
                acts.append((s, ("val", NONE)))
        return ("acts", acts)

    def r_optfilter(self, I, st, f, v):
        return [(s, ("val", some(f.data[0]) if b else NONE)) for s, b in self.booleans(I, st, v)]

    def m_Result__map(self, I, st, a):
        self._f = a[1]
        return self.closure1(I, st, a[0], RES, 0, "ok", lambda fs: err(fs[0]))

    def m_Result__map_err(self, I, st, a):
        self._f = a[1]
        return self.closure1(I, st, a[0], RES, 1, "err", lambda fs: ok(fs[0]))

    def m_Result__and_then(self, I, st, a):
        self._f = a[1]
        return self.closure1(I, st, a[0], RES, 0, "id", lambda fs: err(fs[0]))

    def m_Result__or_else(self, I, st, a):
        self._f = a[1]
        return self.closure1(I, st, a[0], RES, 1, "id", lambda fs: ok(fs[0]))

    def m_Result__unwrap_or_else(self, I, st, a):
        self._f = a[1]
        return self.closure1(I, st, a[0], RES, 1, "id", lambda fs: fs[0])

    def m_bool__then(self, I, st, a):
        acts = []
        dest, target, sp, mb = self.ctx
        for s, b in self.booleans(I, st, a[0]):
            I.push_native(s, "wrap", "some", dest, target)
            if b:
                acts.append((s, ("callv", a[1], ())))
            else:
                s.frames[-1].data = "id"
                acts.append((s, ("val", NONE)))
        return ("acts", acts)

    def m_bool__then_some(self, I, st, a):
        return [(s, some(a[1]) if b else NONE) for s, b in self.booleans(I, st, a[0])]

    # ------------------------------------------------------------ callables
    def m_FnMut__call_mut(self, I, st, a):
        t = I.deref(st, a[1])
        return ("value", a[0], list(t[1]))

    m_Fn__call = m_FnMut__call_mut
    m_FnOnce__call_once = m_FnMut__call_mut

    # ------------------------------------------------------------ String
    def m_String__new(self, I, st, a):
        return [(st, "")]

    def m_String__with_capacity(self, I, st, a):
        return [(st, "")]

    def m_String__push(self, I, st, a):
        r, v = I.lastref(st, a[0])
        p, it = sparts(v)
        I.store_ref(st, r, mkstr(p, it + (a[1],)))
        return [(st, UNIT)]

    def m_String__push_str(self, I, st, a):
        r, v = I.lastref(st, a[0])
        I.store_ref(st, r, sconcat(v, I.deref(st, a[1])))
        return [(st, UNIT)]

    def m_Add__add(self, I, st, a):
        v, w = I.deref(st, a[0]), I.deref(st, a[1])
        if type(v) is str or (type(v) is tuple and v and v[0] == "S"):
            return [(st, sconcat(v, w))]
        return None

    def m_AddAssign__add_assign(self, I, st, a):
        r, v = I.lastref(st, a[0])
        if type(v) is str or (type(v) is tuple and v and v[0] == "S"):
            I.store_ref(st, r, sconcat(v, I.deref(st, a[1])))
            return [(st, UNIT)]
        return None

    def m_String__clear(self, I, st, a):
        r, v = I.lastref(st, a[0])
        I.store_ref(st, r, "")
        return [(st, UNIT)]

    def m_String__pop(self, I, st, a):
        r, v = I.lastref(st, a[0])
        p, it = sparts(v)
        if it and not (type(it[-1]) is tuple and it[-1][0] == "sub"):
            I.store_ref(st, r, mkstr(p, it[:-1]))
            return [(st, some(it[-1]))]
        if p is None and not it:
            return [(st, NONE)]
        return None

    def m_String__is_empty(self, I, st, a):
        v = I.deref(st, a[0])
        if type(v) is str:
            return [(st, int(v == ""))]
        if type(v) is tuple and v[0] == "S":
            if any(not (type(i) is tuple and i[0] == "sub") or hasattr(I.dom, "nonempty") and I.dom.nonempty(i) for i in v[2]):
                return [(st, 0)]
            if v[1] is None and len(v[2]) == 0:
                return [(st, 1)]
            if v[1] is not None and not v[2]:
                return [(st, ("empty", v[1]))]
        if is_term(v):
            r = I.dom.streq(I, st, v, "")
            return [(st, r if r is not None else ("empty", v))]
        return None

    m_str__is_empty = m_String__is_empty

    def textcases(self, I, st, v, fn, term):
        if type(v) is tuple and v and v[0] == "tokstr" and hasattr(I.dom, "textcases"):
            return [(s, term if r is None else r) for s, r in I.dom.textcases(I, st, v, fn)]
        return None

    def m_str__len(self, I, st, a):
        v = I.deref(st, a[0])
        if type(v) is str:
            return [(st, len(v.encode("utf8")))]
        r = self.textcases(I, st, v, lambda t: len(t.encode("utf8")), ("app", "strlen", (v,)))
        if r is not None:
            return r
        if type(v) is tuple and v[0] == "S" and hasattr(I.dom, "cands"):
            c = {I.dom.wlen(x) for x in I.dom.cands(st, v)}
            if len(c) == 1 and None not in c:
                return [(st, c.pop())]
        return [(st, ("app", "strlen", (v,)))]

    m_String__len = m_str__len

    def m_str__to_string(self, I, st, a):
        return [(st, I.deref(st, a[0]))]

    def m_str__chars(self, I, st, a):
        v = I.deref(st, a[0])
        return [(st, ("I", "chars", v))]

    def m_str__parse(self, I, st, a):
        v = I.deref(st, a[0])
        to = I.P.types[self.fr.targs[0]]["s"] if self.fr.targs else "?"
        return self.parsed(I, st, ("app", "parse", (to, v)))

    def parsed(self, I, st, t):
        r = I.dom.parsed(I, st, t)
        if r is not None:
            return r
        out = []
        for s, b in self.booleans(I, st, ("app", "isok", (t,))):
            out.append((s, ok(t) if b else err(("app", "parse_err", ()))))
        return out

    def m_num__from_str_radix(self, I, st, a):
        v = I.deref(st, a[0])
        return self.parsed(I, st, ("app", "radix", (self.fr.p.split("impl ")[-1].split(">")[0], v, a[1])))

    def _radix(self, I, st, a):
        return self.m_num__from_str_radix(I, st, a)

    m_i64__from_str_radix = _radix
    m_u64__from_str_radix = _radix
    m_u32__from_str_radix = _radix
    m_i32__from_str_radix = _radix
    m_u128__from_str_radix = _radix
    m_i128__from_str_radix = _radix
    m_usize__from_str_radix = _radix
    m_u16__from_str_radix = _radix
    m_u8__from_str_radix = _radix

    def m_str__contains(self, I, st, a):
        v, w = I.deref(st, a[0]), I.deref(st, a[1])
        if type(v) is str and type(w) is str:
            return [(st, int(w in v))]
        if type(v) is str and is_term(w):
            r = I.dom.inset(I, st, w, [ord(c) for c in v])
            return None if r is None else [(st, r)]
        return self.textpred(I, st, v, w, "contains", lambda t, x: x in t)

    def textpred(self, I, st, v, w, name, fn):
        if type(w) is int:
            w = chr(w)
        if type(w) is str:
            if type(v) is str:
                return [(st, int(fn(v, w)))]
            return self.textcases(I, st, v, lambda t: int(fn(t, w)), ("app", name, (v, w)))
        return None

    def m_str__starts_with(self, I, st, a):
        return self.textpred(I, st, I.deref(st, a[0]), I.deref(st, a[1]), "starts_with", str.startswith)

    def m_str__ends_with(self, I, st, a):
        return self.textpred(I, st, I.deref(st, a[0]), I.deref(st, a[1]), "ends_with", str.endswith)

    def m_hint__must_use(self, I, st, a):
        return [(st, a[0])]

    def m_slice__contains(self, I, st, a):
        v, w = I.deref(st, a[0]), I.deref(st, a[1])
        if type(v) is tuple and v[0] == "V" and v[1] is None:
            outs = [(st, 0)]
            for it in v[2]:
                nxt = []
                for s, acc in outs:
                    if acc == 1:
                        nxt.append((s, 1))
                        continue
                    for s2, r in self.equal(I, s, it, w):
                        if type(r) is int:
                            nxt.append((s2, r))
                        else:
                            nxt.extend((s3, b) for s3, b in self.booleans(I, s2, r))
                outs = nxt
            return outs
        return None

    m_Vec__contains = m_slice__contains

    # ------------------------------------------------------------ char
    def charfn(name):
        def m(self, I, st, a):
            args = [I.deref(st, x) for x in a]
            return I.dom.charfn(I, st, name, args)
        return m

    for _n in ("is_whitespace", "is_alphabetic", "is_alphanumeric", "is_numeric", "is_ascii_digit", "is_ascii_hexdigit",
               "is_ascii_alphabetic", "is_ascii_alphanumeric", "is_ascii_whitespace", "is_ascii_punctuation", "is_ascii",
               "is_control", "is_digit", "to_digit", "is_ascii_uppercase", "is_ascii_lowercase", "len_utf8", "len_utf16",
               "to_ascii_lowercase", "to_ascii_uppercase", "eq_ignore_ascii_case"):
        locals()["m_char__" + _n] = charfn(_n)
        locals()["m_methods__" + _n] = charfn(_n)
        locals()["m_u8__" + _n] = charfn(_n)
    for _n in ("is_id_start", "is_id_continue"):
        locals()["m_Codepoint__" + _n] = charfn(_n)
    m_char__from_u32 = charfn("from_u32")
    m_methods__from_u32 = charfn("from_u32")
    m_char__from_digit = charfn("from_digit")
    del charfn, _n

    # ------------------------------------------------------------ Vec / VecDeque / slices
    def m_Vec__new(self, I, st, a):
        return [(st, mkvec(None, ()))]

    m_Vec__with_capacity = m_Vec__new
    m_VecDeque__new = m_Vec__new
    m_VecDeque__with_capacity = m_Vec__new

    def vec(self, I, st, v):
        v = I.deref(st, v)
        if type(v) is tuple and v[0] == "V":
            return v
        if is_term(v):
            return mkvec(v, ())
        if type(v) is tuple and v[0] == "UN":
            return mkvec(None, ())
        raise Undecided("vector %r" % (v,))

    def vecref(self, I, st, r):
        ref, v = I.lastref(st, r)
        return ref, self.vec(I, st, v)

    def m_Vec__push(self, I, st, a):
        r, v = self.vecref(I, st, a[0])
        I.store_ref(st, r, mkvec(v[1], v[2] + (a[1],)))
        return [(st, UNIT)]

    m_VecDeque__push_back = m_Vec__push

    def m_VecDeque__push_front(self, I, st, a):
        r, v = self.vecref(I, st, a[0])
        if v[1] is not None:
            return None
        I.store_ref(st, r, mkvec(None, (a[1],) + v[2]))
        return [(st, UNIT)]

    def m_Vec__insert(self, I, st, a):
        r, v = self.vecref(I, st, a[0])
        if v[1] is None and type(a[1]) is int and a[1] <= len(v[2]):
            it = list(v[2])
            it.insert(a[1], a[2])
            I.store_ref(st, r, mkvec(None, it))
            return [(st, UNIT)]
        return None

    def m_Vec__remove(self, I, st, a):
        r, v = self.vecref(I, st, a[0])
        if type(a[1]) is int and v[1] is None:
            if a[1] >= len(v[2]):
                return self.panic(I, st, "remove index out of bounds")
            I.store_ref(st, r, mkvec(None, v[2][:a[1]] + v[2][a[1] + 1:]))
            return [(st, v[2][a[1]])]
        if a[1] == 0:
            return [(s, x[3][0] if x[2] else PanicVal("remove index out of bounds")) for s, x in self.m_VecDeque__pop_front(I, st, a)]
        return None

    def m_Vec__truncate(self, I, st, a):
        r, v = self.vecref(I, st, a[0])
        if type(a[1]) is int and (v[1] is None or a[1] == 0):
            I.store_ref(st, r, mkvec(None, v[2][:a[1]]))
            return [(st, UNIT)]
        return None

    def m_slice__reverse(self, I, st, a):
        r, v = self.vecref(I, st, a[0])
        if v[1] is None:
            I.store_ref(st, r, mkvec(None, v[2][::-1]))
            return [(st, UNIT)]
        return None

    def m_slice__swap(self, I, st, a):
        r, v = self.vecref(I, st, a[0])
        if v[1] is None and type(a[1]) is int and type(a[2]) is int and max(a[1], a[2]) < len(v[2]):
            it = list(v[2])
            it[a[1]], it[a[2]] = it[a[2]], it[a[1]]
            I.store_ref(st, r, mkvec(None, it))
            return [(st, UNIT)]
        return None

    def m_slice__split_first(self, I, st, a):
        v = self.vec(I, st, a[0])
        if v[1] is None:
            return [(st, some(("T", (self.as_ref(v[2][0]), self.as_ref(mkvec(None, v[2][1:]))))) if v[2] else NONE)]
        return None

    def m_slice__split_last(self, I, st, a):
        v = self.vec(I, st, a[0])
        if v[2]:
            return [(st, some(("T", (self.as_ref(v[2][-1]), self.as_ref(mkvec(v[1], v[2][:-1]))))))]
        if v[1] is None:
            return [(st, NONE)]
        return None

    def m_Vec__pop(self, I, st, a):
        r, v = self.vecref(I, st, a[0])
        if v[2]:
            I.store_ref(st, r, mkvec(v[1], v[2][:-1]))
            return [(st, some(v[2][-1]))]
        if v[1] is None:
            return [(st, NONE)]
        out = []
        for s, b in self.booleans(I, st, ("empty", v[1])):
            if b:
                out.append((s, NONE))
            else:
                I.store_ref(s, r, mkvec(("app", "init", (v[1],)), ()))
                out.append((s, some(("last", v[1]))))
        return out

    m_VecDeque__pop_back = m_Vec__pop

    def m_VecDeque__pop_front(self, I, st, a):
        r, v = self.vecref(I, st, a[0])
        if v[1] is None:
            if v[2]:
                I.store_ref(st, r, mkvec(None, v[2][1:]))
                return [(st, some(v[2][0]))]
            return [(st, NONE)]
        out = []
        for s, b in self.booleans(I, st, ("empty", v[1])):
            if b:
                if v[2]:
                    I.store_ref(s, r, mkvec(None, v[2][1:]))
                    out.append((s, some(v[2][0])))
                else:
                    out.append((s, NONE))
            else:
                I.store_ref(s, r, mkvec(("tail", v[1]), v[2]))
                out.append((s, some(("head", v[1]))))
        return out

    def m_Vec__len(self, I, st, a):
        return [(st, I.length(st, self.vec(I, st, a[0])))]

    m_VecDeque__len = m_Vec__len
    m_slice__len = m_Vec__len

    def m_Vec__is_empty(self, I, st, a):
        v = self.vec(I, st, a[0])
        if v[2]:
            return [(st, 0)]
        if v[1] is None:
            return [(st, 1)]
        return [(st, ("empty", v[1]))]

    m_VecDeque__is_empty = m_Vec__is_empty
    m_slice__is_empty = m_Vec__is_empty

    def m_Vec__clear(self, I, st, a):
        r, v = self.vecref(I, st, a[0])
        I.store_ref(st, r, mkvec(None, ()))
        return [(st, UNIT)]

    def m_slice__last(self, I, st, a):
        v = self.vec(I, st, a[0])
        if v[2]:
            return [(st, some(self.as_ref(v[2][-1])))]
        if v[1] is None:
            return [(st, NONE)]
        return [(s, NONE if b else some(self.as_ref(("last", v[1])))) for s, b in self.booleans(I, st, ("empty", v[1]))]

    m_Vec__last = m_slice__last
    m_VecDeque__back = m_slice__last

    def m_slice__first(self, I, st, a):
        v = self.vec(I, st, a[0])
        if v[1] is None:
            return [(st, some(self.as_ref(v[2][0])) if v[2] else NONE)]
        out = []
        for s, b in self.booleans(I, st, ("empty", v[1])):
            if not b:
                out.append((s, some(self.as_ref(("head", v[1])))))
            else:
                out.append((s, some(self.as_ref(v[2][0])) if v[2] else NONE))
        return out

    m_Vec__first = m_slice__first
    m_VecDeque__front = m_slice__first

    def m_slice__get(self, I, st, a):
        v = self.vec(I, st, a[0])
        i = a[1]
        if v[1] is None and type(i) is int:
            return [(st, some(self.as_ref(v[2][i])) if i < len(v[2]) else NONE)]
        if i == 0:
            return self.m_slice__first(I, st, a)
        return None

    m_Vec__get = m_slice__get
    m_VecDeque__get = m_slice__get

    def m_Extend__extend(self, I, st, a):
        if self.isstr(I, st, a[0]):
            r, v = I.lastref(st, a[0])
            x = I.deref(st, a[1])
            if type(x) is str or type(x) is tuple and x and x[0] == "S":
                w = x
            elif type(x) is tuple and x[:2] == ("I", "chars"):
                w = x[2]
            elif type(x) is tuple and x[0] == "A" and x[1] == OPT:
                w = mkstr(None, x[3]) if x[2] == 1 else ""
            else:
                return None
            I.store_ref(st, r, sconcat(v, w))
            return [(st, UNIT)]
        r, v = self.vecref(I, st, a[0])
        if r is None:
            return None
        x = I.deref(st, a[1])
        if type(x) is tuple and x[0] == "I" and x[1] == "vec":
            x = x[2]
        if type(x) is tuple and x[0] == "A" and x[1] == OPT:
            x = mkvec(None, x[3])
        w = self.vec(I, st, x)
        if w[1] is None:
            nv = mkvec(v[1], v[2] + w[2])
        elif v[1] is None and not v[2]:
            nv = w
        else:
            nv = mkvec(v[1], v[2] + (("splice", w[1]),) + w[2])
        I.store_ref(st, r, nv)
        return [(st, UNIT)]

    def isstr(self, I, st, r):
        v = I.deref(st, r)
        return type(v) is str or (type(v) is tuple and v and v[0] == "S")

    def m_Vec__append(self, I, st, a):
        r2, w = self.vecref(I, st, a[1])
        res = self.m_Extend__extend(I, st, a)
        I.store_ref(st, r2, mkvec(None, ()))
        return res

    def m_Vec__extend_from_slice(self, I, st, a):
        return self.m_Extend__extend(I, st, a)

    # ------------------------------------------------------------ iterators
    def m_IntoIterator__into_iter(self, I, st, a):
        v = a[0]
        x = I.deref(st, v)
        if type(x) is tuple and x and x[0] == "I":
            return [(st, v if type(v) is tuple and v[0] == "R" else x)]
        byref = type(v) is tuple and v and v[0] == "R"
        if type(x) is tuple and x and x[0] == "V" or is_term(x):
            return [(st, ("I", "iter" if byref else "vec", self.vec(I, st, x)))]
        if type(x) is tuple and x[0] == "A" and x[1].endswith("ops::Range"):
            return [(st, ("I", "range", x[3][0], x[3][1]))]
        if type(x) is tuple and x[0] == "A" and x[1].endswith("ops::RangeInclusive"):
            return [(st, ("I", "range", x[3][0], I.arith(st, "Add", x[3][1], 1)))]
        if type(x) is tuple and x[0] == "A" and x[1] == OPT:
            return [(st, ("I", "vec", mkvec(None, x[3])))]
        # a local type that is itself an iterator
        return [(st, v)]

    def m_slice__iter(self, I, st, a):
        return [(st, ("I", "iter", self.vec(I, st, a[0])))]

    m_Vec__iter = m_slice__iter
    m_VecDeque__iter = m_slice__iter

    def m_Vec__drain(self, I, st, a):
        r, v = self.vecref(I, st, a[0])
        i = a[1]
        if type(i) is tuple and i[0] == "A" and i[1].endswith("RangeFull"):
            I.store_ref(st, r, mkvec(None, ()))
            return [(st, ("I", "vec", v))]
        return None

    def m_Iterator__enumerate(self, I, st, a):
        return [(st, ("I", "enum", a[0], 0))]

    def m_Iterator__peekable(self, I, st, a):
        return [(st, ("I", "peek", a[0], None))]

    def m_Iterator__rev(self, I, st, a):
        v = a[0]
        if type(v) is tuple and v[0] == "I" and v[1] in ("vec", "iter") and v[2][1] is None:
            return [(st, ("I", v[1], mkvec(None, v[2][2][::-1])))]
        return None

    def m_Iterator__map(self, I, st, a):
        return [(st, ("I", "map", a[0], a[1]))]

    def m_Iterator__cloned(self, I, st, a):
        v = a[0]
        if type(v) is tuple and v[0] == "I" and v[1] == "iter":
            return [(st, ("I", "vec", v[2]))]
        return None

    m_Iterator__copied = m_Iterator__cloned

    def step(self, I, st, it):
        """advance a value-iterator: list of (state, item | None, iterator)"""
        k = it[1]
        if k in ("vec", "iter"):
            v = it[2]
            wrap = (lambda x: self.as_ref(x)) if k == "iter" else (lambda x: x)
            if v[1] is None:
                if not v[2]:
                    return [(st, None, it)]
                x = v[2][0]
                if type(x) is tuple and x and x[0] == "splice":
                    return self.step(I, st, ("I", k, mkvec(x[1], v[2][1:])))
                return [(st, (wrap(x),), ("I", k, mkvec(None, v[2][1:])))]
            out = []
            for s, b in self.booleans(I, st, ("empty", v[1])):
                if b:
                    out.extend(self.step(I, s, ("I", k, mkvec(None, v[2]))))
                else:
                    out.append((s, (wrap(("head", v[1])),), ("I", k, mkvec(("tail", v[1]), v[2]))))
            return out
        if k == "enum":
            out = []
            for s, x, it2 in self.step(I, st, it[2]):
                if x is None:
                    out.append((s, None, ("I", "enum", it2, it[3])))
                else:
                    out.append((s, (("T", (it[3], x[0])),), ("I", "enum", it2, I.arith(s, "Add", it[3], 1))))
            return out
        if k == "range":
            a, b = it[2], it[3]
            c = I.cmpterm(st, "Lt", a, b)
            out = []
            for s, v in self.booleans(I, st, c):
                if v:
                    out.append((s, (a,), ("I", "range", I.arith(s, "Add", a, 1), b)))
                else:
                    out.append((s, None, it))
            return out
        if k == "chars":
            v = it[2]
            if type(v) is str:
                return [(st, (ord(v[0]),), ("I", "chars", v[1:]))] if v else [(st, None, it)]
            p, items = sparts(v)
            if p is None and not items:
                return [(st, None, it)]
            if p is None and not (type(items[0]) is tuple and items[0][0] == "sub"):
                return [(st, (items[0],), ("I", "chars", mkstr(None, items[1:])))]
            raise Undecided("characters of unknown string")
        if k == "take":
            if it[3] == 0:
                return [(st, None, it)]
            if type(it[3]) is int:
                return [(s, x, ("I", "take", i2, it[3] - 1)) for s, x, i2 in self.step(I, st, it[2])]
        if k == "skip" and type(it[3]) is int:
            if it[3] == 0:
                return [(s, x, ("I", "skip", i2, 0)) for s, x, i2 in self.step(I, st, it[2])]
            out = []
            for s, x, i2 in self.step(I, st, it[2]):
                if x is None:
                    out.append((s, None, ("I", "skip", i2, 0)))
                else:
                    out.extend(self.step(I, s, ("I", "skip", i2, it[3] - 1)))
            return out
        if k == "chain":
            out = []
            for s, x, i2 in self.step(I, st, it[2]):
                if x is not None:
                    out.append((s, x, ("I", "chain", i2, it[3])))
                else:
                    out.extend((s2, x2, i3) for s2, x2, i3 in self.step(I, s, it[3]))
            return out
        if k == "zip":
            out = []
            for s, x, i2 in self.step(I, st, it[2]):
                if x is None:
                    out.append((s, None, ("I", "zip", i2, it[3])))
                else:
                    for s2, y, i3 in self.step(I, s, it[3]):
                        out.append((s2, None if y is None else (("T", (x[0], y[0])),), ("I", "zip", i2, i3)))
            return out
        if k == "peek":
            if it[3] is not None:
                pk = it[3]
                return [(st, pk[0], ("I", "peek", it[2], None))]
            return [(s, x, ("I", "peek", i2, None)) for s, x, i2 in self.step(I, st, it[2])]
        raise Undecided("iterator %s" % k)

    def symbolic(self, it):
        """iteration over a list of unknown length"""
        while it[1] == "enum":
            it = it[2]
        return it[1] in ("vec", "iter") and it[2][1] is not None and not (it[2][1][0] == "sym" and type(it[2][1][1]) is str and it[2][1][1] in ("ms", "ps"))

    def m_Iterator__next(self, I, st, a):
        if not (type(a[0]) is tuple and a[0][0] == "R"):
            return None
        r, it = I.lastref(st, a[0])
        if type(it) is tuple and it and it[0] == "I":
            if I.iter_events and self.symbolic(it):
                return ("event", ("iter", self.ctx[0], self.ctx[1], r))
            if self.closed(it):
                self.native(I, st, "next", r)
                return ("acts", self.pull(I, st, it))
            out = []
            for s, x, it2 in self.step(I, st, it):
                I.store_ref(s, r, it2)
                out.append((s, some(x[0]) if x is not None else NONE))
            return out
        if type(it) is tuple and it and it[0] == "A" and it[1].endswith("ops::Range"):
            out = []
            for s, x, it2 in self.step(I, st, ("I", "range", it[3][0], it[3][1])):
                I.store_ref(s, r, ("A", it[1], 0, (it2[2], it2[3])))
                out.append((s, some(x[0]) if x is not None else NONE))
            return out
        r2 = I.dom.next(I, st, r, it)
        return r2

    # --- adaptors: a pull delivers ("P", (item,) | None, iterator) to the native frame on top
    CLOSED = ("map", "filter", "filter_map", "take_while", "skip_while", "inspect")

    def closed(self, it):
        """does the iterator call closures?"""
        return type(it) is tuple and it and it[0] == "I" and (it[1] in self.CLOSED or any(self.closed(x) for x in it[2:]))

    def pull(self, I, st, it):
        if not self.closed(it):
            acts = []
            for s, x, it2 in self.step(I, st, it):
                I.push_native(s, "wrap", "id", None, 0)
                acts.append((s, ("val", ("P", x, it2))))
            return acts
        I.push_native(st, "pulling", (it, None), None, 0)
        return self.pull(I, st, it[2])

    def r_pulling(self, I, st, f, v):
        it, got = f.data
        k = it[1]
        mk = lambda inner, *r: ("I", k, inner) + (r or it[3:])
        if got is None:
            _, x, inner = v
            if x is None:
                return [(st, ("val", ("P", None, mk(inner))))]
            if k in ("enum",):
                return [(st, ("val", ("P", (("T", (it[3], x[0])),), ("I", k, inner, I.arith(st, "Add", it[3], 1)))))]
            if k not in self.CLOSED:
                raise Undecided("iterator %s over closures" % k)
            if k == "skip_while" and it[4]:
                return [(st, ("val", ("P", x, mk(inner))))]
            f.data = (("I", k, inner) + it[3:], x)
            arg = x[0] if k in ("map", "filter_map") else self.as_ref(x[0])
            return [(st, ("callv", it[3], (arg,)))]
        acts = []
        if k == "map":
            return [(st, ("val", ("P", (v,), it)))]
        if k == "inspect":
            return [(st, ("val", ("P", got, it)))]
        if k == "filter_map":
            for s, vi, fs in self.cases(I, st, v, OPT):
                if vi == 1:
                    acts.append((s, ("val", ("P", (fs[0],), it))))
                else:
                    s.frames[-1].data = (it, None)
                    acts.extend(self.pull(I, s, it[2]))
            return acts
        for s, b in self.booleans(I, st, v):
            if k == "filter" and b:
                acts.append((s, ("val", ("P", got, it))))
            elif k == "take_while":
                acts.append((s, ("val", ("P", got, it) if b else ("P", None, ("I", "vec", mkvec(None, ()))))))
            elif k == "skip_while" and not b:
                acts.append((s, ("val", ("P", got, it[:4] + (1,)))))
            else:
                s.frames[-1].data = (it, None)
                acts.extend(self.pull(I, s, it[2]))
        return acts

    def m_Iterator__filter(self, I, st, a):
        return [(st, ("I", "filter", a[0], a[1]))]

    def m_Iterator__filter_map(self, I, st, a):
        return [(st, ("I", "filter_map", a[0], a[1]))]

    def m_Iterator__take_while(self, I, st, a):
        return [(st, ("I", "take_while", a[0], a[1]))]

    def m_Iterator__skip_while(self, I, st, a):
        return [(st, ("I", "skip_while", a[0], a[1], 0))]

    def m_Iterator__inspect(self, I, st, a):
        return [(st, ("I", "inspect", a[0], a[1]))]

    def m_Iterator__take(self, I, st, a):
        return [(st, ("I", "take", a[0], a[1]))]

    def m_Iterator__skip(self, I, st, a):
        return [(st, ("I", "skip", a[0], a[1]))]

    def m_Iterator__chain(self, I, st, a):
        b = self.m_IntoIterator__into_iter(I, st, [a[1]])[0][1]
        return [(st, ("I", "chain", a[0], b))]

    def m_Iterator__zip(self, I, st, a):
        b = self.m_IntoIterator__into_iter(I, st, [a[1]])[0][1]
        return [(st, ("I", "zip", a[0], b))]

    def m_Iterator__by_ref(self, I, st, a):
        return [(st, a[0])]

    def r_next(self, I, st, f, v):
        I.store_ref(st, f.data, v[2])
        return [(st, ("val", some(v[1][0]) if v[1] is not None else NONE))]

    def m_Peekable__peek(self, I, st, a):
        r, it = I.lastref(st, a[0])
        if it[3] is not None:
            x = it[3][0]
            return [(st, some(self.as_ref(x[0])) if x is not None else NONE)]
        out = []
        for s, x, i2 in self.step(I, st, it[2]):
            I.store_ref(s, r, ("I", "peek", i2, (x,)))
            out.append((s, some(self.as_ref(x[0])) if x is not None else NONE))
        return out

    # --- consumers: data = (iterator, closure, accumulator, what is awaited)
    def loop(self, I, st, name, it, fn, acc):
        if not (type(it) is tuple and it and it[0] == "I"):
            raise Undecided("loop over %r" % (it,))
        if it[1] == "chars" and hasattr(I.dom, "strloop") and not type(it[2]) is str and \
                any(type(x) is tuple and x[0] == "sub" for x in sparts(it[2])[1]):
            r = I.dom.strloop(I, st, name, it[2], fn, acc, self.ctx)
            if r is not None:
                return [(st, r)]
        self.native(I, st, "loop", (name, it, fn, acc, None))
        return ("acts", self.pull(I, st, it))

    def value_iter(self, I, st, v):
        """an iterator passed by value or by mutable reference to the consumer"""
        if type(v) is tuple and v and v[0] == "R":
            r, it = I.lastref(st, v)
            return it
        return v

    def r_loop(self, I, st, f, v):
        name, it, fn, acc, x = f.data

        def again(s, it2, acc2):
            s.frames[-1].data = (name, it2, fn, acc2, None)
            return self.pull(I, s, it2)

        def done(s, it2, val):
            return [(s, ("val", val))]
        if x is None:
            _, x, it2 = v
            if x is None:
                if name in ("find", "find_map", "position"):
                    acc = NONE
                elif name == "collectres":
                    acc = ok(acc)
                elif name == "collectopt":
                    acc = some(acc)
                return done(st, it2, acc)
            if fn is None:      # no closure: consume directly
                return self.consume(I, st, name, it2, acc, x[0], again, done)
            f.data = (name, it2, fn, acc, x)
            if name == "fold":
                return [(st, ("callv", fn, (acc, x[0])))]
            return [(st, ("callv", fn, (self.as_ref(x[0]) if name == "find" else x[0],)))]
        if name == "fold":
            return again(st, it, v)
        if name == "for_each":
            return again(st, it, acc)
        acts = []
        if name == "find_map":
            for s, vi, fs in self.cases(I, st, v, OPT):
                acts.extend(done(s, it, some(fs[0])) if vi else again(s, it, acc))
            return acts
        if name == "try_for_each":
            for s, vi, fs in self.cases(I, st, v, RES):
                acts.extend(again(s, it, acc) if vi == 0 else done(s, it, err(fs[0])))
            return acts
        for s, b in self.booleans(I, st, v):
            if name == "any":
                acts.extend(done(s, it, 1) if b else again(s, it, 0))
            elif name == "all":
                acts.extend(again(s, it, 1) if b else done(s, it, 0))
            elif name == "find":
                acts.extend(done(s, it, some(x[0])) if b else again(s, it, acc))
            elif name == "position":
                acts.extend(done(s, it, some(acc)) if b else again(s, it, I.arith(s, "Add", acc, 1)))
            else:
                raise Undecided("loop %s" % name)
        return acts

    def consume(self, I, st, name, it, acc, x, again, done):
        if name == "count":
            return again(st, it, I.arith(st, "Add", acc, 1))
        if name == "last":
            return again(st, it, some(x))
        if name == "nth":
            return done(st, it, some(x)) if acc == 0 else again(st, it, acc - 1)
        if name == "collect":
            return again(st, it, mkvec(acc[1], acc[2] + (x,)))
        if name == "collectstr":
            y = I.deref(st, x)
            if type(y) is str or type(y) is tuple and y[0] == "S" or self.strish:
                return again(st, it, sconcat(acc, y))
            p, its = sparts(acc)
            return again(st, it, mkstr(p, its + (y,)))
        if name in ("collectres", "collectopt"):
            acts = []
            good = 0 if name == "collectres" else 1
            for s, vi, fs in self.cases(I, st, x, RES if good == 0 else OPT):
                if vi == good:
                    acts.extend(again(s, it, mkvec(acc[1], acc[2] + (fs[0],))))
                else:
                    acts.extend(done(s, it, err(fs[0]) if good == 0 else NONE))
            return acts
        if name == "sum":
            return again(st, it, I.arith(st, "Add", acc, I.deref(st, x)))
        raise Undecided("loop %s" % name)

    strish = False

    def m_Iterator__fold(self, I, st, a):
        return self.loop(I, st, "fold", a[0], a[2], a[1])

    def m_Iterator__for_each(self, I, st, a):
        return self.loop(I, st, "for_each", a[0], a[1], UNIT)

    def m_Iterator__try_for_each(self, I, st, a):
        return self.loop(I, st, "try_for_each", self.value_iter(I, st, a[0]), a[1], ok(UNIT))

    def m_Iterator__any(self, I, st, a):
        return self.loop(I, st, "any", self.value_iter(I, st, a[0]), a[1], 0)

    def m_Iterator__all(self, I, st, a):
        return self.loop(I, st, "all", self.value_iter(I, st, a[0]), a[1], 1)

    def m_Iterator__find(self, I, st, a):
        return self.loop(I, st, "find", self.value_iter(I, st, a[0]), a[1], None)

    def m_Iterator__find_map(self, I, st, a):
        return self.loop(I, st, "find_map", self.value_iter(I, st, a[0]), a[1], None)

    def m_Iterator__position(self, I, st, a):
        return self.loop(I, st, "position", self.value_iter(I, st, a[0]), a[1], 0)

    def m_Iterator__count(self, I, st, a):
        it = a[0]
        if type(it) is tuple and it and it[0] == "I" and it[1] in ("vec", "iter"):
            return [(st, I.length(st, it[2]))]
        return self.loop(I, st, "count", it, None, 0)

    def m_Iterator__last(self, I, st, a):
        return self.loop(I, st, "last", a[0], None, NONE)

    def m_Iterator__sum(self, I, st, a):
        return self.loop(I, st, "sum", a[0], None, 0)

    def m_Iterator__collect(self, I, st, a):
        it = a[0]
        ty = I.P.types[self.fr.targs[-1]]
        p = ty.get("p")
        if type(it) is tuple and it and it[0] == "I":
            if p == "std::vec::Vec":
                if it[1] == "vec":
                    return [(st, it[2])]
                return self.loop(I, st, "collect", it, None, mkvec(None, ()))
            if p == "std::collections::VecDeque":
                return self.loop(I, st, "collect", it, None, mkvec(None, ()))
            if p in (RES, OPT) and I.P.types[ty["a"][0]].get("p") == "std::vec::Vec":
                return self.loop(I, st, "collectres" if p == RES else "collectopt", it, None, mkvec(None, ()))
            if p == "std::string::String":
                if it[1] == "chars":
                    return [(st, it[2])]
                return self.loop(I, st, "collectstr", it, None, "")
        return None

    def m_FromIterator__from_iter(self, I, st, a):
        it = self.m_IntoIterator__into_iter(I, st, a)[0][1]
        ty = I.P.types[self.fr.targs[0]]
        p = ty.get("p")
        if type(it) is tuple and it and it[0] == "I":
            if p == "std::vec::Vec":
                return [(st, it[2])] if it[1] == "vec" else self.loop(I, st, "collect", it, None, mkvec(None, ()))
            if p == "std::string::String":
                return [(st, it[2])] if it[1] == "chars" else self.loop(I, st, "collectstr", it, None, "")
        return None

    # ------------------------------------------------------------ integer methods
    def intmethod(self, I, st, op, kind, a):
        x, y = I.deref(st, a[0]), I.deref(st, a[1])
        import re as _re
        m = _re.search(r"<impl (\w+)>", self.fr.p)
        n = m.group(1) if m else "usize"
        bits = {"8": 8, "16": 16, "32": 32, "64": 64, "128": 128}.get(n[1:], 64)
        lo, hi = (0, (1 << bits) - 1) if n[0] == "u" else (-(1 << (bits - 1)), (1 << (bits - 1)) - 1)
        r = I.arith(st, op, x, y)
        if type(r) is int:
            ov = int(not lo <= r <= hi)
            wr = (r - lo) % (hi - lo + 1) + lo
            sat = lo if r < lo else hi if r > hi else r
        else:
            ty = next((i for i, t in enumerate(I.P.types) if t.get("s") == n), None)
            ov = I.overflow(st, op, x, y, r, ty) if ty is not None else ("app", "overflow", (op, x, y))
            wr, sat = ("app", "wrapping", (op, x, y)), ("app", "saturating", (op, x, y))
        out = []
        for s, b in ([(st, ov)] if type(ov) is int else self.booleans(I, st, ov)):
            b = int(b == 1)
            if kind == "saturating":
                out.append((s, sat if b else r))
            elif kind == "wrapping":
                out.append((s, wr if b else r))
            elif kind == "checked":
                out.append((s, NONE if b else some(r)))
            else:
                out.append((s, ("T", (wr if b else r, b))))
        return out

    def __getattr__(self, name):
        if name.startswith("m_"):
            ty, _, meth = name[2:].partition("__")
            if ty in ("num", "usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128"):
                for kind in ("saturating", "wrapping", "checked", "overflowing"):
                    for op in ("add", "sub", "mul"):
                        if meth == kind + "_" + op:
                            return lambda I, st, a, op=op.capitalize(), kind=kind: self.intmethod(I, st, op, kind, a)
        raise AttributeError(name)

    def m_Range__contains(self, I, st, a):
        r, x = I.deref(st, a[0]), I.deref(st, a[1])
        out = []
        for s, b in self.booleans(I, st, I.cmpterm(st, "Le", r[3][0], x)):
            if not b:
                out.append((s, 0))
            else:
                out.extend((s2, b2) for s2, b2 in self.booleans(I, s, I.cmpterm(s, "Lt", x, r[3][1])))
        return out

    def m_RangeInclusive__contains(self, I, st, a):
        r, x = I.deref(st, a[0]), I.deref(st, a[1])
        out = []
        for s, b in self.booleans(I, st, I.cmpterm(st, "Le", r[3][0], x)):
            if not b:
                out.append((s, 0))
            else:
                out.extend((s2, b2) for s2, b2 in self.booleans(I, s, I.cmpterm(s, "Le", x, r[3][1])))
        return out

    def m_RangeInclusive__new(self, I, st, a):
        return [(st, ("A", "std::ops::RangeInclusive", 0, (a[0], a[1])))]
