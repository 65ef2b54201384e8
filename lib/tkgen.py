"""Random programs for TkMachine.  A profile says how often what occurs."""
from tkast import *

SPECIALS = ["<", ">", "&", '"', "'", "&amp;", "<b>", "a<b", "x&y", "'q'", '"', "&lt;", "]]>", "a b", "", "0", "é<", "$", "$$x", "\\n", "\\", "%s", "\xa0"]
TEXTS = ["a", "b ", " c", "<", "&", ">", "$", "x < y", "\n", " \n ", "\"", "'", "&amp;", "t1", "hello world", ".x", "(", "[0]", "{", "}", "${", "é", "  ", "\\", "\\n", "a\\'b", "\\\"", "\u2028", "\t", "2.5", "-", "\xa0", "%s", "{0}"]

BASE = dict(
    depth=3, width=3, edepth=2,
    nodes=dict(text=8, el=6, ctlel=4, comment=.3, script=.3, imp=0, code=0),
    ctls={"if": 3, "unless": 2, "for": 3, "with": 2, "def": 2, "block": 1.5},
    nctl=[(0, 5), (1, 4), (2, 2), (3, 1)],
    elextra=dict(strip=.15, content=.12, replace=.06, pyattrs=.12),
    attrs=.35,
    exprs=dict(var=6, const=1.5, probe=1, call=2.5, lit=.8, cond=.6, andor=.5, cat=.6, idx=.4,
               lam=.3, boolop=.5, bad=0, boom=0, unbound=0, wild=0, len=.2),
    wildpool=[], compvars=["cx", "cy"], tr="off", tbs=False, comps=.3, constcond=.3, kwargs=.3, dup=.02, nestdef=1.0, js=False,
)


def profile(**kw):
    pr = {k: (dict(v) if isinstance(v, dict) else v) for k, v in BASE.items()}
    for k, v in kw.items():
        if isinstance(v, dict):
            pr[k] = dict(pr.get(k, {}), **v)
        else:
            pr[k] = v
    return pr


# what the Python and the JavaScript target have in common
def jsprofile(**kw):
    return profile(**dict(dict(js=True, kwargs=0, constcond=.2, exprs=dict(len=0)), **kw))


class Gen:
    def __init__(self, rng, prof):
        self.R, self.P = rng, prof
        self.n = 0
        self.tops = {}      # names of top-level functions wanted: name -> params

    def w(self, d):
        ks = [k for k in d if d[k] > 0]
        return self.R.choices(ks, [d[k] for k in ks])[0]

    def chance(self, q):
        return self.R.random() < q

    def id(self):
        self.n += 1
        return str(self.n)

    # -- context -------------------------------------------------------
    def context(self):
        R = self.R
        s = lambda: vs(R.choice(SPECIALS))
        sc = lambda: R.choice([s, s, lambda: vi(R.randint(0, 3)), lambda: vb(R.random() < .5),
                               lambda: VN, lambda: vmk(R.choice(SPECIALS)),
                               lambda: vhtml("h<", "<u>"), lambda: vobj("o&" + R.choice(SPECIALS))])()
        ctx = [("s", s()), ("t", s()), ("m", vmk(R.choice(["<b>&amp;", "&lt;", "<", ""]))),
               ("n", vi(R.randint(0, 12))), ("z", vi(0)), ("yes", vb(True)), ("no", vb(False)),
               ("nil", VN), ("h", vhtml("s<", R.choice(["<u>", "&#34;", ""]))), ("o", vobj(R.choice(SPECIALS))),
               ("l", vl(*[sc() for _ in range(R.randint(0, 3))])),
               ("ln", vl(*[vi(R.randint(0, 9)) for _ in range(R.randint(0, 3))])),
               ("pl", vl(*[vl(s(), vi(R.randint(0, 9))) for _ in range(R.randint(0, 3))])),
               ("d", vd(("k", s()), ("q", sc()), ("r", sc())))]
        ty = dict(s="str", t="str", m="scalar", n="int", z="int", yes="scalar", no="scalar",
                  nil="scalar", h="scalar", o="scalar", l=("list", len(ctx[10][1]["v"]), "scalar"),
                  ln=("list", len(ctx[11][1]["v"]), "int"), pl=("pairs",), d=("dict", ["k", "q", "r"]))
        if self.P["js"]:
            del ctx[12]
            del ty["pl"]
            ctx = [(n, jsvalue(v)) for n, v in ctx]
        return ctx, ty

    # -- expressions ----------------------------------------------------
    def var(self, env, pred):
        c = [n for n, t in env.items() if pred(t)]
        # local names more often
        return V(self.R.choice(c[-8:] if self.chance(.5) else c)) if c else None

    def isscalar(self, t):
        return t in ("str", "int", "scalar")

    def const(self):
        R = self.R
        return R.choice([lambda: S(R.choice(SPECIALS)), lambda: N(R.randint(0, 9)), lambda: C(VN),
                         lambda: C(vb(True)), lambda: C(vb(False)), lambda: S("")])()

    def str_(self, env, d):
        if d > 0 and self.chance(.3):
            return cat(self.str_(env, d - 1), self.str_(env, d - 1))
        return self.var(env, lambda t: t == "str") if self.chance(.7) else S(self.R.choice(SPECIALS))

    def int_(self, env, d):
        return (self.var(env, lambda t: t == "int") if self.chance(.6) else None) or N(self.R.randint(0, 4))

    def probe(self, e):
        return p(self.id(), e)

    def fns(self, env):
        return [(n, t) for n, t in env.items() if isinstance(t, tuple) and t[0] == "fn"]

    def args(self, env, d, ps):
        """arguments for the parameters ps = [(name, has default)]"""
        a, kw = [], {}
        k = 0
        for nm, dflt in ps:
            if dflt and self.chance(.5):
                k = 1
                continue
            e = self.scalar(env, d)
            if dflt == "ko" or k or self.chance(self.P["kwargs"]):
                k = 1
                kw[nm] = e
            else:
                a.append(e)
        if self.chance(.01):
            a.append(S("surplus"))
        return a, kw

    def callfn(self, env, d):
        fs = self.fns(env)
        ms = [(n, t) for n, t in env.items() if isinstance(t, tuple) and t[0] == "mod" and t[1]]
        if ms and (not fs or self.chance(.5)):
            n, t = self.R.choice(ms)
            f, ps = self.R.choice(sorted(t[1].items()))
            a, kw = self.args(env, d - 1, ps)
            if self.chance(.02):
                f = "missing"
            return call(attr(V(n), f), *a, **kw)
        if not fs:
            return None
        n, t = self.R.choice(fs)
        a, kw = self.args(env, d - 1, t[1])
        return call(n, *a, **kw)

    def scalar(self, env, d=None):
        if d is None:
            d = self.P["edepth"]
        k = self.w(self.P["exprs"])
        e = None
        if k == "bad":
            return V("bad%d" % self.R.randint(1, 2))
        if k == "boom":
            return call("boom", S(self.id()))
        if k == "unbound":
            return V("nowhere")
        if k == "wild":
            x = V(self.R.choice(self.P["wildpool"]))
            return call(x) if self.chance(.25) else x
        if d > 0:
            if k == "probe":
                e = self.probe(self.scalar(env, d - 1))
            elif k == "call":
                e = self.callfn(env, d)
            elif k == "lit":
                e = lit(self.scalar(env, d - 1))
            elif k == "cond":
                e = cond(self.truth(env, d - 1), self.scalar(env, d - 1), self.scalar(env, d - 1))
            elif k == "andor":
                e = op(self.R.choice(["and", "or"]), self.scalar(env, d - 1), self.scalar(env, d - 1))
            elif k == "cat":
                e = cat(self.str_(env, d - 1), self.str_(env, d - 1)) if self.chance(.8) else cat(
                    self.int_(env, d - 1), self.int_(env, d - 1))
            elif k == "idx":
                ds = [n for n, t in env.items() if isinstance(t, tuple) and t[0] == "dict"]
                ls = [n for n, t in env.items() if isinstance(t, tuple) and t[0] == "list" and t[1] > 0]
                if ds and (not ls or self.chance(.5)):
                    n = self.R.choice(ds)
                    e = idx(V(n), S(self.R.choice(env[n][1])))
                elif ls:
                    n = self.R.choice(ls)
                    e = idx(V(n), N(self.R.randrange(env[n][1])))
            elif k == "lam":
                x = self.R.choice(["x", "y", "s", "n"])
                b = self.scalar(dict(env, **{x: "scalar"}), d - 1)
                e = call(lam([x], b), self.scalar(env, d - 1))
            elif k == "boolop":
                e = self.boolop(env, d - 1)
            elif k == "len":
                e = call("len", self.list_(env, d - 1)[0])
        if e is None and k != "const":
            e = self.var(env, self.isscalar)
        return e if e is not None else self.const()

    def boolop(self, env, d):
        r = self.R.random()
        if r < .4:
            return not_(self.truth(env, d - 1))
        if r < .7:
            return op("lt", self.int_(env, d), self.int_(env, d))
        return op("eq", self.int_(env, d), self.int_(env, d)) if r < .85 else \
            op("eq", self.str_(env, d), self.str_(env, d))

    def truth(self, env, d=None):
        """anything with a truth value"""
        if d is None:
            d = self.P["edepth"]
        r = self.R.random()
        if r < self.P["constcond"]:
            e = self.R.choice([self.const, self.const, lambda: lst(), lambda: lst(N(0)), lambda: dct(),
                               lambda: dct(("a", N(1))), lambda: not_(self.const()),
                               lambda: not_(not_(self.const()))])()
            if d > 0 and self.chance(.4):
                # constant in parts
                if self.P["js"] and e["k"] in ("dict", "list"):
                    e = N(0)
                o, c = self.probe(self.var(env, self.isscalar) or self.const()), self.R.choice([e, N(0), N(1), S("")])
                e = self.R.choice([lambda: op("or", o, c), lambda: op("or", c, o), lambda: op("and", o, c),
                                   lambda: op("and", c, o), lambda: not_(op("or", o, c)), lambda: not_(op("and", c, o)),
                                   lambda: cond(o, c, N(0)), lambda: cond(c, o, N(1)), lambda: lst(o)])()
            return e
        if r < .4 + self.P["constcond"] / 2:
            v = self.var(env, lambda t: t in ("str", "int", "scalar") or
                         (isinstance(t, tuple) and t[0] in ("list", "pairs", "dict")))
            if v:
                return v
        if r < .6 and d > 0:
            return self.boolop(env, d)
        if r < .7:
            return self.probe(self.scalar(env, d - 1))
        return self.scalar(env, d)

    def list_(self, env, d):
        """an expression and the type of its items"""
        r = self.R.random()
        cs = [n for n, t in env.items() if isinstance(t, tuple) and t[0] in ("list", "pairs")]
        if d > 0 and r < self.P["comps"]:
            e, t = self.list_(env, d - 1)
            if t == "pair":
                return e, t
            x = self.R.choice(self.P["compvars"])
            return comp(x, e, self.scalar(dict(env, **{x: t}), d - 1)), "scalar"
        if d > 0 and r < self.P["comps"] + .25:
            return lst(*[self.scalar(env, d - 1) for _ in range(self.R.randint(0, 3))]), "scalar"
        if cs:
            n = self.R.choice(cs)
            return V(n), ("pair" if env[n][0] == "pairs" else env[n][2])
        return lst(), "scalar"

    # -- nodes --------------------------------------------------------------
    def textnode(self, env):
        ps = []
        for _ in range(self.R.randint(1, 4)):
            if self.chance(.5):
                ps.append(self.R.choice(TEXTS))
            else:
                ps.append(self.scalar(env))
        return text(*ps)

    def mk_attrs(self, env):
        r = []
        names = ["class", "id", "title", "alt", "href", "data-x", "value", "a1", "style"]
        self.R.shuffle(names)
        for nm in names[:self.R.choice([1, 1, 2, 3])]:
            k = self.R.random()
            if k < .1:
                r.append(at(nm, bare=True))
            elif k < .35:
                r.append(at(nm, self.R.choice(TEXTS + [""])))
            elif k < .75:
                r.append(at(nm, self.scalar(env)))
            else:
                r.append(self.norm_attr(at(nm, *[
                    self.R.choice(TEXTS) if self.chance(.5) else self.scalar(env)
                    for _ in range(self.R.randint(2, 4))])))
        for a in r:
            a["parts"] = mergeparts(a["parts"])
        return r

    def norm_attr(self, a):
        return a

    def mk_pyattrs(self, env):
        r = self.R.random()
        d = self.P["edepth"] - 1
        if r < .3 and "d" in env and isinstance(env["d"], tuple):
            return V("d")
        if r < .55:
            return dct(*[(k, self.scalar(env, d)) for k in self.R.sample(["x", "y", "w", "u"], self.R.randint(0, 3))])
        if r < .75:
            return lst(*[lst(S(k), self.scalar(env, d)) for k in self.R.sample(["x", "y", "w", "u"], self.R.randint(0, 3))])
        if r < .85:
            return self.R.choice([C(VN), dct(), lst(), S("")])
        return self.probe(dct(("x", self.scalar(env, d))))

    def newname(self, kind):
        self.n += 1
        return kind + ("" if self.chance(.1) and not self.P["js"] else "_") + str(self.n)

    def mk_ctl(self, k, env, root, top):
        """a control record, the environment inside, whether that is top level"""
        P = self.P
        if k in ("if", "unless"):
            e = self.truth(env)
            return {"k": k, "e": e}, env, top and isconst(e)
        if k == "for":
            e, t = self.list_(env, P["edepth"])
            if t == "pair":
                ns = self.R.sample(["i", "j", "x", "s"], 2)
                ts = {ns[0]: "str", ns[1]: "int"}
            else:
                ns = [self.newname("i") if P["js"] else self.R.choice(P["wildpool"] or ["i", "j", "x", "y"])]
                ts = {ns[0]: t}
            return for_(e, *ns), dict(env, **ts), False
        if k == "with":
            nes, e2 = [], dict(env)
            for _ in range(self.R.choice([1, 1, 2])):
                nm = self.R.choice(P["wildpool"] or ["w", "v", "x", "s"])
                # a right hand side that uses the name itself would find it unbound
                e3 = {x: t for x, t in e2.items() if x != nm}
                nes.append((nm, self.scalar(e3)))
                e2 = dict(e2)
                e2.pop(nm, None)
                e2[nm] = "scalar"
            return with_(*nes), e2, False
        if k == "def":
            nm = self.R.choice(P["wildpool"]) if P["wildpool"] and self.chance(.7) else self.newname("f")
            ps, inner, sig = [], dict(env), []
            if top:
                inner = dict(root)
            dflt = False
            for q in self.R.sample(P["wildpool"] or ["x", "y", "u"], self.R.choice([0, 1, 1, 2])):
                dflt = dflt or (self.chance(.3) and not P["js"])
                if dflt:
                    d = self.const() if top or self.chance(.5) else self.scalar(env, 1)
                    if top and self.chance(.4):
                        d = V(self.R.choice(["t", "z", "nil"]))
                    if self.chance(.25):
                        dflt = "ko"
                    ps.append((q, d, "ko" if dflt == "ko" else ""))
                else:
                    ps.append(q)
                inner.pop(q, None)
                inner[q] = "scalar"
                sig.append((q, dflt))
            self.last_fn = (nm, ("fn", sig))
            return def_(nm, *ps), inner, False
        if k == "block":
            nm = self.newname("b")
            if P["wildpool"] and self.chance(.5):
                nm = self.R.choice(P["wildpool"])
            self.last_fn = (nm, ("fn", []))
            return block(nm), dict(root), False
        raise ValueError(k)

    def element(self, env, root, d, top, want=None):
        """an element; returns it and the functions it defines in env"""
        P = self.P
        made = {}
        own, ctls = [], []
        e2, t2 = env, top
        control = want is not None or False
        if want:
            c, e2, t2 = self.mk_ctl(want, env, root, top)
            own.append(c)
            if want in ("def", "block"):
                made[self.last_fn[0]] = self.last_fn[1]
        n = self.R.choices([x[0] for x in P["nctl"]], [x[1] for x in P["nctl"]])[0]
        if control and self.chance(.7):
            n = 0
        kinds = sorted({self.w(P["ctls"]) for _ in range(n)},
                       key=["block", "if", "unless", "for", "def", "with"].index)
        seen_scope = bool(made) or (P["js"] and want is not None)
        for k in kinds:
            c, e2, t2 = self.mk_ctl(k, e2, root, t2)
            if P["js"] and k in ("if", "unless", "for"):
                # a function defined within is local to it
                seen_scope = True
            ctls.append(c)
            if k in ("def", "block"):
                if not seen_scope:
                    made[self.last_fn[0]] = self.last_fn[1]
                seen_scope = True
        self.R.shuffle(ctls)
        ex = P["elextra"]
        kw = {}
        if self.chance(ex["replace"]):
            kw["replace"] = self.scalar(e2)
            tag = "" if (not own and not ctls and self.chance(.3)) else self.R.choice(["b", "i"])
            if own:
                tag = ""
        else:
            tag = "" if own else self.R.choice(["b", "i", "p", "div", "span", "br", "title", "textarea", "input", "img"])
        if tag and "replace" not in kw:
            if self.chance(P["attrs"]):
                kw["attrs"] = self.mk_attrs(e2)
            if self.chance(ex["strip"]):
                kw["strip"] = self.truth(e2)
            if self.chance(ex["pyattrs"]):
                kw["pyattrs"] = self.mk_pyattrs(e2)
        if self.chance(ex["content"]) and "replace" not in kw and (tag or own):
            kw["content"] = self.scalar(e2)
        ch = []
        if tag not in VOID and not (tag == "" and not own):
            ch = self.nodes(e2, root, d - 1, t2)
        return el(tag, *ch, own=own, ctl=ctls, **kw), made

    def nodes(self, env, root, d, top):
        env = dict(env)
        r = []
        P = self.P
        if d <= 0:
            if self.chance(.8):
                r.append(self.textnode(env))
            return norm(r)
        for _ in range(self.R.randint(0 if d < P["depth"] else 1, P["width"])):
            k = self.w(P["nodes"])
            if k == "text":
                r.append(self.textnode(env))
            elif k == "el":
                x, made = self.element(env, root, d, top)
                r.append(x)
                self.define(env, made)
            elif k == "ctlel":
                x, made = self.element(env, root, d, top, self.w(P["ctls"]))
                r.append(x)
                self.define(env, made)
            elif k == "comment":
                r.append(comment(self.R.choice([" c ", " $x ", "<b>", "a\nb", "&amp;", ""])))
            elif k == "script":
                ps = [self.R.choice(["var x = 1 < 2 && a;\n", "$.f('<b>');", "/* & */", "}", "\n"]), self.scalar(env, 1)]
                ps = ps[:self.R.randint(1, 2)]
                r.append(el(self.R.choice(["script", "style"]), text(*ps, raw=True)))
            elif k == "imp":
                j, sig = self.R.choice(self.libs)
                al = self.R.choice(self.P["wildpool"] or ["m1", "m2", "u1"])
                r.append(imp(j, al))
                env[al] = ("mod", sig)
            elif k == "code":
                nm = self.R.choice(P["wildpool"] or ["x", "v", "q"])
                e3 = {x: t for x, t in env.items() if x != nm}
                r.append(code((nm, self.scalar(e3))))
                env[nm] = "scalar"
        # functions defined here are more interesting when called
        fs = [x for x in self.fns(env) if x[0] not in root]
        if fs and self.chance(.6):
            n, t = self.R.choice(fs)
            a, kw = self.args(env, 1, t[1])
            r.append(text(call(n, *a, **kw)))
        return norm(r)

    def define(self, env, made):
        for n, t in made.items():
            env.pop(n, None)
            env[n] = t

    def bads(self):
        return [("bad1", vbad("b1")), ("bad2", vbad("b2"))]

    def single(self):
        self.n = 0
        ctx, ty = self.context()
        root = dict(ty)
        ch = self.nodes(root, root, self.P["depth"], True)
        f = file("main.tk", el(self.R.choice(["html", "div", "p"]), *ch))
        if self.chance(.1):
            f["root"].insert(0, comment(" top "))
        return self.prog([f], ctx)

    def prog(self, files, ctx, **kw):
        if self.P["js"]:
            return prog(files, ctx, target="js", **kw)
        return prog(files, ctx + self.bads(), tr=self.P["tr"], tbs=self.P["tbs"], **kw)

    def family(self, levels=(1, 4), nlibs=(0, 2)):
        """a chain of templates, the entry being the most derived, and libraries"""
        self.n = 0
        R = self.R
        ctx, ty = self.context()
        files, self.libs = [], []
        P = dict(self.P)
        for j in range(R.randint(*nlibs)):
            sig = self.signature("g", R.randint(1, 3))
            self.P = dict(P, nodes=dict(P["nodes"], imp=1 if self.libs else 0))
            root = dict(ty, **{n: ("fn", s) for n, s in sig.items()})
            body = self.definitions(sig, root)
            ext = 0
            if files and self.chance(.3):
                # a library that extends another
                ext = R.randint(1, len(files))
                over = dict(next(s for i, s in self.libs if i == ext))
                sig = dict(over, **sig)
            files.append(file("lib%d.tk" % j, *(body if ext else [el("div", *body)]), ext=ext))
            self.libs.append((len(files), sig))
        self.P = dict(P, nodes=dict(P["nodes"], imp=P["nodes"]["imp"] if self.libs else 0))
        sig = self.signature("f", R.randint(1, 4))
        levels = R.randint(*levels)
        prev = 0
        for lv in range(levels):
            root = dict(ty, **{n: ("fn", s) for n, s in sig.items()})
            imps = []
            if self.libs and self.chance(.6):
                j, s2 = R.choice(self.libs)
                al = R.choice(["m1", "m2"])
                imps.append(imp(j, al))
                root[al] = ("mod", s2)
            if lv == 0:
                body = imps + self.definitions(sig, root) + self.nodes(root, root, self.P["depth"], True)
                for n, s in sig.items():
                    if self.chance(.7):
                        a, kw = self.args(root, 1, s)
                        body.append(text(call(n, *a, **kw), " "))
                R.shuffle(body)
                files.append(file("t%d.tk" % lv, el("html", *norm(body))))
            else:
                over = {n: s for n, s in sig.items() if self.chance(.5)}
                new = self.signature("k%d" % lv, R.randint(0, 1))
                sig = dict(sig, **new)
                root.update({n: ("fn", s) for n, s in new.items()})
                body = imps + self.definitions(dict(over, **new), root)
                R.shuffle(body)
                files.append(file("t%d.tk" % lv, *body, ext=prev))
            prev = len(files)
        self.P = P
        # cap on the size of what one rendering does is left to the depth limit
        func = "__main__" if self.chance(.85) else R.choice([n for n, s in sig.items() if not s] or ["__main__"])
        return self.prog(files, ctx, entry=prev, func="__main__" if P["js"] else func)

    def signature(self, base, k):
        r = {}
        for j in range(k):
            ps = []
            d = False
            for q in self.R.sample(["x", "y", "u"], self.R.choice([0, 0, 1, 2])):
                d = d or (self.chance(.3) and not self.P["js"])
                ps.append((q, d))
            r["%s%d" % (base, j)] = ps
        return r

    def definitions(self, sig, root):
        """definitions of top-level functions and blocks with these signatures"""
        r = []
        names = sorted(sig)
        for j, n in enumerate(names):
            # calls mostly go one way
            vis = {x: t for x, t in root.items()
                   if x not in sig or x in names[j + 1:] or self.chance(.05)}
            inner = dict(vis)
            c = block(n) if not sig[n] and self.chance(.5) else def_(n, *[
                (q, self.const()) if d else q for q, d in sig[n]])
            for q, d in sig[n]:
                inner.pop(q, None)
                inner[q] = "scalar"
            ch = self.nodes(inner, root, min(2, self.P["depth"] - 1), False)
            if names[j + 1:] and self.chance(.5):
                k = self.R.choice(names[j + 1:])
                a, kw = self.args(inner, 1, sig[k])
                ch = norm(ch + [text("(", call(k, *a, **kw), ")")])
            if self.chance(.75):
                r.append(ctl(c, *ch))
            else:
                r.append(el(self.R.choice(["b", "i"]), *ch, ctl=[c]))
        return r


def isconst(e):
    k = e["k"]
    return k == "c" or (k == "not" and isconst(e["e"])) or \
        (k == "list" and all(x["k"] == "c" for x in e["es"])) or \
        (k == "dict" and all(x["e"]["k"] == "c" for x in e["ps"]))


def mergeparts(ps):
    r = []
    for x in ps:
        if x["k"] == "s" and r and r[-1]["k"] == "s":
            r[-1] = {"k": "s", "s": r[-1]["s"] + x["s"]}
        else:
            r.append(x)
    return r


def norm(nodes):
    """adjacent texts are one text"""
    r = []
    for x in nodes:
        if x["k"] == "text" and r and r[-1]["k"] == "text" and x["raw"] == r[-1]["raw"]:
            r[-1]["parts"] = r[-1]["parts"] + x["parts"]
        else:
            r.append(x)
    for x in r:
        if x["k"] == "text":
            x["parts"] = mergeparts(x["parts"])
    return r


def jsvalue(v):
    """a value that JSON can represent"""
    if v["t"] in ("mk", "html", "obj"):
        return vs(v["s"])
    if v["t"] == "list":
        return vl(*map(jsvalue, v["v"]))
    if v["t"] == "dict":
        return vd(*[(x["k"], jsvalue(x["v"])) for x in v["v"]])
    return v
