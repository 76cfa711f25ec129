"""Protocol sources as python data: rendering to .prot text, glue code for the harnesses, schema JSON for TLC."""
import json, random

PRIMS = ["bool", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "str"]
SIZE = dict(bool=1, u8=1, u16=2, u32=4, u64=8, i8=1, i16=2, i32=4, i64=8, f32=4, f64=8)

class F:
    """Field of a struct, or variant of an enum."""
    def __init__(self, t, name, opt=False, rep=False):
        self.t, self.name, self.opt, self.rep = t, name, opt, rep
    def text(self):
        t = self.t if self.t is not None else ""
        return "%s%s %s%s;" % (t, "[]" if self.rep else "", self.name, "?" if self.opt else "")
class S:
    k = "struct"
    def __init__(self, name, *f): self.name, self.f = name, list(f)
class E:
    k = "enum"
    def __init__(self, name, *f): self.name, self.f = name, list(f)
class G:
    k = "group"
    def __init__(self, name, *items): self.name, self.items = name, list(items)

RS_KEYWORDS = set("abstract as async await become box break const continue do dyn else enum extern false final fn for if impl in let loop macro match mod move mut override priv pub ref return static struct trait true try type typeof unsafe unsized use virtual where while yield".split())
def rs_name(n): return "r#" + n if n in RS_KEYWORDS else n

class Protocol:
    def __init__(self, name, *items):
        self.name, self.items = name, list(items)
        self.types = []            # in source order: (full name, def, group path)
        self._walk(self.items, ())
        self.byname = {n: (n, d, p) for n, d, p in self.types}
    def _walk(self, items, path):
        for i in items:
            if i.k == "group":
                self._walk(i.items, path + (i.name,))
            else:
                self.types.append((".".join(path + (i.name,)), i, path))
    def resolve(self, ref, path):
        """own group, then full path"""
        own = ".".join(path + (ref,))
        if own in self.byname: return own
        if ref in self.byname: return ref
        raise KeyError(ref)
    def text(self, items=None, ind=0):
        out = []
        for i in (self.items if items is None else items):
            sp = "    " * ind
            if i.k == "group":
                out.append("%sgroup %s {\n%s%s}\n" % (sp, i.name, self.text(i.items, ind + 1), sp))
            else:
                body = "".join("%s    %s\n" % (sp, (f.name + ";") if (i.k == "enum" and f.t is None) else f.text()) for f in i.f)
                out.append("%s%s %s {\n%s%s}\n" % (sp, i.k, i.name, body, sp))
        return "".join(out)
    def uses_enum_array(self, full):
        d, p = self.byname[full][1], self.byname[full][2]
        for f in d.f:
            t = f.t or "str"
            if t not in PRIMS:
                r = self.resolve(t, p)
                if self.byname[r][1].k == "enum" and f.rep: return True
                if self.uses_enum_array(r): return True
        return False
    def schema(self, ids, sig=0):
        """ids: {full name: (message id, [prop ids])}"""
        idx = {n: i + 1 for i, (n, _, _) in enumerate(self.types)}
        ts = []
        for n, d, p in self.types:
            fs = []
            for j, f in enumerate(d.f):
                t = f.t or "str"
                prim = t in PRIMS
                fs.append({"p": ids[n][1][j] if d.k == "struct" else 0, "t": t if prim else "",
                           "r": 0 if prim else idx[self.resolve(t, p)], "opt": f.opt, "rep": f.rep})
            ts.append({"n": n, "k": d.k, "id": ids[n][0], "f": fs})
        return {"sig": sig, "types": ts}
    def base_value(self, full, depth=0):
        """a simple value of a type, with every optional field absent and every array empty"""
        _, d, p = self.byname[full]
        def bare(f):
            t = f.t or "str"
            if t in PRIMS: return [] if t == "str" else [0] * SIZE[t]
            return self.base_value(self.resolve(t, p))
        if d.k == "struct":
            return [([] if (f.opt or f.rep) else bare(f)) for f in d.f]
        # prefer a variant with a primitive payload
        order = sorted(range(len(d.f)), key=lambda i: 0 if (d.f[i].t in SIZE and not d.f[i].rep) else 1)
        i = order[0]
        return [i, [] if d.f[i].rep else ([97] if (d.f[i].t or "str") == "str" else bare(d.f[i]))]

    # ---- Rust glue -------------------------------------------------------------------------------
    def rs(self, full): return "p::" + full.replace(".", "::")
    def fn(self, full): return full.replace(".", "_")
    def rust_glue(self, modpath):
        o = ["use serde_json::{json, Value};", "#[allow(unused_imports)] use crate::val::*;", "use %s as p;" % modpath,
             "#[allow(unused_imports)] use p::{PackingStruct, PackingEnum};"]
        def mkx(f, path):
            t = f.t or "str"
            return "mk_" + (t if t in PRIMS else "T_" + self.fn(self.resolve(t, path)))
        def rdx(f, path):
            t = f.t or "str"
            return "rd_" + (t if t in PRIMS else "T_" + self.fn(self.resolve(t, path)))
        def mk(f, path, e):
            m = mkx(f, path)
            if f.opt and f.rep: return "opt(%s, |x| arr(x, %s))" % (e, m)
            if f.opt: return "opt(%s, %s)" % (e, m)
            if f.rep: return "arr(%s, %s)" % (e, m)
            return "%s(%s)" % (m, e)
        def rd(f, path, e):
            m = rdx(f, path)
            if f.opt and f.rep: return "ropt(%s, |x| rarr(x, %s))" % (e, m)
            if f.opt: return "ropt(%s, %s)" % (e, m)
            if f.rep: return "rarr(%s, %s)" % (e, m)
            return "%s(%s)" % (m, e)
        for n, d, p in self.types:
            fnm, ty = self.fn(n), self.rs(n)
            if d.k == "struct":
                o.append("#[allow(unused_variables)] pub fn mk_T_%s(v: &Value) -> %s { %s { %s } }" % (
                    fnm, ty, ty, ", ".join("%s: %s" % (rs_name(f.name), mk(f, p, "&v[%d]" % i)) for i, f in enumerate(d.f))))
                o.append("#[allow(unused_variables)] pub fn rd_T_%s(m: &%s) -> Value { Value::Array(vec![%s]) }" % (
                    fnm, ty, ", ".join(rd(f, p, "&m." + rs_name(f.name)) for f in d.f)))
            else:
                o.append("pub fn mk_T_%s(v: &Value) -> %s { match v[0].as_u64().unwrap() { %s, _ => unreachable!() } }" % (
                    fnm, ty, ", ".join("%d => %s::%s(%s)" % (i, ty, rs_name(f.name), mk(f, p, "&v[1]")) for i, f in enumerate(d.f))))
                o.append("#[allow(unreachable_patterns)] pub fn rd_T_%s(m: &%s) -> Value { match m { %s, _ => json!(\"NOVARIANT\") } }" % (
                    fnm, ty, ", ".join("%s::%s(x) => json!([%d, %s])" % (ty, rs_name(f.name), i, rd(f, p, "x")) for i, f in enumerate(d.f))))
        o.append("pub fn pack(t: &str, v: &Value, seq: u32) -> Result<Vec<u8>, String> { match t { %s, _ => unreachable!() } }" % (
            ", ".join("\"%s\" => mk_T_%s(v).pack(seq, None)" % (n, self.fn(n)) for n, _, _ in self.types)))
        arms = []
        for n, d, p in self.types:
            pat = ""
            for i in range(len(p)):
                pat += "p::" + "".join(g + "::" for g in p[:i]) + "AvailableMessages::" + p[i] + "("
            pat += "p::" + "".join(g + "::" for g in p) + "AvailableMessages::" + d.name + "(m)" + ")" * len(p)
            arms.append("%s => (\"%s\", rd_T_%s(m))" % (pat, n, self.fn(n)))
        o.append("#[allow(unreachable_patterns)] pub fn rd(m: &p::AvailableMessages) -> (&'static str, Value) { match m { %s, _ => (\"?\", Value::Null) } }" % ", ".join(arms))
        o.append("harness_reader!();")
        return "\n".join(o) + "\n"

    # ---- TypeScript glue ---------------------------------------------------------------------------
    def kind_of(self, f, path):
        """What the driver has to know of a field to put something else in its place."""
        t = f.t or "str"
        k = {"n": f.name, "t": t if t in PRIMS else ""}
        if t not in PRIMS:
            full = self.resolve(t, path)
            d = self.byname[full][1]
            k["r"] = full
            if d.k == "enum": k["e"] = [self.kind_of(x, self.byname[full][2]) for x in d.f]
        return k
    def ts_glue(self, modpath):
        o = ["import * as p from '%s';" % modpath, "import * as V from './val';"]
        def mkx(f, path):
            t = f.t or "str"
            return ("V.mk_" + t) if t in PRIMS else "mk_T_" + self.fn(self.resolve(t, path))
        def rdx(f, path):
            t = f.t or "str"
            return ("V.rd_" + t) if t in PRIMS else "rd_T_" + self.fn(self.resolve(t, path))
        def wrap(f, path, e, pre, fn):
            m = fn(f, path)
            if f.opt and f.rep: return "V.%sopt(%s, (x: any) => V.%sarr(x, %s))" % (pre, e, pre, m)
            if f.opt: return "V.%sopt(%s, %s)" % (pre, e, m)
            if f.rep: return "V.%sarr(%s, %s)" % (pre, e, m)
            return "%s(%s)" % (m, e)
        for n, d, p in self.types:
            fnm = self.fn(n)
            if d.k == "struct":
                o.append("export function mk_T_%s(v: any): any { return V.build((p as any).%s, { %s }); }" % (
                    fnm, n, ", ".join("%s: %s" % (f.name, wrap(f, p, "v[%d]" % i, "", mkx)) for i, f in enumerate(d.f))))
                o.append("export function rd_T_%s(m: any): any { return [%s]; }" % (
                    fnm, ", ".join(wrap(f, p, "m." + f.name, "r", rdx) for f in d.f)))
            else:
                o.append("export function mk_T_%s(v: any): any { switch (v[0]) { %s } throw new Error('glue'); }" % (
                    fnm, " ".join("case %d: return { %s: %s };" % (i, f.name, wrap(f, p, "v[1]", "", mkx)) for i, f in enumerate(d.f))))
                o.append("export function rd_T_%s(m: any): any { const k = Object.keys(m).filter((k) => m[k] !== undefined); if (k.length !== 1) return 'NOVARIANT'; switch (k[0]) { %s } return 'BADVARIANT'; }" % (
                    fnm, " ".join("case '%s': return [%d, %s];" % (f.name, i, wrap(f, p, "m." + f.name, "r", rdx)) for i, f in enumerate(d.f))))
        o.append("const MK: any = { %s };" % ", ".join("%s: mk_T_%s" % (json.dumps(n), self.fn(n)) for n, d, p in self.types))
        o.append("export const mod: V.IMod = {")
        o.append("  pack(t: string, v: any, seq: number, uuid?: string): any { switch (t) {")
        for n, d, p in self.types:
            if d.k == "struct":
                o.append("    case '%s': return mk_T_%s(v).pack(seq, uuid);" % (n, self.fn(n)))
            else:
                o.append("    case '%s': { const e: any = new (p as any).%s(); const err = e.set(mk_T_%s(v)); if (err instanceof Error) throw err; return e.pack(seq, uuid); }" % (n, n, self.fn(n)))
        o.append("    } throw new Error('glue'); },")
        o.append("  reader(): any { return new (p as any).BufferReaderMessages(); },")
        o.append("  rd(msg: any): [string, any] {")
        for n, d, p in self.types:
            o.append("    if (V.has(msg, %s)) return ['%s', rd_T_%s(V.at(msg, %s))];" % (json.dumps(n.split(".")), n, self.fn(n), json.dumps(n.split("."))))
        o.append("    return ['?', null]; },")
        o.append("  hash(): string { return (p as any).hash(); },")
        o.append("  from(t: string, v: any, path: string[], tok: string, alts: any): any { switch (t) {")
        for n, d, p in self.types:
            if d.k == "struct":
                kinds = json.dumps({"f": [self.kind_of(f, p) for f in d.f]})
                o.append("    case '%s': return V.from((p as any).%s, p, mk_T_%s(v), %s, path, tok, alts, MK);" % (n, n, self.fn(n), kinds))
        o.append("    } throw new Error('glue'); },")
        o.append("  bytes(t: string, b: any): any { switch (t) {")
        for n, d, p in self.types:
            o.append("    case '%s': { const r: any = (p as any).%s.from(b); return r instanceof Error ? r : [rd_T_%s(r)]; }" % (n, n, self.fn(n)))
        o.append("    } throw new Error('glue'); },")
        o.append("  one(t: string, v: any, w: any): any { switch (t) {")
        for n, d, p in self.types:
            if d.k == "enum":
                o.append("    case '%s': { const r: any = (p as any).%s.from(w === null ? mk_T_%s(v) : Object.assign({}, mk_T_%s(v), mk_T_%s(w))); return r instanceof Error ? r : [rd_T_%s(r)]; }" % ((n, n) + (self.fn(n),) * 4))
        o.append("    } throw new Error('glue'); },")
        o.append("  middleware(): any { return (p as any).PackingMiddleware; },")
        o.append("};")
        return "\n".join(o) + "\n"

# ---- the fixed catalogue ------------------------------------------------------------------------------------
def catalogue():
    c = []
    for i, ts in enumerate((PRIMS[:6], PRIMS[6:])):
        c.append(Protocol("prims%d" % i, *[S("P_" + t, F(t, "m"), F(t, "o", opt=True), F(t, "a", rep=True), F(t, "oa", opt=True, rep=True)) for t in ts]))
    c.append(Protocol("scalars", S("All", *[F(t, "f_" + t) for t in PRIMS]), S("AllRev", *[F(t, "f_" + t) for t in reversed(PRIMS)]),
                      S("AllOpt", *[F(t, "f_" + t, opt=True) for t in PRIMS]), S("AllArr", *[F(t, "f_" + t, rep=True) for t in PRIMS])))
    c.append(Protocol("structs",
        S("Empty"), S("Leaf", F("u16", "x"), F("str", "s")), S("OptLeaf", F("str", "s", opt=True)),
        S("Nest", F("Leaf", "l"), F("Empty", "e"), F("u8", "z")),
        S("NestOpt", F("Leaf", "l", opt=True), F("Empty", "e", opt=True), F("OptLeaf", "ol", opt=True)),
        S("NestArr", F("Leaf", "l", rep=True), F("Empty", "e", rep=True), F("OptLeaf", "ol", rep=True)),
        S("NestOptArr", F("Leaf", "l", opt=True, rep=True), F("Empty", "e", opt=True, rep=True)),
        S("Deep", F("Nest", "n"), F("NestOpt", "no"), F("NestArr", "na", rep=True), F("NestOptArr", "noa", opt=True))))
    c.append(Protocol("enums",
        S("Leaf", F("u16", "x"), F("str", "s")), S("Empty"),
        E("Plain", F(None, "A"), F(None, "B"), F(None, "C")),
        E("Scal", *[F(t, "v_" + t) for t in PRIMS]),
        E("Arrs", *[F(t, "v_" + t, rep=True) for t in PRIMS]),
        E("Structs", F("Leaf", "l"), F("Empty", "e"), F("u8", "n")),
        S("UseM", F("Plain", "p"), F("Scal", "s"), F("Arrs", "a"), F("Structs", "t"), F("u8", "z")),
        S("UseO", F("Plain", "p", opt=True), F("Scal", "s", opt=True), F("Arrs", "a", opt=True), F("Structs", "t", opt=True)),
        S("Wrap", F("UseM", "m"), F("UseO", "o", opt=True), F("UseO", "r", rep=True))))
    c.append(Protocol("enumarr", E("En", F("u8", "a"), F("str", "b")), S("Arr", F("En", "e", rep=True), F("u8", "z"))))
    c.append(Protocol("enumoptarr", E("En", F("u8", "a"), F("str", "b")), S("OArr", F("En", "e", opt=True, rep=True), F("u8", "z"))))
    c.append(Protocol("enumstructarr", S("Leaf", F("u16", "x")), E("Es", F("Leaf", "ls", rep=True), F("Leaf", "l")), S("Use", F("Es", "e"))))
    c.append(Protocol("enumenum", E("In", F("u8", "a"), F("str", "b")), E("Out", F("In", "i"), F("u8", "n")), S("Use", F("Out", "o"), F("Out", "oo", opt=True))))
    c.append(Protocol("groups",
        S("Leaf", F("u8", "root")), E("En", F("u8", "a"), F("u16", "b")),
        G("GA", S("Leaf", F("str", "ga"), F("u32", "n")), E("En", F("str", "x"), F("u8", "y")),
          S("Use", F("Leaf", "l"), F("En", "e"), F("Leaf", "la", rep=True), F("Leaf", "lo", opt=True), F("En", "eo", opt=True)),
          G("GB", S("Leaf", F("u64", "gb")), S("Use", F("Leaf", "l"), F("Leaf", "lo", opt=True), F("Leaf", "la", rep=True)))),
        G("GC", S("OnlyC", F("i16", "c")), S("Up", F("Leaf", "l"), F("Leaf", "la", rep=True), F("Leaf", "lo", opt=True))),
        S("Top", F("Leaf", "l"), F("GA.Leaf", "gl"), F("GA.GB.Leaf", "gbl"), F("GC.OnlyC", "c", opt=True), F("GA.Use", "u"))))
    # many groups beside one another, at every level; many types in each
    c.append(Protocol("broad",
        *[G("N%d" % i, S("Leaf", F(["u8", "str", "u16", "bool", "i64"][i], "v")), E("Pick", F("Leaf", "l"), F("u8", "n"), F("str", "s", rep=True)),
            *[G("M%d" % j, S("Leaf", F(["f32", "u32", "str", "i16"][j], "w"), F("N%d.Leaf" % i, "up", opt=True)), S("Second", F("Leaf", "l", rep=True)), E("Pick", F("Leaf", "x"), F("N%d.Leaf" % i, "y"))) for j in range(4 if i == 0 else 1 if i == 4 else 0)])
          for i in range(5)],
        S("All", *[F("N%d.Leaf" % i, "l%d" % i, opt=i % 2 == 1) for i in range(5)], *[F("N%d.Pick" % i, "p%d" % i) for i in range(5)],
          *[F("N0.M%d.Second" % j, "s%d" % j) for j in range(4)], *[F("N0.M%d.Pick" % j, "q%d" % j, opt=True) for j in range(4)], F("N4.M0.Leaf", "m"))))
    c.append(Protocol("crossgroup",
        G("GA", S("Leaf", F("str", "ga")), E("En", F("str", "x"), F("u8", "y"))),
        G("GB", S("Other", F("u8", "q")), E("EnB", F("GA.Leaf", "l"), F("Other", "o")), E("EnC", F("u8", "l")),
          S("X", F("GA.Leaf", "l"), F("GA.Leaf", "lo", opt=True), F("GA.Leaf", "la", rep=True), F("GA.Leaf", "loa", opt=True, rep=True)),
          S("Y", F("GA.En", "e"), F("GA.En", "eo", opt=True), F("EnB", "b"))),
        S("Top", F("GA.En", "e"), F("GA.En", "eo", opt=True), F("GB.EnB", "b", opt=True), F("GA.Leaf", "la", rep=True), F("GB.X", "x", opt=True))))
    c.append(Protocol("deep", S("Leaf", F("u8", "r")), E("En", F("u8", "a"), F("Leaf", "l")),
        G("D1", S("Leaf", F("str", "d1")), S("Two", F("u16", "t")),
          G("D2", S("Leaf", F("u32", "d2")), E("En", F("Leaf", "l"), F("D1.Leaf", "m")),
            G("D3", S("Own", F("u64", "d3")), E("Ref", F("Own", "o"), F("D1.Leaf", "l"), F("D1.Two", "t"), F("u8", "n")),
              S("Use", F("Own", "o"), F("Ref", "r"), F("D1.Two", "t", rep=True), F("D1.D2.Leaf", "l", opt=True), F("D1.D2.En", "e", opt=True)),
              G("D4", E("Far", F("D1.Leaf", "l"), F("D1.D2.D3.Own", "o"), F("str", "s")), S("Last", F("Far", "f"), F("Far", "fo", opt=True), F("D1.D2.D3.Use", "u", rep=True)))))),
        S("Top", F("D1.D2.D3.D4.Last", "l"), F("D1.D2.D3.Ref", "r"), F("D1.D2.D3.D4.Far", "f", opt=True))))
    # names which are words of the languages, or of the code around them
    c.append(Protocol("names",
        S("Leaf", F("u8", "type"), F("str", "in", opt=True)), E("Kind", F("u8", "type"), F("str", "match"), F("Leaf", "class"), F("u16", "fn", rep=True), F("i8", "default")),
        S("Locals", F("u8", "buffer"), F("str", "storage", opt=True), F("Leaf", "arr", rep=True), F("Leaf", "arrInst"), F("u8", "a", opt=True), F("Leaf", "aBuf"), F("Kind", "aErr", opt=True), F("u16", "value"), F("u32", "index", rep=True), F("bool", "buf"), F("str", "cursor")),
        S("Words", F("u8", "type"), F("Leaf", "class"), F("Kind", "fn"), F("Leaf", "function", rep=True), F("Leaf", "var", opt=True), F("Kind", "enum", opt=True), F("str", "struct"), F("u8", "import", opt=True), F("u16", "this", rep=True), F("bool", "null"), F("bool", "true"), F("u64", "new"), F("i64", "match", opt=True), F("f64", "let"), F("f32", "static"), F("str", "mod", rep=True)),
        S("Same", F("Leaf", "Leaf"), F("Kind", "Kind"), F("Locals", "Locals", opt=True))))
    filler = [S("Fill%d" % i, *[F("u8", "f%d" % j) for j in range(20)]) for i in range(13)]
    c.append(Protocol("bigids", *filler, S("Late", *[F("u16" if j % 2 else "str", "g%d" % j) for j in range(24)]),
                      E("LateE", F("u8", "a"), F("Late", "b")), S("Wide", *[F("u8", "w%d" % j) for j in range(260)]), E("Many", *[F("u8" if j % 3 else "str", "m%d" % j) for j in range(300)])))
    return c

def random_protocol(rng, name):
    """A random accepted protocol: nested groups, forward-free references."""
    defs = []          # (full, kind, path)
    cnt = [0]
    feats = rng
    def ref(path):
        cands = [d for d in defs]
        if not cands or rng.random() < 0.55:
            return rng.choice(PRIMS), None
        full, kind, pth = rng.choice(cands)
        return full, kind
    def items(path, n, depth):
        out = []
        for _ in range(n):
            cnt[0] += 1
            r = rng.random()
            if depth < 2 and r < 0.2:
                g = "Gr%d" % cnt[0]
                out.append(G(g, *items(path + (g,), rng.randint(1, 3), depth + 1)))
            elif r < 0.75:
                nm = "St%d" % cnt[0]
                fs = []
                for j in range(rng.randint(0, 5)):
                    t, kind = ref(path)
                    rep = rng.random() < 0.3 and kind != "enum"
                    fs.append(F(t, "f%d" % j, opt=rng.random() < 0.35, rep=rep))
                out.append(S(nm, *fs)); defs.append((".".join(path + (nm,)), "struct", path))
            else:
                nm = "En%d" % cnt[0]
                fs = []
                for j in range(rng.randint(1, 4)):
                    t, kind = ref(path)
                    if kind == "enum": t, kind = rng.choice(PRIMS), None
                    fs.append(F(t, "v%d" % j, rep=(kind is None and rng.random() < 0.3)))
                out.append(E(nm, *fs)); defs.append((".".join(path + (nm,)), "enum", path))
        return out
    return Protocol(name, *items((), rng.randint(4, 8), 0))
