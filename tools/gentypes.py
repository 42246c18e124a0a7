"""Writes Rust sources with random types for ../types: gentypes.source(kind, seed, n)."""
import random

PLAIN = ["u8", "()", "String", "bool", "f64", "Cell<u32>", "&'static str", "std::rc::Rc<str>", "fn(HU) -> u8", "PhantomData<HU>",
         "std::num::NonZeroU16", "std::sync::atomic::AtomicUsize", "std::path::PathBuf"]
HANDLES = ["HU", "HU", "HS", "HV"]
CLONE = ["HU", "HS", "Vec<HU>", "Option<HS>", "Key<HU>", "(HU, HS)", "RefCell<HU>", "Vec<RefCell<HS>>"]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.out = []
        self.checks = []
        self.done = []  # concrete derived types

    def w(self, s):
        self.out.append(s)

    def ty(self, depth, params=()):
        r = self.r
        if depth == 0:
            k = r.random()
            if params and k < 0.4:
                return r.choice(params)
            if k < 0.85:
                return r.choice(HANDLES)
            return r.choice(PLAIN)
        d = lambda: self.ty(r.choice([0, depth - 1, depth - 1]), params)
        k = r.randrange(24)
        if k == 0: return f"Box<{d()}>"
        if k == 1: return f"Box<[{d()}]>"
        if k in (2, 3): return f"Vec<{d()}>"
        if k == 4: return f"VecDeque<{d()}>"
        if k == 5: return f"LinkedList<{d()}>"
        if k == 6: return f"[{d()}; {r.choice([0, 1, 2, 3, 5])}]"
        if k in (7, 8): return f"Option<{d()}>"
        if k == 9: return f"Result<{d()}, {d()}>"
        if k == 10: return f"OnceCell<{d()}>"
        if k in (11, 12): return f"RefCell<{d()}>"
        if k == 13: return f"Mutex<{d()}>"
        if k == 14: return f"RwLock<{d()}>"
        if k == 15: return f"Cow<'static, {r.choice(CLONE)}>"
        if k == 16: return f"HashMap<Key<{d()}>, {d()}, {r.choice(['Hs', 'std::collections::hash_map::RandomState'])}>"
        if k == 17: return f"BTreeMap<Key<{d()}>, {d()}>"
        if k == 18: return f"HashSet<Key<{d()}>>"
        if k == 19: return f"BTreeSet<Key<{d()}>>"
        if k == 20: return f"BinaryHeap<Key<{d()}>>"
        if k in (21, 22):
            n = r.randint(1, 10) if r.random() < 0.5 else r.randint(1, 4)
            return "(" + "".join(self.ty(0 if n > 4 else r.choice([0, depth - 1]), params) + ", " for _ in range(n)) + ")"
        return r.choice(["&'static {}", "&'static {}", "std::sync::MutexGuard<'static, {}>", "std::sync::RwLockReadGuard<'static, {}>"]).format(r.choice(HANDLES))

    def check(self, t):
        if t not in self.checks:
            self.checks.append(t)

    # ---- definitions with derived implementations

    def fields(self, n, params, lifetimes, const):
        """[(name, type, make, plan)] with plan a format for the reference to the field"""
        r = self.r
        names = ["a", "b", "visitor", "field1", "field0", "r#type", "r#fn", "self_", "accept", "ok", "x9", "__v"]
        r.shuffle(names)
        out = []
        for i in range(n):
            t = self.ty(r.choice([0, 0, 1, 1, 2]) if n <= 12 else 0, params)
            make, plan = "Case::make(c)", "{}.plan(c, hidden);"
            k = r.random()
            if k < 0.12 and self.done:
                t = r.choice(self.done)
                if r.random() < 0.3:
                    t = f"Option<{t}>"
            elif k < 0.2 and params:
                t = f"PhantomData<{r.choice(params)}>"
            elif k < 0.3 and lifetimes:
                t = r.choice(["Cow<'a, HU>", "PhantomData<&'a u8>", "Cow<'a, Vec<HU>>"])
            elif k < 0.4 and const:
                t = f"[{r.choice(params + ['HU'])}; N]"
            elif k < 0.5 and not params and not lifetimes and not const:
                t, make, plan = r.choice([
                    ("Option<Box<Self>>", "c.again().then(|| Box::new(Case::make(c)))", "if let Some(x) = {} {{ (**x).plan(c, hidden); }}"),
                    ("Option<dumpster::unsync::Gc<Self>>", "c.again().then(|| dumpster::unsync::Gc::new(Case::make(c)))",
                     "if let Some(x) = {} {{ c.found(hidden, (false, dumpster::unsync::Gc::as_ptr(x) as *const u8 as usize)); }}"),
                ])
            out.append((names[i % len(names)] + (str(i) if i >= len(names) else ""), t, make, plan))
        return out

    def generics(self):
        """(declaration, names, type parameters, where clause, lifetimes, const, concrete arguments)"""
        r = self.r
        k = r.randrange(14)
        conc = lambda: r.choice(["HU", "HS", "u8", "Vec<HU>", "Option<HS>"])
        if k < 5: return "", "", [], "", False, False, ""
        if k < 7: return "<T>", "<T>", ["T"], "", False, False, f"<{conc()}>"
        if k == 7: return "<T, V>", "<T, V>", ["T", "V"], "", False, False, f"<{conc()}, {conc()}>"
        if k == 8: return "<T: Clone + Sized>", "<T>", ["T"], "", False, False, f"<{conc()}>"
        if k == 9: return "<'a>", "<'a>", [], "", True, False, "<'static>"
        if k == 10: return "<'a, T>", "<'a, T>", ["T"], "where T: Clone + 'a", True, False, f"<'static, {conc()}>"
        if k == 11: return "<T, const N: usize>", "<T, N>", ["T"], "", False, True, f"<{conc()}, {r.randint(0, 4)}>"
        if k == 12: return "<A, B, C>", "<A, B, C>", ["A", "B", "C"], "where A: Clone, Vec<B>: Sized,", False, False, f"<{conc()}, {conc()}, {conc()}>"
        return "<V = u8>", "<V>", ["V"], "", False, False, r.choice(["<HU>", "<HS>"])

    def define(self, i):
        r = self.r
        name = f"S{i}"
        decl, names, params, where, lifetimes, const, args = self.generics()
        fs = lambda n: self.fields(n, list(params), lifetimes, const)
        used = " ".join
        extra_t = [f"PhantomData<({''.join(p + ', ' for p in params)})>"] if params else []
        extra_t += ["PhantomData<&'a u8>"] if lifetimes else []
        extra = [("rest%d" % j, t, "Case::make(c)", "{}.plan(c, hidden);") for j, t in enumerate(extra_t)]
        noise = lambda: r.choice(["", "", "/// documented\n        ", "#[allow(dead_code)] "])
        vis = lambda: r.choice(["pub ", "", "pub(crate) "])
        derive = "#[cfg_attr(not(vp_control), derive(Collectable))]"
        make = plan = ""
        shape = r.randrange(5)
        if shape == 0:
            f = fs(r.choice([0, 1, 2, 3, 5, 12, 20, 45] if r.random() < 0.5 else [0, 1, 2, 3, 5])) + extra
            r.shuffle(f)
            if not decl and r.random() < 0.3:
                # written by a macro
                self.w(f"macro_rules! mk{i} {{ ($n:ident; $($f:ident: $t:ty),*) => {{ {derive} pub struct $n {{ $(pub $f: $t),* }} }} }}")
                self.w(f"mk{i}!({name}; " + ", ".join(f"{a}: {t.replace('Self', name)}" for a, t, _, _ in f) + ");")
            else:
                self.w(f"{derive}\npub struct {name}{decl} {where} {{ " + ", ".join(f"{noise()}{vis()}{a}: {t}" for a, t, _, _ in f) + " }")
            make = "Self { " + ", ".join(f"{a}: {m}" for a, _, m, _ in f) + " }"
            plan = " ".join(p.format("(&self." + a + ")") for a, _, _, p in f)
        elif shape == 1:
            f = fs(r.choice([0, 1, 2, 3, 5, 12, 20, 45] if r.random() < 0.5 else [0, 1, 2, 3, 5])) + extra
            if not decl and r.random() < 0.3 and f:
                self.w(f"macro_rules! mk{i} {{ ($n:ident; $($t:tt)*) => {{ {derive} pub struct $n($($t)*); }} }}")
                self.w(f"mk{i}!({name}; " + ", ".join(t.replace("Self", name) for _, t, _, _ in f) + ");")
            else:
                self.w(f"{derive}\npub struct {name}{decl}(" + ", ".join(f"{noise()}{vis()}{t}" for _, t, _, _ in f) + f") {where};")
            make = "Self(" + ", ".join(m for _, _, m, _ in f) + ")"
            plan = " ".join(p.format(f"(&self.{j})") for j, (_, _, _, p) in enumerate(f))
        elif shape == 2 and not decl and r.random() < 0.3:
            self.w(f"{derive}\npub struct {name};")
            make = "Self"
        else:
            nv = r.choice([1, 2, 3, 5, 9, 30] if r.random() < 0.3 else [1, 2, 3, 5])
            vs, arms = [], []
            tail = extra
            for v in range(nv):
                f = fs(r.choice([0, 1, 1, 2, 3, 4, 11, 33] if nv < 5 else [0, 1, 1, 2, 3, 4, 11])) + tail
                tail = []
                k = r.randrange(3)
                vn = f"V{v}"
                if k == 0 or (k == 2 and f):
                    vs.append((f"{noise()}{vn} {{ " + ", ".join(f"{a}: {t}" for a, t, _, _ in f) + " }",
                               f"Self::{vn} {{ " + ", ".join(f"{a}: {m}" for a, _, m, _ in f) + " }"))
                    arms.append(f"Self::{vn} {{ " + ", ".join(f"{a}: p{j}" for j, (a, _, _, _) in enumerate(f)) + " } => { "
                                + " ".join(p.format(f"p{j}") for j, (_, _, _, p) in enumerate(f)) + " }")
                elif k == 1:
                    vs.append((f"{noise()}{vn}(" + ", ".join(t for _, t, _, _ in f) + ")",
                               f"Self::{vn}(" + ", ".join(m for _, _, m, _ in f) + ")"))
                    arms.append(f"Self::{vn}(" + ", ".join(f"p{j}" for j in range(len(f))) + ") => { "
                                + " ".join(p.format(f"p{j}") for j, (_, _, _, p) in enumerate(f)) + " }")
                else:
                    vs.append((vn, f"Self::{vn}"))
                    arms.append(f"Self::{vn} => {{}}")
            self.w(f"{derive}\npub enum {name}{decl} {where} {{ " + ", ".join(a for a, _ in vs) + " }")
            make = f"match c.below({nv}) {{ " + " ".join(f"{v if v < nv - 1 else '_'} => {m}," for v, (_, m) in enumerate(vs)) + " }"
            plan = "match self { " + " ".join(arms) + " }"
        dn = decl.replace(" = u8", "").strip("<>")
        idecl = ("<" + dn.replace("'a, ", "").replace("'a", "") + ">") if dn else ""
        if idecl == "<>": idecl = ""
        self_t = name + names.replace("'a", "'static")
        w = where.replace("+ 'a", "+ 'static")
        bounds = ", ".join(f"{p}: Case + 'static" for p in params)
        w2 = (w.rstrip(", ") + ", " + bounds if w else "where " + bounds) if bounds else w
        # the control compiles without the derived implementation
        cdecl, cw = decl.replace(" = u8", ""), (where.rstrip(", ") + ", " if where else "where ") + ", ".join(f"{p}: Collectable" for p in params) if params else where
        self.w(f"#[cfg(vp_control)]\nunsafe impl{cdecl} Collectable for {name}{names} {cw} {{ fn accept<Z: dumpster::Visitor>(&self, _: &mut Z) -> Result<(), ()> {{ Ok(()) }} }}")
        self.w(f"impl{idecl} Case for {self_t} {w2} {{\n    fn make(c: &mut Ctx) -> Self {{ let _ = &c; {make} }}\n"
               f"    fn plan(&self, c: &mut Ctx, hidden: bool) {{ let _ = (&c, hidden); {plan} }}\n}}")
        t = name + args
        self.done.append(t)
        self.check(t)


def source(kind, seed, n):
    g = Gen(f"{kind}-{seed}")
    g.w("// written by tools/gentypes.py")
    g.w("#![allow(unused, private_interfaces, non_camel_case_types, clippy::all)]")
    g.w("use crate::*;")
    if kind == "derive":
        g.w("""#[cfg_attr(not(vp_control), derive(Collectable))]
pub struct Un<T: ?Sized>(pub u8, pub Box<T>);
#[cfg(vp_control)]
unsafe impl<T: ?Sized + Collectable> Collectable for Un<T> { fn accept<Z: dumpster::Visitor>(&self, _: &mut Z) -> Result<(), ()> { Ok(()) } }
impl Case for Un<[HU]> {
    fn make(c: &mut Ctx) -> Self { Un(1, Case::make(c)) }
    fn plan(&self, c: &mut Ctx, hidden: bool) { self.1.plan(c, hidden); }
}
/// The usual names mean something else here.
pub mod odd {
    use crate::{HU, HS};
    pub struct Ok; pub struct Err; pub struct Result; pub struct Vec; pub struct Visitor; pub struct Option; pub struct Some;
    #[cfg_attr(not(vp_control), derive(dumpster::Collectable))]
    pub struct Odd { pub a: HU, pub b: HS }
    #[cfg_attr(not(vp_control), derive(dumpster::Collectable))]
    pub enum OddEnum { None, Some(HU, HU), Ok { visitor: HU, accept: HS } }
}
#[cfg(vp_control)]
unsafe impl Collectable for odd::Odd { fn accept<Z: dumpster::Visitor>(&self, _: &mut Z) -> Result<(), ()> { Ok(()) } }
#[cfg(vp_control)]
unsafe impl Collectable for odd::OddEnum { fn accept<Z: dumpster::Visitor>(&self, _: &mut Z) -> Result<(), ()> { Ok(()) } }
impl Case for odd::Odd {
    fn make(c: &mut Ctx) -> Self { odd::Odd { a: Case::make(c), b: Case::make(c) } }
    fn plan(&self, c: &mut Ctx, hidden: bool) { self.a.plan(c, hidden); self.b.plan(c, hidden); }
}
impl Case for odd::OddEnum {
    fn make(c: &mut Ctx) -> Self { match c.below(3) { 0 => odd::OddEnum::None, 1 => odd::OddEnum::Some(Case::make(c), Case::make(c)), _ => odd::OddEnum::Ok { visitor: Case::make(c), accept: Case::make(c) } } }
    fn plan(&self, c: &mut Ctx, hidden: bool) { match self { odd::OddEnum::None => {} odd::OddEnum::Some(a, b) => { a.plan(c, hidden); b.plan(c, hidden); } odd::OddEnum::Ok { visitor, accept } => { visitor.plan(c, hidden); accept.plan(c, hidden); } } }
}""")
        for t in ("Un<[HU]>", "odd::Odd", "odd::OddEnum"):
            g.check(t)
        for i in range(n):
            g.define(i)
    else:
        for k in range(1, 11):
            g.check("(" + "HU, " * k + ")")
        # every constructor around a handle, then random ones
        for c in ("Box<{}>", "Box<[{}]>", "Vec<{}>", "VecDeque<{}>", "LinkedList<{}>", "[{}; 3]", "Option<{}>", "Result<{}, HS>", "Result<HS, {}>",
                  "OnceCell<{}>", "RefCell<{}>", "Mutex<{}>", "RwLock<{}>", "HashMap<Key<{}>, HS, Hs>", "HashMap<u8, {}>", "BTreeMap<Key<{}>, HS>",
                  "BTreeMap<u8, {}>", "HashSet<Key<{}>>", "BTreeSet<Key<{}>>", "BinaryHeap<Key<{}>>", "&'static {}",
                  "std::sync::MutexGuard<'static, {}>", "std::sync::RwLockReadGuard<'static, {}>"):
            for h in ("HU", "HS", "RefCell<HU>" if "'static" not in c else "HV"):
                g.check(c.format(h))
        for h in CLONE:
            g.check(f"Cow<'static, {h}>")
        while len(g.checks) < n:
            g.check(g.ty(g.r.choice([1, 2, 2, 3])))
    g.w("pub fn run(r: &mut Run) {")
    for t in g.checks:
        g.w(f"    r.check::<{t}>(\"{t}\");")
    g.w("}")
    return "\n".join(g.out) + "\n"


if __name__ == "__main__":
    import sys
    print(source(sys.argv[1], sys.argv[2], int(sys.argv[3])), end="")
