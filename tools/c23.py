"""C23: the monitor as a procedural macro inside the installed compiler."""
import json, os, random, re, subprocess, concurrent.futures as cf

SRC = "lib/rustlib/src/rust/library"


class C23:
    def __init__(self, run, api):
        self.run, self.api, self.rng = run, api, random.Random(run.seed * 7919 + 23)
        self.n = 0

    def build(self):
        cwd = os.path.join(self.api.ROOT, "c23")
        self.api.cargo(["build", "--release", "--offline", "--locked"], "pm", cwd=cwd, wrapper=False)
        b = os.path.join(self.api.ROOT, "target", "pm", "release")
        self.gen, self.so = os.path.join(b, "c23gen"), os.path.join(b, "libc23pm.so")

    def path(self, name):
        return os.path.join(self.run.work, name)

    def rustc(self, src, name, edition="2021", link=False, cfg=None):
        """compiles one crate; gives (exit status, diagnostics, log lines)"""
        e = self.api.env_base()
        log = self.path(name + ".log")
        e["VH_LOG"] = log
        if os.path.exists(log):
            os.remove(log)
        e["RUST_MIN_STACK"] = str(256 << 20)
        out = self.path(name + (".exe" if link else ".rmeta"))
        cmd = ["rustc", "--edition", edition, "--crate-name", name, "--crate-type", "bin", "-o", out, "--extern",
               "c23pm=" + self.so, "--error-format=json", "-Cdebuginfo=0", "-Copt-level=0"]
        if not link:
            cmd.append("--emit=metadata")
        if cfg:
            cmd += ["--cfg", cfg]
        p = subprocess.run(cmd + [src], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400)
        ds = []
        for l in p.stderr.decode(errors="replace").splitlines():
            try:
                ds.append(json.loads(l))
            except ValueError:
                ds.append({"level": "raw", "message": l, "spans": []})
        lines = []
        if os.path.exists(log):
            lines = [l.split("\t", 2) for l in open(log, errors="replace").read().splitlines()]
        return p.returncode, ds, lines, out

    def fail(self, msg, text):
        p = self.path("c23-%d.txt" % self.n)
        self.n += 1
        with open(p, "w") as f:
            f.write("property C23\n%s\n\n%s\n" % (msg, text))
        self.run.violation(msg, p)

    def note(self, k, n=1):
        self.run.events[k] = self.run.events.get(k, 0) + n

    def seen(self, n=1):
        self.run.stats["evaluations"] = self.run.stats.get("evaluations", 0) + n
        self.run.extra_distinct += n

    # ---- generated declarations ---------------------------------------------------------------
    def mon(self, rounds, per):
        def one(k):
            name = "mon%d" % k
            src = self.path(name + ".rs")
            seed = self.run.seed * 100_000 + k
            subprocess.run([self.gen, "mon", str(seed), str(per), src], check=True, timeout=200)
            return name, src, self.rustc(src, name)
        with cf.ThreadPoolExecutor(8) as ex:
            for name, src, (rc, ds, lines, _) in ex.map(one, range(rounds)):
                texts = {}
                if any(not l[2].startswith("ok ") for l in lines) or rc != 0 or len(lines) != per:
                    for l in open(src).read().split("\nmon! { ")[1:]:
                        texts[l.split(" ", 1)[0]] = l
                for kind, i, v in lines:
                    if v.startswith("ok "):
                        self.note("rustc.tokens_compared", int(v[3:].split("\t")[0]))
                        self.note("rustc.declarations")
                        self.seen()
                    elif v.startswith("FAIL"):
                        self.fail("inside rustc, generated declaration %s: %s" % (i, v), texts.get(i, ""))
                    else:
                        raise self.api.NoAnswer("macro: %s %s" % (i, v))
                if rc != 0:
                    err = [d["message"] for d in ds if d["level"] == "error"]
                    if len(lines) < per and rc in (101, -6, -11, 139, 134):
                        self.fail("the compiler died while running the macro: %s" % err[:2], src)
                    else:
                        raise self.api.NoAnswer("rustc rejects %s: %s" % (name, err[:3]))
                if len(self.run.samples) < 4:
                    self.run.samples.append("mon! " + open(src).read().split("\nmon! ")[1][:200])

    # ---- items of real sources ----------------------------------------------------------------
    def items(self, batches, per):
        root = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True,
                              env=self.api.env_base()).stdout.strip()
        files = []
        for d in ("core", "alloc", "std"):
            for a, _, fs in os.walk(os.path.join(root, SRC, d, "src")):
                files += [os.path.join(a, f) for f in fs if f.endswith(".rs")]
        files.sort()
        if not files:
            self.run.phases.append("no sources of the standard library found; phase skipped")
            return
        self.rng.shuffle(files)

        def one(k):
            name = "items%d" % k
            src = self.path(name + ".rs")
            subprocess.run([self.gen, "items", src] + files[k * per:(k + 1) * per], check=True, timeout=200,
                           stdout=subprocess.DEVNULL)
            return name, src, self.rustc(src, name, edition="2024")
        with cf.ThreadPoolExecutor(8) as ex:
            for name, src, (rc, ds, lines, _) in ex.map(one, range(batches)):
                for kind, i, v in lines:
                    if v.startswith("ok "):
                        self.note("rustc.tokens_compared", int(v[3:].split("\t")[0]))
                        self.note("rustc.real_items")
                        self.seen()
                    elif v.startswith("FAIL") or (v.startswith("refused") and i.startswith("accept")):
                        text = open(src).read()
                        at = text.find("#[mon_attr(%s)]" % i)
                        self.fail("inside rustc, item %s of a real source (parsed outside the compiler): %s" % (i, v),
                                  text[at:at + 3000])
                    elif v.startswith("refused"):
                        self.note("rustc.real_items_refused_everywhere")
                    else:
                        raise self.api.NoAnswer("macro: %s %s" % (i, v))
                # errors about unstable features and the like are expected; the macro runs all the same

    # ---- parts captured by declarative macros -----------------------------------------------
    TYS = ["u8", "Vec<u8>", "()", "::std::vec::Vec<Option<u8>>", "&'static str", "[u8; 3]", "fn(u8) -> u8", "(u8, Vec<(u8, u8)>)",
           "Box<dyn Fn(u8) -> u8 + 'static>", "<Vec<u8> as IntoIterator>::Item", "*const u8", "dyn ::core::fmt::Debug"]
    EXPRS = ["1", "1 + 2", "{ 3 }", "(4)", "[1, 2][0]", "1 << 2", "3 > 2", "-5", "f(1, 2)", "a::<B, C>(1)", "|x| x + 1", "if a { b } else { c }"]
    PATHS = ["Clone", "::core::fmt::Debug", "Iterator<Item = u8>", "a::b::C", "Fn(u8) -> u8"]
    VIS = ["", "pub", "pub(crate)", "pub(super)", "pub(in crate::a)"]
    METAS = ['doc = "x"', "derive(A, B)", "inline", "a::b(c = 1)", "cfgx(all(), foo)", "::k::l", "r#m = [1]"]
    LITS = ["1", '"C"', "-3", "'c'", 'b"x"', "1.5", "true"]
    POS = {
        "tuple_struct": "$v struct $n<'a, T>($v $t, &'a $t, [$t; $e], T) where T: $p, $t: Clone;",
        "named_struct": "#[$m] $v struct $n where $t: $p { $v x: $t, #[$m] $v y: Vec<$t>, z: Option<$t>, }",
        "union": "$v union $n { $v x: $t, y: ::core::mem::ManuallyDrop<$t> }",
        "enum_": "#[$m] $v enum $n { A = $l, #[$m] B($t, $t), C { x: $t }, D = $e, }",
        "fn_": "#[$m] $v fn $n<T: Into<$t> + $p>(x: $t, mut y: Vec<$t>) -> $t where T: $p, $t: Copy { $e; $b }",
        "const_": "$v const $n: $t = $e;",
        "static_": "$v static mut $n: [$t; 3] = [$e, $e, $e];",
        "alias": "$v type $n = $t;",
        "impl_": "impl<'a, T: $p + 'a> $p for $t where $t: $p { type A = $t; #[$m] $v fn f(x: $t) -> $t { $e } const X: $t = $e; }",
        "inherent": "impl $t { $v fn f(&self, x: $t) -> Vec<$t> $tt }",
        "trait_": "#[$m] $v trait $n: $p + $p { const X: $t = $e; type A: $p; fn f(&self, x: $t) { $b } fn g() -> $t; }",
        "mod_": "#[$m] $v mod $n { $v struct $n($v $t); #[$m] $v fn f() -> $t { $e } }",
        "use_": "$v use $n::{a as $n};",
        "attr_value": "#[doc = $l] #[doc = $e] $v struct $n;",
        "macro_rules": "macro_rules! $n { () => ( $e $t $b ); }",
        "lifetime_bound": "struct $n<T: $lt>(&$lt T) where T: $lt, $lt: 'static;",
        "tt": "struct $n { $n: $tt2 , x: ($tt2) }",
        "whole_item": "$i",
        "const_generic": "$v struct $n<const N: $t>($v [u8; N]);",
        "extern_": "extern \"C\" { $v fn $n(x: $t) -> $t; $v static S: $t; }",
        "crate_path": "$v struct $n($crate::other::$n, $v Vec<$crate::X>, $v $t);",
        "crate_fn": "$v fn $n<T: $crate::Tr>(x: $crate::X<$t>) -> $crate::Y where $crate::Z: $crate::Tr { $e }",
        "extern_crate": "#[$m] $v extern crate $n as other;",
        "typed_self": "impl $t { $v async unsafe extern \"C\" fn $n(mut self: $t, $n: $t); }",
        "fn_ty": "$v type $n = fn($t, &$t) -> $t;",
    }
    # what the library has to say about them; $T, $P, $TT2: a type followed by its path, if it is one
    SHAPE = {
        "tuple_struct": "<$v> struct $n <a:|T:> where[T:$p|$t:Clone] (<$v> $T|<>&'a $t|<>[$t; $e]|<>T/T)",
        "named_struct": "#[$m] <$v> struct $n where[$t:$p] {<$v> x:$T|#[$m] <$v> y:Vec<$t>/Vec|<>z:Option<$t>/Option}",
        "union": "<$v> union $n {<$v> x:$T|<>y: ::core::mem::ManuallyDrop<$t>/core/mem/ManuallyDrop}",
        "enum_": "#[$m] <$v> enum $n [A;=$l|#[$m] B(<>$T|<>$T)|C{<>x:$T}|D;=$e]",
        "fn_": "#[$m] <$v> fn $n <T:Into<$t> + $p>(x:$T|muty:Vec<$t>/Vec)->$T where[T:$p|$t:Copy]{}",
        "const_": "<$v> const $n:$T=$e",
        "static_": "<$v> static mut $n:[$t;3]=[$e,$e,$e]",
        "alias": "<$v> type $n:=$T",
        "impl_": "impl<a:|T:$p+'a> $P for $T where[$t:$p][<>type A:=$T||#[$m] <$v> fn f(x:$T)->$T {}||<>const X:$T=$e]",
        "inherent": "impl for $T [<$v> fn f(&self|x:$T)->Vec<$t>/Vec {}]",
        "trait_": "#[$m] <$v> trait $n:$p+$p[<>const X:$T=$e||<>type A:$p=||<>fn f(&self|x:$T){}||<>fn g()->$T;]",
        "mod_": "#[$m] <$v> mod $n [<$v> struct $n (<$v> $T)||#[$m] <$v> fn f()->$T {}]",
        "use_": "<$v> use $n::{a as $n}",
        "attr_value": "#[doc=$l]#[doc=$e]<$v> struct $n;",
        "macro_rules": "macro_rules!$n[()=>($e $t $b);]",
        "lifetime_bound": "<>struct $n<T:$lt>where[T:$lt|$lt:'static](<>&$lt T)",
        "tt": "<>struct $n {<>$n:$TT2|<>x:($tt2)}",
        "const_generic": "<$v>struct $n<N:$t>(<$v>[u8;N])",
        "extern_": "extern\"C\"[<$v>fn $n(x:$T)->$T;||<$v>static S:$T=]",
        "crate_path": "<$v>struct $n(<>$crate::other::$n/$crate/other/$n|<$v>Vec<$crate::X>/Vec|<$v>$T)",
        "crate_fn": "<$v>fn $n<T:$crate::Tr>(x:$crate::X<$t>/$crate/X)->$crate::Y/$crate/Y where[$crate::Z:$crate::Tr]{}",
        "extern_crate": "#[$m]<$v>crate $n as other",
        "typed_self": "impl for $T [<$v>fn $n(mut self:$T|$n:$T);]",
        "fn_ty": "<$v>type $n:=fn($t,&$t)->$t",
    }

    @staticmethod
    def with_path(t):
        """a type of the lists above, followed by the names in it if it is a path"""
        if re.match(r"(dyn |fn\(|[^\w:])", t) or t.startswith("Fn("):
            return t
        head = re.sub(r"<.*>", "", t)
        return t + "/" + "/".join(x for x in head.split("::") if x)

    def shape(self, k, parts):
        def sub(m):
            x = m.group(1)
            return {"T": lambda: self.with_path(parts["t"]), "P": lambda: self.with_path(parts["p"]),
                    "TT2": lambda: self.with_path(parts["tt2"])}.get(x, lambda: parts[x])()
        s = re.sub(r"\$(tt2|TT2|tt|lt|n|v|T|t|e|P|p|m|l|b)\b", sub, self.SHAPE[k])
        return "".join(s.split())

    KNOWN = {
        "captured_lifetime_param": "struct $n<$lt>(&$lt u8);",
        "captured_lifetime_receiver": "fn $n(&$lt self) {}",
        "captured_block_body": "fn $n() $b",
        "captured_item_in_mod": "mod $n { $i }",
        "captured_abi": "extern $abi fn $n() {}",
    }

    def captured(self, count):
        known = [l for l in open(os.path.join(self.api.ROOT, "known-findings.txt")) if l.startswith("known: property=C23 ")]
        o = ["#![allow(warnings)]", "#[macro_use] extern crate c23pm;"]
        pat = ("$id:ident $n:ident [$v:vis,] [$t:ty] [$e:expr] [$p:path] [$m:meta] [$l:literal] [$b:block]"
               " [$lt:lifetime] [$tt:tt] [$tt2:tt] [$i:item] [$abi:literal]")
        use = re.sub(r":\w+", "", pat)
        for pos in (self.POS, self.KNOWN):
            for k, body in pos.items():
                o.append("macro_rules! m_%s { (%s) => { #[mon_attr($id)] %s } }" % (k, pat, body))
                # captured again on the way
                o.append("macro_rules! m_%s_1 { (%s) => { m_%s! { %s } } }" % (k, pat, k, use))
                o.append("macro_rules! m_%s_2 { (%s) => { m_%s_1! { %s } } }" % (k, pat, k, use))
        want = {}
        lines_of = {}
        shapes = {}
        r = self.rng
        for k in list(self.KNOWN) * 2 + [r.choice(sorted(self.POS)) for _ in range(count)] + sorted(self.POS):
            i = "c%d_%s" % (len(want), k)
            want[i] = k
            item = r.choice(["pub struct I { a: u8 }", "fn foo<T>(a: T) where T: Clone {}", "enum E { A = 1, B(u8) }",
                             "impl<T> Clone for Foo<T> { fn clone(&self) -> Self { loop {} } }", "const X: u8 = 1 << 3;", "mod a { use b::c; }"])
            q = dict(n="N%d" % len(want), v=r.choice(self.VIS), t=r.choice(self.TYS), e=r.choice(self.EXPRS), p=r.choice(self.PATHS),
                     m=r.choice(self.METAS), l=r.choice(self.LITS), b=r.choice(["{ 1 }", "{ let x = 2; x }", "{}"]), lt="'a",
                     tt="{ loop {} }", tt2=r.choice(["u8", "(u8, u8)", "[u8]"]))
            if k in self.SHAPE:
                shapes[i] = self.shape(k, q)
            o.append("m_%s%s! { %s %s [%s,] [%s] [%s] [%s] [%s] [%s] [%s] [%s] [%s] [%s] [%s] [\"C\"] }" % (
                k, r.choice(["", "", "_1", "_2"]), i, q["n"], q["v"], q["t"], q["e"], q["p"], q["m"], q["l"], q["b"], q["lt"], q["tt"], q["tt2"], item))
            lines_of[i] = o[-1]
        o.append("fn main() {}")
        src = self.path("captured.rs")
        with open(src, "w") as f:
            f.write("\n".join(o))
        rc, ds, lines, _ = self.rustc(src, "captured", edition="2021")
        got = {}
        for kind, i, v in lines:
            k = want.get(i)
            if v.startswith("HARNESS") or k is None:
                raise self.api.NoAnswer("macro: %s %s" % (i, v))
            got[k] = got.get(k, 0) + 1
            body = self.POS.get(k) or self.KNOWN.get(k)
            if v.startswith("ok "):
                have = v.split("\t")[1]
                if i in shapes and have != shapes[i]:
                    self.fail("inside rustc, parts captured by a declarative macro (%s): declared %s, reported %s" % (k, shapes[i], have),
                              body + "\n" + lines_of[i])
                    continue
                self.note("rustc.captured." + k)
                self.note("rustc.tokens_compared", int(v[3:].split("\t")[0]))
                self.seen()
            elif v.startswith("refused") and k in self.KNOWN:
                self.note("rustc.known_refusal." + k)
                rec = [l for l in known if "case=`%s`" % k in l]
                if not rec:
                    self.fail("inside rustc, %s refused: %s" % (k, v), body + "\n" + lines_of[i])
                else:
                    t = rec[0][len("known: property=C23 "):].strip()
                    if t not in self.run.known:
                        self.run.known.append(t)
            else:
                self.fail("inside rustc, parts captured by a declarative macro (%s): %s" % (k, v), body + "\n" + lines_of[i])
        missing = [k for k in self.POS if k not in got]
        if missing:
            raise self.api.NoAnswer("no observation for %s: %s" % (missing, [d["message"] for d in ds][:4]))

    # ---- derives: the generated impls compile and report the right contents ------------------
    def derive(self, count):
        r = self.rng
        o = ["#![allow(warnings)]", "#[macro_use] extern crate c23pm;",
             "pub trait Described { const INFO: &'static str; fn tys() -> Vec<&'static str>; }",
             "pub trait With<'added, Added> {}", "pub fn with<'added, Added, T: ?Sized + With<'added, Added>>() {}",
             "pub mod other { pub struct P<T: ?Sized, const N: usize>(pub ::std::marker::PhantomData<T>); }",
             "macro_rules! vis_ty { ($(#[$m:meta])* [$v:vis,] $n:ident [$t:ty]) => { $(#[$m])* #[cfg_attr(not(plain), derive(Mon))] #[cfg_attr(plain, derive(Plain))] $v struct $n { $v a: $t, b: Vec<$t> } } }"]
        checks = []
        for i in range(count):
            k = r.choice(["struct", "struct", "enum", "enum", "union", "captured"])
            name = r.choice(["S%d", "Type%d", "r#S%d", "Ünï%d"]) % i
            pname = name
            if k == "captured":
                v = r.choice(["", "pub", "pub(crate)"])
                t = r.choice(["u8", "Vec<u8>", "(u8, u8)", "[u8; 2]", "&'static str", "fn(u8) -> u8"])
                nd = r.randrange(3)
                o.append("vis_ty! { %s [%s,] %s [%s] }" % ("".join("#[doc = \"d\"] " for _ in range(nd)), v, name, t))
                # the invisible group around an empty visibility counts as written; only its presence is compared here
                checks.append((name, "struct %s [a,b] attrs=%d pub=true" % (pname, nd),
                               [t, "Vec<%s>" % t], "", ""))
                continue
            lts = r.sample(["a", "b", "long_name"], r.randrange(3))
            tys = r.sample(["T", "U", "Vv"], r.randrange(3))
            if k == "union":
                tys = []
            cs = r.sample(["N", "M"], r.randrange(3))
            ps = []
            for x in lts:
                ps.append("'%s%s" % (x, r.choice(["", ": 'static" if False else ""])))
            mixed = []
            for x in tys:
                mixed.append(x + r.choice(["", "", ": Clone", ": Fn(u8) -> u8 + Clone", ": Into<Vec<u8>>", ": Iterator<Item = u8> + ?Sized" if False else ": Copy + 'static"]))
            for x in cs:
                mixed.append("const %s: usize" % x)
            r.shuffle(mixed)
            ps += mixed
            gen = "<%s%s>" % (", ".join(ps), r.choice(["", ","]) if ps else "") if (ps or r.random() < .2) else ""
            wh = []
            for x in tys:
                if r.random() < .4:
                    wh.append("%s: %s" % (x, r.choice(["Sized", "::core::marker::Sized + 'static", "Clone"])))
            for x in lts[1:]:
                if r.random() < .4:
                    wh.append("'%s: '%s" % (x, lts[0]))
            if r.random() < .2:
                wh.append("Vec<u8>: IntoIterator<Item = u8>")
            where = ""
            if wh or r.random() < .1:
                where = " where " + ", ".join(wh) + (r.choice([",", ""]) if wh else "")
            used = [("&'%s u8" % x) for x in lts] + ["::core::marker::PhantomData<%s>" % x for x in tys] + ["[u8; %s]" % x for x in cs]
            extra = [r.choice(["u8", "Vec<Option<u8>>", "(u8, Vec<(u8, u8)>)", "fn(u8, u8) -> u8", "&'static [u8]", "Box<dyn Fn(u8) -> u8>",
                               "<Vec<u8> as IntoIterator>::Item", "other::P<u8, { 1 + 2 }>", "::std::collections::HashMap<String, Vec<u8>>"]) for _ in range(r.randrange(4))]
            if k == "union":
                extra = [x for x in extra if x in ("u8", "fn(u8, u8) -> u8", "&'static [u8]")] or ["u8"]
            fs = used + extra
            r.shuffle(fs)
            at = [r.choice(["#[helper]", "#[helper(a, b = 1)]", "/// text", "#[helper = \"x\"]"]) for _ in range(r.randrange(3))]
            pub = r.choice(["", "pub ", "pub(crate) "])
            fattr = lambda: r.choice(["", "", "#[helper] ", "/** doc */ "])
            fvis = lambda: r.choice(["", "pub ", "pub(self) ", "pub(in crate) "])
            trail = lambda: r.choice(["", ","])
            head = "#[cfg_attr(not(plain), derive(Mon))] #[cfg_attr(plain, derive(Plain))]\n" + "".join(x + "\n" for x in at)
            names = ["f%d" % j if r.random() < .8 else "r#type%d" % j for j in range(len(fs))]
            if k == "struct":
                shape = r.choice(["tuple", "named"]) if fs else r.choice(["unit", "tuple", "named"])
                if shape == "unit":
                    body, info = where + ";", "unit"
                elif shape == "tuple":
                    body = "(" + ", ".join(fattr() + fvis() + f for f in fs) + (trail() if fs else "") + ")" + where + ";"
                    info = ",".join(str(j) for j in range(len(fs)))
                else:
                    body = where + " { " + ", ".join("%s%s%s: %s" % (fattr(), fvis(), n, f) for n, f in zip(names, fs)) + (trail() if fs else "") + " }"
                    info = ",".join(names)
                o.append("%s%sstruct %s%s%s" % (head, pub, name, gen, body))
                info = "struct %s [%s]" % (pname, info)
            elif k == "union":
                body = where + " { " + ", ".join("%s%s%s: ::core::mem::ManuallyDrop<%s>" % (fattr(), fvis(), n, f) for n, f in zip(names, fs)) + trail() + " }"
                o.append("%s%sunion %s%s%s" % (head, pub, name, gen, body))
                info = "union %s [%s]" % (pname, ",".join(names))
                fs = ["::core::mem::ManuallyDrop<%s>" % f for f in fs]
            else:
                vs, infos, rest = [], [], list(fs)
                fieldless = not fs
                while True:
                    n = "V%d" % len(vs)
                    kind = r.choice(["unit", "tuple", "named"]) if not fieldless else "unit"
                    a = fattr()
                    if kind == "unit":
                        d = ""
                        if fieldless and r.random() < .5:
                            d = r.choice(["%d" % (10 * len(vs) + 1), "{ %d }" % (10 * len(vs) + 2), "(%d)" % (10 * len(vs) + 3), "(1 + %d)" % (10 * len(vs) + 3)])
                        vs.append(a + n + (" = " + d if d else ""))
                        infos.append(n + ("=" + d.replace(" ", "") if d else ""))
                    else:
                        m = r.randrange(len(rest) + 1)
                        mine, rest = rest[:m], rest[m:]
                        if kind == "tuple":
                            vs.append(a + n + "(" + ", ".join(fattr() + f for f in mine) + (trail() if mine else "") + ")")
                            infos.append("%s(%d)" % (n, len(mine)))
                        else:
                            vs.append(a + n + " { " + ", ".join("%s%s: %s" % (fattr(), "g%d" % j, f) for j, f in enumerate(mine)) + (trail() if mine else "") + " }")
                            infos.append("%s{%s}" % (n, ",".join("g%d" % j for j in range(len(mine)))))
                    if not rest and (len(vs) > 3 or r.random() < .4):
                        break
                c = all("(" not in x.split("=")[0] and "{" not in x.split("=")[0] for x in infos)
                o.append("%s%senum %s%s%s { %s%s }" % (head, pub, name, gen, where, ", ".join(vs), trail()))
                info = "enum %s [%s] c=%s" % (pname, ",".join(infos), "true" if c else "false")
            # Fn(u8) -> u8 parameters need a function pointer, Iterator bounds are not used
            inst = []
            for q in ps:
                if q.startswith("'"):
                    inst.append("'static")
                elif q.startswith("const"):
                    inst.append("3")
                elif "Fn(" in q:
                    inst.append("fn(u8) -> u8")
                elif "Into<Vec" in q:
                    inst.append("Vec<u8>")
                else:
                    inst.append("u8")
            args = "<%s>" % ", ".join(inst) if inst else ""
            sub = lambda f: f
            exp = []
            for f in fs:
                g = f
                for q, v in zip(ps, inst):
                    if q.startswith("'"):
                        g = g.replace(q.split(":")[0] + " ", "'static ")
                    elif q.startswith("const"):
                        g = g.replace("[u8; %s]" % q.split()[1].rstrip(":"), "[u8; 3]")
                    else:
                        g = g.replace("PhantomData<%s>" % q.split(":")[0], "PhantomData<%s>" % v)
                exp.append(g)
            checks.append((name, "%s attrs=%d pub=%s" % (info, len(at), "true" if pub else "false"), exp, args, ""))
        o.append("fn main() {")
        o.append("#[cfg(not(plain))] {")
        for name, info, exp, args, _ in checks:
            t = "%s%s" % (name, ("::" + args) if args else "")
            o.append("assert_eq!(<%s%s as Described>::INFO, %s);" % (name, args, json.dumps(info, ensure_ascii=False)))
            o.append("assert_eq!(<%s%s as Described>::tys(), vec![%s] as Vec<&str>, \"types of %s\");" % (
                name, args, ", ".join("std::any::type_name::<%s>()" % e for e in exp), name))
            o.append("with::<'static, String, %s%s>();" % (name, args))
        o.append("println!(\"done %d\");" % len(checks))
        o.append("}}")
        src = self.path("derive%d.rs" % self.n)
        with open(src, "w") as f:
            f.write("\n".join(o))
        rc, ds, _, _ = self.rustc(src, "derplain", cfg="plain")
        if rc != 0:
            raise self.api.NoAnswer("the generated types do not compile by themselves: %s" % [(d["message"], [s["text"] for s in d["spans"][:1]]) for d in ds][:3])
        rc, ds, lines, exe = self.rustc(src, "derived", link=True)
        text = "\n".join(o)
        bad = [(i, v) for kind, i, v in lines if not v.startswith("ok")]
        for i, v in bad[:3]:
            if v.startswith("HARNESS"):
                raise self.api.NoAnswer(v)
            self.fail("derive macro under rustc: %s %s" % (i, v), text)
        if bad:
            return
        self.note("rustc.derives", len(lines))
        if rc != 0:
            err = [d for d in ds if d["level"] == "error"]
            self.fail("an impl generated with the library does not compile: %s" % err[0]["message"],
                      "\n".join(d.get("rendered") or "" for d in err[:4]) + "\n" + text)
            return
        p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
        if p.returncode != 0 or "done %d" % len(checks) not in p.stdout:
            self.fail("contents reported to a derive macro are wrong: %s" % p.stderr[-600:], text)
            return
        self.note("rustc.derived_impls_checked_at_run_time", len(checks))
        self.seen(len(checks))

    # ---- errors as compiler diagnostics -----------------------------------------------------
    MSG = ["plain", "with \"quotes\" and \\ backslash", "braces {} {0} {x}", "two\nlines", "ünïcödé ∀ 名前", "tab\tand 'tick'", "percent %s $crate #[x]",
           "a longer message: `struct` expected, found `,`", "//not a comment", "r#\"raw\"#"]

    def lit(self, m):
        return '"' + m.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\t", "\\t") + '"'

    def diagnostics(self, count):
        r = self.rng
        o = ["#![allow(warnings)]", "#[macro_use] extern crate c23pm;"]
        expect = []  # (line, col, line_end, col_end, message)
        order = {}
        texts = {}
        for i in range(count):
            k = r.choice(["tokens", "tokens", "right", "span", "site", "enum"])
            line = len(o) + 1
            if k == "enum":
                # location of the first token of the first discriminant of several tokens
                pre = "pub enum E%d { A = 1, B(u8, Vec<u8>), C { x: u8 } = 3, " % i
                if r.random() < .5:
                    pre = "enum E%d<T: Clone> where T: Copy { " % i
                val = r.choice(["-1", "1 + 2", "a::b", "!0", "f(x)", "'a' as u8", "x.y"])
                first = {"-1": 1, "1 + 2": 1, "a::b": 1, "!0": 1, "f(x)": 1, "'a' as u8": 3, "x.y": 1}[val]
                post = r.choice([" }", ", Z }", ", Y = -7, }", ", W = (1 + 2) }"])
                o.append("#[report]")
                o.append(pre + "X = " + val + post)
                c = len(pre) + 5
                expect.append((line + 1, c, line + 1, c + first, None))
                order.setdefault(line, []).append(expect[-1])
                texts[line + 1] = o[-1]
                continue
            n = r.randrange(1, 4)
            parts = "errs! { %s" % k
            here = []
            for j in range(n):
                m = r.choice(self.MSG) + " %d.%d" % (i, j)
                toks = r.choice(["a", "a b c", "struct X { a: u8 }", "(x)", "a::b<C>", "1 + 2", "\"lit\"", "été x", "'l 'm"])
                parts += " " + self.lit(m) + " {"
                c = len(parts) + 1
                parts += toks + "}"
                if k == "span":
                    w = {"a": 1, "a b c": 1, "struct X { a: u8 }": 6, "(x)": 3, "a::b<C>": 1, "1 + 2": 1, "\"lit\"": 5, "été x": 3, "'l 'm": 2}[toks]
                    here.append((line, c, line, c + w, m))
                elif k == "site":
                    here.append((line, 1, line, None, m))
                else:
                    here.append((line, c, line, c + len(toks), m))
            parts += " }"
            here = [(a, b, c, len(parts) + 1 if d is None else d, m) for a, b, c, d, m in here]
            expect += here
            order[line] = here
            texts[line] = parts
            o.append(parts)
        o.append("fn main() {}")
        src = self.path("diag.rs")
        with open(src, "w") as f:
            f.write("\n".join(o))
        rc, ds, lines, _ = self.rustc(src, "diag")
        got = []
        for d in ds:
            if d["level"] != "error" or not d["spans"]:
                continue
            s = next((s for s in d["spans"] if s["is_primary"]), d["spans"][0])
            got.append((s["line_start"], s["column_start"], s["line_end"], s["column_end"], d["message"]))
        reported = [v for kind, i, v in lines if kind == "report"]
        for v in reported:
            if not v:
                self.fail("an error of the library has no text", "")
        g = {}
        for x in got:
            g.setdefault(x[0], []).append(x)
        for line in sorted(texts):
            want = [x for x in expect if x[0] == line]
            have = g.get(line, [])
            ok = len(want) == len(have) and all(
                a[:4] == b[:4] and (a[4] == b[4] if a[4] is not None else (b[4].strip() != "" and b[4] in reported)) for a, b in zip(want, have))
            if not ok:
                self.fail("diagnostics of one macro call: expected %s, the compiler shows %s" % (want, have), texts[line])
                if len(self.run.violations) > 3:
                    return
            else:
                self.note("rustc.diagnostics_checked", len(want))
                self.seen()

    # ---- errors at the parts of a declaration ------------------------------------------------
    # [name|text]: the part called `name`; blanks may become line breaks; ATTR, VIS, TY, ... are replaced by random ones
    BLAME = [
        "[all|[attr0|#[doc [attr0_value|= \"x\"]]] [vis|VIS] struct S[generics|<'a, [generic1|T[generic1_bound|: BOUND]], [generic2|const N: usize]>] "
        "[fields|([field0|[field0_attr0|ATTR] [field0_vis|VIS] [field0_ty|TY]], [field1|[field1_ty|TY]],)]"
        " [where|where [where0|T[where0_bound|: BOUND]], [where1|Vec<T>[where1_bound|: BOUND]]];]",
        "[all|[vis|VIS] struct S[generics|<[generic0|'a], [generic1|T]>] [where|where [where0|'a[where0_bound|: 'static]],] "
        "[fields|{ [field0|[field0_vis|VIS] [field0_name|x]: [field0_ty|[field0_ty_seg0|std]::[field0_ty_seg1|vec]::[field0_ty_seg2|Vec]<T>]], [field1|[field1_attr0|ATTR] y: [field1_ty|TY]] }]]",
        "[all|[attr0|ATTR] [attr1|ATTR] enum E<T> { [variant0|A], [variant1|[variant1_attr0|ATTR] B[variant1_fields|([variant1_field0|[variant1_field0_ty|TY]], TY)]],"
        " [variant2|C[variant2_fields|{ x: [variant2_field0_ty|TY] }]], [variant3|D [variant3_eqvalue|= [variant3_value|VALUE]]], }]",
        "[all|[vis|VIS] union U { [field0|[field0_name|a]: [field0_ty|TY]], [field1|[field1_vis|VIS] b: [field1_ty|TY]], }]",
        "[all|[attr0|ATTR] [vis|VIS] [quals|async unsafe extern \"C\"] fn [name|f]<'a, [generic1|T[generic1_bound|: BOUND]]>([param0|[param0_attr0|ATTR] mut x: [param0_ty|TY]], [param1|y: [param1_ty|TY]])"
        " -> [ret|TY] [where|where [where0|T[where0_bound|: BOUND]]] [body|{ 1 + 2; }]]",
        "[all|[vis|VIS] const X: [ty|TY] = [init|EXPR];]",
        "[all|[vis|VIS] static mut X: [ty|TY] = [init|EXPR];]",
        "[all|[vis|VIS] type A = [ty|TY];]",
        "[all|impl[generics|<[generic0|T[generic0_bound|: BOUND]]>] [trait|[trait_seg0|a]::[trait_seg1|Tr]<u8>] for [self|TY] where [where0|T[where0_bound|: BOUND]] { "
        "[member0_all|[member0_attr0|ATTR] [member0_vis|VIS] fn f([member0_param0|&'a mut self], [member0_param1|x: [member0_param1_ty|TY]]) -> [member0_ret|TY] [member0_body|{ loop {} }]] "
        "[member1_all|const X: [member1_ty|TY] = [member1_init|EXPR];] [member2_all|type A = [member2_ty|TY];] }]",
        "[all|[vis|VIS] trait Tr[bound|: BOUND] where [where0|Self[where0_bound|: Sized]] { [member0_all|type A[member0_bound|: BOUND];] "
        "[member1_all|fn f([member1_param0|self: Box<Self>]);] [member2_all|const X: [member2_ty|TY];] }]",
        "[all|[attr0|ATTR] mod m { [inner_attr0|#![doc [inner_attr0_value|= \"y\"]]] [member0_all|[member0_vis|VIS] struct S([member0_field0|[member0_field0_vis|VIS] [member0_field0_ty|TY]]);]"
        " [member1_all|mod n { [member1_member0_all|fn f([member1_member0_param0|x: [member1_member0_param0_ty|TY]]) {}] }] }]",
    ]
    RANDOM = {
        "VIS": ["pub", "pub(crate)", "pub(in crate::a::b)"],
        "TY": ["u8", "Vec<Vec<u8>>", "(u8, u8)", "&'static str", "fn(u8) -> u8", "[u8; 3]", "Box<dyn Fn(u8) -> u8>", "<u8 as Tr>::A"],
        "BOUND": ["Clone", "Clone + Copy", "Fn(u8) -> u8", "Iterator<Item = u8> + 'static", "?Sized"],
        "ATTR": ["#[inline]", "#[doc = \"z\"]", "#[allow(a, b)]", "#[a::b]"],
        "VALUE": ["1", "(1 + 2)", "{ 3 }", "X"],
        "EXPR": ["1", "1 + 2", "f(a, b)", "a < b", "{ 4 }", "x.y::<Z>()"],
    }

    def blamed(self, count):
        r = self.rng
        lines = ["#![allow(warnings)]", "#[macro_use] extern crate c23pm;"]
        want = {}
        texts = {}
        for i in range(count):
            t = r.choice(self.BLAME)
            t = re.sub(r"\b(VIS|TY|BOUND|ATTR|VALUE|EXPR)\b", lambda m: r.choice(self.RANDOM[m.group(1)]), t)
            # positions: a bracket opens a part only in front of `name|`
            row, out, stack, parts, j = len(lines) + 2, [""], [], {}, 0
            while j < len(t):
                m = re.match(r"\[([a-z]\w*)\|", t[j:])
                if m:
                    stack.append((m.group(1), len(out) - 1, len(out[-1])))
                    j += m.end()
                elif t[j] == "]" and stack[-1]:
                    n, a, b = stack.pop()
                    parts[n] = (row + a, b + 1, row + len(out) - 1, len(out[-1]) + 1)
                    j += 1
                elif t[j] == " " and r.random() < .15:
                    out.append("")
                    j += 1
                else:
                    if t[j] == "[":
                        stack.append(None)
                    elif t[j] == "]":
                        stack.pop()
                    out[-1] += t[j]
                    j += 1
            mode = r.choice(["tokens", "span", "again"])
            pick = r.sample(sorted(parts), min(len(parts), r.randrange(1, 7)))
            lines.append("#[blame(%s B%d %s)]" % (mode, i, " ".join(pick)))
            lines += out
            for n in pick:
                want["B%d %s" % (i, n)] = (mode, parts[n])
                texts["B%d %s" % (i, n)] = "\n".join(lines[-len(out) - 1:])
        lines.append("fn main() {}")
        src = self.path("blame.rs")
        with open(src, "w") as f:
            f.write("\n".join(lines))
        rc, ds, log, _ = self.rustc(src, "blame")
        for kind, i, v in log:
            self.fail("inside rustc, errors at the parts of a declaration: %s %s" % (i, v), src)
        if log:
            return
        got = {}
        for d in ds:
            if d["level"] == "error" and d["spans"]:
                s = next((s for s in d["spans"] if s["is_primary"]), d["spans"][0])
                got.setdefault(d["message"], []).append((s["line_start"], s["column_start"], s["line_end"], s["column_end"]))
        for k in got:
            if k not in want:
                raise self.api.NoAnswer("unexpected diagnostic: %s" % k)
        for k, (mode, w) in want.items():
            g = got.get(k, [])
            ok = len(g) == 1 and g[0][:2] == w[:2] and (g[0][2:] == w[2:] if mode == "tokens" else g[0][2:] <= w[2:])
            if not ok:
                self.fail("an error at a part (%s, by %s) of a declaration: the part lies at %s, the compiler shows %s" % (k, mode, w, g), texts[k])
                if len(self.run.violations) > 3:
                    return
            else:
                self.note("rustc.blamed_parts")
                self.seen()

def plan(run, api):
    c = C23(run, api)
    c.build()
    run.rule = ("one declaration, captured-fragment expansion, derive or error report handled by a macro that uses the library inside rustc, "
                "compared with the compiler's own tokens, the model of the declaration, the run-time contents or the expected diagnostic; "
                "distinct = distinct declarations or calls")
    t = run.tier == "thorough"
    rounds = 6 if t else 1
    for k in range(rounds):
        c.captured(2000 if t else 1000)
        c.derive(120)
        c.derive(40)
        c.diagnostics(400)
        c.blamed(1000 if t else 400)
        if run.violations:
            break
    if not run.violations:
        c.mon(400 if t else 32, 3000)
    if not run.violations:
        c.items(100 if t else 24, 10)
    return run.finish(min_evals=100)
