//! Families of inputs that grow in one dimension, for the work monitor.
use crate::gen::op;
use crate::tok::*;

fn lex(s: &str) -> Ts {
    from_ts(s.parse().unwrap())
}
fn rep(n: usize, f: impl Fn(usize) -> String) -> String {
    (0..n).map(f).collect()
}
fn nest(n: usize, a: &str, m: &str, b: &str) -> String {
    a.repeat(n) + m + &b.repeat(n)
}

pub type Fam = (&'static str, fn(usize) -> Ts);

/// tokens nested in invisible groups cannot be written as text
fn none_nest(n: usize, inner: Ts) -> Ts {
    let mut t = inner;
    for _ in 0..n {
        t = vec![grp(D::None, t)];
    }
    t
}

pub const FAMS: &[Fam] = &[
    ("named fields", |n| lex(&format!("struct S {{ {} }}", rep(n, |i| format!("f{i}: T{i},"))))),
    ("tuple fields", |n| lex(&format!("struct S({});", rep(n, |i| format!("pub T{i},"))))),
    ("variants", |n| lex(&format!("enum S {{ {} }}", rep(n, |i| format!("V{i}(u8) = {i},"))))),
    ("variants with fields", |n| lex(&format!("enum S {{ {} }}", rep(n, |i| format!("V{i} {{ a: u8, b: u8 }},"))))),
    ("union fields", |n| lex(&format!("union S {{ {} }}", rep(n, |i| format!("f{i}: T{i},"))))),
    ("attributes on an item", |n| lex(&format!("{} struct S;", rep(n, |i| format!("#[a{i}(x)]"))))),
    ("attributes on a field", |n| lex(&format!("struct S {{ {} f: u8 }}", rep(n, |i| format!("#[a{i} = 1]"))))),
    ("attribute path", |n| lex(&format!("#[a{}] struct S;", rep(n, |i| format!("::b{i}"))))),
    ("attribute value", |n| lex(&format!("#[a({})] struct S;", rep(n, |i| format!("b{i},"))))),
    ("attribute eq value", |n| lex(&format!("#[a = {}] struct S;", rep(n, |i| format!("b{i} + "))))),
    ("inner attributes", |n| lex(&format!("mod m {{ {} }}", rep(n, |i| format!("#![a{i}]"))))),
    ("generic params", |n| lex(&format!("struct S<{}>;", rep(n, |i| format!("T{i}: A + B,"))))),
    ("lifetime params", |n| lex(&format!("struct S<{}>;", rep(n, |i| format!("'t{i}: 'a,"))))),
    ("one long bound", |n| lex(&format!("struct S<T: A{}>;", rep(n, |i| format!(" + B{i}"))))),
    ("predicates", |n| lex(&format!("struct S where {};", rep(n, |i| format!("T{i}: A,"))))),
    ("predicates, tuple struct", |n| lex(&format!("struct S(u8) where {};", rep(n, |i| format!("T{i}: A,"))))),
    ("projection predicates", |n| lex(&format!("fn f() where {} {{}}", rep(n, |i| format!("T{i}::X: A<B, C>,"))))),
    ("predicate left path", |n| lex(&format!("struct S where T{}: A;", rep(n, |i| format!("::X{i}"))))),
    ("predicate bound", |n| lex(&format!("impl X where T: A{} {{}}", rep(n, |i| format!("+ B{i}"))))),
    ("nested type", |n| lex(&format!("struct S {{ f: {} }}", nest(n, "A<", "u8", ">")))),
    ("nested type in tuple", |n| lex(&format!("struct S({});", nest(n, "A<", "u8", ">")))),
    ("nested type in param", |n| lex(&format!("fn f(x: {}) {{}}", nest(n, "A<", "u8", ">")))),
    ("nested type in bound", |n| lex(&format!("fn f<T: {}>() {{}}", nest(n, "A<", "u8", ">")))),
    ("nested type in predicate", |n| lex(&format!("fn f() where {}: A {{}}", nest(n, "A<", "u8", ">")))),
    ("nested return type", |n| lex(&format!("fn f() -> {} {{}}", nest(n, "A<", "u8", ">")))),
    ("nested self type", |n| lex(&format!("impl X for {} {{}}", nest(n, "A<", "u8", ">")))),
    ("nested trait type", |n| lex(&format!("impl {} for X {{}}", nest(n, "A<", "u8", ">")))),
    ("nested const type", |n| lex(&format!("const X: {} = 1;", nest(n, "A<", "u8", ">")))),
    ("nested alias type", |n| lex(&format!("type X = {};", nest(n, "A<", "u8", ">")))),
    ("nested parens", |n| lex(&format!("struct S {{ f: {} }}", nest(n, "(", "u8", ")")))),
    ("references", |n| lex(&format!("struct S {{ f: {} u8 }}", "&'a mut ".repeat(n)))),
    ("fn pointers", |n| lex(&format!("struct S {{ f: {} u8 }}", "fn() -> ".repeat(n)))),
    ("path segments", |n| lex(&format!("struct S {{ f: a{} }}", rep(n, |i| format!("::b{i}"))))),
    ("generic arguments", |n| lex(&format!("struct S {{ f: A<{}> }}", rep(n, |i| format!("B{i},"))))),
    ("fn params", |n| lex(&format!("fn f({}) {{}}", rep(n, |i| format!("p{i}: T{i},"))))),
    ("fn body", |n| lex(&format!("fn f() {{ {} }}", rep(n, |i| format!("x{i};"))))),
    ("fn body depth", |n| lex(&format!("fn f() {{ {} }}", nest(n, "{", "x", "}")))),
    ("impl members", |n| lex(&format!("impl S {{ {} }}", rep(n, |i| format!("fn f{i}(&self) {{}}"))))),
    ("impl consts", |n| lex(&format!("impl S {{ {} }}", rep(n, |i| format!("const C{i}: u8 = 1;"))))),
    ("impl types", |n| lex(&format!("impl S {{ {} }}", rep(n, |i| format!("type C{i} = u8;"))))),
    ("impl macros", |n| lex(&format!("impl S {{ {} }}", rep(n, |i| format!("m{i}!();"))))),
    ("trait members", |n| lex(&format!("trait S {{ {} }}", rep(n, |i| format!("fn f{i}(&self);"))))),
    ("supertraits", |n| lex(&format!("trait S: A {} {{ }}", rep(n, |i| format!("+ B{i}"))))),
    ("extern members", |n| lex(&format!("extern \"C\" {{ {} }}", rep(n, |i| format!("fn f{i}(x: u8);"))))),
    ("mod members", |n| lex(&format!("mod m {{ {} }}", rep(n, |i| format!("struct S{i};"))))),
    ("mod depth", |n| lex(&nest(n, "mod m {", "struct S;", "}"))),
    ("mod members of every kind", |n| {
        lex(&format!(
            "mod m {{ {} }}",
            rep(n, |_| "use a::b; const A: u8 = 1 + 2; type B = u8; fn f() {} enum E { A } m!{} extern crate x; impl X {} trait T {} union U {a: u8} static S: u8 = 2; extern {}".to_string())
        ))
    }),
    ("use tree", |n| lex(&format!("use a::{{ {} }};", rep(n, |i| format!("b{i},"))))),
    ("use path", |n| lex(&format!("use a{};", rep(n, |i| format!("::b{i}"))))),
    ("initializer", |n| lex(&format!("const X: u8 = 1 {};", rep(n, |i| format!("+ {i}"))))),
    ("initializer comparisons", |n| lex(&format!("const X: bool = a {};", "< b > c ".repeat(n)))),
    ("initializer shifts", |n| lex(&format!("const X: bool = a {};", "<< 1 >> 2 ".repeat(n)))),
    ("initializer turbofish", |n| lex(&format!("const X: u8 = {};", nest(n, "f::<", "u8", ">()")))),
    ("macro tokens", |n| lex(&format!("m! {{ {} }}", rep(n, |i| format!("a{i} ,"))))),
    ("const type", |n| lex(&format!("static X: ({}) = 1;", rep(n, |_| "u8,".to_string())))),
    ("closers only", |n| lex(&format!("struct S {{ f: A {} }}", "> ".repeat(n)))),
    ("openers only", |n| lex(&format!("struct S {{ f: {} }}", "A < ".repeat(n)))),
    ("openers in generics", |n| lex(&format!("struct S<{}", "A < ".repeat(n)))),
    ("openers in where", |n| lex(&format!("struct S where {}", "A < ".repeat(n)))),
    ("openers in an initializer", |n| lex(&format!("const X: u8 = {};", "a < ".repeat(n)))),
    ("commas", |n| lex(&format!("struct S {{ {} }}", ", ".repeat(n)))),
    ("colons", |n| lex(&format!("struct S where {};", "A : ".repeat(n)))),
    ("semicolons", |n| lex(&format!("struct S{}", " ;".repeat(n)))),
    ("hashes", |n| lex(&format!("{} struct S;", "# ".repeat(n)))),
    ("qualifiers", |n| lex(&format!("{} fn f() {{}}", "unsafe ".repeat(n)))),
    ("pubs", |n| lex(&format!("{} fn f() {{}}", "pub ".repeat(n)))),
    ("invisible groups", |n| {
        let mut t = lex("struct S");
        t.push(grp(D::Brace, {
            let mut v = lex("f:");
            v.extend(none_nest(n, lex("A<u8>")));
            v
        }));
        t
    }),
    ("captured visibilities", |n| {
        let mut t = none_nest(n, lex("pub"));
        t.extend(lex("struct S;"));
        t
    }),
    ("captured field visibilities", |n| {
        let mut v = none_nest(n, lex("pub(crate)"));
        v.extend(lex("u8"));
        let mut t = lex("struct S");
        t.push(grp(D::Paren, v));
        t.push(p(';'));
        t
    }),
    ("captured tuple types", |n| {
        let mut t = lex("enum S");
        let mut v = lex("A");
        v.push(grp(D::Paren, none_nest(n, lex("A"))));
        t.push(grp(D::Brace, v));
        t
    }),
    ("operators", |n| {
        let mut t = lex("const X: u8 = a");
        for _ in 0..n {
            op("->", &mut t);
            op("=>", &mut t);
            op("<=", &mut t);
        }
        t.push(p(';'));
        t
    }),
];
