"""Hand-written histories on the real macro, run beside the generated ones.  Each entry is
(properties a failure to compile speaks about, source of a module with `pub fn run()`).
`at(p)` names the properties that a panic speaks about from there on."""

PRE = 'use crate::rt::*; use crate::ck; use db::Builder;\n'
SCEN = {}
def scen(name, props, src): SCEN['case_s_' + name] = (props.split(), PRE + src)

scen('names', 'C19', r'''
pub fn run() { at("C19");
    for n in ["", "a", "r#type", "r#r#x", " a ", "`q`", "{}", "a\nb", "Field not initialized: x", "ñ", "_", "__", "0", "A::b", "very_long_name_of_a_field_that_goes_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on"] {
        let n: &'static str = n;
        let a = db::UninitializedFieldError::new(n);
        let b = db::UninitializedFieldError::from(n);
        let c: db::UninitializedFieldError = n.into();
        for e in [&a, &b, &c, &a.clone()] {
            ck!("C19", e.field_name() == n, n);
            ck!("C19", e.to_string() == format!("Field not initialized: {}", n), n);
            ck!("C19", format!("{:?}", e) == format!("{:?}", a), n);
            let d: &dyn std::error::Error = e;
            ck!("C19", d.source().is_none() && d.to_string() == e.to_string(), n);
        }
    }
}''')

scen('default_forms', 'C22 C04', r'''
fn three() -> u8 { 3 }
const K: u8 = 9;
static mut CELL: u8 = 4;
#[derive(Builder, Debug, PartialEq)]
pub struct D {
    #[builder(default = 'found: { if K > 3 { break 'found 3 } 4 })] a: u8,
    #[builder(default = unsafe { CELL })] b: u8,
    #[builder(default = { let x = 2; x * 3 })] c: u8,
    #[builder(default = -(1i8))] d: i8,
    #[builder(default = (1, "two"))] e: (u8, &'static str),
    #[builder(default = if K == 9 { [1, 2] } else { [3, 4] })] f: [u8; 2],
    #[builder(default = match three() { 3 => "t", _ => "o" })] g: &'static str,
    #[builder(default = vec![1, 2, 3].into_iter().map(|x| x + 1).collect())] h: Vec<u8>,
    #[builder(default = K as u16 + 1)] i: u16,
    #[builder(default = "let mut v = vec![1]; v.push(2); v")] j: Vec<u8>,
    #[builder(default = "{ { 5 } }")] k: u8,
    #[builder(default = r#"format!("{}{{}}\"x\"", 1)"#)] l: String,
    #[builder(default = "if true { 1 } else { 2 }")] m: u8,
    #[builder(default = "'l: loop { break 'l 7; }")] n: u8,
    #[builder(default = loop { break 8; })] o: u8,
    #[builder(default = std::string::String::from("s"))] p: String,
    #[builder(default = "\"q\".to_string()")] q: String,
    #[builder(default = concat!("a", "b"))] r: &'static str,
    #[builder(default = (|| 6)())] s: u8,
    #[builder(default = "()")] t: (),
    #[builder(default = "1 ; 2")] u: u8,
    #[builder(default = !true)] v: bool,
    #[builder(default = 1..3)] w: std::ops::Range<u8>,
    #[builder(default = &[1, 2])] x: &'static [u8],
    #[builder(default = "static Z: u8 = 11; const Y: u8 = Z_; const Z_: u8 = 2; Y + Z")] y: u8,
    #[builder(default = { 1 })] z: u8,
    #[builder(default = const { 2 + 3 })] aa: u8,
    #[builder(default = const { &[1u8] })] ab: &'static [u8],
    #[builder(default = { let k2 = 1u8; k2 })] ac: u8,
    #[builder(default = 'o: loop { loop { break 'o 4; } })] ad: u8,
    #[builder(default = if let Some(x) = Some(2u8) { x } else { 0 })] ae: u8,
    #[builder(default = "fn h() -> u8 { 12 } h()")] af: u8,
    #[builder(default = { struct Q(u8); impl Drop for Q { fn drop(&mut self) { log("drop"); } } let q = Q(5); q.0 })] ag: u8,
}
pub fn run() { at("C22 C04");
    let d = DBuilder::default().build().unwrap();
    ck!("C22 C04", d == D { a: 3, b: 4, c: 6, d: -1, e: (1, "two"), f: [1, 2], g: "t", h: vec![2, 3, 4], i: 10, j: vec![1, 2], k: 5, l: "1{}\"x\"".into(), m: 1, n: 7, o: 8,
        p: "s".into(), q: "q".into(), r: "ab", s: 6, t: (), u: 2, v: false, w: 1..3, x: &[1, 2], y: 13, z: 1, aa: 5, ab: &[1], ac: 1, ad: 4, ae: 2, af: 12, ag: 5 }, "default forms");
    let d = DBuilder::default().a(77).z(78).build().unwrap();
    ck!("C04", d.a == 77 && d.z == 78 && d.b == 4, "default forms, two set");
}''')

scen('build_forms', 'C22 C20', r'''
#[derive(Builder, Debug, PartialEq)]
#[builder(build_fn(error = "String"))]
pub struct D {
    #[builder(field(ty = "u8", build = "self.a.checked_mul(2).ok_or(\"overflow\")?"))] a: u8,
    #[builder(field(build = self.b.unwrap_or(1) + 1))] b: u8,
    #[builder(field(ty = "Vec<u8>", build = "let n = self.c.len(); if n == 3 { return Err(String::from(\"three\")); } n"))] c: usize,
    #[builder(field(ty = "String", build = 'x: { if self.d.is_empty() { break 'x None } Some(self.d.clone()) }))] d: Option<String>,
    #[builder(field(build = { let y = self.b; y.map(|v| v + self.a) }))] e: Option<u8>,
    #[builder(setter(skip), default = "12")] f: u8,
}
pub fn run() { at("C20 C22");
    let mut b = DBuilder::default();
    ck!("C20 C22", b.build() == Ok(D { a: 0, b: 2, c: 0, d: None, e: None, f: 12 }), "nothing set");
    b.a(5).b(7).c(vec![1, 2]).d("q".into());
    ck!("C20 C22", b.build() == Ok(D { a: 10, b: 8, c: 2, d: Some("q".into()), e: Some(12), f: 12 }), "all set");
    b.c(vec![1, 2, 3]);
    ck!("C20 C22", b.build() == Err("three".into()), "early return");
    b.a(200);
    ck!("C20 C22", b.build() == Err("overflow".into()), "question mark");
}
impl From<db::UninitializedFieldError> for Wrap { fn from(_: db::UninitializedFieldError) -> Wrap { Wrap } }
pub struct Wrap;
''')

scen('generics', 'C15', r'''
fn clone<X: Clone>(x: &X) -> X { x.clone() }
pub struct NoClone(u8);
#[derive(Builder, Debug, PartialEq, Clone)]
pub struct A<'a, T: ?Sized, U, const SZ: usize> where U: PartialEq, T: PartialEq { r: &'a T, v: [U; SZ] }
#[derive(Builder, Debug, PartialEq, Clone)]
pub struct B<T, const SZ: usize> { v: [T; SZ] }
#[derive(Builder, Debug, PartialEq, Clone)]
pub struct C<T, const SZ: usize, U> where U: Sized { v: [T; SZ], u: U }
#[derive(Builder, Debug, PartialEq, Clone)]
#[builder(pattern = "immutable")]
pub struct D<T = u8> { t: T }
#[derive(Builder)]
#[builder(pattern = "owned")]
pub struct E<T, U> where T: Into<u8> { t: T, u: U }
#[derive(Builder)]
pub struct F<'a> { s: &'a str }
#[derive(Builder)]
pub struct G<T: Iterator> where T::Item: Clone { items: Option<T::Item>, #[builder(setter(skip))] m: std::marker::PhantomData<T> }
#[derive(Builder, Clone)]
pub struct H<T> where T: std::fmt::Debug { #[builder(default)] a: Option<T>, #[builder(setter(skip))] b: std::marker::PhantomData<fn(T)> }
#[derive(Builder, Debug, PartialEq)]
#[builder(pattern = "owned")]
pub struct I<T, U> { #[builder(pattern = "immutable")] a: T, b: U, c: u8 }
#[derive(Builder)]
#[builder(pattern = "owned")]
pub struct J<T> { a: T, #[builder(pattern = "immutable", setter(skip))] b: u8, #[builder(pattern = "immutable", setter(custom))] c: u8 }
impl From<NoClone> for u8 { fn from(n: NoClone) -> u8 { n.0 } }
pub fn run() { at("C15");
    let x = String::from("x");
    let mut b = ABuilder::<String, String, 1>::default(); b.r(&x).v([x.clone()]);
    ck!("C15", clone(&b).build().unwrap() == A { r: &x, v: [x.clone()] }, "A");
    let mut b = BBuilder::default(); b.v([x.clone()]);
    ck!("C15", clone(&b).build().unwrap() == B { v: [x.clone()] }, "B");
    let mut b = CBuilder::default(); b.v([x.clone()]).u(1u8);
    ck!("C15", clone(&b).build().unwrap() == C { v: [x.clone()], u: 1u8 }, "C");
    let b = DBuilder::create_empty();
    let c = b.t(4u8);
    ck!("C15", b.t == None && clone(&c).build().unwrap() == D { t: 4u8 }, "D");
    let d: DBuilder = DBuilder::default().t(5);
    ck!("C15", d.build().unwrap().t == 5, "D with the default type");
    let e = EBuilder::default().t(NoClone(3)).u(NoClone(4)).build().ok().unwrap();
    ck!("C15", e.t.0 == 3 && e.u.0 == 4, "E");
    ck!("C15", FBuilder::default().s(&x).build().ok().unwrap().s == "x", "F");
    ck!("C15", GBuilder::<std::vec::IntoIter<u8>>::default().items(Some(3)).build().ok().unwrap().items == Some(3), "G");
    let i = IBuilder::default().b(x.clone()).c(1);
    let j = i.a(Some(2u8));
    ck!("C15", i.build().is_err() && clone(&j).build().unwrap() == I { a: Some(2u8), b: x.clone(), c: 1 }, "I");
    let mut j = JBuilder::default().a(NoClone(4)); j.c = Some(7);
    let j = j.build().ok().unwrap();
    ck!("C15", j.a.0 == 4 && j.b == 0 && j.c == 7, "J without Clone bounds");
    ck!("C15", clone(&HBuilder::<String>::default()).build().ok().unwrap().a == None, "H");
}''')

scen('clone_from_field', 'C15', r'''
#[derive(Builder, Debug, PartialEq)]
#[builder(pattern = "owned")]
pub struct S { #[builder(pattern = "immutable", setter(custom))] a: String, b: u32 }
impl SBuilder { fn a(&self, a: &str) -> Self { let mut n = self.clone(); n.a = Some(a.into()); n } }
#[derive(Builder, Debug, PartialEq)]
#[builder(pattern = "owned", derive(Debug, PartialEq))]
pub struct T { b: u32, #[builder(pattern = "mutable", setter(skip))] a: u8 }
#[derive(Builder, Debug, PartialEq)]
#[builder(derive(PartialEq, Debug))]
pub struct U { #[builder(pattern = "owned")] a: String }
pub fn run() { at("C15");
    ck!("C15", SBuilder::default().b(2).a("x").build().unwrap() == S { a: "x".into(), b: 2 }, "S");
    let t = TBuilder::default().b(1);
    ck!("C15", t.clone() == t, "T");
    let u = UBuilder::default().a("y".into());
    ck!("C15 C02", u.clone() == u && u.build().unwrap().a == "y" && u.a == Some("y".into()), "U");
}''')

scen('visible', 'C12', r'''
pub mod m {
    use db::Builder;
    #[derive(Builder, Debug, PartialEq)] #[builder(public)] pub(super) struct A { pub a: u32 }
    #[derive(Builder, Debug, PartialEq)] #[builder(vis = "pub(super)", setter(prefix = "set"), build_fn(public), field(public))] pub struct B { pub a: u32, #[builder(private)] pub b: u8 }
    pub fn b(x: &mut BBuilder) -> &mut BBuilder { x.set_b(1) }
    #[derive(Builder, Debug, PartialEq)] #[builder(private, setter(into), build_fn(vis = "pub(crate)"))] pub struct C { #[builder(public, field(public))] pub a: u32, pub b: u8 }
    pub(crate) mod c { pub(crate) fn new() -> u32 { use super::*; CBuilder::default().a(1u8).b(2).build().unwrap().a } }
    #[derive(Builder, Debug, PartialEq)] #[builder(try_setter, setter(strip_option))] pub struct D { #[builder(setter(each = "item"), field(vis = "pub(super)"))] pub a: Option<Vec<u8>> }
}
pub fn run() { at("C12");
    ck!("C12", m::ABuilder::default().a(1).build().unwrap() == m::A { a: 1 }, "A");
    let mut b = m::BBuilder::default(); b.set_a(1); m::b(&mut b); b.a = Some(5);
    ck!("C12", b.b == Some(1) && b.build().unwrap() == m::B { a: 5, b: 1 }, "B");
    ck!("C12", m::c::new() == 1, "C");
    let mut d = m::DBuilder::default(); d.item(1); d.try_a([2u8].to_vec()).unwrap(); d.item(3);
    ck!("C12", d.a == Some(Some(vec![2, 3])), "D");
    let e: m::ABuilderError = m::ABuilder::default().build().unwrap_err();
    ck!("C12 C17", e.to_string() == "`a` must be initialized", "error of A");
}''')

scen('validate', 'C05', r'''
#[derive(Builder, Debug)] #[builder(build_fn(validate = "check"))] pub struct A {}
fn check(_: &ABuilder) -> Result<(), String> { log("V"); Err("never".into()) }
#[derive(Builder, Debug)] #[builder(pattern = "owned", build_fn(validate = "Self::check", name = "go"), default = "{ log(\"D\"); B { a: 1, b: 2 } }")] pub struct B { a: u8, #[builder(setter(skip))] b: u8 }
impl BBuilder { fn check(&self) -> Result<(), String> { log("V"); if self.a == Some(3) { Err("three".into()) } else { Ok(()) } } }
#[derive(Builder, Debug)] #[builder(build_fn(validate = "v::<T>"))] pub struct C<T> { a: T }
fn v<T>(b: &CBuilder<T>) -> Result<(), String> { log("V"); if b.a.is_none() { Err("none".into()) } else { Ok(()) } }
pub struct Mine(u8);
pub struct Other;
impl From<Other> for Mine { fn from(_: Other) -> Mine { Mine(1) } }
impl From<db::UninitializedFieldError> for Mine { fn from(_: db::UninitializedFieldError) -> Mine { Mine(2) } }
#[derive(Builder)] #[builder(build_fn(validate = "DBuilder::ok", error = "Mine"))] pub struct D { a: u8, b: u8 }
impl DBuilder { fn ok(&self) -> Result<(), Other> { log("V"); if self.a == self.b { Err(Other) } else { Ok(()) } } }
pub fn run() { at("C05");
    take();
    ck!("C05", ABuilder::default().build().map_err(|e| e.to_string()).unwrap_err() == "never" && take() == ["V"], "A");
    ck!("C05", BBuilder::default().a(3).go().unwrap_err().to_string() == "three" && take() == ["V"], "B fails");
    ck!("C05 C04", BBuilder::default().go().unwrap().a == 1 && take() == ["V", "D"], "B");
    ck!("C05", CBuilder::<u8>::default().build().map_err(|e| e.to_string()).unwrap_err() == "none" && take() == ["V"], "C fails");
    ck!("C05", CBuilder::default().a(2u8).build().unwrap().a == 2 && take() == ["V"], "C");
    ck!("C05", DBuilder::default().build().err().unwrap().0 == 1 && take() == ["V"], "D converts");
    ck!("C05 C03", DBuilder::default().a(1).build().err().unwrap().0 == 2 && take() == ["V"], "D missing");
    ck!("C05", DBuilder::default().a(1).b(2).build().ok().unwrap().b == 2 && take() == ["V"], "D");
}''')

scen('errors', 'C17', r'''
#[derive(Builder, Debug)] pub struct A { a: u8 }
#[derive(Builder, Debug)] #[builder(name = "Maker", build_fn(error(validation_error = false)))] pub struct B { r#type: u8 }
#[derive(Builder, Debug)] #[builder(build_fn(skip, name = "make"))] pub struct C { a: u8 }
impl CBuilder { fn make(&self) -> Result<C, CBuilderError> { self.a.map(|a| C { a }).ok_or_else(|| CBuilderError::from("no a".to_string())) } }
#[derive(Builder, Debug)] #[builder(no_std)] pub struct D { a: u8 }
#[derive(Builder, Debug)] #[builder(build_fn(error(validation_error = true), validate = "bad2"))] pub struct E { a: u8 }
fn bad2(_: &EBuilder) -> Result<(), String> { Err("{x}`\n".into()) }
fn er<E: std::error::Error + 'static>(e: E) -> (String, String) { (e.to_string(), format!("{:?}", e)) }
pub fn run() { at("C17");
    let p = |a: &str, b: &str| (a.to_string(), b.to_string());
    ck!("C17", er(ABuilder::default().build().unwrap_err()) == p("`a` must be initialized", "UninitializedField(\"a\")"), "A");
    ck!("C17", er(ABuilderError::from(String::from("m {} x"))) == p("m {} x", "ValidationError(\"m {} x\")"), "A from String");
    ck!("C17 C19", er(ABuilderError::from(db::UninitializedFieldError::new("r#z"))) == p("`r#z` must be initialized", "UninitializedField(\"r#z\")"), "A from library error");
    ck!("C17", matches!(MakerError::from(db::UninitializedFieldError::new("q")), MakerError::UninitializedField("q")), "B");
    ck!("C17 C03", matches!(Maker::default().build(), Err(MakerError::UninitializedField("r#type"))), "B missing");
    match Maker::default().build().unwrap_err() { MakerError::UninitializedField(_) => (), }
    ck!("C17", er(CBuilder::default().make().unwrap_err()).0 == "no a", "C");
    ck!("C17", DBuilderError::from(String::new()).to_string() == "" && DBuilder::default().build().unwrap_err().to_string() == "`a` must be initialized", "D");
    ck!("C17 C05", er(EBuilder::default().a(1).build().unwrap_err()) == p("{x}`\n", "ValidationError(\"{x}`\\n\")"), "E");
}''')

scen('constructors', 'C16', r'''
#[derive(Builder, Debug, PartialEq)] #[builder(create_empty = "empty", derive(Debug, PartialEq))] pub struct A { a: u8, #[builder(field(ty = "Vec<P>", build = "self.b.len()"), setter(skip = false))] b: usize, #[builder(setter(skip))] c: u8 }
#[derive(Builder, Debug, PartialEq)] #[builder(custom_constructor)] pub struct B { a: u8, b: u8 }
impl BBuilder { fn new(a: u8) -> Self { Self { a: Some(a), ..Self::create_empty() } } }
#[derive(Builder, Debug, PartialEq)] #[builder(custom_constructor, create_empty = "r#box")] pub struct C { a: u8 }
impl Default for CBuilder { fn default() -> Self { let mut b = Self::r#box(); b.a = Some(9); b } }
#[derive(Builder, Debug, PartialEq)] pub struct D { #[builder(field(ty = "P", build = "self.a.0"))] a: u32 }
pub fn run() { at("C16");
    ck!("C16", ABuilder::empty() == ABuilder::default() && ABuilder::empty().a.is_none() && ABuilder::empty().b.is_empty(), "A");
    ck!("C16", BBuilder::new(1).b(2).build().unwrap() == B { a: 1, b: 2 }, "B");
    ck!("C16", CBuilder::default().build().unwrap() == C { a: 9 } && CBuilder::r#box().a.is_none(), "C");
    take(); let d = DBuilder::default();
    ck!("C16", take() == ["P"] && d.a == P(0), "D");
}''')

scen('strip', 'C09', r'''
pub mod my { #[derive(Clone, Debug, PartialEq)] pub struct Option<T>(pub T); pub mod option { #[derive(Clone, Debug, PartialEq)] pub struct Option<T>(pub T); }
    pub mod std { pub mod option { #[derive(::std::clone::Clone, ::std::fmt::Debug, ::std::cmp::PartialEq)] pub struct Option<T>(pub T); } }
    pub mod core { pub mod option { #[derive(::std::clone::Clone, ::std::fmt::Debug, ::std::cmp::PartialEq)] pub struct Option<T>(pub T); } }
    #[derive(Clone, Debug, PartialEq)] pub struct MyOption<T>(pub T); #[derive(Clone, Debug, PartialEq)] pub struct Options<T>(pub T); pub type Alias = ::std::option::Option<u8>; pub mod stdoption { pub use super::Option; } }
use my::{MyOption, Options};
mod option { pub use super::my::option::Option; }
#[derive(Builder, Debug, PartialEq)]
#[builder(setter(strip_option), try_setter)]
pub struct S {
    a: my::Option<u8>, b: my::option::Option<u8>, c: my::std::option::Option<u8>, d: MyOption<u8>, e: my::Alias, f: Vec<Option<u8>>, g: Box<Option<u8>>, h: (Option<u8>,), i: option::Option<u8>,
    j: Option<Option<u8>>, k: ::std::option::Option<u8>, l: ::core::option::Option<(u8, u8)>, m: ::std::option::Option<Option<u8>>, n: my::stdoption::Option<u8>, o: Options<u8>, p: my::core::option::Option<u8>, q: Result<Option<u8>, u8>, r: [Option<u8>; 1], s: &'static Option<u8>,
    #[builder(setter(strip_option = false))] t: Option<u8>, #[builder(setter(into))] u: Option<String>, #[builder(setter(into, strip_option = false))] v: Option<String>, #[builder(setter(into))] w: my::Option<u8>,
}
use std::option::Option;
pub fn run() { at("C09");
    let mut b = SBuilder::default();
    let ok: &mut SBuilder = b.a(my::Option(1)).b(my::option::Option(2)).c(my::std::option::Option(3)).d(MyOption(4)).e(Some(5)).f(vec![Some(6)]).g(Box::new(Some(7))).h((Some(8),)).i(my::option::Option(9))
     .j(Some(10)).k(11).l((12, 12)).m(Some(13)).n(my::Option(14)).o(Options(15)).p(my::core::option::Option(16)).q(Ok(Some(17))).r([Some(18)]).s(&Some(19)).t(Some(20)).u("u").v(String::from("v")).w(my::Option(23));
    let want = S { a: my::Option(1), b: my::option::Option(2), c: my::std::option::Option(3), d: MyOption(4), e: Some(5), f: vec![Some(6)], g: Box::new(Some(7)), h: (Some(8),), i: my::option::Option(9),
     j: Some(Some(10)), k: Some(11), l: Some((12, 12)), m: Some(Some(13)), n: my::Option(14), o: Options(15), p: my::core::option::Option(16), q: Ok(Some(17)), r: [Some(18)], s: &Some(19), t: Some(20), u: Some("u".into()), v: Some("v".into()), w: my::Option(23) };
    ck!("C09", ok.build().unwrap() == want, "strip_option");
    ck!("C09 C07", b.try_a(my::Option(31)).is_ok() && b.try_k(32u8).is_ok() && b.try_k(300u16).is_err() && b.build().unwrap() == S { a: my::Option(31), k: Some(32), ..want }, "try with strip_option");
}''')

scen('each', 'C08', r'''
use std::collections::*;
#[derive(Builder, Debug, PartialEq)]
pub struct S {
    #[builder(setter(each = "a1"))] a: Vec<u8>,
    #[builder(setter(each(name = "b1", into)))] b: Vec<String>,
    #[builder(setter(strip_option, each = "c1"))] c: Option<Vec<u8>>,
    #[builder(setter(strip_option, each(name = "d1", into)), default)] d: std::option::Option<BTreeSet<String>>,
    #[builder(setter(each(name = "e1")), default)] e: BTreeMap<u8, u8>,
    #[builder(setter(into, each = "f1"), default)] f: String,
    #[builder(setter(each = "g1"), default = "vec![1, 2].into()", pattern = "owned")] g: VecDeque<u8>,
    #[builder(setter(each = "h1", name = "hh"), pattern = "immutable", default)] h: Vec<(u8, u8)>,
    #[builder(setter(into, strip_option, each = "i1"), default)] i: Option<Vec<u8>>,
}
pub fn run() { at("C08");
    let mut b = SBuilder::default();
    b.a1(1).a1(2).b1("x").b1('y').c1(3).c1(3).d1("q").d1("p").e1((1, 2)).e1((1, 3)).f1("a").f1("b").i1(1).i1(2);
    let s = b.build().unwrap();
    ck!("C08", s == S { a: vec![1, 2], b: vec!["x".into(), "y".into()], c: Some(vec![3, 3]), d: Some(["q".to_string(), "p".to_string()].into_iter().collect()), e: [(1, 3)].into_iter().collect(), f: "ab".into(), g: vec![1, 2].into(), h: vec![], i: Some(vec![1, 2]) }, "items");
    b.c = Some(None); b.i = Some(None); b.c1(9).i1(7);
    ck!("C08", b.c == Some(Some(vec![9])) && b.i == Some(Some(vec![7])), "after a stored None");
    b.a(vec![5]).a1(6); ck!("C08", b.a == Some(vec![5, 6]), "after the setter");
    b.c(vec![5]).c1(6); ck!("C08", b.c == Some(Some(vec![5, 6])) && b.a == Some(vec![5, 6]), "after the stripped setter");
    let b2 = b.h1((1, 1)); ck!("C08", b.h == None && b2.h == Some(vec![(1, 1)]), "immutable");
    let b3 = b2.clone().h1((2, 2)); ck!("C08", b2.h == Some(vec![(1, 1)]) && b3.h == Some(vec![(1, 1), (2, 2)]) && b3.a == b.a, "immutable, twice");
    let b4 = b3.g1(7).g1(8); ck!("C08", b4.g == Some(vec![7, 8].into()) && b4.h.as_ref().map(|h| h.len()) == Some(2), "owned");
}''')

scen('try', 'C07', r'''
use std::convert::TryFrom;
#[derive(Debug, PartialEq, Clone, Default)] pub struct Even(u8);
impl TryFrom<u8> for Even { type Error = String; fn try_from(n: u8) -> Result<Even, String> { if n % 2 == 0 { Ok(Even(n)) } else { Err(format!("odd {}", n)) } } }
#[derive(Builder, Debug, PartialEq)]
#[builder(derive(Debug, PartialEq))]
pub struct S {
    #[builder(try_setter)] a: Even,
    #[builder(try_setter, setter(strip_option, name = "other"))] b: Option<Even>,
    #[builder(try_setter, setter(prefix = "set", into), pattern = "immutable")] c: Even,
    #[builder(try_setter, field(ty = "u8", build = "self.d as u32"))] d: u32,
    #[builder(try_setter, pattern = "owned")] r#type: Even,
    e: u8,
}
pub fn run() { at("C07");
    let mut b = SBuilder::default();
    let before = b.clone();
    ck!("C07", b.try_a(3) .map(|_| ()) == Err("odd 3".into()) && b == before, "a fails");
    ck!("C07", b.try_a(4).map(|b| b.a.clone()) == Ok(Some(Even(4))), "a");
    let before = b.clone();
    ck!("C07", b.try_a(5).is_err() && b == before, "a fails after success");
    ck!("C07 C09", b.try_other(6).is_ok() && b.b == Some(Some(Even(6))), "b");
    ck!("C07", b.try_set_c(7).is_err() && b.c.is_none(), "c fails");
    let c = b.try_set_c(8).unwrap();
    ck!("C07", b.c.is_none() && c.c == Some(Even(8)) && c.a == b.a, "c");
    let mut c = c;
    ck!("C07 C20", c.try_d(300u32).is_err() && c.d == 0 && c.try_d(30u32).is_ok() && c.d == 30, "d");
    let keep = c.clone();
    ck!("C07", c.try_type(9).map(|_| ()) == Err("odd 9".into()), "type fails");
    let mut k = keep.try_type(10u8).unwrap();
    ck!("C07", k.e(1).build().unwrap() == S { a: Even(4), b: Some(Even(6)), c: Even(8), d: 30, r#type: Even(10), e: 1 }, "all");
}''')

scen('skip', 'C06', r'''
#[derive(Debug, PartialEq)] pub struct NoClone(u8);
impl Default for NoClone { fn default() -> Self { log("N"); NoClone(7) } }
#[derive(Builder, Debug, PartialEq)]
pub struct A { #[builder(setter(skip))] a: NoClone, #[builder(setter(skip), default = "NoClone(3)")] b: NoClone, c: u8, #[builder(setter(skip), default)] d: NoClone, #[builder(setter(custom))] e: u8, #[builder(setter(skip), field(ty = "String", build = "unreachable!()"))] f: u8 }
#[derive(Builder, Debug, PartialEq)]
#[builder(default = "B { a: NoClone(1), b: NoClone(2), c: 3, r#type: 5 }", setter(skip))]
pub struct B { a: NoClone, #[builder(default)] b: NoClone, #[builder(setter)] c: u8, #[builder(setter(name = "ty"))] r#type: u8 }
#[derive(Builder, Debug, PartialEq)]
#[builder(setter(skip))]
pub struct C { #[builder(setter(strip_option))] a: Option<u8>, #[builder(setter(into))] b: u8, #[builder(setter(prefix = "w"))] c: u8, #[builder(setter(each = "item"))] d: Vec<u8>, #[builder(setter(skip = false))] e: u8, f: u8, #[builder(setter(into = false))] g: u8, #[builder(setter(custom = false))] h: u8 }
pub fn run() { at("C06");
    take();
    let mut a = ABuilder::default(); a.c(1); a.e = Some(2);
    ck!("C06", a.build().unwrap() == A { a: NoClone(7), b: NoClone(3), c: 1, d: NoClone(7), e: 2, f: 0 } && take() == ["N", "N"], "A");
    ck!("C06", std::mem::size_of::<ABuilder>() == std::mem::size_of::<(Option<u8>, Option<u8>)>(), "markers take no room");
    ck!("C06 C04", BBuilder::default().build().unwrap() == B { a: NoClone(1), b: NoClone(7), c: 3, r#type: 5 }, "B");
    ck!("C06 C11", BBuilder::default().c(8).ty(9).build().unwrap() == B { a: NoClone(1), b: NoClone(7), c: 8, r#type: 9 }, "B set");
    ck!("C06 C11", CBuilder::default().a(1).b(2u8).w_c(3).item(4).e(5).g(6).h(7).build().unwrap() == C { a: Some(1), b: 2, c: 3, d: vec![4], e: 5, f: 0, g: 6, h: 7 }, "C");
}''')

scen('names2', 'C10', r'''
#[derive(Builder, Debug, PartialEq)]
#[builder(name = "Maker", build_fn(name = "finish"), create_empty = "nothing", setter(prefix = "with"), try_setter)]
pub struct S { a: u8, _b: u8, __c: u8, r#type: u8, #[builder(setter(name = "d_name"))] d: u8, #[builder(setter(prefix = "set"))] e: u8, #[builder(setter(prefix = "set", name = "r#fn"))] f: u8, with_g: u8, #[builder(setter(prefix = "r#in"))] h: u8, #[builder(setter(prefix = "_p"))] i_: u8, J: u8, ü: u8 }
#[derive(Builder, Debug, PartialEq)]
pub struct r#Raw { r#fn: u8, build_: u8, value: u8, new: u8, converted: u8, r#match: u8 }
#[derive(Builder, Debug, PartialEq)]
pub struct lower_case { a: u8 }
#[derive(Builder, Debug, PartialEq)]
pub struct FooBuilder { a: u8 }
pub fn run() { at("C10");
    let mut m = Maker::nothing();
    m.with_a(1).with__b(2).with___c(3).with_type(4).d_name(5).set_e(6).r#fn(7).with_with_g(8).in_h(9).try__p_i_(10).unwrap().with_J(11).try_with_ü(12).unwrap();
    ck!("C10", m.finish().unwrap() == S { a: 1, _b: 2, __c: 3, r#type: 4, d: 5, e: 6, f: 7, with_g: 8, h: 9, i_: 10, J: 11, ü: 12 }, "names");
    ck!("C10", m.try_d_name(300u16).is_err() && m.try_with_a(1u8).is_ok() && m.try_fn(9u8).is_ok() && m.f == Some(9), "try names");
    let e: Result<S, MakerError> = Maker::default().finish(); ck!("C10 C03", matches!(e, Err(MakerError::UninitializedField("a"))), "error name");
    ck!("C10", RawBuilder::default().r#fn(1).build_(2).value(3).new(4).converted(5).r#match(6).build().unwrap() == Raw { r#fn: 1, build_: 2, value: 3, new: 4, converted: 5, r#match: 6 }, "raw");
    let _: lower_caseBuilderError = lower_caseBuilder::default().build().unwrap_err();
    ck!("C10", FooBuilderBuilder::create_empty().a(1).build().unwrap() == FooBuilder { a: 1 }, "FooBuilder");
}''')

scen('missing', 'C03', r'''
#[derive(Builder, Debug, PartialEq)] #[builder(pattern = "owned")] pub struct A { r#type: u8, #[builder(default = "{ log(\"d\"); 1 }")] m: u8, z: u8, a: u8, #[builder(setter(skip), default = "{ log(\"s\"); 1 }")] k: u8 }
#[derive(Debug, PartialEq)] pub struct Mine(&'static str);
impl From<db::UninitializedFieldError> for Mine { fn from(e: db::UninitializedFieldError) -> Mine { Mine(e.field_name()) } }
#[derive(Builder, Debug, PartialEq)] #[builder(pattern = "immutable", build_fn(error = "Mine"))] pub struct B { #[builder(default)] first: u8, #[builder(setter(into))] second: String, #[builder(setter(strip_option))] third: Option<u8>, #[builder(setter(custom))] _fourth: u8 }
pub fn run() { at("C03");
    let name = |r: Result<A, ABuilderError>| match r { Err(ABuilderError::UninitializedField(n)) => n, _ => "?" };
    take();
    ck!("C03", name(ABuilder::default().build()) == "r#type" && take().is_empty(), "type");
    ck!("C03", name(ABuilder::default().a(1).z(1).m(1).build()) == "r#type" && take().is_empty(), "type only");
    ck!("C03", name(ABuilder::default().r#type(1).build()) == "z" && take() == ["d"], "z");
    ck!("C03", name(ABuilder::default().r#type(1).m(3).z(2).build()) == "a" && take().is_empty(), "a");
    ck!("C03 C02", ABuilder::default().r#type(1).m(3).z(2).a(1).build().is_ok() && take() == ["s"], "none");
    let b = BBuilder::default();
    ck!("C03", b.build() == Err(Mine("second")), "second");
    let b = b.second("x"); ck!("C03", b.build() == Err(Mine("third")), "third");
    let mut b = b.third(3); ck!("C03", b.build() == Err(Mine("_fourth")) && b.second == Some("x".into()), "fourth");
    b._fourth = Some(4); ck!("C03 C02", b.build() == Ok(B { first: 0, second: "x".into(), third: Some(3), _fourth: 4 }) && b.build() == b.build(), "all");
}''')

scen('defaults', 'C04', r'''
#[derive(Builder, Debug, PartialEq)]
#[builder(default = "{ log(\"D\"); S { a: 1, b: 2, c: 3, d: 4, e: 5 } }")]
pub struct S { #[builder(default, setter(skip))] a: u8, b: u8, #[builder(default = "{ log(\"c\"); 30 }")] c: u8, #[builder(default)] d: u8, #[builder(setter(skip))] e: u8 }
#[derive(Builder, Debug, PartialEq)]
#[builder(default)]
pub struct T { #[builder(field(build = "self.a.unwrap_or(20) + 1"))] a: u8, b: u8, #[builder(field(ty = "u8"))] c: u8 }
impl Default for T { fn default() -> T { log("T"); T { a: 50, b: 51, c: 52 } } }
#[derive(Builder, Debug, PartialEq)] #[builder(pattern = "owned")] pub struct U { #[builder(default = "self.b.unwrap_or(3)")] a: u8, b: u8, #[builder(default = "return Err(UBuilderError::from(String::from(\"c\")))")] c: u8 }
pub fn run() { at("C04");
    take();
    ck!("C04", SBuilder::default().build().unwrap() == S { a: 0, b: 2, c: 30, d: 0, e: 5 } && take() == ["D", "c"], "S");
    ck!("C04", SBuilder::default().b(9).c(8).d(7).build().unwrap() == S { a: 0, b: 9, c: 8, d: 7, e: 5 } && take() == ["D"], "S set");
    ck!("C04 C20", TBuilder::default().build().unwrap() == T { a: 21, b: 51, c: 0 } && take() == ["T"], "T");
    ck!("C04 C20", TBuilder::default().a(4).b(5).c(6).build().unwrap() == T { a: 5, b: 5, c: 6 } && take() == ["T"], "T set");
    ck!("C04", UBuilder::default().b(4).c(1).build().unwrap() == U { a: 4, b: 4, c: 1 }, "U");
    ck!("C04 C22", UBuilder::default().b(4).build().unwrap_err().to_string() == "c", "U returns");
}''')

scen('order', 'C21', r'''
#[derive(Builder, Debug, PartialEq)]
pub struct S {
    #[builder(default = "{ log(\"z\"); 1 }")] z: u8, #[builder(field(build = "{ log(\"y\"); 2 }"))] y: u8, #[builder(setter(skip), default = "{ log(\"x\"); 3 }")] x: u8, a: P, #[builder(setter(skip))] w: P,
    #[builder(field(ty = "u8", build = "{ log(\"b\"); 4 }"))] b: u8, #[builder(default = "{ log(\"c\"); 5 }")] c: u8, d: u8,
}
pub fn run() { at("C21");
    take();
    let mut b = SBuilder::default(); b.a(P(1)).d(2);
    ck!("C21", b.build().unwrap() == S { z: 1, y: 2, x: 3, a: P(1), w: P(0), b: 4, c: 5, d: 2 } && take() == ["z", "y", "x", "P", "b", "c"], "order");
    let mut b = SBuilder::default(); b.d(2);
    ck!("C21 C03", matches!(b.build(), Err(SBuilderError::UninitializedField("a"))) && take() == ["z", "y", "x"], "stops at the missing field");
}''')

scen('override', 'C11', r'''
#[derive(Builder, Debug, PartialEq)]
#[builder(pattern = "immutable", setter(into, strip_option, prefix = "s", skip = false))]
pub struct S { a: Option<String>, #[builder(pattern = "mutable", setter(into = false))] b: Option<u8>, #[builder(setter(strip_option = false))] c: Option<u8>, #[builder(setter(prefix = "t"), pattern = "owned")] d: u8, #[builder(setter(skip))] e: u8, #[builder(default)] f: u16 }
#[derive(Builder, Debug, PartialEq)]
pub struct T { #[builder(try_setter, setter(into, prefix = "p"), pattern = "immutable", private, default = "3")] a: u8, b: u8 }
pub fn run() { at("C11");
    let b0 = SBuilder::default();
    let mut b = b0.s_a("x"); b.s_b(1).s_c(Some(2));
    let b = b.s_c(Some(2)).t_d(4u8);
    ck!("C11", b0.a == None && b.s_f(7u8).build().unwrap() == S { a: Some("x".into()), b: Some(1), c: Some(2), d: 4, e: 0, f: 7 }, "S");
    let f: fn(&mut TBuilder, u8) -> &mut TBuilder = TBuilder::b;
    let mut t = TBuilder::default(); f(&mut t, 5);
    ck!("C11", t.build().unwrap() == T { a: 3, b: 5 }, "T");
    struct X; impl X { fn try_b(&self) -> u8 { 1 } } ck!("C11", X.try_b() == 1, "");
}''')

scen('values', 'C01 C02', r'''
#[derive(Debug, PartialEq)] pub struct N(u8);
#[derive(Builder, Debug, PartialEq)] #[builder(pattern = "owned")] pub struct O { a: N, b: N, #[builder(setter(strip_option))] c: Option<N> }
#[derive(Builder, Debug, PartialEq)] pub struct M { a: String, #[builder(pattern = "owned")] b: String, #[builder(pattern = "immutable")] c: String }
#[derive(Builder, Debug, PartialEq)] #[builder(pattern = "immutable")] pub struct I { a: String, #[builder(pattern = "owned")] b: Vec<String> }
pub fn run() { at("C01 C02");
    ck!("C01 C02", OBuilder::default().a(N(1)).b(N(2)).a(N(3)).c(N(4)).build().unwrap() == O { a: N(3), b: N(2), c: Some(N(4)) }, "owned");
    let mut m = MBuilder::default(); m.a("1".into()); let m = m.b("2".into()); let m2 = m.c("3".into());
    ck!("C01", m.c == None && m.a == m2.a && m.b == m2.b, "mutable");
    ck!("C02", m2.build().unwrap() == M { a: "1".into(), b: "2".into(), c: "3".into() } && m2.build().unwrap() == m2.build().unwrap() && m2.a == Some("1".into()) && m2.b == Some("2".into()), "mutable build");
    let i = IBuilder::default(); let j = i.a("x".into()); let k = j.clone().b(vec!["y".into()]);
    ck!("C01 C02", i.a == None && j.b == None && k.build().unwrap() == I { a: "x".into(), b: vec!["y".into()] } && k.b.is_some(), "immutable");
}''')

scen('attrs', 'C13', r'''
#[derive(Builder, Debug, PartialEq)]
#[builder(derive(Debug))]
#[builder_struct_attr(derive(PartialEq, Eq))] #[builder_struct_attr(derive(Hash))] #[builder_struct_attr(repr(C))] #[cfg(all())] #[allow(non_camel_case_types)]
#[builder_impl_attr(cfg(all()))] #[builder_impl_attr(allow(unused))]
pub struct s_t {
    #[builder_field_attr(cfg(all()))] #[builder_setter_attr(must_use)] #[builder_setter_attr(cfg(all()))] #[builder(setter(each = "e"), try_setter)] a: Vec<u8>,
    #[allow(non_snake_case)] B: u8,
    #[builder_setter_attr(cfg(any()))] c: u8,
}
impl s_tBuilder { fn c(&mut self, c: u8) -> &mut Self { self.c = Some(c); self } }
pub fn run() { at("C13");
    let mut b = s_tBuilder::default(); b.a(vec![1]).B(2).c(3); let _ = b.e(4);
    ck!("C13", b == b.clone() && b.build().unwrap() == s_t { a: vec![1, 4], B: 2, c: 3 } && !format!("{:?}", b).is_empty(), "attributes");
}''')

scen('custom', 'C02 C06 C20', r'''
#[derive(Builder, Debug, PartialEq)] #[builder(pattern = "owned", default)]
pub struct A { #[builder(setter(custom))] a: u8, b: u8, #[builder(setter(custom), default = "9")] c: u8 }
impl Default for A { fn default() -> A { A { a: 1, b: 2, c: 3 } } }
impl ABuilder { fn a(mut self, a: u16) -> Self { self.a = Some((a / 2) as u8); self } fn c(mut self) -> Self { self.c = Some(77); self } }
#[derive(Builder, Debug, PartialEq)]
pub struct B { #[builder(setter(custom))] a: String, #[builder(setter(custom, strip_option, into))] b: Option<u8>, #[builder(setter(custom), field(ty = "u8", build = "self.c + 1"))] c: u8 }
impl BBuilder { fn put(&mut self, s: &str) -> &mut Self { self.a = Some(s.into()); self.b = Some(Some(4)); self.c = 5; self } }
#[derive(Builder, Debug, PartialEq)] #[builder(pattern = "immutable", default = "C { a: 1, b: 2 }")]
pub struct C { #[builder(setter(custom))] a: u8, b: u8 }
impl CBuilder { fn a(&self, a: u8) -> Self { Self { a: Some(a), ..self.clone() } } }
#[derive(Builder, Debug, PartialEq)] #[builder(pattern = "owned")]
pub struct D { #[builder(field(ty = "Option<u8>", build = "self.a.unwrap_or(4)"), setter(strip_option), try_setter)] a: u8, #[builder(field(ty = "u8", build = "Some(self.b)"), setter(strip_option), try_setter)] b: Option<u8>,
    #[builder(field(ty = "Option<String>", build = "self.c.unwrap_or_default()"), setter(strip_option, into))] c: String, #[builder(field(ty = "Option<u16>"), setter(strip_option))] d: Option<u16> }
#[derive(Builder, Debug, PartialEq)] #[builder(try_setter)]
pub struct E { #[builder(field(ty = "Option<u32>", build = "self.a.unwrap_or(0)"), setter(strip_option, into))] a: u32, #[builder(field(ty = "::std::option::Option<String>", build = "self.b.clone().unwrap_or_default()"), setter(strip_option, into))] b: String,
    #[builder(field(ty = "Option<String>", build = "self.c.clone().unwrap_or(\"none\".to_string())"), setter(into), try_setter)] c: String,
    #[builder(field(ty = "Option<Option<u8>>", build = "self.f.unwrap_or(None)"), setter(into, strip_option = false))] f: Option<u8> }
#[derive(Builder, Debug, PartialEq)] #[builder(pattern = "immutable", setter(strip_option, into))]
pub struct I { #[builder(field(ty = "Option<u8>", build = "self.a.unwrap_or_default()"))] a: u8, #[builder(field(ty = "Option<u8>", build = "self.b"))] b: Option<u8> }
pub fn run() { at("C02 C06");
    ck!("C02 C06", ABuilder::default().a(20).b(4).c().build().unwrap() == A { a: 10, b: 4, c: 77 }, "A");
    ck!("C04", ABuilder::default().build().unwrap() == A { a: 1, b: 2, c: 9 }, "A defaults");
    ck!("C02 C06", BBuilder::default().put("x").build().unwrap() == B { a: "x".into(), b: Some(4), c: 6 }, "B");
    ck!("C03", BBuilder::default().build().unwrap_err().to_string() == "`a` must be initialized", "B missing");
    ck!("C02 C06", CBuilder::default().a(8).build().unwrap() == C { a: 8, b: 2 } && CBuilder::default().build().unwrap() == C { a: 1, b: 2 }, "C");
    at("C20");
    ck!("C20", DBuilder::default().a(1).b(2).c("c").d(3).build().unwrap() == D { a: 1, b: Some(2), c: "c".into(), d: Some(3) }, "D");
    ck!("C20", DBuilder::default().build().unwrap() == D { a: 4, b: Some(0), c: "".into(), d: None }, "D nothing");
    ck!("C20 C07", DBuilder::default().try_a(3u16).unwrap().try_b(300u16).is_err(), "D try");
    // the last call counts for a custom type that is itself an `Option`
    ck!("C01 C09 C20", DBuilder::default().a(1).a(5).b(2).b(3).c("c").c("e").d(3).d(6).build().unwrap() == D { a: 5, b: Some(3), c: "e".into(), d: Some(6) }, "D twice");
    ck!("C01 C07 C20", DBuilder::default().a(1).try_a(5u16).unwrap().try_b(9u16).unwrap().b(3).d(1).build().unwrap() == D { a: 5, b: Some(3), c: "".into(), d: Some(1) }, "D twice, try");
    let mut e = EBuilder::default();
    e.a(1u8).b("x").c("y".to_string()).c(None::<String>).f(Some(5));
    ck!("C01 C09 C20", e.build().unwrap() == E { a: 1, b: "x".into(), c: "none".into(), f: Some(5) }, "E");
    e.a(2u8).a(3u8).b(String::from("z")).b("w").c(Some("q".to_string())).f(Some(6));
    ck!("C01 C09 C20", e.build().unwrap() == E { a: 3, b: "w".into(), c: "q".into(), f: Some(6) }, "E twice");
    ck!("C01 C07 C20", e.try_a(-1i32).is_err() && e.try_a(7u16).is_ok() && e.build().unwrap().a == 7 && e.try_a(8u16).is_ok() && e.build().unwrap().a == 8, "E try");
    let i = IBuilder::default(); let j = i.a(1u8); let k = j.a(2u8); let l = k.b(3u8);
    ck!("C01 C02 C09 C20", (i.build().unwrap(), j.build().unwrap(), k.build().unwrap(), l.build().unwrap()) == (I { a: 0, b: None }, I { a: 1, b: None }, I { a: 2, b: None }, I { a: 2, b: Some(3) }), "I");
}''')

scen('each_names', 'C08 C10', r'''
#[derive(Builder, Debug, PartialEq)]
pub struct A { #[builder(setter(name = "set_all", each = "item"), try_setter)] item: Vec<u8>, #[builder(setter(prefix = "with", each(name = "r#type", into)), private, try_setter)] r#type: Vec<String>, #[builder(setter(each = "try_more"))] more: Vec<u8>, #[builder(setter(each = "builder", name = "bs"))] build: Vec<u8>, #[builder(setter(each = "value", into))] values: Vec<u8>, #[builder(setter(each = "_new", strip_option))] new: Option<Vec<u8>> }
pub fn run() { at("C08 C10");
    let mut b = ABuilder::default();
    b.set_all(vec![1]).item(2).with_type(vec!["a".into()]).r#type("b").more(vec![3]).try_more(4).bs(vec![5]).builder(6).values([7]).value(8).new(vec![9])._new(10);
    ck!("C08 C10", b.build().unwrap() == A { item: vec![1, 2], r#type: vec!["a".into(), "b".into()], more: vec![3, 4], build: vec![5, 6], values: vec![7, 8], new: Some(vec![9, 10]) }, "items");
    ck!("C08 C07", b.try_set_all([1u8]).is_ok() && b.try_with_type(vec![String::new()]).is_ok(), "try");
}''')

scen('exact_parameters', 'C09 C11', r'''
// without `into` the type of the argument follows from the setter alone
#[derive(Builder, Debug, PartialEq)]
pub struct A { a: u64, #[builder(setter(into = false))] b: String, #[builder(setter(strip_option))] c: Option<u8>, d: Option<u8>, #[builder(setter(each = "ee"))] e: Vec<u8>, #[builder(try_setter)] f: u16,
    #[builder(setter(name = "gg"), pattern = "immutable")] g: i8, #[builder(setter(strip_option = false))] h: Option<u8>, #[builder(default)] i: Vec<String>, #[builder(field(ty = "u8", build = "self.j.into()"))] j: u64,
    #[builder(setter(prefix = "with"))] k: Result<u8, String>, #[builder(private)] l: bool }
#[derive(Builder, Debug, PartialEq)] #[builder(setter(into, strip_option), pattern = "owned")]
pub struct B { #[builder(setter(into = false))] a: u64, #[builder(setter(into = false))] b: Option<String>, #[builder(setter(into = false, strip_option = false))] c: Option<u8>,
    #[builder(setter(into = false, each = "dd"))] d: Vec<u8>, #[builder(try_setter, setter(into = false))] e: u8, f: String, #[builder(setter(into = false), field(ty = "Option<u8>"))] g: Option<u8>, #[builder(setter(into = false, name = "hh"))] h: u8 }
#[derive(Builder, Debug, PartialEq)] #[builder(try_setter, setter(into = false, prefix = "set"), pattern = "immutable")]
pub struct C { a: u8, #[builder(setter(into))] b: u64, #[builder(setter(prefix = "p"))] c: u8 }
pub fn run() { at("C09 C11");
    let mut b = ABuilder::default();
    b.a(Default::default()).b(Default::default()).c(Default::default()).d(Default::default()).e(Default::default()).f(Default::default()).h(Default::default()).i(Default::default()).j(Default::default()).with_k(Ok(Default::default())).l(Default::default());
    let b = b.gg(Default::default());
    ck!("C09 C11", b.build().unwrap() == A { a: 0, b: "".into(), c: Some(0), d: None, e: vec![], f: 0, g: 0, h: None, i: vec![], j: 0, k: Ok(0), l: false }, "A");
    let b = BBuilder::default().a(Default::default()).b(Default::default()).c(Default::default()).d(Default::default()).e(Default::default()).f("f").g(Default::default()).hh(Default::default());
    ck!("C09 C11", b.build().unwrap() == B { a: 0, b: Some("".into()), c: None, d: vec![], e: 0, f: "f".into(), g: Some(0), h: 0 }, "B");
    let b = CBuilder::default().set_a(Default::default()).set_b(3u8).p_c(Default::default());
    ck!("C09 C11", b.build().unwrap() == C { a: 0, b: 3, c: 0 }, "C");
}''')
scen('paths_with_arguments', 'C05 C17 C22', r'''
// paths given by the user may carry generic arguments
pub struct V<L>(pub std::marker::PhantomData<L>);
impl V<u8> { pub fn check(b: &CBuilder) -> Result<(), String> { if b.a == Some(8) { Err("eight".into()) } else { Ok(()) } } }
impl V<u16> { pub fn check(b: &CBuilder) -> Result<(), String> { if b.a == Some(16) { Err("sixteen".into()) } else { Ok(()) } } }
pub fn small<const N: u8>(b: &ABuilder) -> Result<(), String> { if b.a.unwrap_or(0) <= N { Ok(()) } else { Err(format!("more than {}", N)) } }
pub mod gen { #[derive(Debug, PartialEq)] pub struct Why<T, const N: usize>(pub T, pub String);
    impl<T: Default, const N: usize> From<derive_builder::UninitializedFieldError> for Why<T, N> { fn from(e: derive_builder::UninitializedFieldError) -> Self { Why(T::default(), e.field_name().into()) } }
    impl<T: Default, const N: usize> From<String> for Why<T, N> { fn from(e: String) -> Self { Why(T::default(), e) } }
    pub fn all<B: super::Look>(b: &B) -> Result<(), String> { if b.seen() == 3 { Err("three".into()) } else { Ok(()) } } }
pub trait Look { fn seen(&self) -> u8; }
impl Look for BBuilder { fn seen(&self) -> u8 { self.a.unwrap_or(0) } }
#[derive(Builder, Debug, PartialEq)] #[builder(build_fn(validate = "small::<5>"))]
pub struct A { a: u8 }
#[derive(Builder, Debug, PartialEq)] #[builder(build_fn(validate = "self::gen::all::<BBuilder>", error = "gen::Why<Vec<u8>, 7>"))]
pub struct B { a: u8 }
#[derive(Builder, Debug, PartialEq)] #[builder(build_fn(validate = "V::<u16>::check"), pattern = "owned")]
pub struct C { #[builder(default = "Vec::<u8>::with_capacity(2).len() as u8")] a: u8 }
pub fn run() { at("C05");
    ck!("C05", ABuilder::default().a(5).build().unwrap() == A { a: 5 }, "A5");
    ck!("C05", ABuilder::default().a(6).build().unwrap_err().to_string() == "more than 5", "A6");
    ck!("C05 C17", BBuilder::default().a(2).build() == Ok(B { a: 2 }), "B2");
    ck!("C05 C17", BBuilder::default().a(3).build() == Err(gen::Why::<Vec<u8>, 7>(vec![], "three".into())), "B3");
    ck!("C03 C17", BBuilder::default().build() == Err(gen::Why::<Vec<u8>, 7>(vec![], "a".into())), "B nothing");
    ck!("C05", CBuilder::default().a(8).build().unwrap() == C { a: 8 }, "C8");
    ck!("C05", CBuilder::default().a(16).build().unwrap_err().to_string() == "sixteen", "C16");
    ck!("C05 C22", CBuilder::default().build().unwrap() == C { a: 0 }, "C nothing");
}''')

scen('inherent_names', 'C16 C02', r'''
// functions of the user's own types with the names of the trait methods that the generated code calls
#[derive(Debug, PartialEq, Default, Clone, Copy)] pub struct Tr(u8);
#[derive(Debug, PartialEq, Copy)] pub struct Sly(u8);
impl Default for Sly { fn default() -> Self { Sly(3) } }
impl Clone for Sly { fn clone(&self) -> Self { Sly(self.0) } }
impl Sly { pub fn default() -> Self { Sly(99) } pub fn clone(&self) -> Self { Sly(98) } pub fn new() -> Self { Sly(97) } pub fn into(self) -> Self { Sly(96) } pub fn unwrap(self) -> Self { Sly(95) } }
#[derive(Builder, Debug, PartialEq)]
pub struct A { #[builder(field(ty = "Sly"))] a: Sly, #[builder(setter(skip))] b: Sly, #[builder(default)] c: Sly, d: Sly, #[builder(field(ty = "Sly", build = "self.e"))] e: Sly }
#[derive(Builder, Debug, PartialEq)] #[builder(pattern = "owned", default)]
pub struct B { #[builder(field(ty = "Sly"))] a: Sly, #[builder(setter(skip))] b: Sly, c: Sly }
impl Default for B { fn default() -> B { B { a: Sly(50), b: Sly(51), c: Sly(52) } } }
#[derive(Builder, Debug, PartialEq)] #[builder(pattern = "immutable", create_empty = "none", custom_constructor)]
pub struct C { #[builder(field(ty = "Sly"))] a: Sly, #[builder(setter(skip), default)] b: Sly, c: Sly }
pub fn run() { at("C16");
    ck!("C16", ABuilder::default().a == Sly(3) && ABuilder::default().e == Sly(3) && ABuilder::create_empty().a == Sly(3) && ABuilder::default().c.is_none(), "custom types start from their Default");
    ck!("C16", BBuilder::default().a == Sly(3) && CBuilder::none().a == Sly(3), "custom types start from their Default");
    at("C04 C06");
    let mut a = ABuilder::default(); a.d(Sly(5));
    ck!("C02 C04 C06", a.build().unwrap() == A { a: Sly(3), b: Sly(3), c: Sly(3), d: Sly(5), e: Sly(3) } && a.build().unwrap().d == Sly(5), "A");
    a.a(Sly(6)).c(Sly(7)).e(Sly(8));
    ck!("C01 C02 C20", a.build().unwrap() == A { a: Sly(6), b: Sly(3), c: Sly(7), d: Sly(5), e: Sly(8) }, "A set");
    ck!("C04 C06", BBuilder::default().build().unwrap() == B { a: Sly(3), b: Sly(51), c: Sly(52) }, "B");
    ck!("C01 C02 C20", BBuilder::default().c(Sly(1)).a(Sly(2)).build().unwrap() == B { a: Sly(2), b: Sly(51), c: Sly(1) }, "B set");
    let c = CBuilder::none().c(Sly(1)); let d = c.a(Sly(9));
    ck!("C01 C02 C11 C20", c.build().unwrap() == C { a: Sly(3), b: Sly(3), c: Sly(1) } && d.build().unwrap() == C { a: Sly(9), b: Sly(3), c: Sly(1) }, "C");
}''')
