"""The generated code of every kind of option, compiled in a #![no_std] crate against the library without its default
features and with `alloc` only.  Compiling is all that is asked: what the code does is decided elsewhere."""
import json, os, re, shutil, subprocess, sys
REPO = os.environ.get('VERIF_REPO', '/repo')
GENERATED = 'build_fn(error(validation_error = false))'
# name -> (properties, features it needs, source)
MODS = {
 'plain': ('C02 C03 C17', '', '#[derive(Builder, Debug)] #[builder(no_std, %s)] pub struct S { a: u8, b: Option<u16> }\npub fn f() -> Result<S, SBuilderError> { SBuilder::default().a(1).b(None).build() }' % GENERATED),
 'patterns': ('C01 C02', '', '#[derive(Builder)] #[builder(no_std, pattern = "owned", %s)] pub struct S { a: u8 }\n#[derive(Builder)] #[builder(no_std, pattern = "immutable", %s)] pub struct T<X> { a: X }\npub fn f() -> Result<S, SBuilderError> { SBuilder::default().a(1).build() } pub fn g() -> Result<T<u8>, TBuilderError> { TBuilder::default().a(1).build() }' % (GENERATED, GENERATED)),
 'into': ('C09', '', '#[derive(Builder)] #[builder(no_std, setter(into, strip_option), %s)] pub struct S { a: Option<u16>, b: u32 }\npub fn f() -> Result<S, SBuilderError> { SBuilder::default().a(1u8).b(2u16).build() }' % GENERATED),
 'fallible': ('C07', '', '#[derive(Builder)] #[builder(no_std, try_setter, setter(strip_option), %s)] pub struct S { a: Option<u8>, b: u8 }\npub fn f() -> Option<S> { SBuilder::default().try_a(1i32).ok()?.try_b(300i32).ok()?.build().ok() }' % GENERATED),
 'each': ('C08', '', '''#[derive(Clone, Default)] pub struct V(u32); impl Extend<u32> for V { fn extend<I: IntoIterator<Item = u32>>(&mut self, i: I) { for x in i { self.0 += x } } }
#[derive(Builder)] #[builder(no_std, %s)] pub struct S { #[builder(setter(each(name = "one", into)))] a: V, #[builder(setter(strip_option, each = "two"))] b: Option<V> }\npub fn f() -> Option<S> { SBuilder::default().one(1u8).two(2).build().ok() }''' % GENERATED),
 'defaults': ('C04 C06', '', '#[derive(Builder, Default)] #[builder(no_std, default, %s)] pub struct S { a: u8, #[builder(default)] b: u8, #[builder(default = "7")] c: u8, #[builder(setter(skip))] d: u8 }\n#[derive(Builder)] #[builder(no_std, %s)] pub struct T<X: Default> { #[builder(setter(skip))] a: X, b: u8 }\npub fn f() -> Option<S> { SBuilder::default().a(1).build().ok() }' % (GENERATED, GENERATED)),
 'custom': ('C16 C20', '', '#[derive(Builder)] #[builder(no_std, custom_constructor, create_empty = "none", %s)] pub struct S { #[builder(field(ty = "u8", build = "self.a as u16 + 1"))] a: u16, #[builder(field(ty = "u8"))] b: u8 }\npub fn f() -> Option<S> { SBuilder::none().a(1).b(2).build().ok() }' % GENERATED),
 'ownerror': ('C03 C05 C17', '', '#[derive(Debug)] pub struct E(&\'static str); impl From<db::UninitializedFieldError> for E { fn from(e: db::UninitializedFieldError) -> E { E(e.field_name()) } } impl From<&\'static str> for E { fn from(e: &\'static str) -> E { E(e) } }\n#[derive(Builder)] #[builder(no_std, build_fn(error = "E", validate = "Self::check"))] pub struct S { a: u8 } impl SBuilder { fn check(&self) -> Result<(), &\'static str> { Err("no") } }\npub fn f() -> Result<S, E> { SBuilder::default().a(1).build() }'),
 'uninit': ('C19', '', 'pub fn f() -> (&\'static str, bool) { let e = db::UninitializedFieldError::new("x").clone(); (db::UninitializedFieldError::from(e.field_name()).field_name(), e.field_name() == "x") }\npub fn g(w: &mut dyn core::fmt::Write) -> core::fmt::Result { let e = db::UninitializedFieldError::new("x"); write!(w, "{} {:?}", e, e) }'),
 'validated': ('C05 C17', 'alloc', 'extern crate alloc; use alloc::string::String; #[derive(Builder)] #[builder(no_std, build_fn(validate = "Self::check"))] pub struct S { a: u8 } impl SBuilder { fn check(&self) -> Result<(), String> { Err("no".into()) } }\npub fn f() -> Result<S, SBuilderError> { SBuilder::default().a(1).build() } pub fn g() -> SBuilderError { SBuilderError::ValidationError(String::new()) } pub fn h(e: &SBuilderError) -> String { alloc::format!("{} {:?}", e, e) }'),
 'alloctypes': ('C08 C09', 'alloc', 'extern crate alloc; use alloc::{string::String, vec::Vec}; #[derive(Builder)] #[builder(no_std, setter(into, strip_option))] pub struct S { a: Option<String>, #[builder(setter(each(name = "push", into)))] b: Vec<String> }\npub fn f() -> Result<S, SBuilderError> { SBuilder::default().a("x").push("y").build() }'),
}
for k, (p, f, s) in list(MODS.items()): MODS[k] = (p.split(), f, 'use db::Builder;\n' + s)
MODS['uninit'] = MODS['uninit'][:2] + (MODS['uninit'][2].split('\n', 1)[1],)
PROPS = {p for v in MODS.values() for p in v[0]} | {'C18'}

def run(d, repo=REPO):
    """-> (failures [(properties, module, features, text)], modules compiled)"""
    src = os.path.join(d, 'src'); os.makedirs(src)
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "ns"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[features]\nalloc = ["db/alloc"]\n[dependencies]\ndb = { package = "derive_builder", path = "%s/derive_builder", default-features = false }\n[profile.dev]\ndebug = false\nincremental = false\n' % repo)
    lock = os.path.join(repo, 'Cargo.lock')
    if not os.path.exists(lock): lock = '/opt/vp/Cargo.lock'
    if os.path.exists(lock): shutil.copy(lock, os.path.join(d, 'Cargo.lock'))
    for k, (_, _, s) in MODS.items():
        with open(os.path.join(src, k + '.rs'), 'w') as f: f.write('#![allow(dead_code)]\n' + s + '\n')
    bad, n = [], 0
    for feats in ('', 'alloc'):
        left = [k for k, v in MODS.items() if not v[1] or v[1] == feats]
        broken = {}
        for attempt in range(4):
            with open(os.path.join(src, 'lib.rs'), 'w') as f: f.write('#![no_std]\nextern crate db as derive_builder;\n' + ''.join('pub mod %s;\n' % k for k in left))
            cmd = '. /opt/vp/common.sh >/dev/null 2>&1; cd %s && cargo check --offline -q --target-dir %s --message-format=json %s' % (d, os.path.join(d, 'target'), '--features ' + feats if feats else '')
            r = subprocess.run(['bash', '-c', cmd], capture_output=True, text=True, timeout=300)
            if r.returncode == 0: n += len(left); break
            now = {}
            for l in r.stdout.splitlines():
                try: m = json.loads(l)
                except ValueError: continue
                if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error': continue
                own = 'ns' == m.get('target', {}).get('name')
                names = set(re.findall(r'"file_name": ?"src/(\w+)\.rs"', json.dumps(m))) & set(left)
                if not own: now.setdefault('the library', []).append(m['message']['message'])
                for k in names if own else (): now.setdefault(k, []).append(m['message']['message'])
            if not now: raise RuntimeError('the no_std crate does not build: ' + (r.stderr + r.stdout)[-1500:])
            if 'the library' in now: raise RuntimeError('the library does not build without default features: ' + '; '.join(now['the library'][:3]))
            broken.update(now); left = [k for k in left if k not in now]
        if 'plain' in broken: bad.append((['C02', 'C17', 'C18'], 'plain', feats, '; '.join(broken['plain'][:3])))
        else:
            for k, ms in broken.items(): bad.append((MODS[k][0] + (['C18'] if any('export' in m or 'cannot find' in m or 'could not find' in m or 'unresolved' in m for m in ms) else []), k, feats, '; '.join(ms[:3])))
    return bad, n

if __name__ == '__main__':
    import tempfile, time
    t = time.time(); d = tempfile.mkdtemp(dir='/tmp/w')
    print(run(os.path.join(d, 'c')), time.time() - t); shutil.rmtree(d)
