//! Runtime of the explorer: instrumented value types, the reference model of a builder, and the exhaustive
//! exploration of operation sequences over a real derived builder.  The generated driver programs link this crate.
#![allow(clippy::all)]
use std::cell::RefCell;
use std::collections::{HashSet, VecDeque};
use std::fmt::Debug;

pub use derive_builder;

// ---------------------------------------------------------------- values
/// Observation of a value.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Val {
    /// number and provenance: D direct, A via Into, B via TryInto, Z type default, E field default, S struct default, X build block
    V(u8, u8),
    None,
    Some(Box<Val>),
    L(Vec<Val>),
    Bx(Box<Val>),
    Hidden,
}
impl std::fmt::Display for Val {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Val::V(n, v) => write!(f, "{}{}", n, *v as char),
            Val::None => write!(f, "-"),
            Val::Some(v) => write!(f, "S({})", v),
            Val::Bx(v) => write!(f, "B({})", v),
            Val::Hidden => write!(f, "#"),
            Val::L(l) => {
                write!(f, "[")?;
                for (i, v) in l.iter().enumerate() {
                    write!(f, "{}{}", if i > 0 { "," } else { "" }, v)?;
                }
                write!(f, "]")
            }
        }
    }
}
pub fn show(l: &[Val]) -> String {
    l.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(" ")
}

/// Field type, Clone.
#[derive(Clone, Debug, PartialEq)]
pub struct V {
    pub n: u8,
    pub via: u8,
}
/// Field type without Clone.
#[derive(Debug, PartialEq)]
pub struct N {
    pub n: u8,
    pub via: u8,
}
/// Field type, Copy.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct K {
    pub n: u8,
    pub via: u8,
}
/// Field type with Clone only (no Default, Debug, conversions).
#[derive(Clone)]
pub struct P {
    pub n: u8,
    pub via: u8,
}
/// Field type without any trait but the one generic structs declare as a bound.
pub struct Q {
    pub n: u8,
    pub via: u8,
}
/// A bound for generic structs.
pub trait Bnd {}
impl Bnd for Q {}
impl Bnd for P {}
impl Bnd for V {}
impl Bnd for N {}
/// No trait at all.
pub struct NoBnd;
#[derive(Clone)]
pub struct CloneOnly;
pub fn need_clone<T: Clone>() {}
pub fn need_default<T: Default>() {}
pub fn need_sized<T>() {}
/// Collection with a non-empty Default.
#[derive(Clone, Debug, PartialEq)]
pub struct Coll(pub Vec<V>);
impl Default for V {
    fn default() -> Self {
        V { n: 0, via: b'Z' }
    }
}
impl Default for N {
    fn default() -> Self {
        N { n: 0, via: b'Z' }
    }
}
impl Default for K {
    fn default() -> Self {
        K { n: 0, via: b'Z' }
    }
}
impl Default for Coll {
    fn default() -> Self {
        Coll(vec![V { n: 7, via: b'Z' }])
    }
}
impl Extend<V> for Coll {
    fn extend<I: IntoIterator<Item = V>>(&mut self, it: I) {
        self.0.extend(it)
    }
}
pub type OptV = Option<V>;
/// Of a constant parameter.
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Flag<const B: bool>;
/// Traits that only have the names of known ones.
pub mod named {
    pub trait Clone {}
    pub trait Copy {}
    pub trait Default {}
    pub trait Sized {}
    pub trait Into<T> {}
    pub trait From<T> {}
    pub mod core {
        pub mod clone {
            pub trait Clone {}
        }
    }
}
/// An Option under a path that is not one of the recognised spellings.
pub mod opt {
    pub use std::option::Option;
    pub mod std {
        pub use std::option;
    }
    pub mod core {
        pub use std::option;
    }
}
pub mod option {
    pub use std::option::Option;
}
/// Converts into everything.
pub struct A(pub u8);
/// Converts fallibly into everything; 9 fails.
pub struct B(pub u8);
#[derive(Debug, PartialEq)]
pub struct BErr(pub u8);

pub trait Mk: Sized {
    fn mk(n: u8, via: u8) -> Self;
}
pub fn mk<T: Mk>(n: u8, via: u8) -> T {
    T::mk(n, via)
}
macro_rules! mkv {
    ($($t:ident)*) => {$(impl Mk for $t { fn mk(n: u8, via: u8) -> Self { $t { n, via } } }
        impl Obs for $t { fn obs(&self) -> Val { Val::V(self.n, self.via) } })*};
}
mkv!(V N K P Q);
impl Mk for Coll {
    fn mk(n: u8, via: u8) -> Self {
        Coll(vec![V { n, via }])
    }
}
impl<T: Mk> Mk for Vec<T> {
    fn mk(n: u8, via: u8) -> Self {
        vec![T::mk(n, via)]
    }
}
impl<T: Mk> Mk for Option<T> {
    fn mk(n: u8, via: u8) -> Self {
        if n == 0 {
            None
        } else {
            Some(T::mk(n, via))
        }
    }
}
impl<T: Mk> Mk for Box<T> {
    fn mk(n: u8, via: u8) -> Self {
        Box::new(T::mk(n, via))
    }
}
impl<T: Mk> Mk for &'static T {
    fn mk(n: u8, via: u8) -> Self {
        Box::leak(Box::new(T::mk(n, via)))
    }
}
impl<T: Mk> Mk for [T; 2] {
    fn mk(n: u8, via: u8) -> Self {
        [T::mk(n, via), T::mk(n, via)]
    }
}
impl<T: Obs> Obs for [T; 2] {
    fn obs(&self) -> Val {
        Val::L(self.iter().map(Obs::obs).collect())
    }
}
impl<'a, T: Obs> Obs for &'a T {
    fn obs(&self) -> Val {
        Val::Bx(Box::new((**self).obs()))
    }
}
macro_rules! conv {
    ($($t:ty),*) => {$(
        impl From<A> for $t { fn from(a: A) -> Self { <$t>::mk(a.0, b'A') } }
        impl std::convert::TryFrom<B> for $t { type Error = BErr;
            fn try_from(b: B) -> Result<Self, BErr> { if b.0 == 9 { Err(BErr(9)) } else { Ok(<$t>::mk(b.0, b'B')) } } }
    )*};
}
conv!(V, N, K, Coll, Option<V>, Option<N>, Option<K>, Option<Coll>, Option<Option<V>>, Vec<V>, Option<Vec<V>>, Box<V>, Option<Box<V>>);

pub trait Obs {
    fn obs(&self) -> Val;
}
impl Obs for Coll {
    fn obs(&self) -> Val {
        Val::L(self.0.iter().map(Obs::obs).collect())
    }
}
impl<T: Obs> Obs for Vec<T> {
    fn obs(&self) -> Val {
        Val::L(self.iter().map(Obs::obs).collect())
    }
}
impl<T: Obs> Obs for Option<T> {
    fn obs(&self) -> Val {
        match self {
            None => Val::None,
            Some(v) => Val::Some(Box::new(v.obs())),
        }
    }
}
impl<T: Obs> Obs for Box<T> {
    fn obs(&self) -> Val {
        Val::Bx(Box::new((**self).obs()))
    }
}
/// Observes a value whose type must be exactly T.
pub fn ob<T: Obs>(t: &T) -> Val {
    t.obs()
}

// ---------------------------------------------------------------- events
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Validate(Vec<Val>),
    SDef,
    Def(u8),
    Blk(u8),
}
thread_local! { static EV: RefCell<Vec<Ev>> = RefCell::new(Vec::new()); }
pub fn ev(e: Ev) {
    EV.with(|l| l.borrow_mut().push(e));
}
pub fn take_ev() -> Vec<Ev> {
    EV.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
/// Field default expression.
pub fn dv<T: Mk>(i: u8) -> T {
    ev(Ev::Def(i));
    T::mk(5, b'E')
}
/// Field default that reads another builder slot and fails if it is unset.
pub fn dchk<T: Mk>(i: u8, other: Val) -> Result<T, String> {
    ev(Ev::Def(i));
    match other {
        Val::Some(_) => Ok(T::mk(5, b'E')),
        _ => Err(format!("dflt{}", i)),
    }
}
/// Struct default.
pub fn sd<T: Mk>() -> T {
    T::mk(6, b'S')
}
pub fn sev() {
    ev(Ev::SDef)
}
pub fn schk(other: Val) -> Result<(), String> {
    ev(Ev::SDef);
    match other {
        Val::Some(_) => Ok(()),
        _ => Err("sdflt".to_string()),
    }
}
/// Build expression of a custom field: value derived from the slot.
pub fn blk<T: Mk>(i: u8, slot: Val) -> T {
    ev(Ev::Blk(i));
    T::mk(blk_n(&slot), b'X')
}
pub fn blk_chk<T: Mk>(i: u8, slot: Val) -> Result<T, String> {
    ev(Ev::Blk(i));
    let n = blk_n(&slot);
    if n == 2 {
        Err(format!("blk{}", i))
    } else {
        Ok(T::mk(n, b'X'))
    }
}
/// A number from 1 to 200 that identifies a slot observation well enough.
pub fn blk_n(v: &Val) -> u8 {
    fn f(v: &Val) -> u32 {
        match v {
            Val::V(n, _) => *n as u32,
            Val::None => 8,
            Val::Some(v) | Val::Bx(v) => f(v),
            Val::L(l) => l.iter().fold(3, |a, v| (a * 7 + f(v)) % 100),
            Val::Hidden => 0,
        }
    }
    f(v).max(1) as u8
}
/// Validation: fails iff some slot holds a value with number 2.
pub fn validate(slots: Vec<Val>) -> Result<(), String> {
    let bad = invalid(&slots);
    ev(Ev::Validate(slots));
    if bad {
        Err("invalid".to_string())
    } else {
        Ok(())
    }
}
fn has2(v: &Val) -> bool {
    match v {
        Val::V(n, _) => *n == 2,
        Val::Some(v) | Val::Bx(v) => has2(v),
        Val::L(l) => l.iter().any(has2),
        _ => false,
    }
}
fn invalid(s: &[Val]) -> bool {
    s.iter().any(has2)
}

/// A user's own error type.
#[derive(Debug)]
pub enum CErr {
    Uninit(&'static str, String),
    Msg(String),
}
impl From<derive_builder::UninitializedFieldError> for CErr {
    fn from(e: derive_builder::UninitializedFieldError) -> Self {
        CErr::Uninit(e.field_name(), e.to_string())
    }
}
impl From<String> for CErr {
    fn from(e: String) -> Self {
        CErr::Msg(e)
    }
}
/// A user's generic error type.
#[derive(Debug)]
pub struct GErr<T>(pub CErr, pub std::marker::PhantomData<T>);
impl<T> From<derive_builder::UninitializedFieldError> for GErr<T> {
    fn from(e: derive_builder::UninitializedFieldError) -> Self {
        GErr(e.into(), std::marker::PhantomData)
    }
}
impl<T> From<String> for GErr<T> {
    fn from(e: String) -> Self {
        GErr(e.into(), std::marker::PhantomData)
    }
}

/// What build did.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum BOut {
    Ok(Vec<Val>),
    /// field name, display text
    Uninit(String, String),
    /// message, display text
    Msg(String, String),
    Other(String),
    NoBuild,
}
pub fn cerr(e: CErr) -> BOut {
    match e {
        CErr::Uninit(f, d) => BOut::Uninit(f.to_string(), d),
        CErr::Msg(m) => BOut::Msg(m.clone(), m),
    }
}

// ---------------------------------------------------------------- model
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum T {
    V,
    N,
    K,
    P,
    C,
    Vc(&'static T),
    O(&'static T),
    Bx(&'static T),
    Q,
    /// shared reference
    Rf(&'static T),
    /// array of two
    Ar(&'static T),
}
pub fn mkval(t: &T, n: u8, via: u8) -> Val {
    match t {
        T::V | T::N | T::K | T::P | T::Q => Val::V(n, via),
        T::C => Val::L(vec![Val::V(n, via)]),
        T::Vc(t) => Val::L(vec![mkval(t, n, via)]),
        T::O(t) => {
            if n == 0 {
                Val::None
            } else {
                Val::Some(Box::new(mkval(t, n, via)))
            }
        }
        T::Bx(t) | T::Rf(t) => Val::Bx(Box::new(mkval(t, n, via))),
        T::Ar(t) => Val::L(vec![mkval(t, n, via), mkval(t, n, via)]),
    }
}
pub fn defval(t: &T) -> Val {
    match t {
        T::V | T::N | T::K | T::P | T::Q => Val::V(0, b'Z'),
        T::C => Val::L(vec![Val::V(7, b'Z')]),
        T::Vc(_) => Val::L(vec![]),
        T::O(_) => Val::None,
        T::Bx(t) | T::Rf(t) => Val::Bx(Box::new(defval(t))),
        T::Ar(t) => Val::L(vec![defval(t), defval(t)]),
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pat {
    Own,
    Mut,
    Imm,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Slot {
    Hidden,
    Opt(T),
    Precise(T),
}
/// What an unset (or hidden) field builds from.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum NoneK {
    Err,
    /// the type's Default
    Ty,
    /// default expression number i
    Expr,
    /// default expression that needs slot j to be set
    Chk(u8),
    /// the struct default's field
    Struct,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Conv {
    Std,
    Move,
    Blk,
    BlkChk,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct SetK {
    pub arg: T,
    pub into: bool,
    pub strip: bool,
}
#[derive(Clone, Copy, Debug)]
pub struct F {
    pub name: &'static str,
    pub ty: T,
    pub pat: Pat,
    pub slot: Slot,
    pub set: Option<SetK>,
    pub try_: Option<SetK>,
    /// into?
    pub each: Option<(bool, bool)>, // (into, strip)
    pub custom: bool,
    pub none: NoneK,
    pub conv: Conv,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SDef {
    No,
    Plain,
    Chk(u8),
}
#[derive(Clone, Copy, Debug)]
pub struct Spec {
    pub id: u32,
    pub fields: &'static [F],
    pub build: bool,
    pub by_val: bool,
    pub validate: bool,
    pub sdef: SDef,
    /// custom error: display texts are those of the missing-field error
    pub custom_err: bool,
    pub clone: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Set(u8, u8),
    /// into setter called with the type itself
    SetId(u8, u8),
    Try(u8, u8),
    /// try setter called with the type itself
    TryId(u8, u8),
    Each(u8, u8),
    Custom(u8, u8),
    Build,
    Clone,
    /// create (and drop) another fresh builder
    Fresh,
}
pub const OP_SET: u8 = 0;
pub const OP_SETID: u8 = 1;
pub const OP_TRY: u8 = 2;
pub const OP_TRYID: u8 = 3;
pub const OP_EACH: u8 = 4;
pub const OP_CUSTOM: u8 = 5;

type State = Vec<Val>; // slot observations; Hidden slots are Val::Hidden

fn fresh(s: &Spec) -> State {
    s.fields
        .iter()
        .map(|f| match &f.slot {
            Slot::Hidden => Val::Hidden,
            Slot::Opt(_) => Val::None,
            Slot::Precise(t) => defval(t),
        })
        .collect()
}
fn arg_ns(t: &T) -> Vec<u8> {
    match t {
        T::O(_) => vec![1, 2, 0],
        _ => vec![1, 2],
    }
}
fn alphabet(s: &Spec) -> Vec<Op> {
    let mut v = vec![];
    for (i, f) in s.fields.iter().enumerate() {
        let i = i as u8;
        if let Some(k) = &f.set {
            for n in arg_ns(&k.arg) {
                v.push(Op::Set(i, n));
            }
            if k.into {
                v.push(Op::SetId(i, 1));
            }
        }
        if f.custom {
            v.push(Op::Custom(i, 1));
            v.push(Op::Custom(i, 2));
        }
        if let Some(_) = &f.try_ {
            v.push(Op::Try(i, 3));
            v.push(Op::Try(i, 9));
            v.push(Op::TryId(i, 4));
        }
        if f.each.is_some() {
            v.push(Op::Each(i, 3));
            v.push(Op::Each(i, 4));
        }
    }
    if s.build && !s.by_val {
        v.push(Op::Build);
    }
    if s.clone {
        v.push(Op::Clone);
    }
    v.push(Op::Fresh);
    v
}
fn store(f: &F, v: Val, strip: bool) -> Val {
    let v = if strip { Val::Some(Box::new(v)) } else { v };
    match f.slot {
        Slot::Opt(_) => Val::Some(Box::new(v)),
        _ => v,
    }
}
enum Step {
    Next(State),
    Fail(State),
}
fn step(s: &Spec, st: &State, op: Op) -> Step {
    let mut st = st.clone();
    match op {
        Op::Set(i, n) => {
            let f = &s.fields[i as usize];
            let k = f.set.unwrap();
            st[i as usize] = store(f, mkval(&k.arg, n, if k.into { b'A' } else { b'D' }), k.strip);
        }
        Op::SetId(i, n) => {
            let f = &s.fields[i as usize];
            let k = f.set.unwrap();
            st[i as usize] = store(f, mkval(&k.arg, n, b'D'), k.strip);
        }
        Op::Try(i, n) => {
            let f = &s.fields[i as usize];
            let k = f.try_.unwrap();
            if n == 9 {
                return Step::Fail(st);
            }
            st[i as usize] = store(f, mkval(&k.arg, n, b'B'), k.strip);
        }
        Op::TryId(i, n) => {
            let f = &s.fields[i as usize];
            let k = f.try_.unwrap();
            st[i as usize] = store(f, mkval(&k.arg, n, b'D'), k.strip);
        }
        Op::Custom(i, n) => {
            let f = &s.fields[i as usize];
            let t = match f.slot {
                Slot::Opt(t) | Slot::Precise(t) => t,
                _ => panic!(),
            };
            st[i as usize] = store(f, mkval(&t, n, b'D'), false);
        }
        Op::Each(i, n) => {
            let f = &s.fields[i as usize];
            let (into, strip) = f.each.unwrap();
            let item = Val::V(n, if into { b'A' } else { b'D' });
            // unwrap layers
            let (opt, t) = match f.slot {
                Slot::Opt(t) => (true, t),
                Slot::Precise(t) => (false, t),
                Slot::Hidden => panic!(),
            };
            let inner_t = if strip {
                match t {
                    T::O(t) => *t,
                    _ => panic!("strip on non-option"),
                }
            } else {
                t
            };
            let cur = st[i as usize].clone();
            let un = |v: Val| match v {
                Val::Some(v) => Some(*v),
                Val::None => None,
                v => panic!("not an option: {}", v),
            };
            let mut c = Some(cur);
            if opt {
                c = c.and_then(un);
            }
            if strip {
                c = c.and_then(un);
            }
            let c = match c.unwrap_or_else(|| defval(&inner_t)) {
                Val::L(mut l) => {
                    l.push(item);
                    Val::L(l)
                }
                v => panic!("not a list {}", v),
            };
            st[i as usize] = store(f, c, strip);
        }
        Op::Build | Op::Clone | Op::Fresh => {}
    }
    Step::Next(st)
}
fn build_model(s: &Spec, st: &State) -> (BOut, Vec<Ev>) {
    let mut evs = vec![];
    let msg = |m: String| BOut::Msg(m.clone(), m);
    let is_set = |j: u8| matches!(st[j as usize], Val::Some(_));
    if s.validate {
        evs.push(Ev::Validate(st.clone()));
        if invalid(st) {
            return (msg("invalid".to_string()), evs);
        }
    }
    match s.sdef {
        SDef::No => {}
        SDef::Plain => evs.push(Ev::SDef),
        SDef::Chk(j) => {
            evs.push(Ev::SDef);
            if !is_set(j) {
                return (msg("sdflt".to_string()), evs);
            }
        }
    }
    let mut out = vec![];
    for (i, f) in s.fields.iter().enumerate() {
        let set: Option<Val> = match f.slot {
            Slot::Hidden => None,
            Slot::Precise(_) => Some(st[i].clone()),
            Slot::Opt(_) => match &st[i] {
                Val::Some(v) => Some((**v).clone()),
                Val::None => None,
                v => panic!("bad slot {}", v),
            },
        };
        if f.slot != Slot::Hidden {
            match f.conv {
                Conv::Std => {}
                Conv::Move => {
                    out.push(st[i].clone());
                    continue;
                }
                Conv::Blk | Conv::BlkChk => {
                    evs.push(Ev::Blk(i as u8));
                    let n = blk_n(&st[i]);
                    if f.conv == Conv::BlkChk && n == 2 {
                        return (msg(format!("blk{}", i)), evs);
                    }
                    out.push(mkval(&f.ty, n, b'X'));
                    continue;
                }
            }
        }
        if let Some(v) = set {
            out.push(v);
            continue;
        }
        match f.none {
            NoneK::Err => {
                let d = if s.custom_err {
                    format!("Field not initialized: {}", f.name)
                } else {
                    format!("`{}` must be initialized", f.name)
                };
                return (BOut::Uninit(f.name.to_string(), d), evs);
            }
            NoneK::Ty => out.push(defval(&f.ty)),
            NoneK::Expr => {
                evs.push(Ev::Def(i as u8));
                out.push(mkval(&f.ty, 5, b'E'));
            }
            NoneK::Chk(j) => {
                evs.push(Ev::Def(i as u8));
                if !is_set(j) {
                    return (msg(format!("dflt{}", i)), evs);
                }
                out.push(mkval(&f.ty, 5, b'E'));
            }
            NoneK::Struct => out.push(mkval(&f.ty, 6, b'S')),
        }
    }
    (BOut::Ok(out), evs)
}

// ---------------------------------------------------------------- subject
#[derive(Default, Debug)]
pub struct Out {
    /// mutable setters: the returned reference is the builder itself
    pub same: Option<bool>,
    /// immutable setters: the receiver after the call
    pub old: Option<Vec<Val>>,
    /// failing try setter: error
    pub err: Option<u8>,
    /// the builder was consumed
    pub gone: bool,
}
pub trait Subject {
    fn reset(&mut self);
    fn apply(&mut self, field: u8, kind: u8, n: u8) -> Out;
    fn obs(&self) -> Vec<Val>;
    fn build(&mut self) -> BOut;
    /// replace the builder by its clone, keeping the original aside
    fn fork(&mut self);
    /// drop the current builder and take back the one kept aside
    fn unfork(&mut self);
    /// observe a brand-new second builder
    fn second(&mut self) -> Vec<Val>;
    /// static facts (description, holds?)
    fn facts(&self) -> Vec<(&'static str, bool)> {
        vec![]
    }
}

/// Calls a consuming setter.
pub fn app_own<T>(b: &mut Option<T>, f: impl FnOnce(T) -> T) -> Out {
    let x = b.take().unwrap();
    *b = Some(f(x));
    Out::default()
}
/// Calls an in-place setter.
pub fn app_mut<T>(b: &mut Option<T>, f: impl for<'a> FnOnce(&'a mut T) -> &'a mut T) -> Out {
    let x = b.as_mut().unwrap();
    let p = x as *const T;
    let r = f(x) as *const T;
    Out { same: Some(p == r), ..Out::default() }
}
/// Calls a copying setter.
pub fn app_imm<T>(b: &mut Option<T>, f: impl FnOnce(&T) -> T, obs: fn(&T) -> Vec<Val>) -> Out {
    let x = b.take().unwrap();
    let r = f(&x);
    let old = obs(&x);
    *b = Some(r);
    Out { old: Some(old), ..Out::default() }
}
/// Errors of fallible setters: 9 from B's conversion.
pub trait TErr {
    fn code(&self) -> u8;
}
impl TErr for BErr {
    fn code(&self) -> u8 {
        self.0
    }
}
impl TErr for std::convert::Infallible {
    fn code(&self) -> u8 {
        unreachable!()
    }
}
pub fn try_own<T, E: TErr>(b: &mut Option<T>, f: impl FnOnce(T) -> Result<T, E>) -> Out {
    let x = b.take().unwrap();
    match f(x) {
        Ok(r) => {
            *b = Some(r);
            Out::default()
        }
        Err(e) => Out { err: Some(e.code()), gone: true, ..Out::default() },
    }
}
pub fn try_mut<T, E: TErr>(b: &mut Option<T>, f: impl for<'a> FnOnce(&'a mut T) -> Result<&'a mut T, E>) -> Out {
    let x = b.as_mut().unwrap();
    let p = x as *const T;
    match f(x) {
        Ok(r) => Out { same: Some(p == r as *const T), ..Out::default() },
        Err(e) => Out { err: Some(e.code()), ..Out::default() },
    }
}
pub fn try_imm<T, E: TErr>(b: &mut Option<T>, f: impl FnOnce(&T) -> Result<T, E>, obs: fn(&T) -> Vec<Val>) -> Out {
    let x = b.take().unwrap();
    match f(&x) {
        Ok(r) => {
            let old = obs(&x);
            *b = Some(r);
            Out { old: Some(old), ..Out::default() }
        }
        Err(e) => {
            *b = Some(x);
            Out { err: Some(e.code()), ..Out::default() }
        }
    }
}
#[derive(Default)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub builds: u64,
    pub outcomes: HashSet<u64>,
}
fn h<X: std::hash::Hash>(x: &X) -> u64 {
    use std::hash::Hasher;
    let mut s = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut s);
    s.finish()
}

fn raw_eq(a: &str, b: &str) -> bool {
    a == b || a.strip_prefix("r#") == Some(b)
}
/// The model's outcome against the real one.  A raw identifier may be named with or without its r# prefix.
fn bout_ok(m: &BOut, r: &BOut) -> bool {
    match (m, r) {
        (BOut::Uninit(f, d), BOut::Uninit(g, e)) => {
            raw_eq(f, g) && (d == e || *e == d.replace("r#", ""))
        }
        _ => m == r,
    }
}

fn do_op(s: &Spec, sub: &mut dyn Subject, op: Op) -> Out {
    let _ = s;
    match op {
        Op::Set(i, n) => sub.apply(i, OP_SET, n),
        Op::SetId(i, n) => sub.apply(i, OP_SETID, n),
        Op::Try(i, n) => sub.apply(i, OP_TRY, n),
        Op::TryId(i, n) => sub.apply(i, OP_TRYID, n),
        Op::Each(i, n) => sub.apply(i, OP_EACH, n),
        Op::Custom(i, n) => sub.apply(i, OP_CUSTOM, n),
        Op::Build => {
            let _ = sub.build();
            Out::default()
        }
        Op::Clone => {
            sub.fork();
            Out::default()
        }
        Op::Fresh => {
            let _ = sub.second();
            Out::default()
        }
    }
}
fn opname(s: &Spec, op: &Op) -> String {
    let nm = |i: &u8| s.fields[*i as usize].name;
    match op {
        Op::Set(i, n) => format!("set {}={}", nm(i), n),
        Op::SetId(i, n) => format!("set {}={} (own type)", nm(i), n),
        Op::Try(i, n) => format!("try {}={}", nm(i), n),
        Op::TryId(i, n) => format!("try {}={} (own type)", nm(i), n),
        Op::Each(i, n) => format!("each {}+={}", nm(i), n),
        Op::Custom(i, n) => format!("custom {}={}", nm(i), n),
        Op::Build => "build".into(),
        Op::Clone => "clone".into(),
        Op::Fresh => "fresh".into(),
    }
}
pub fn tracestr(s: &Spec, p: &[Op]) -> String {
    p.iter().map(|o| opname(s, o)).collect::<Vec<_>>().join("; ")
}

/// Explores every operation sequence of at most `depth` operations.  Returns the first (shortest) disagreement.
pub fn explore(s: &Spec, sub: &mut dyn Subject, depth: usize, st: &mut Stats) -> Result<String, String> {
    let alpha = alphabet(s);
    let mut seen: HashSet<State> = HashSet::new();
    let mut q: VecDeque<(Vec<Op>, State)> = VecDeque::new();
    q.push_back((vec![], fresh(s)));
    let mut sample = String::new();
    let mut best = 0;
    for (what, ok) in sub.facts() {
        if !ok {
            return Err(format!("not so: {}", what));
        }
    }
    while let Some((path, state)) = q.pop_front() {
        let bad = |what: String| format!("after [{}]: {}", tracestr(s, &path), what);
        // reach the state on the real builder
        let go = |sub: &mut dyn Subject| {
            take_ev();
            sub.reset();
            for op in &path {
                do_op(s, sub, *op);
            }
        };
        go(sub);
        st.traces += 1;
        seen.insert(state.clone());
        let evs = take_ev();
        if !path.contains(&Op::Build) && !evs.is_empty() {
            return Err(bad(format!("defaults, validation or build code ran outside build: {:?}", evs)));
        }
        let o = sub.obs();
        if o != state {
            return Err(bad(format!("builder slots are [{}], model says [{}]", show(&o), show(&state))));
        }
        // build
        if s.build {
            let (mo, me) = build_model(s, &state);
            for round in 0..2 {
                if round == 1 && s.by_val {
                    go(sub);
                }
                take_ev();
                let ro = sub.build();
                let re = take_ev();
                st.builds += 1;
                if !bout_ok(&mo, &ro) {
                    return Err(bad(format!("build #{} gives {:?}, model says {:?}", round + 1, ro, mo)));
                }
                if me != re {
                    return Err(bad(format!("build #{} evaluates {:?}, model says {:?}", round + 1, re, me)));
                }
                st.outcomes.insert(h(&mo));
                if !s.by_val {
                    let o = sub.obs();
                    if o != state {
                        return Err(bad(format!("build changed the builder to [{}]", show(&o))));
                    }
                }
            }
        }
        let var = path.iter().map(std::mem::discriminant).collect::<HashSet<_>>().len();
        if var > best {
            best = var;
            sample = tracestr(s, &path);
        }
        if path.len() == depth {
            continue;
        }
        for op in &alpha {
            go(sub);
            let forked = s.clone && *op != Op::Clone;
            if forked {
                sub.fork();
            }
            st.transitions += 1;
            let mut p2 = path.clone();
            p2.push(*op);
            let bad = |what: String| format!("after [{}]: {}", tracestr(s, &p2), what);
            let out = do_op(s, sub, *op);
            let (next, fail) = match step(s, &state, *op) {
                Step::Next(n) => (n, false),
                Step::Fail(n) => (n, true),
            };
            if fail != out.err.is_some() {
                return Err(bad(format!("fallible setter outcome {:?}, model says failure={}", out, fail)));
            }
            if fail && out.err != Some(9) {
                return Err(bad(format!("wrong conversion error {:?}", out)));
            }
            if out.same == Some(false) {
                return Err(bad("the returned reference is not the builder".into()));
            }
            if let Some(old) = &out.old {
                if *old != state {
                    return Err(bad(format!("receiver of an immutable setter became [{}], was [{}]", show(old), show(&state))));
                }
            }
            if !out.gone {
                let o = sub.obs();
                if o != next {
                    return Err(bad(format!("builder slots are [{}], model says [{}]", show(&o), show(&next))));
                }
            }
            if forked {
                sub.unfork();
                let o = sub.obs();
                if o != state {
                    return Err(bad(format!("original of the clone became [{}], was [{}]", show(&o), show(&state))));
                }
            }
            if *op == Op::Fresh {
                let o = sub.second();
                let f = fresh(s);
                if o != f {
                    return Err(bad(format!("a second fresh builder has [{}], model says [{}]", show(&o), show(&f))));
                }
            }
            if !out.gone {
                q.push_back((p2, next));
            }
        }
    }
    st.states += seen.len() as u64;
    Ok(sample)
}

pub type Entry = (&'static Spec, fn() -> Box<dyn Subject>);
/// Entry point of a generated driver program: explores every subject, one line of output each.
pub fn run(subs: &[Entry]) {
    let depth: usize = std::env::var("MC_DEPTH").ok().and_then(|d| d.parse().ok()).unwrap_or(3);
    // bound the number of sequences per subject: depth is lowered (and reported) when the alphabet is large
    let cap: u64 = std::env::var("MC_CAP").ok().and_then(|d| d.parse().ok()).unwrap_or(200_000);
    std::panic::set_hook(Box::new(|_| {}));
    use std::io::Write;
    let so = std::io::stdout();
    for (s, f) in subs {
        let mut st = Stats::default();
        let a = alphabet(s).len() as u64;
        let mut d = depth;
        while d > 1 && a.checked_pow(d as u32).map_or(true, |x| x > cap) {
            d -= 1;
        }
        {
            let mut o = so.lock();
            writeln!(o, "B {}", s.id).unwrap();
            o.flush().unwrap();
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut sub = f();
            explore(s, &mut *sub, d, &mut st)
        }));
        let r = match r {
            Ok(r) => r,
            Err(p) => Err(format!(
                "panic: {}",
                p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
            )),
        };
        let mut o = so.lock();
        match r {
            Ok(sample) => writeln!(
                o,
                "S {} {} {} {} {} {} {} {}",
                s.id, d, st.states, st.transitions, st.traces, st.builds, st.outcomes.len(), sample
            )
            .unwrap(),
            Err(m) => writeln!(o, "V {} {}", s.id, m.replace('\n', " ")).unwrap(),
        }
    }
    println!("END");
}
fn _assert<T: Debug>() {}

/// Trait-presence probe: `has!(Type: Trait)` is a compile-time boolean.
#[macro_export]
macro_rules! has {
    ($t:ty : $($b:tt)+) => {{
        struct W<X: ?Sized>(::std::marker::PhantomData<X>);
        #[allow(dead_code)]
        trait No { const YES: bool = false; }
        impl<X: ?Sized> No for W<X> {}
        #[allow(dead_code)]
        impl<X: ?Sized + $($b)+> W<X> { const YES: bool = true; }
        <W<$t>>::YES
    }};
}

/// Names of this harness, which nothing else may have.
pub const NAMES: &[&str] = &["A", "Abs", "Abs0", "B", "BErr", "BOut", "Bnd", "CErr", "CloneOnly", "Coll", "Conv", "Entry", "Ev", "F", "Flag", "GErr", "K", "M", "Mk", "N", "NoBnd", "NoneK", "OP_CUSTOM", "OP_EACH", "OP_SET", "OP_SETID", "OP_TRY", "OP_TRYID", "Obs", "Op", "OptV", "Out", "P", "Pat", "Q", "S", "SDef", "SPEC", "SetK", "Slot", "Spec", "Stats", "Subject", "T", "TB", "TErr", "TT", "V", "Val", "X", "app_imm", "app_mut", "app_own", "blk", "blk_chk", "blk_n", "cerr", "core", "d", "dchk", "defval", "dv", "ev", "explore", "ga", "gl", "m", "mk", "mkval", "need_clone", "need_default", "need_sized", "ob", "opt", "option", "run", "s", "schk", "sd", "sev", "show", "std", "take_ev", "tracestr", "try_imm", "try_mut", "try_own", "validate", "Sh0", "Sh1", "Sh2", "Snd", "NAMES", "Own", "Of"];
/// A type that everything knows.
pub trait Any {
    type A;
}
impl<X: ?Sized> Any for X {
    type A = u8;
}
/// Types that only the target knows.
pub trait Own {
    type A;
}
pub type Of<S> = <S as Own>::A;
/// `Coll` under other names.
pub type Sh0 = Coll;
pub type Sh1<X> = X;
pub trait Snd<B> {
    type O;
}
impl<A, B> Snd<B> for A {
    type O = A;
}
pub type Sh2<X, Y> = <X as Snd<Y>>::O;
/// What names that may be hidden mean.
pub mod real {
    pub use std::prelude::v1::{Option, Vec, String, Box, Result, Default, Clone, Copy, Send, Sync, Sized, Drop, Fn, FnMut, FnOnce, AsRef, AsMut, Into, From, Iterator, Extend, IntoIterator, DoubleEndedIterator, ExactSizeIterator, ToOwned, ToString, PartialEq, PartialOrd, Eq, Ord};
    pub use std::primitive::{bool, char, str, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize, f32, f64};
    pub const NAMES: &[&str] = &["Option", "Vec", "String", "Box", "Result", "Default", "Clone", "Copy", "Send", "Sync", "Sized", "Drop", "Fn", "FnMut", "FnOnce", "AsRef", "AsMut", "Into", "From", "Iterator", "Extend", "IntoIterator", "DoubleEndedIterator", "ExactSizeIterator", "ToOwned", "ToString", "PartialEq", "PartialOrd", "Eq", "Ord", "bool", "char", "str", "u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "f32", "f64"];
}
