//! The containers give back what was put in.
use crate::rng::Rng;
use crate::suites::Case;
#[cfg(feature = "nightly")]
use daab::canning::CanBase;
use daab::canning::{Can, CanRef, CanRefMut, CanSized, CanStrong};
use std::any::Any;
use std::cell::Cell;
use std::fmt::Debug;
use std::rc::Rc;
use std::sync::Arc;

thread_local! { static LIVE: Cell<i64> = Cell::new(0); }

/// A value that cannot be cloned, and counts its instances.
#[derive(Debug, PartialEq)]
pub struct P<T>(pub T, Token);
#[derive(Debug, PartialEq)]
struct Token;
impl Drop for Token {
    fn drop(&mut self) { LIVE.with(|l| l.set(l.get() - 1)) }
}
pub trait Payload: Debug + PartialEq + Send + Sync + 'static {
    fn make(r: &mut Rng) -> Self;
    fn name() -> &'static str { std::any::type_name::<Self>() }
}
impl<T: Payload> Payload for P<T> {
    fn make(r: &mut Rng) -> Self { LIVE.with(|l| l.set(l.get() + 1)); P(T::make(r), Token) }
}
#[derive(Debug, PartialEq)]
pub struct Zst;
impl Payload for Zst { fn make(_: &mut Rng) -> Self { Zst } }
#[derive(Debug, PartialEq)]
pub struct Zst2;
impl Payload for Zst2 { fn make(_: &mut Rng) -> Self { Zst2 } }
#[derive(Debug, PartialEq)]
pub struct New(pub u64);
impl Payload for New { fn make(r: &mut Rng) -> Self { New(r.next()) } }
impl Payload for () { fn make(_: &mut Rng) {} }
impl Payload for u64 { fn make(r: &mut Rng) -> u64 { r.next() } }
impl Payload for [u64; 9] { fn make(r: &mut Rng) -> Self { let x = r.next(); [x; 9] } }
impl Payload for String { fn make(r: &mut Rng) -> String { format!("s{}", r.next()) } }
#[repr(align(64))]
#[derive(Debug, PartialEq)]
pub struct Aligned(u8);
impl Payload for Aligned { fn make(r: &mut Rng) -> Self { Aligned(r.next() as u8) } }

macro_rules! types { ($go:ident; $n:expr; $c:expr) => {
    match $n % 6 { 0 => $go!(Zst; $c), 1 => $go!(New; $c), 2 => $go!(Un; $c), 3 => $go!(String; $c), 4 => $go!(Arr; $c), _ => $go!(Aligned; $c) }
} }
type Un = ();
type Arr = [u64; 9];

/// Through owned and shared access.
fn owned<C, T, U>(c: &mut Case, what: &str) -> Result<(), String>
where
    T: Payload,
    U: Payload,
    C: CanRef<P<T>> + CanRef<P<U>> + CanRef<T>,
    <C as Can<P<T>>>::Bin: AsRef<P<T>>,
    <C as Can<P<U>>>::Bin: AsRef<P<U>>,
{
    let mut r = c.r.clone();
    let expect = T::make(&mut r.clone());
    let same = std::any::TypeId::of::<T>() == std::any::TypeId::of::<U>();
    let live = LIVE.with(|l| l.get());
    c.say(format!("{} of {} (other type {})", what, <P<T>>::name(), <P<U>>::name()));
    let t = <P<T>>::make(&mut r);
    c.r = r;
    let b = <C as CanSized<P<T>>>::into_bin(t);
    let a0 = <C as Can<P<T>>>::bin_as_ptr(&b);
    c.check(b.as_ref().0 == expect, || "the bin has another value".into())?;
    c.check(b.as_ref() as *const P<T> as *const () == a0, || "bin_as_ptr is not where the bin's value is".into())?;
    let k = <C as CanSized<P<T>>>::from_bin(b);
    c.check(k.can_as_ptr() as *const () == a0, || format!("canning moved the value from {:p} to {:p}", a0, k.can_as_ptr()))?;
    let v: Option<&P<T>> = k.downcast_can_ref();
    c.check(v.map_or(false, |v| v.0 == expect && v as *const P<T> as *const () == a0), || format!("shared access as its own type yields {:?} instead of {:?}", v.map(|v| &v.0), expect))?;
    let w: Option<&P<U>> = k.downcast_can_ref();
    c.check(w.is_some() == same, || format!("shared access as {} yields {:?}", <P<U>>::name(), w))?;
    let w: Option<&T> = k.downcast_can_ref();
    c.check(w.is_none(), || format!("shared access as {} yields {:?}", T::name(), w))?;
    c.check(LIVE.with(|l| l.get()) == live + 1, || "the value was dropped or duplicated while canned".into())?;
    let b: Option<<C as Can<P<T>>>::Bin> = <C as CanSized<P<T>>>::downcast_can(k);
    let b = match b { Some(b) => b, None => return Err("unpacking as its own type yields nothing".into()) };
    c.check(b.as_ref().0 == expect && <C as Can<P<T>>>::bin_as_ptr(&b) == a0, || format!("unpacked {:?} at {:p} instead of {:?} at {:p}", b.as_ref().0, <C as Can<P<T>>>::bin_as_ptr(&b), expect, a0))?;
    c.check(LIVE.with(|l| l.get()) == live + 1, || "the value was dropped or duplicated by unpacking".into())?;
    let k = <C as CanSized<P<T>>>::from_bin(b);
    if !same {
        let none = <C as CanSized<P<U>>>::downcast_can(k);
        c.check(none.is_none(), || format!("unpacking as {} yields something", <P<U>>::name()))?;
    } else {
        let none = <C as CanSized<T>>::downcast_can(k);
        c.check(none.is_none(), || format!("unpacking as {} yields something", T::name()))?;
    }
    c.check(LIVE.with(|l| l.get()) == live, || "the value outlives its container".into())?;
    // directly
    let mut r = c.r.clone();
    let expect = T::make(&mut r.clone());
    let k = <C as CanSized<P<T>>>::from_inner(<P<T>>::make(&mut r));
    c.r = r;
    let v: Option<&P<T>> = k.downcast_can_ref();
    c.check(v.map_or(false, |v| v.0 == expect), || format!("from_inner: shared access yields {:?} instead of {:?}", v, expect))?;
    let a0 = k.can_as_ptr() as *const ();
    let b = <C as CanSized<P<T>>>::downcast_can(k);
    c.check(b.map_or(false, |b| b.as_ref().0 == expect && <C as Can<P<T>>>::bin_as_ptr(&b) == a0), || "from_inner: unpacking yields something else".into())?;
    c.check(LIVE.with(|l| l.get()) == live, || "the value outlives its container".into())
}

fn shared<C, T>(c: &mut Case, what: &str) -> Result<(), String>
where
    T: Payload,
    C: CanRef<P<T>> + CanStrong + Clone,
    <C as Can<P<T>>>::Bin: AsRef<P<T>> + Clone,
{
    c.say(format!("weak handles, {} of {}", what, <P<T>>::name()));
    let live = LIVE.with(|l| l.get());
    let mut r = c.r.clone();
    let expect = T::make(&mut r.clone());
    let b = <C as CanSized<P<T>>>::into_bin(<P<T>>::make(&mut r));
    c.r = r;
    let a0 = <C as Can<P<T>>>::bin_as_ptr(&b);
    let k = <C as CanSized<P<T>>>::from_bin(b.clone());
    let mut strong: Vec<C> = vec![k];
    let mut bins = vec![b];
    let mut weak = vec![strong[0].downgrade()];
    for _ in 0..c.r.below(14) + 3 {
        let held = strong.len() + bins.len();
        match c.r.below(6) {
            0 => if let Some(k) = strong.first() { weak.push(k.downgrade()); c.say("downgrade") },
            1 => if let Some(k) = strong.first() { let k = k.clone(); strong.push(k); c.say("clone") },
            2 | 3 => if !strong.is_empty() { let i = c.r.below(strong.len()); strong.swap_remove(i); c.say("drop a can") },
            4 => if !bins.is_empty() { bins.pop(); c.say("drop a bin") },
            _ => if !strong.is_empty() && bins.len() < 3 {
                let i = c.r.below(strong.len());
                let k = strong.swap_remove(i);
                c.say("unpack");
                match <C as CanSized<P<T>>>::downcast_can(k) { Some(b) => bins.push(b), None => return Err("unpacking as its own type yields nothing".into()) }
            },
        }
        let _ = held;
        let held = strong.len() + bins.len();
        for w in &weak {
            match C::upgrade_from_weak(w) {
                Some(k) => {
                    c.check(held > 0, || "a weak handle gives back a value without strong handles".into())?;
                    let v: Option<&P<T>> = k.downcast_can_ref();
                    c.check(k.can_as_ptr() as *const () == a0 && v.map_or(false, |v| v.0 == expect), || format!("a weak handle gives back {:?} at {:p} instead of {:?} at {:p}", v, k.can_as_ptr(), expect, a0))?;
                }
                None => c.check(held == 0, || format!("a weak handle gives back nothing though {} strong ones exist", held))?,
            }
        }
        c.check(LIVE.with(|l| l.get()) == live + (held > 0) as i64, || "the value does not live exactly as long as its strong handles".into())?;
        for b in &bins {
            c.check(b.as_ref().0 == expect && <C as Can<P<T>>>::bin_as_ptr(b) == a0, || "a bin lost its value".into())?;
        }
        for k in &strong {
            c.check(k.can_as_ptr() as *const () == a0, || "a clone of a can is at another address".into())?;
        }
    }
    Ok(())
}

fn mutable<C, T, U>(c: &mut Case, what: &str) -> Result<(), String>
where
    T: Payload,
    U: Payload,
    C: CanRefMut<P<T>> + CanRefMut<P<U>> + CanRef<P<T>>,
    <C as Can<P<T>>>::Bin: AsRef<P<T>>,
{
    c.say(format!("mutable access, {} of {} (other type {})", what, <P<T>>::name(), <P<U>>::name()));
    let same = std::any::TypeId::of::<T>() == std::any::TypeId::of::<U>();
    let mut r = c.r.clone();
    let expect = T::make(&mut r.clone());
    let mut k = <C as CanSized<P<T>>>::from_inner(<P<T>>::make(&mut r));
    let a0 = k.can_as_ptr() as *const ();
    {
        let w: Option<&mut P<U>> = k.downcast_can_mut();
        c.check(w.is_some() == same, || format!("mutable access as {} yields {:?}", <P<U>>::name(), w))?;
    }
    let new = T::make(&mut r.clone());
    {
        let v: Option<&mut P<T>> = k.downcast_can_mut();
        match v {
            Some(v) => {
                c.check(v.0 == expect && v as *const P<T> as *const () == a0, || format!("mutable access yields {:?} instead of {:?}", v, expect))?;
                v.0 = T::make(&mut r);
            }
            None => return Err("mutable access as its own type yields nothing".into()),
        }
    }
    c.r = r;
    let v: Option<&P<T>> = k.downcast_can_ref();
    c.check(v.map_or(false, |v| v.0 == new && v as *const P<T> as *const () == a0), || format!("after a change the container has {:?} instead of {:?}", v, new))?;
    c.check(k.can_as_ptr() as *const () == a0, || "mutable access moved the value".into())?;
    let b = <C as CanSized<P<T>>>::downcast_can(k);
    c.check(b.map_or(false, |b| b.as_ref().0 == new && <C as Can<P<T>>>::bin_as_ptr(&b) == a0), || "unpacking after a change yields something else".into())
}

type RcC = Rc<dyn Any>;
type ArcC = Arc<dyn Any + Send + Sync>;
type BoxC = Box<dyn Any>;

#[cfg(feature = "nightly")]
mod bps {
    use super::*;
    use daab::canning::BuilderArtifact;
    use daab::rc;
    #[derive(Debug)]
    pub struct B1(u64);
    #[derive(Debug)]
    pub struct B2;
    impl rc::SimpleBuilder for B1 {
        type Artifact = u64;
        fn build(&self, _: &mut rc::Resolver) -> u64 { self.0 }
    }
    impl rc::SimpleBuilder for B2 {
        type Artifact = u64;
        fn build(&self, _: &mut rc::Resolver) -> u64 { 99 }
    }
    type Ba = BuilderArtifact<rc::CanType>;
    type Bp<B> = daab::blueprint::Blueprint<B, rc::CanType>;
    type Bpu<B> = daab::blueprint::BlueprintUnsized<B, rc::CanType>;
    pub fn case(c: &mut Case) -> Result<(), String> {
        use daab::Unpacking;
        let mut cache = rc::CacheOwned::new();
        let n = c.r.next();
        c.say("a blueprint as artifact");
        let bp: Bp<B1> = Bp::new(B1(n));
        let id = bp.id();
        let bin = <Ba as CanSized<Bp<B1>>>::into_bin(bp);
        c.check(bin.id() == id, || "binning changed the blueprint".into())?;
        let a0 = <Ba as Can<Bp<B1>>>::bin_as_ptr(&bin);
        let k = <Ba as CanSized<Bp<B1>>>::from_bin(bin);
        c.check(k.can_as_ptr() as *const () == a0, || "canning moved the builder".into())?;
        let k2 = k.clone();
        c.check(k2.can_as_ptr() as *const () == a0, || "a clone of the can is another builder".into())?;
        c.check(<Ba as CanSized<Bp<B2>>>::downcast_can(k2.clone()).is_none(), || "unpacking as a blueprint of another builder type yields something".into())?;
        c.check(<Ba as CanSized<Bpu<B2>>>::downcast_can(k2.clone()).is_none(), || "unpacking as an unsized blueprint of another builder type yields something".into())?;
        let back = <Ba as CanSized<Bp<B1>>>::downcast_can(k);
        let back = match back { Some(b) => b, None => return Err("unpacking as its own type yields nothing".into()) };
        c.check(back.id() == id && <Ba as Can<Bp<B1>>>::bin_as_ptr(&back) == a0, || "unpacking yields another blueprint".into())?;
        let v = cache.get_cloned(&back).unpack();
        c.check(v == n, || format!("the unpacked blueprint builds {} instead of {}", v, n))?;
        c.say("an unsized blueprint as artifact");
        let bp: Bpu<B1> = Bpu::new(B1(n ^ 1));
        let id = bp.id();
        let a0 = <Ba as Can<Bpu<B1>>>::bin_as_ptr(&bp);
        let k = if c.r.chance(1, 2) { <Ba as CanSized<Bpu<B1>>>::from_inner(bp) } else { <Ba as CanSized<Bpu<B1>>>::from_bin(bp) };
        c.check(k.can_as_ptr() as *const () == a0, || "canning moved the builder".into())?;
        c.check(<Ba as CanSized<Bpu<B2>>>::downcast_can(k.clone()).is_none(), || "unpacking as another type yields something".into())?;
        let back = match <Ba as CanSized<Bpu<B1>>>::downcast_can(k) { Some(b) => b, None => return Err("unpacking as its own type yields nothing".into()) };
        c.check(back.id() == id && <Ba as Can<Bpu<B1>>>::bin_as_ptr(&back) == a0, || "unpacking yields another blueprint".into())?;
        let v = cache.get_cloned(&back).unpack();
        c.check(v == n ^ 1, || format!("the unpacked blueprint builds {} instead of {}", v, n ^ 1))
    }
}

pub fn case(c: &mut Case) -> Result<(), String> {
    LIVE.with(|l| l.set(0));
    #[cfg(feature = "nightly")]
    if c.r.chance(1, 12) {
        return bps::case(c);
    }
    let (n, m, k) = (c.r.below(6), c.r.below(3), c.r.below(8));
    macro_rules! go2 { ($t:ident, $u:ty; $c:expr) => { match k {
        0 => owned::<RcC, $t, $u>($c, "Rc"),
        1 => owned::<ArcC, $t, $u>($c, "Arc"),
        2 => owned::<BoxC, $t, $u>($c, "Box"),
        _ => mutable::<BoxC, $t, $u>($c, "Box"),
    } } }
    macro_rules! go1 { ($t:ident; $c:expr) => { match (k, m) {
        (4, _) | (5, _) => shared::<RcC, $t>($c, "Rc"),
        (6, _) | (7, _) => shared::<ArcC, $t>($c, "Arc"),
        (_, 0) => go2!($t, Zst2; $c), (_, 1) => go2!($t, u64; $c), _ => go2!($t, String; $c),
    } } }
    for _ in 0..3 {
        types!(go1; n; &mut *c)?;
    }
    let l = LIVE.with(|l| l.get());
    c.check(l == 0, || format!("{} values were leaked or dropped twice", l))
}
