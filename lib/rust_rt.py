"""Rust text shared by the generated programs."""
# Numbers print as i:<decimal>, d:<f64 bits hex>, f:<f32 bits hex>; panics as "panic".
RT = r'''
#![allow(warnings)]
pub trait Num: Copy { fn tok(self) -> String; }
macro_rules! ints { ($($t:ty)*) => { $(impl Num for $t { fn tok(self) -> String { format!("i:{}", self) } })* } }
ints!(i8 i16 i32 i64 i128 isize u8 u16 u32 u64 u128 usize);
impl Num for f64 { fn tok(self) -> String { format!("d:{:016x}", self.to_bits()) } }
impl Num for f32 { fn tok(self) -> String { format!("f:{:08x}", self.to_bits()) } }
pub fn guard<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
pub fn quiet() { std::panic::set_hook(Box::new(|_| {})); }
pub fn js(s: &str) -> String { serde_json::to_string(s).unwrap() }
'''
# Reads the exponents and the stored number of any quantity type.
def probe(cge=False):
    names = ["M", "L", "T", "I", "K", "N", "J", "A", "P2", "P3", "P5", "PI"]
    return r'''
use whippyunits::quantity::*;
pub type Q<const M:i16,const L:i16,const T:i16,const I:i16,const K:i16,const NN:i16,const J:i16,const A:i16,
           const P2:i16,const P3:i16,const P5:i16,const PI:i16,V,B=()> =
    Quantity<Scale<_2<P2>,_3<P3>,_5<P5>,_Pi<PI>>,Dimension<_M<M>,_L<L>,_T<T>,_I<I>,_Θ<K>,_N<NN>,_J<J>,_A<A>>,V,B>;
pub trait Probe { type V; type B; fn ex() -> [i16;12]; fn raw(self) -> Self::V; }
impl<const M:i16,const L:i16,const T:i16,const I:i16,const K:i16,const NN:i16,const J:i16,const A:i16,
     const P2:i16,const P3:i16,const P5:i16,const PI:i16,V,B> Probe for Q<M,L,T,I,K,NN,J,A,P2,P3,P5,PI,V,B> {
    type V = V; type B = B;
    fn ex() -> [i16;12] { [M,L,T,I,K,NN,J,A,P2,P3,P5,PI] }
    fn raw(self) -> V { self.unsafe_value }
}
pub fn show<P: Probe>(p: P) -> String where P::V: Num {
    let e = P::ex();
    format!("{:?} {} {} {}", e, std::any::type_name::<P::V>(), p.raw().tok(), std::any::type_name::<P::B>().replace(" ", "")).replace(", ", ",")
}
'''

PREC = {"f64": 53, "f32": 24}
TYPES = ["f64", "f32", "i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize"]
BRANDS = '''
#[derive(Clone, Copy, Debug, PartialEq)] pub struct B1;
#[derive(Clone, Copy, Debug, PartialEq)] pub struct B2;
'''
# The same two names, declared by the library: one by a plain branded declarator set, one by a scoped one.
GBRANDS = '''
whippyunits::define_unit_declarators!(gen1, B1); use gen1::B1;
whippyunits::define_unit_declarators!(gen2, B2, Kilogram, Millimeter, Second, Ampere, Kelvin, Mole, Candela, Radian); use gen2::B2;
'''
def qtype(e, t, b="()"):
    return "Q<%s,%s,%s>" % (",".join(map(str, e)), t, b)
def lit(v, t):
    """n * 2^e as an opaque value of type t"""
    if "sp" in v: return "bb(%s)" % {"0": "0.0_@", "-0": "-0.0_@", "inf": "@::INFINITY", "-inf": "@::NEG_INFINITY", "nan": "@::NAN", "min": "@::MIN_POSITIVE", "max": "@::MAX"}[v["sp"]].replace("@", t)
    n, e = v["n"], v["e"]
    if t in ("f64", "f32"):
        return "bb(%d%s * (2.0%s).powi(%d))" % (n, "." if False else "." + "0" + t, t, e)
    return "bb(%d%s)" % (n * 2 ** e, t) if n >= 0 else "bb(-%d%s)" % (-n * 2 ** e, t)
def vnum(v, t):
    """the same as a trace number"""
    if "sp" in v:
        import common
        return common.jfloat({"min": 2.0 ** (-1022 if t == "f64" else -126), "max": (2 - 2.0 ** -52) * 2.0 ** 1023 if t == "f64" else (2 - 2.0 ** -23) * 2.0 ** 127}.get(v["sp"]) or float(v["sp"]))
    n, e = v["n"], v["e"]
    if t in ("f64", "f32"):
        import common
        return common.jfloat(n * 2.0 ** e)
    import common
    return common.jint(n * 2 ** e)
def parse_show(line):
    """[12 exps] type tok brand -> register"""
    import json, common
    ex, t, tok, b = line.split(" ")
    ex = json.loads(ex)
    b = b.split("::")[-1]
    return {"d": ex[:8], "s": ex[8:], "t": t, "b": b, "v": common.jnum(tok)}
