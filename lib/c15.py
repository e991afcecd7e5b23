"""C15: scale-generic dimension traits."""
from rescale import *
from accept import accepted_stable
from c07 import join, in_source

HEADG = HEADR + '''use whippyunits::dimension_traits::*;
pub struct W<T>(std::marker::PhantomData<T>);
macro_rules! asks { ($k:expr, $tr:path; $($q:ty),* $(,)?) => { {
    trait No { const SAT: bool = false; } impl<T> No for W<T> {}
    impl<T: $tr> W<T> { const SAT: bool = true; }
    println!("{} {}", $k, [$(<W<$q>>::SAT),*].iter().map(|b: &bool| if *b { "1" } else { "0" }).collect::<String>()); } } }
'''
def check(chk):
    jobs, _ = chk.tlc("GenericGen", "CONSTANTS Seed = %d N = %d\nINIT Init\nNEXT Next\n" % (chk.seed, 3000 if chk.thorough else 500))
    jobs = sorted((j for j in jobs if all(in_source(a) for a in j["alts"])), key=lambda j: j["n"])
    base = Base(chk)
    for k, j in enumerate(jobs):
        j["k"] = k; j["src"] = ", ".join(join(a, k + i + 1) for i, a in enumerate(j["alts"]))
        j["src"] = j["src"].replace("//", "/ /").replace("/*", "/ *")
        j["line"] = "pub mod t%d { pub use whippyunits::dimension_traits::%s as X; }" % (k, j["src"]) if j["n"] <= 0 else \
                    "pub mod t%d { use whippyunits::dimension_traits::*; define_generic_dimension!(X, %s); }" % (k, j["src"])
    acc = accepted_stable(chk, base, HEADG, [j["line"] for j in jobs])
    srcs = {}
    for s in range(NCPU):
        ks = [k for k in range(s, len(jobs), NCPU) if acc[k][0]]
        # an inherent constant is only ambiguous within one crate of traits: each question has a type of its own
        body = "".join("%s\nmod a%d { use super::*; struct W<T>(std::marker::PhantomData<T>); pub fn f() { asks!(%d, super::t%d::X; %s) } }\n" %
                       (jobs[k]["line"], k, k, k, ", ".join(qtype(a["d"] + a["s"], a["t"]) for a in jobs[k]["ask"])) for k in ks)
        srcs["traits%d" % s] = HEADG + body + "fn main() { %s }" % " ".join("a%d::f();" % k for k in ks)
    got = {}
    for name, out in base.programs(srcs).items():
        if not isinstance(out, str):
            chk.add_bad(name, "the definitions do not build or run together", {"program": out.src, "errors": out.err[-2000:]}); continue
        for line in out.splitlines():
            k, rest = (line + " ").split(" ")[:2]; got[int(k)] = rest
    events = []
    for k, j in enumerate(jobs):
        e = {"key": ("predefined %s" if j["n"] <= 0 else "define_generic_dimension!(X, %s)") % unreal(j["src"]), "alts": j["alts"], "acc": acc[k][0], "ask": []}
        if acc[k][0]:
            if k not in got: continue
            e["ask"] = [{"d": a["d"], "s": a["s"], "t": a["t"], "sat": b == "1"} for a, b in zip(j["ask"], got[k])]
        else: e["err"] = acc[k][1]
        events.append(e)
    chk.notes["definitions"] = {"accepted": sum(1 for e in events if e["acc"]), "rejected": sum(1 for e in events if not e["acc"])}
    chk.notes["questions"] = sum(len(e["ask"]) for e in events)
    chk.validate("GenericCheck", events)
