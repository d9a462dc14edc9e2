//! The workloads and monitors of each property.

use crate::run::Kind;

pub mod again;
#[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri)))]
pub mod big;
pub mod conc;
pub mod ct;
pub mod digest;
#[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri)))]
pub mod far;
#[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri), not(vh_san)))]
pub mod forged;
pub mod hist;
#[cfg(feature = "std")]
pub mod io;
#[cfg(feature = "kernels")]
pub mod kernels;
#[cfg(not(miri))]
pub mod long;
pub mod many;
pub mod mem;
pub mod multi;
#[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri), not(vh_san)))]
pub mod odd;
pub mod params;
#[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri), not(vh_san)))]
pub mod pure;
#[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri), not(vh_san)))]
pub mod space;
#[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
pub mod step;
pub mod value;

/// The crate under test decides whether its types may cross threads; C21 checks that, and nothing
/// here should stop compiling if it changes.
pub struct Force<T>(pub T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
impl<T> Force<T> {
    // (A closure that names the field would capture the field alone.)
    pub fn get(&self) -> &T {
        &self.0
    }
}

fn with(mut a: Vec<Kind>, b: Vec<Kind>) -> Vec<Kind> {
    a.extend(b);
    a
}

#[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri), not(vh_san)))]
fn odd() -> Vec<Kind> {
    odd::c22()
}

#[cfg(not(all(target_os = "linux", target_arch = "x86_64", not(miri), not(vh_san))))]
fn odd() -> Vec<Kind> {
    vec![]
}

/// The random kinds of a property that short executions can steer.
#[cfg(feature = "guided")]
fn steered(prop: &str) -> Option<Vec<Kind>> {
    let names: &[&str] = match prop {
        "C01" | "C05" => &["edge-words", "edge-lengths", "random", "setter-histories"],
        "C02" => &["random-parameters", "setter-histories"],
        "C03" => &["refusals-in-a-row", "refusals-in-histories", "BLAKE2sp-refusals-in-a-row", "node-offsets"],
        "C04" | "C06" => &["histories", "pieces"],
        "C07" => &["random-rounds", "histories"],
        "C08" => &["random", "length-tuples"],
        "C16" => &["counts-after-every-call"],
        "C17" => &["pairs-of-histories"],
        "C18" => &["random"],
        "C20" => &["clone-families", "shared-parameters", "unrelated-hashing-between", "populations"],
        "C22" => &["histories", "io-adaptors"],
        "C23" => &["adaptor-histories"],
        _ => return None,
    };
    let found: Vec<Kind> = plain_kinds(prop)?.into_iter().filter(|k| names.contains(&k.name)).collect();
    assert!(!found.is_empty());
    Some(found)
}

#[cfg(feature = "guided")]
fn guided(ctx: &mut crate::run::Ctx) -> crate::run::Res {
    let kinds = steered(&ctx.prop).expect("kinds");
    crate::guided::campaign(ctx, &kinds, 10_000)
}

#[cfg(feature = "guided")]
fn guided_on(ctx: &mut crate::run::Ctx) -> crate::run::Res {
    let kinds = steered(&ctx.prop).expect("kinds");
    crate::guided::campaign(ctx, &kinds, 150_000)
}

pub fn kinds(prop: &str) -> Option<Vec<Kind>> {
    #[cfg(feature = "guided")]
    if steered(prop).is_some() {
        return Some(vec![
            Kind { name: "guided-campaigns", total: 0, quick: 16, thorough: 80, miri: 0, f: guided },
            Kind { name: "long-guided-campaigns", total: 0, quick: 0, thorough: 8, miri: 0, f: guided_on },
        ]);
    }
    plain_kinds(prop)
}

fn plain_kinds(prop: &str) -> Option<Vec<Kind>> {
    if let Some(kinds) = many::millions(prop) {
        return Some(kinds);
    }
    let kinds = match prop {
        "C01" => digest::c01(),
        "C02" => params::c02(),
        "C03" => params::c03(),
        "C04" => with(hist::c04(), many::c04()),
        "C05" => digest::c05(),
        "C06" => with(hist::c06(), many::c06()),
        "C07" => with(multi::c07(), many::c07()),
        "C08" => multi::c08(),
        "C09" => multi::c09(),
        #[cfg(feature = "kernels")]
        "C10" => kernels::c10(),
        "C11" => hist::c11(),
        #[cfg(feature = "kernels")]
        "C11f" => hist::c11f(),
        "C12" => hist::c12(),
        #[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
        "C12s" => step::c12s(),
        "C13" => mem::c13(),
        #[cfg(not(miri))]
        "C14l" => long::c14(),
        #[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri)))]
        "C15" => big::c15(),
        #[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri), not(vh_san)))]
        "C15s" | "C16s" => forged::kinds(),
        "C16" => with(hist::c16(), many::c16()),
        "C17" => value::c17(),
        "C18" => value::c18(),
        "C19" => ct::c19(),
        "C20" => with(hist::c20(), many::c20()),
        "C21" => conc::c21(),
        "C21f" => conc::c21_first(),
        #[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri), not(vh_san)))]
        "C22" => with(with(with(hist::c22(), many::c22()), odd()), space::c22()),
        #[cfg(not(all(target_os = "linux", target_pointer_width = "64", not(miri), not(vh_san))))]
        "C22" => with(with(hist::c22(), many::c22()), odd()),
        #[cfg(feature = "std")]
        "C23" => with(io::c23(), many::c23()),
        #[cfg(all(feature = "std", target_os = "linux", target_pointer_width = "64", not(miri)))]
        "C23l" => big::c23(),
        #[cfg(all(target_os = "linux", target_pointer_width = "64", not(miri), not(vh_san)))]
        "C24" => space::c24(),
        #[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri), not(vh_san)))]
        "C25" => pure::c25(),
        #[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri), not(vh_san)))]
        "C25f" => pure::c25_first(),
        _ => return None,
    };
    Some(with(kinds, again::of(prop)))
}
