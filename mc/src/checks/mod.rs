pub mod back;
pub mod capi;
pub mod front;
pub mod front2;
#[cfg(feature = "inner")]
pub mod front3;
pub mod front4;
pub mod build;
pub mod edit;
pub mod layout;
#[cfg(feature = "inner")]
pub mod names;
pub mod nolog;
pub mod sched;
use crate::sup::CheckDef;

pub fn defs() -> &'static [CheckDef] {
  static D: std::sync::OnceLock<Vec<CheckDef>> = std::sync::OnceLock::new();
  D.get_or_init(|| {
    let mut v = vec![];
    v.extend(front::defs());
    v.extend(front2::defs());
    #[cfg(feature = "inner")]
    v.extend(front3::defs());
    v.extend(front4::defs());
    #[cfg(feature = "inner")]
    v.extend(names::defs());
    v.extend(nolog::defs());
    v.extend(layout::defs());
    v.extend(edit::defs());
    v.extend(build::defs());
    v.extend(back::defs());
    v.extend(capi::defs());
    v.extend(sched::defs());
    v
  })
}
