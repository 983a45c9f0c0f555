use crate::ctx::Ctx;

pub mod c01;
#[cfg(not(only_c01))]
pub mod c02;
#[cfg(not(only_c01))]
pub mod c03;
#[cfg(not(only_c01))]
pub mod c04;
#[cfg(not(only_c01))]
pub mod c05;
#[cfg(not(only_c01))]
pub mod c06;
#[cfg(not(only_c01))]
pub mod c07;
#[cfg(not(only_c01))]
pub mod c08;
#[cfg(not(only_c01))]
pub mod c09;
#[cfg(not(only_c01))]
pub mod c10;
#[cfg(not(only_c01))]
pub mod c11;
#[cfg(not(only_c01))]
pub mod c12;
#[cfg(not(only_c01))]
pub mod c13;
#[cfg(not(only_c01))]
pub mod c14;
#[cfg(not(only_c01))]
pub mod c15;
#[cfg(not(only_c01))]
pub mod c16;
#[cfg(not(only_c01))]
pub mod c17;
#[cfg(not(only_c01))]
pub mod c18;
#[cfg(not(only_c01))]
pub mod c19;
#[cfg(not(only_c01))]
pub mod c20;
#[cfg(not(only_c01))]
pub mod c21;
#[cfg(not(only_c01))]
pub mod c22;
#[cfg(not(only_c01))]
pub mod c23;

pub struct Prop {
    pub id: &'static str,
    pub fixed: fn(&mut Ctx),
    pub step: fn(&mut Ctx),
    pub steps: usize,
    /// whether the steps may be spread over threads
    pub shards: bool,
}

macro_rules! props {
    ($($id:literal $m:ident $sh:literal),* $(,)?) => {
        pub fn all() -> Vec<Prop> {
            vec![$(Prop { id: $id, fixed: $m::fixed, step: $m::step, steps: $m::STEPS, shards: $sh }),*]
        }
    };
}
#[cfg(only_c01)]
props! {
    "C01" c01 false,
}
#[cfg(not(only_c01))]
props! {
    "C01" c01 false,
    "C02" c02 true,
    "C03" c03 true,
    "C04" c04 true,
    "C05" c05 true,
    "C06" c06 true,
    "C07" c07 true,
    "C08" c08 true,
    "C09" c09 true,
    "C10" c10 true,
    "C11" c11 true,
    "C12" c12 true,
    "C13" c13 true,
    "C14" c14 true,
    "C15" c15 true,
    "C16" c16 true,
    "C17" c17 true,
    "C18" c18 true,
    "C19" c19 false,
    "C20" c20 false,
    "C21" c21 true,
    "C22" c22 true,
    "C23" c23 true,
}
