use crate::run::Ctx;
macro_rules! props {
    ($($m:ident),*) => {
        $(pub mod $m;)*
        pub fn all() -> Vec<Prop> {
            vec![$($m::PROP),*]
        }
    };
}
props!(c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23);
pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&Ctx),
}
