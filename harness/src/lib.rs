#![allow(clippy::all)]
#![allow(unused_imports, dead_code, deprecated)]
pub mod fw;
pub mod gen;
#[cfg(any(feature = "c45", feature = "c46"))]
pub mod other;
pub mod shapes;

macro_rules! props {
    ($($m:ident $f:literal $id:literal;)*) => {
        $( #[cfg(feature = $f)] pub mod $m; )*
        pub fn find(id: &str) -> Option<fw::Prop> {
            match id {
                $( #[cfg(feature = $f)] $id => Some($m::prop()), )*
                _ => None,
            }
        }
    };
}
props! {
    c48 "c48" "C48";
    c50 "c50" "C50";
    c51 "c51" "C51";
    c49 "c49" "C49";
    c47 "c47" "C47";
    c46 "c46" "C46";
    c45 "c45" "C45";
    c44 "c44" "C44";
    c42 "c42" "C42";
    c43 "c43" "C43";
    c40 "c40" "C40";
    c41 "c41" "C41";
    c39 "c39" "C39";
    c38 "c38" "C38";
    c37 "c37" "C37";
    c36 "c36" "C36";
    c35 "c35" "C35";
    c34 "c34" "C34";
    c33 "c33" "C33";
    c32 "c32" "C32";
    c31 "c31" "C31";
    c30 "c30" "C30";
    c29 "c29" "C29";
    c28 "c28" "C28";
    c27 "c27" "C27";
    c26 "c26" "C26";
    c25 "c25" "C25";
    c24 "c24" "C24";
    c23 "c23" "C23";
    c22 "c22" "C22";
    c21 "c21" "C21";
    c20 "c20" "C20";
    c19 "c19" "C19";
    c18 "c18" "C18";
    c17 "c17" "C17";
    c16 "c16" "C16";
    c15 "c15" "C15";
    c14 "c14" "C14";
    c13 "c13" "C13";
    c12 "c12" "C12";
    c11 "c11" "C11";
    c10 "c10" "C10";
    c09 "c09" "C09";
    c08 "c08" "C08";
    c07 "c07" "C07";
    c06 "c06" "C06";
    c05 "c05" "C05";
    c04 "c04" "C04";
    c03 "c03" "C03";
    c02 "c02" "C02";
    c01 "c01" "C01";
}
