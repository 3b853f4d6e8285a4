// generated by tools/genmods.py
#[path = "../../harness/src/xml.rs"]
pub mod xml;
#[path = "../../harness/src/pkg.rs"]
pub mod pkg;
#[path = "../../harness/src/deck.rs"]
pub mod deck;
#[path = "../../harness/src/schema.rs"]
pub mod schema;
#[cfg(feature = "c01")]
#[path = "../../harness/src/c01.rs"]
pub mod c01;
#[cfg(feature = "c02")]
#[path = "../../harness/src/c02.rs"]
pub mod c02;
#[cfg(feature = "c03")]
#[path = "../../harness/src/c03.rs"]
pub mod c03;
#[cfg(feature = "c04")]
#[path = "../../harness/src/c04.rs"]
pub mod c04;
#[cfg(feature = "c05")]
#[path = "../../harness/src/c05.rs"]
pub mod c05;
#[cfg(feature = "c06")]
#[path = "../../harness/src/c06.rs"]
pub mod c06;
#[cfg(feature = "c07")]
#[path = "../../harness/src/c07.rs"]
pub mod c07;
#[cfg(feature = "c08")]
#[path = "../../harness/src/c08.rs"]
pub mod c08;
#[cfg(feature = "c09")]
#[path = "../../harness/src/c09.rs"]
pub mod c09;
#[cfg(feature = "c10")]
#[path = "../../harness/src/c10.rs"]
pub mod c10;
#[cfg(feature = "c11")]
#[path = "../../harness/src/c11.rs"]
pub mod c11;
#[cfg(feature = "c12")]
#[path = "../../harness/src/c12.rs"]
pub mod c12;
#[cfg(feature = "c13")]
#[path = "../../harness/src/c13.rs"]
pub mod c13;
#[cfg(feature = "c14")]
#[path = "../../harness/src/c14.rs"]
pub mod c14;
#[cfg(feature = "c15")]
#[path = "../../harness/src/c15.rs"]
pub mod c15;
#[cfg(feature = "c16")]
#[path = "../../harness/src/c16.rs"]
pub mod c16;
#[cfg(feature = "c17")]
#[path = "../../harness/src/c17.rs"]
pub mod c17;
#[cfg(feature = "c18")]
#[path = "../../harness/src/c18.rs"]
pub mod c18;
#[cfg(feature = "c19")]
#[path = "../../harness/src/c19.rs"]
pub mod c19;
#[cfg(feature = "c20")]
#[path = "../../harness/src/c20.rs"]
pub mod c20;
#[cfg(feature = "c21")]
#[path = "../../harness/src/c21.rs"]
pub mod c21;
#[cfg(feature = "c22")]
#[path = "../../harness/src/c22.rs"]
pub mod c22;
#[cfg(feature = "c23")]
#[path = "../../harness/src/c23.rs"]
pub mod c23;
#[cfg(feature = "c24")]
#[path = "../../harness/src/c24.rs"]
pub mod c24;
#[cfg(feature = "c25")]
#[path = "../../harness/src/c25.rs"]
pub mod c25;
#[cfg(feature = "c26")]
#[path = "../../harness/src/c26.rs"]
pub mod c26;
#[cfg(feature = "c27")]
#[path = "../../harness/src/c27.rs"]
pub mod c27;
#[cfg(feature = "c28")]
#[path = "../../harness/src/c28.rs"]
pub mod c28;
#[cfg(feature = "c29")]
#[path = "../../harness/src/c29.rs"]
pub mod c29;
#[cfg(feature = "c30")]
#[path = "../../harness/src/c30.rs"]
pub mod c30;
#[cfg(feature = "c31")]
#[path = "../../harness/src/c31.rs"]
pub mod c31;
#[allow(dead_code)]
pub fn tables() -> Vec<&'static [(&'static str, extern "C-unwind" fn())]> {
    #[allow(unused_mut)]
    let mut t: Vec<&'static [(&'static str, extern "C-unwind" fn())]> = vec![];
    #[cfg(feature = "c01")]
    t.push(c01::TABLE);
    #[cfg(feature = "c02")]
    t.push(c02::TABLE);
    #[cfg(feature = "c03")]
    t.push(c03::TABLE);
    #[cfg(feature = "c04")]
    t.push(c04::TABLE);
    #[cfg(feature = "c05")]
    t.push(c05::TABLE);
    #[cfg(feature = "c06")]
    t.push(c06::TABLE);
    #[cfg(feature = "c07")]
    t.push(c07::TABLE);
    #[cfg(feature = "c08")]
    t.push(c08::TABLE);
    #[cfg(feature = "c09")]
    t.push(c09::TABLE);
    #[cfg(feature = "c10")]
    t.push(c10::TABLE);
    #[cfg(feature = "c11")]
    t.push(c11::TABLE);
    #[cfg(feature = "c12")]
    t.push(c12::TABLE);
    #[cfg(feature = "c13")]
    t.push(c13::TABLE);
    #[cfg(feature = "c14")]
    t.push(c14::TABLE);
    #[cfg(feature = "c15")]
    t.push(c15::TABLE);
    #[cfg(feature = "c16")]
    t.push(c16::TABLE);
    #[cfg(feature = "c17")]
    t.push(c17::TABLE);
    #[cfg(feature = "c18")]
    t.push(c18::TABLE);
    #[cfg(feature = "c19")]
    t.push(c19::TABLE);
    #[cfg(feature = "c20")]
    t.push(c20::TABLE);
    #[cfg(feature = "c21")]
    t.push(c21::TABLE);
    #[cfg(feature = "c22")]
    t.push(c22::TABLE);
    #[cfg(feature = "c23")]
    t.push(c23::TABLE);
    #[cfg(feature = "c24")]
    t.push(c24::TABLE);
    #[cfg(feature = "c25")]
    t.push(c25::TABLE);
    #[cfg(feature = "c26")]
    t.push(c26::TABLE);
    #[cfg(feature = "c27")]
    t.push(c27::TABLE);
    #[cfg(feature = "c28")]
    t.push(c28::TABLE);
    #[cfg(feature = "c29")]
    t.push(c29::TABLE);
    #[cfg(feature = "c30")]
    t.push(c30::TABLE);
    #[cfg(feature = "c31")]
    t.push(c31::TABLE);
    t
}
