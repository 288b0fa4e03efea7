use crate::engine::Prop;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
pub mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod hours;

pub static ALL: &[Prop] = &[
    c01::PROP, c02::PROP, c03::PROP, c04::PROP, c05::PROP, c06::PROP, c07::PROP, c08::PROP, c09::PROP, c10::PROP,
    c11::PROP, c12::PROP, c13::PROP, c14::PROP, c15::PROP, c16::PROP, c17::PROP, c18::PROP, c19::PROP, c20::PROP,
    c21::PROP, c22::PROP, c23::PROP, c24::PROP,
];
