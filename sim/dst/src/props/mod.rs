use crate::Property;

pub mod conc;
pub mod conn;
pub mod c08;

pub mod seq;
pub mod hand;
pub mod huge;
pub mod race;
pub mod subj;
pub mod life;
pub mod time;
pub mod vec;

pub static ALL: &[&Property] = &[&seq::C01, &seq::C02, &seq::C03, &seq::C04, &race::C05, &seq::C06, &race::C07, &c08::P, &hand::C09, &subj::C10, &race::C11, &subj::C12, &subj::C13, &life::C14, &life::C15, &time::C16, &life::C17, &vec::C18, &race::C19];
