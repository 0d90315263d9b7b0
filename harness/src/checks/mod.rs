use crate::run::Check;
pub mod trees;
pub mod hist;
pub mod query;
pub mod threads;
pub mod values;
pub mod fuzz;
pub mod crash;
pub mod c10;
pub mod c11;
pub mod c17;
pub mod c18;
pub mod c20;

pub fn all() -> Vec<&'static Check> { vec![&crash::C01, &crash::C02, &crash::C08, &hist::C03, &hist::C04, &hist::C07, &hist::C09, &hist::C12, &hist::C13, &hist::C15, &c10::CHECK, &c11::CHECK, &c17::CHECK, &c18::CHECK, &c20::CHECK, &query::C05, &query::C06, &threads::C14, &values::C19, &fuzz::C16] }
pub fn find(id: &str) -> Option<&'static Check> { all().into_iter().find(|c| c.id == id) }
