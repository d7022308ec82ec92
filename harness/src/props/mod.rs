use crate::ctx::Cx;
mod accessors;
pub mod cost;
mod prompt;
mod data;
mod open;
mod session;
mod stream;
mod ub;

pub fn prop(id: &str) -> Option<fn(&mut Cx)> {
    data::prop(id).or_else(|| stream::prop(id)).or_else(|| session::prop(id)).or_else(|| accessors::prop(id)).or_else(|| open::prop(id)).or_else(|| ub::prop(id)).or_else(|| cost::prop(id)).or_else(|| prompt::prop(id))
}
