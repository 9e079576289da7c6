pub mod attr;
pub mod cli;
pub mod climb;
pub mod e;
pub mod edit;
pub mod f;
pub mod g;
pub mod m;
pub mod query;
pub mod value;

use crate::engine::{Case, Local, Shared, Verdict};

pub type Run = fn(&Shared);
pub type Replay = fn(&str, &mut Local) -> Option<Verdict>;

pub struct Check {
    pub id: &'static str,
    pub run: Run,
    pub replay: Replay,
    /// what is enumerated and what judges it
    pub what: &'static str,
}

pub fn replay_as<C: Case>(s: &str, l: &mut Local) -> Option<Verdict> {
    C::parse(s).map(|c| c.run(l))
}

pub fn all() -> Vec<Check> {
    let mut v = Vec::new();
    v.extend(edit::checks());
    v.extend(attr::checks());
    v.extend(climb::checks());
    v.extend(value::checks());
    v.extend(query::checks());
    v.extend(m::checks());
    v.extend(e::checks());
    v.extend(f::checks());
    v.extend(g::checks());
    v.extend(cli::checks());
    v
}

/// `key value` lines; values may contain anything but newlines.
pub fn field<'a>(text: &'a str, key: &str) -> Option<&'a str> {
    text.lines().find_map(|l| {
        if l.starts_with(key) && l[key.len()..].starts_with(' ') {
            Some(&l[key.len() + 1..])
        } else {
            None
        }
    })
}
