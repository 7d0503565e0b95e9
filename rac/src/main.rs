#![allow(clippy::all, dead_code)]
mod env;
mod harness;
mod p_commit;
mod p_gov;
mod p_map;
mod p_pair;
mod p_proof;
mod p_state;
mod svm;
pub use harness::*;

fn main() {
    svm::init();
    let mut v = vec![];
    v.extend(p_state::props());
    v.extend(p_commit::props());
    v.extend(p_proof::props());
    v.extend(p_map::props());
    v.extend(p_gov::props());
    v.extend(p_pair::props());
    // a property's cases of all modules
    let mut all: Vec<(&'static str, Vec<(&'static str, Case)>)> = vec![];
    for (p, cs) in v {
        match all.iter_mut().find(|x| x.0 == p) {
            Some(x) => x.1.extend(cs),
            None => all.push((p, cs)),
        }
    }
    drive(all)
}
