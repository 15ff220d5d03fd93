//! Listed genuine defects of the program under test that are not repaired.
use crate::kernel::World;
use serde::Deserialize;

#[derive(Clone, Debug, Deserialize)]
pub struct Entry {
    pub id: String,
    pub property: String,
    pub class: String,
    /// history that makes the defect show, see `holds`
    pub when: String,
    pub what: String,
}

#[derive(Clone, Debug, Deserialize, Default)]
pub struct List {
    pub known: Vec<Entry>,
}

static mut LIST: *const List = std::ptr::null();

pub fn set(l: &'static List) {
    unsafe { LIST = l }
}
pub fn list() -> &'static [Entry] {
    unsafe {
        if LIST.is_null() {
            &[]
        } else {
            &(*LIST).known
        }
    }
}

/// Is this violation one that the committed list describes?
pub fn matches(w: &World, props: &[String], class: &str) -> Option<String> {
    for e in list() {
        if e.class == class && props.iter().any(|p| *p == e.property) && holds(w, &e.when) {
            return Some(e.id.clone());
        }
    }
    None
}

/// Conditions over the history of the run in progress.
fn holds(_w: &World, _when: &str) -> bool {
    false
}
