use crate::engine::{def, Def};
pub mod attached;
pub mod blob;
pub mod bulk;
pub mod cost;
pub mod cross;
pub mod crash;
pub mod fault;
pub mod leak;
pub mod linear;
pub mod paged;
pub mod point;
pub mod show;
pub mod snapshot;
pub mod stored;
pub mod threads;
pub mod userfn;

pub fn all() -> Vec<Def> {
    vec![
        def::<point::C01>(),
        def::<point::C02>(),
        def::<point::C03>(),
        def::<bulk::C04>(),
        def::<bulk::C05>(),
        def::<bulk::C06>(),
        def::<bulk::C07>(),
        def::<point::C08>(),
        def::<point::C09>(),
        def::<snapshot::C10>(),
        def::<attached::C11>(),
        def::<attached::C12>(),
        def::<cross::C13>(),
        def::<stored::C14>(),
        def::<fault::C15>(),
        def::<paged::C16>(),
        def::<crash::C17>(),
        def::<crash::C18>(),
        def::<paged::C19>(),
        def::<threads::C20>(),
        def::<blob::C21>(),
        def::<blob::C22>(),
        def::<leak::C23>(),
        def::<stored::C24>(),
        def::<stored::C25>(),
        def::<crash::C26>(),
        def::<userfn::C27>(),
        def::<cost::C28>(),
        def::<paged::C32>(),
        def::<show::C33>(),
        def::<linear::C34>(),
    ]
}
pub fn find(id: &str) -> Option<&'static Def> {
    all().into_iter().find(|d| d.id == id).map(|d| &*Box::leak(Box::new(d)))
}
