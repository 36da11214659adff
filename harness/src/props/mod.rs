use crate::core::Ctx;
pub mod bind;
pub mod build;
pub mod release;
pub mod testing;
pub mod config;
pub mod envs;
pub mod filters;
pub mod finding;
pub mod fsops;
pub mod graph;
pub mod pcache;
pub mod pypkg;
pub mod repo;
pub mod saved;
pub mod reports;
pub mod requirement;
pub mod resolving;
pub mod serial;
pub mod solver;
pub mod suites;
pub mod version;

pub fn all() -> Vec<(&'static str, fn(&mut Ctx))> {
    vec![
        ("C01", version::c01),
        ("C02", version::c02),
        ("C03", version::c03),
        ("C04", version::c04),
        ("C05", requirement::c05),
        ("C06", requirement::c06),
        ("C07", solver::c07),
        ("C08", solver::c08),
        ("C09", graph::c09),
        ("C10", repo::c10),
        ("C11", repo::c11),
        ("C12", fsops::c12),
        ("C13", pcache::c13),
        ("C14", pypkg::c14),
        ("C15", envs::c15),
        ("C16", envs::c16),
        ("C17", serial::c17),
        ("C18", saved::c18),
        ("C19", suites::c19),
        ("C20", filters::c20),
        ("C21", config::c21),
        ("C22", finding::c22),
        ("C23", resolving::c23),
        ("C24", reports::c24),
        ("C25", resolving::c25),
        ("C26", build::c26),
        ("C27", release::c27),
        ("C28", testing::c28),
        ("C29", bind::c29),
    ]
}
