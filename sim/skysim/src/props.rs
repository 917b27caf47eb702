//! Which simulated workloads decide which property.
pub struct Prop {
    pub id: &'static str,
    /// profile and share of the runs
    pub profiles: &'static [(&'static str, u32)],
    pub quick: u64,
    pub thorough: u64,
}
const fn p(id: &'static str, profiles: &'static [(&'static str, u32)], quick: u64) -> Prop {
    Prop { id, profiles, quick, thorough: quick * 20 }
}
pub const PROPS: &[Prop] = &[
    p("C01", &[("restart", 6), ("authz", 1), ("term", 1)], 16_000),
    p("C02", &[("crash", 5), ("ioerr", 2), ("term", 1)], 16_000),
    p("C03", &[("crash", 5), ("ioerr", 2), ("term", 1)], 16_000),
    p("C04", &[("crash", 5), ("ioerr", 2), ("term", 1)], 16_000),
    p("C05", &[("conc", 4), ("snap", 2), ("ddlconc", 2)], 18_000),
    p("C06", &[("snap", 4), ("conc", 2), ("ddlconc", 2)], 18_000),
    p("C07", &[("ddlconc", 5), ("restart", 1)], 18_000),
    p("C08", &[("seq", 5), ("frag", 1)], 18_000),
    p("C09", &[("ioerr", 1)], 16_000),
    p("C10", &[("ioerr", 4), ("crash", 1)], 16_000),
    p("C11", &[("term", 4), ("restart", 1)], 16_000),
    p("C12", &[("ddlconc", 3), ("conc", 2), ("evil", 2), ("ioerr", 2), ("term", 2)], 16_000),
    p("C13", &[("frag", 1)], 16_000),
    p("C14", &[("evil", 4), ("frag", 1)], 16_000),
    p("C15", &[("authz", 4), ("evil", 1)], 16_000),
    p("C16", &[("authz", 1)], 16_000),
    p("C17", &[("tamper", 1)], 16_000),
    p("C18", &[("upgrade", 2), ("upcrash", 3)], 16_000),
    p("C19", &[("second", 1)], 16_000),
    p("C22", &[("ddlconc", 3), ("restart", 2), ("authz", 1), ("seq", 1)], 16_000),
    p("C20", &[("evil", 2), ("seq", 2), ("frag", 1), ("conc", 1), ("snap", 1), ("ddlconc", 1), ("restart", 1)], 16_000),
];
pub fn get(id: &str) -> Option<&'static Prop> {
    PROPS.iter().find(|p| p.id == id)
}
