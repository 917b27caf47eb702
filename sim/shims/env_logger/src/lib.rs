//! The simulator installs its own logger; this keeps the builder API the server uses.
#[derive(Default)]
pub struct Builder;
impl Builder {
    pub fn new() -> Self {
        Self
    }
    pub fn from_default_env() -> Self {
        Self
    }
    pub fn parse_filters(&mut self, _: &str) -> &mut Self {
        self
    }
    pub fn parse_default_env(&mut self) -> &mut Self {
        self
    }
    pub fn init(&mut self) {}
    pub fn try_init(&mut self) -> Result<(), std::fmt::Error> {
        Ok(())
    }
}
pub fn init() {}
