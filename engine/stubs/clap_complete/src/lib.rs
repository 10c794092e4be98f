#[derive(Clone, Copy, Debug, PartialEq, Eq, clap::ValueEnum)]
pub enum Shell { Bash, Elvish, Fish, PowerShell, Zsh }
pub trait Generator { fn file_name(&self, name: &str) -> String; }
impl Generator for Shell { fn file_name(&self, name: &str) -> String { loop {} } }
pub fn generate<G: Generator, S: Into<String>>(g: G, cmd: &mut clap::Command, bin_name: S, buf: &mut dyn std::io::Write) { loop {} }
pub use Shell as _Shell;
pub mod shells { pub use crate::Shell; }
