pub mod control { 
    pub fn set_override(b: bool) { loop {} }
    pub fn unset_override() { loop {} }
    pub struct ShouldColorize;
    impl ShouldColorize { pub fn should_colorize(&self) -> bool { loop {} } pub fn from_env() -> Self { loop {} } }
    pub static SHOULD_COLORIZE: ShouldColorize = ShouldColorize;
}
#[derive(Clone, Debug, Default)]
pub struct ColoredString { pub input: String }
impl std::fmt::Display for ColoredString { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { loop {} } }
macro_rules! c { ($($n:ident)*) => { pub trait Colorize { $(fn $n(self) -> ColoredString where Self: Sized { loop {} })* } } }
c!(black red green yellow blue magenta purple cyan white bright_black bright_red bright_green bright_yellow bright_blue bright_cyan bright_white clear normal bold dimmed italic underline reversed);
impl Colorize for &str {}
impl Colorize for ColoredString {}
