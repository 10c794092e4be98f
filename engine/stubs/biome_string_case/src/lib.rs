//! Signature-only stand-in for the git dependency that is not available offline.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Case { Unknown, Camel, Constant, Kebab, Lower, Number, Pascal, Snake, Uni, Upper }
impl Case {
    pub fn identify(_v: &str, _s: bool) -> Case { loop {} }
    pub fn convert(self, _v: &str) -> String { loop {} }
}
