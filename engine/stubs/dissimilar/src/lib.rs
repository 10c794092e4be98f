#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Chunk<'a> { Equal(&'a str), Delete(&'a str), Insert(&'a str) }
pub fn diff<'a>(text1: &'a str, text2: &'a str) -> Vec<Chunk<'a>> { loop {} }
