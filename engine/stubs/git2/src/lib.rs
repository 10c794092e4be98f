#![allow(unused_variables, dead_code)]
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error { fn fmt(&self, _: &mut std::fmt::Formatter) -> std::fmt::Result { loop {} } }
impl std::error::Error for Error {}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Status(u32);
impl Status { pub const CURRENT: Status = Status(10); pub const INDEX_NEW: Status = Status(11); pub const INDEX_DELETED: Status = Status(12); pub const INDEX_RENAMED: Status = Status(13); pub const INDEX_TYPECHANGE: Status = Status(14); pub const WT_DELETED: Status = Status(15); pub const WT_TYPECHANGE: Status = Status(16); pub const WT_RENAMED: Status = Status(17); pub const IGNORED: Status = Status(18); pub const CONFLICTED: Status = Status(19); pub const WT_MODIFIED: Status = Status(1); pub const INDEX_MODIFIED: Status = Status(2); pub const WT_NEW: Status = Status(4); pub fn contains(&self, o: Status) -> bool { loop {} } pub fn is_wt_modified(&self) -> bool { loop {} } pub fn is_index_modified(&self) -> bool { loop {} } pub fn intersects(&self, o: Status) -> bool { loop {} } }
impl std::ops::BitOr for Status { type Output = Status; fn bitor(self, o: Status) -> Status { Status(self.0 | o.0) } }
pub struct StatusOptions;
impl StatusOptions { pub fn new() -> Self { loop {} } pub fn include_untracked(&mut self, b: bool) -> &mut Self { loop {} } pub fn recurse_untracked_dirs(&mut self, b: bool) -> &mut Self { loop {} } pub fn include_ignored(&mut self, b: bool) -> &mut Self { loop {} } }
pub struct StatusEntry;
impl StatusEntry { pub fn path(&self) -> Result<&str, Error> { loop {} } pub fn status(&self) -> Status { loop {} } }
pub struct Statuses;
impl Statuses { pub fn iter(&self) -> std::vec::IntoIter<StatusEntry> { loop {} } }
pub struct Repository;
impl Repository { pub fn discover<P: AsRef<std::path::Path>>(p: P) -> Result<Self, Error> { loop {} } pub fn index(&self) -> Result<Index, Error> { loop {} } pub fn open<P: AsRef<std::path::Path>>(p: P) -> Result<Self, Error> { loop {} } pub fn statuses(&self, o: Option<&mut StatusOptions>) -> Result<Statuses, Error> { loop {} } }
pub struct Index;
impl Index { pub fn update_all<T: AsRef<std::path::Path>, I: IntoIterator<Item = T>>(&mut self, p: I, cb: Option<&mut dyn FnMut(&std::path::Path, &[u8]) -> i32>) -> Result<(), Error> { loop {} } pub fn write(&mut self) -> Result<(), Error> { loop {} } }
