pub use bpaf_derive::Bpaf;
pub struct OptionParser<T>(std::marker::PhantomData<T>);
impl<T> OptionParser<T> { pub fn run(self) -> T { loop {} } pub fn fallback_to_usage(self) -> Self { loop {} } }
pub trait Parser<T> {}
