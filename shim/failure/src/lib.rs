//! A small stand-in for the `failure` crate, which is not available offline.
pub use failure_derive::Fail;
use std::any::{Any, TypeId};
use std::fmt::{self, Debug, Display};

pub trait AsAny: 'static {
    fn as_any(&self) -> &dyn Any;
    fn as_any_mut(&mut self) -> &mut dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
    fn type_id_(&self) -> TypeId;
}
impl<T: 'static> AsAny for T {
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn as_any_mut(&mut self) -> &mut dyn Any {
        self
    }
    fn into_any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
    fn type_id_(&self) -> TypeId {
        TypeId::of::<T>()
    }
}
pub trait Fail: AsAny + Display + Debug + Send + Sync + 'static {
    fn name(&self) -> Option<&str> {
        None
    }
    fn cause(&self) -> Option<&dyn Fail> {
        None
    }
    fn context<D: Display + Debug + Send + Sync + 'static>(self, context: D) -> Context<D>
    where
        Self: Sized,
    {
        Context { context, source: Some(Error::from(self)) }
    }
}
impl<E: std::error::Error + Send + Sync + 'static> Fail for E {}
impl dyn Fail {
    pub fn downcast_ref<T: Fail>(&self) -> Option<&T> {
        self.as_any().downcast_ref()
    }
    pub fn downcast_mut<T: Fail>(&mut self) -> Option<&mut T> {
        self.as_any_mut().downcast_mut()
    }
}
#[derive(Debug)]
pub struct Context<D: Display + Debug + Send + Sync + 'static> {
    context: D,
    source: Option<Error>,
}
impl<D: Display + Debug + Send + Sync + 'static> Context<D> {
    pub fn new(context: D) -> Self {
        Context { context, source: None }
    }
    pub fn get_context(&self) -> &D {
        &self.context
    }
}
impl<D: Display + Debug + Send + Sync + 'static> Display for Context<D> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        Display::fmt(&self.context, f)
    }
}
impl<D: Display + Debug + Send + Sync + 'static> Fail for Context<D> {
    fn cause(&self) -> Option<&dyn Fail> {
        self.source.as_ref().map(|e| e.as_fail())
    }
}
pub struct Error(Box<dyn Fail>);
pub type Fallible<T> = Result<T, Error>;
impl<F: Fail> From<F> for Error {
    fn from(f: F) -> Error {
        Error(Box::new(f))
    }
}
impl Error {
    pub fn as_fail(&self) -> &dyn Fail {
        &*self.0
    }
    pub fn cause(&self) -> &dyn Fail {
        &*self.0
    }
    pub fn find_root_cause(&self) -> &dyn Fail {
        let mut c: &dyn Fail = &*self.0;
        while let Some(n) = c.cause() {
            c = n;
        }
        c
    }
    pub fn downcast<T: Fail>(self) -> Result<T, Error> {
        if AsAny::type_id_(&*self.0) == TypeId::of::<T>() {
            Ok(*self.0.into_any().downcast::<T>().unwrap())
        } else {
            Err(self)
        }
    }
    pub fn downcast_ref<T: Fail>(&self) -> Option<&T> {
        AsAny::as_any(&*self.0).downcast_ref()
    }
    pub fn downcast_mut<T: Fail>(&mut self) -> Option<&mut T> {
        AsAny::as_any_mut(&mut *self.0).downcast_mut()
    }
    pub fn context<D: Display + Debug + Send + Sync + 'static>(self, context: D) -> Context<D> {
        Context { context, source: Some(self) }
    }
}
impl Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        Display::fmt(&*self.0, f)
    }
}
impl Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        Debug::fmt(&*self.0, f)
    }
}
#[doc(hidden)]
pub struct ErrorMessage<D>(pub D);
impl<D: Display> Display for ErrorMessage<D> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        Display::fmt(&self.0, f)
    }
}
impl<D: Debug> Debug for ErrorMessage<D> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "ErrorMessage {{ msg: {:?} }}", self.0)
    }
}
impl<D: Display + Debug + Send + Sync + 'static> Fail for ErrorMessage<D> {}
pub fn err_msg<D: Display + Debug + Send + Sync + 'static>(msg: D) -> Error {
    Error::from(ErrorMessage(msg))
}
#[macro_export]
macro_rules! format_err { ($($a:tt)*) => { $crate::err_msg(format!($($a)*)) }; }
#[macro_export]
macro_rules! bail { ($($a:tt)*) => { return Err($crate::format_err!($($a)*)) }; }
#[macro_export]
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { $crate::bail!($($a)*) } }; }
pub trait ResultExt<T, E> {
    fn compat(self) -> Result<T, Error>;
    fn context<D: Display + Debug + Send + Sync + 'static>(self, context: D) -> Result<T, Context<D>>;
}
impl<T, E: Fail> ResultExt<T, E> for Result<T, E> {
    fn compat(self) -> Result<T, Error> {
        self.map_err(Error::from)
    }
    fn context<D: Display + Debug + Send + Sync + 'static>(self, context: D) -> Result<T, Context<D>> {
        self.map_err(|e| e.context(context))
    }
}
