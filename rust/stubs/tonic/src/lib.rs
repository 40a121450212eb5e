//! Stand-in for the part of tonic that the Ficus backend uses: requests, responses, statuses.
pub use tonic_macros::async_trait;

#[derive(Debug, Clone, Default)]
pub struct Request<T> { message: T }
impl<T> Request<T> {
    pub fn new(message: T) -> Self { Request { message } }
    pub fn get_ref(&self) -> &T { &self.message }
    pub fn get_mut(&mut self) -> &mut T { &mut self.message }
    pub fn into_inner(self) -> T { self.message }
}
#[derive(Debug, Clone, Default)]
pub struct Response<T> { message: T }
impl<T> Response<T> {
    pub fn new(message: T) -> Self { Response { message } }
    pub fn get_ref(&self) -> &T { &self.message }
    pub fn get_mut(&mut self) -> &mut T { &mut self.message }
    pub fn into_inner(self) -> T { self.message }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Code {
    Ok = 0, Cancelled, Unknown, InvalidArgument, DeadlineExceeded, NotFound, AlreadyExists, PermissionDenied, ResourceExhausted,
    FailedPrecondition, Aborted, OutOfRange, Unimplemented, Internal, Unavailable, DataLoss, Unauthenticated,
}
#[derive(Debug, Clone)]
pub struct Status { code: Code, message: String }
macro_rules! statuses { ($($f:ident $c:ident),*) => { $(pub fn $f(message: impl Into<String>) -> Self { Status::new(Code::$c, message) })* } }
impl Status {
    pub fn new(code: Code, message: impl Into<String>) -> Self { Status { code, message: message.into() } }
    pub fn code(&self) -> Code { self.code }
    pub fn message(&self) -> &str { &self.message }
    statuses!(ok Ok, cancelled Cancelled, unknown Unknown, invalid_argument InvalidArgument, deadline_exceeded DeadlineExceeded,
        not_found NotFound, already_exists AlreadyExists, permission_denied PermissionDenied, resource_exhausted ResourceExhausted,
        failed_precondition FailedPrecondition, aborted Aborted, out_of_range OutOfRange, unimplemented Unimplemented,
        internal Internal, unavailable Unavailable, data_loss DataLoss, unauthenticated Unauthenticated);
}
impl std::fmt::Display for Status {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { write!(f, "status: {:?}, message: {:?}", self.code, self.message) }
}
impl std::error::Error for Status {}

#[macro_export]
macro_rules! include_proto {
    ($package:tt) => { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/", $package, ".rs")); };
}
