//@ source --scalar V --only InterpolationError crates/qlab-error/src/lib.rs
//@ source --scalar T --only ComputeError --only QLabError --only "From for QLabError" crates/qlab-error/src/lib.rs
//@ prelude
pub struct ErrString { s: u8 }
#[verifier::external_body]
pub fn qv_msg() -> ErrString { unimplemented!() }
pub type QLabResult<T> = Result<T, QLabError>;
pub open spec fn no_interpolation() -> QLabError { QLabError::ComputeError(ComputeError::InterpolationError) }
pub open spec fn invalid<T>(r: QLabResult<T>) -> bool { r matches Err(QLabError::ComputeError(ComputeError::InvalidInput(_))) }
// thiserror's `#[from]`
impl vstd::std_specs::convert::FromSpecImpl<ComputeError> for QLabError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: ComputeError) -> QLabError { QLabError::ComputeError(e) }
}
impl From<ComputeError> for QLabError { fn from(e: ComputeError) -> QLabError { QLabError::ComputeError(e) } }
impl vstd::std_specs::convert::FromSpecImpl<InterpolationError> for QLabError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: InterpolationError) -> QLabError { no_interpolation() }
}
//@ fn QLabError::from
    ensures res == no_interpolation()
