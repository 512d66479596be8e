//@ file src/result.rs
//@ enum ErrorKind
//@ attrs
#[derive(Debug)]
//@ replace `PlyError(PlyError),` => `` ; loader error payloads are not used by the extracted functions
//@ replace `StlError(StlError),` => `` ; as above
//@ replace `PtxError(PtxError),` => `` ; as above
//@ replace `XyError(XyError),` => `` ; as above
//@ replace `XyzError(XyzError),` => `` ; as above
//@ replace `ObjError(ObjError),` => `` ; as above
//@ replace `OffError(OffError),` => `` ; as above
//@ replace `PslError(PslError),` => `` ; as above
//@ replace `GcodeError(GcodeError),` => `` ; as above
//@ enditem
pub type Result<T> = std::result::Result<T, ErrorKind>;
global size_of usize == 8;
// strong_types.rs: expansion of the macro strong_usize!, derives restated
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct VId(pub usize);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct FId(pub usize);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct EId(pub usize);
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct SId(pub usize);
