//! See Cargo.toml. Semantics follow inkwell: thin wrappers, lifetimes tied to the Context.
#![allow(clippy::all, unused)]
pub mod ffi;
use ffi::*;
use std::ffi::{CStr, CString};
use std::fmt;
use std::marker::PhantomData;
use std::os::raw::{c_char, c_uint};

fn cs(s: &str) -> CString { CString::new(s).expect("nul byte in name") }
fn take(m: *mut c_char) -> String {
    if m.is_null() { return String::new(); }
    unsafe { let s = CStr::from_ptr(m).to_string_lossy().into_owned(); LLVMDisposeMessage(m); s }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OptimizationLevel { None = 0, Less = 1, Default = 2, Aggressive = 3 }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum IntPredicate { EQ = 32, NE = 33, UGT = 34, UGE = 35, ULT = 36, ULE = 37, SGT = 38, SGE = 39, SLT = 40, SLE = 41 }
#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct AddressSpace(u32);
impl From<u16> for AddressSpace { fn from(v: u16) -> Self { AddressSpace(v as u32) } }

pub struct LLVMString(pub String);
impl fmt::Display for LLVMString { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) } }
impl fmt::Debug for LLVMString { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}", self.0) } }
impl std::error::Error for LLVMString {}

macro_rules! refty {
    ($n:ident) => {
        #[derive(Clone, Copy, PartialEq, Eq, Hash)]
        pub struct $n<'ctx> { pub(crate) r: Ref, pub(crate) _m: PhantomData<&'ctx ()> }
        impl<'ctx> $n<'ctx> { #[allow(dead_code)] pub(crate) fn mk(r: Ref) -> Self { assert!(!r.is_null(), concat!("null ", stringify!($n))); Self { r, _m: PhantomData } } }
    };
}
macro_rules! dbg_ty { ($($n:ident),*) => { $(impl<'c> fmt::Debug for $n<'c> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&take(unsafe { LLVMPrintTypeToString(self.r) })) } }
 impl<'c> fmt::Display for $n<'c> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&take(unsafe { LLVMPrintTypeToString(self.r) })) } })* } }
macro_rules! dbg_val { ($($n:ident),*) => { $(impl<'c> fmt::Debug for $n<'c> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&take(unsafe { LLVMPrintValueToString(self.r) })) } }
 impl<'c> fmt::Display for $n<'c> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&take(unsafe { LLVMPrintValueToString(self.r) })) } })* } }

pub mod context {
    use super::*;
    use crate::{basic_block::*, builder::*, module::*, types::*, values::*};
    pub struct Context { pub(crate) r: Ref }
    impl fmt::Debug for Context { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("Context") } }
    impl Context {
        pub fn create() -> Self { Context { r: unsafe { LLVMContextCreate() } } }
        pub fn create_module<'c>(&'c self, n: &str) -> Module<'c> { Module { r: unsafe { LLVMModuleCreateWithNameInContext(cs(n).as_ptr(), self.r) }, _m: PhantomData } }
        pub fn create_builder<'c>(&'c self) -> Builder<'c> { Builder { r: unsafe { LLVMCreateBuilderInContext(self.r) }, _m: PhantomData } }
        pub fn append_basic_block<'c>(&'c self, f: FunctionValue<'c>, n: &str) -> BasicBlock<'c> { BasicBlock::mk(unsafe { LLVMAppendBasicBlockInContext(self.r, f.r, cs(n).as_ptr()) }) }
        pub fn custom_width_int_type(&self, n: u32) -> IntType<'_> { IntType::mk(unsafe { LLVMIntTypeInContext(self.r, n) }) }
        pub fn bool_type(&self) -> IntType<'_> { self.custom_width_int_type(1) }
        pub fn i8_type(&self) -> IntType<'_> { self.custom_width_int_type(8) }
        pub fn i16_type(&self) -> IntType<'_> { self.custom_width_int_type(16) }
        pub fn i32_type(&self) -> IntType<'_> { self.custom_width_int_type(32) }
        pub fn i64_type(&self) -> IntType<'_> { self.custom_width_int_type(64) }
        pub fn i128_type(&self) -> IntType<'_> { self.custom_width_int_type(128) }
        pub fn void_type(&self) -> VoidType<'_> { VoidType::mk(unsafe { LLVMVoidTypeInContext(self.r) }) }
        pub fn ptr_type(&self, a: AddressSpace) -> PointerType<'_> { PointerType::mk(unsafe { LLVMPointerTypeInContext(self.r, a.0) }) }
        pub fn struct_type<'c>(&'c self, e: &[BasicTypeEnum<'c>], packed: bool) -> StructType<'c> {
            let v: Vec<Ref> = e.iter().map(|t| t.raw()).collect();
            StructType::mk(unsafe { LLVMStructTypeInContext(self.r, v.as_ptr(), v.len() as c_uint, packed as i32) })
        }
        pub fn const_string(&self, s: &[u8], null_terminated: bool) -> ArrayValue<'_> {
            ArrayValue::mk(unsafe { LLVMConstStringInContext(self.r, s.as_ptr() as *const c_char, s.len() as c_uint, !null_terminated as i32) })
        }
    }
}

pub mod memory_buffer {
    use super::*;
    pub struct MemoryBuffer { pub(crate) r: Ref }
    impl MemoryBuffer {
        pub fn create_from_memory_range(d: &[u8], n: &str) -> Self { Self::create_from_memory_range_copy(d, n) }
        pub fn create_from_memory_range_copy(d: &[u8], n: &str) -> Self {
            MemoryBuffer { r: unsafe { LLVMCreateMemoryBufferWithMemoryRangeCopy(d.as_ptr() as *const c_char, d.len(), cs(n).as_ptr()) } }
        }
        pub fn as_slice(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(LLVMGetBufferStart(self.r) as *const u8, LLVMGetBufferSize(self.r)) } }
    }
}

pub mod basic_block {
    use super::*;
    refty!(BasicBlock);
    impl<'c> fmt::Debug for BasicBlock<'c> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "BB({:?})", self.r) } }
    impl<'c> BasicBlock<'c> {
        pub fn get_terminator(&self) -> Option<()> { extern "C" { fn LLVMGetBasicBlockTerminator(b: Ref) -> Ref; } let t = unsafe { LLVMGetBasicBlockTerminator(self.r) }; if t.is_null() { None } else { Some(()) } }
    }
}

pub mod types {
    use super::*;
    use crate::values::*;
    refty!(IntType); refty!(ArrayType); refty!(PointerType); refty!(StructType); refty!(VoidType); refty!(FunctionType); refty!(FloatType); refty!(VectorType);
    dbg_ty!(IntType, ArrayType, PointerType, StructType, VoidType, FunctionType, FloatType, VectorType);
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum StringRadix { Binary = 2, Octal = 8, Decimal = 10, Hexadecimal = 16, Alphanumeric = 36 }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum BasicTypeEnum<'c> { ArrayType(ArrayType<'c>), FloatType(FloatType<'c>), IntType(IntType<'c>), PointerType(PointerType<'c>), StructType(StructType<'c>), VectorType(VectorType<'c>) }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum BasicMetadataTypeEnum<'c> { Basic(BasicTypeEnum<'c>) }
    impl<'c> From<BasicTypeEnum<'c>> for BasicMetadataTypeEnum<'c> { fn from(t: BasicTypeEnum<'c>) -> Self { BasicMetadataTypeEnum::Basic(t) } }
    impl<'c> BasicMetadataTypeEnum<'c> { pub(crate) fn raw(&self) -> Ref { let BasicMetadataTypeEnum::Basic(b) = self; b.raw() } }
    impl<'c> fmt::Display for BasicTypeEnum<'c> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&take(unsafe { LLVMPrintTypeToString(self.raw()) })) } }
    pub(crate) fn basic_of(r: Ref) -> BasicTypeEnum<'static> {
        // LLVMTypeKind: 8 Integer, 10 Struct, 11 Array, 12 Pointer, 13 Vector
        match unsafe { LLVMGetTypeKind(r) } {
            8 => BasicTypeEnum::IntType(IntType::mk(r)), 10 => BasicTypeEnum::StructType(StructType::mk(r)),
            11 => BasicTypeEnum::ArrayType(ArrayType::mk(r)), 12 => BasicTypeEnum::PointerType(PointerType::mk(r)),
            2 | 3 | 1 => BasicTypeEnum::FloatType(FloatType::mk(r)), 13 => BasicTypeEnum::VectorType(VectorType::mk(r)),
            k => unreachable!("not a basic type (kind {})", k),
        }
    }
    impl<'c> BasicTypeEnum<'c> {
        pub(crate) fn raw(&self) -> Ref { match self { Self::ArrayType(t) => t.r, Self::FloatType(t) => t.r, Self::IntType(t) => t.r, Self::PointerType(t) => t.r, Self::StructType(t) => t.r, Self::VectorType(t) => t.r } }
        pub(crate) fn of(r: Ref) -> Self { basic_of(r) }
        pub fn is_int_type(self) -> bool { matches!(self, Self::IntType(_)) }
        pub fn is_array_type(self) -> bool { matches!(self, Self::ArrayType(_)) }
        pub fn is_pointer_type(self) -> bool { matches!(self, Self::PointerType(_)) }
        pub fn is_struct_type(self) -> bool { matches!(self, Self::StructType(_)) }
        pub fn into_int_type(self) -> IntType<'c> { if let Self::IntType(t) = self { t } else { panic!("Found {:?} but expected the IntType variant", self) } }
        pub fn into_array_type(self) -> ArrayType<'c> { if let Self::ArrayType(t) = self { t } else { panic!("Found {:?} but expected the ArrayType variant", self) } }
        pub fn into_pointer_type(self) -> PointerType<'c> { if let Self::PointerType(t) = self { t } else { panic!("Found {:?} but expected the PointerType variant", self) } }
        pub fn into_struct_type(self) -> StructType<'c> { if let Self::StructType(t) = self { t } else { panic!("Found {:?} but expected the StructType variant", self) } }
        pub fn const_zero(self) -> BasicValueEnum<'c> { BasicValueEnum::of(unsafe { LLVMConstNull(self.raw()) }) }
    }
    pub trait BasicType<'c>: Copy {
        fn as_basic_type_enum(&self) -> BasicTypeEnum<'c>;
        fn fn_type(&self, p: &[BasicMetadataTypeEnum<'c>], va: bool) -> FunctionType<'c> { mkfn(self.as_basic_type_enum().raw(), p, va) }
        fn array_type(&self, n: u32) -> ArrayType<'c> { ArrayType::mk(unsafe { LLVMArrayType(self.as_basic_type_enum().raw(), n) }) }
        fn is_sized(&self) -> bool { unsafe { LLVMTypeIsSized(self.as_basic_type_enum().raw()) != 0 } }
    }
    fn mkfn<'c>(r: Ref, p: &[BasicMetadataTypeEnum<'c>], va: bool) -> FunctionType<'c> {
        let v: Vec<Ref> = p.iter().map(|t| t.raw()).collect();
        FunctionType::mk(unsafe { LLVMFunctionType(r, v.as_ptr(), v.len() as c_uint, va as i32) })
    }
    macro_rules! basic { ($($t:ident),*) => { $(
        impl<'c> BasicType<'c> for $t<'c> { fn as_basic_type_enum(&self) -> BasicTypeEnum<'c> { BasicTypeEnum::$t(*self) } }
        impl<'c> From<$t<'c>> for BasicTypeEnum<'c> { fn from(t: $t<'c>) -> Self { BasicTypeEnum::$t(t) } }
        impl<'c> From<$t<'c>> for BasicMetadataTypeEnum<'c> { fn from(t: $t<'c>) -> Self { BasicMetadataTypeEnum::Basic(BasicTypeEnum::$t(t)) } }
        impl<'c> $t<'c> { pub fn is_sized(self) -> bool { unsafe { LLVMTypeIsSized(self.r) != 0 } } }
    )* } }
    basic!(IntType, ArrayType, PointerType, StructType);
    impl<'c> BasicType<'c> for BasicTypeEnum<'c> { fn as_basic_type_enum(&self) -> BasicTypeEnum<'c> { *self } }
    impl<'c> VoidType<'c> { pub fn fn_type(self, p: &[BasicMetadataTypeEnum<'c>], va: bool) -> FunctionType<'c> { mkfn(self.r, p, va) } }
    impl<'c> FunctionType<'c> {
        pub fn get_return_type(self) -> Option<BasicTypeEnum<'c>> { let r = unsafe { LLVMGetReturnType(self.r) }; if unsafe { LLVMGetTypeKind(r) } == 0 { None } else { Some(BasicTypeEnum::of(r)) } }
    }
    impl<'c> StructType<'c> {
        pub fn get_field_type_at_index(self, i: u32) -> Option<BasicTypeEnum<'c>> { if i >= unsafe { LLVMCountStructElementTypes(self.r) } { None } else { Some(BasicTypeEnum::of(unsafe { LLVMStructGetTypeAtIndex(self.r, i) })) } }
        pub fn count_fields(self) -> u32 { unsafe { LLVMCountStructElementTypes(self.r) } }
    }
    impl<'c> ArrayType<'c> {
        pub fn len(self) -> u32 { unsafe { LLVMGetArrayLength(self.r) } }
        pub fn get_element_type(self) -> BasicTypeEnum<'c> { BasicTypeEnum::of(unsafe { LLVMGetElementType(self.r) }) }
        pub fn const_zero(self) -> ArrayValue<'c> { ArrayValue::mk(unsafe { LLVMConstNull(self.r) }) }
    }
    impl<'c> PointerType<'c> { pub fn const_null(self) -> PointerValue<'c> { PointerValue::mk(unsafe { LLVMConstNull(self.r) }) } pub fn const_zero(self) -> PointerValue<'c> { self.const_null() } }
    impl<'c> IntType<'c> {
        pub fn get_bit_width(self) -> u32 { unsafe { LLVMGetIntTypeWidth(self.r) } }
        pub fn const_int(self, v: u64, sx: bool) -> IntValue<'c> { IntValue::mk(unsafe { LLVMConstInt(self.r, v, sx as i32) }) }
        pub fn const_zero(self) -> IntValue<'c> { IntValue::mk(unsafe { LLVMConstNull(self.r) }) }
        pub fn const_all_ones(self) -> IntValue<'c> { extern "C" { fn LLVMConstAllOnes(t: Ref) -> Ref; } IntValue::mk(unsafe { LLVMConstAllOnes(self.r) }) }
        pub fn const_int_from_string(self, s: &str, radix: StringRadix) -> Option<IntValue<'c>> {
            // inkwell accepts ^[-+]?[digits of the radix]+$ and rejects anything else
            let body = s.strip_prefix(|c| c == '-' || c == '+').unwrap_or(s);
            if body.is_empty() || !body.chars().all(|c| c.is_digit(radix as u32)) { return None; }
            Some(IntValue::mk(unsafe { LLVMConstIntOfStringAndSize(self.r, s.as_ptr() as *const c_char, s.len() as c_uint, radix as u8) }))
        }
    }
}

pub mod values {
    use super::*;
    use crate::types::*;
    refty!(IntValue); refty!(PointerValue); refty!(ArrayValue); refty!(StructValue); refty!(FunctionValue); refty!(GlobalValue); refty!(CallSiteValue); refty!(InstructionValue); refty!(PhiValue);
    dbg_val!(IntValue, PointerValue, ArrayValue, StructValue, FunctionValue, GlobalValue, CallSiteValue, InstructionValue, PhiValue);
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub enum BasicValueEnum<'c> { ArrayValue(ArrayValue<'c>), IntValue(IntValue<'c>), PointerValue(PointerValue<'c>), StructValue(StructValue<'c>) }
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct BasicMetadataValueEnum<'c>(pub(crate) BasicValueEnum<'c>);
    impl<'c> From<BasicValueEnum<'c>> for BasicMetadataValueEnum<'c> { fn from(v: BasicValueEnum<'c>) -> Self { Self(v) } }
    impl<'c> BasicValueEnum<'c> {
        pub(crate) fn raw(&self) -> Ref { match self { Self::ArrayValue(v) => v.r, Self::IntValue(v) => v.r, Self::PointerValue(v) => v.r, Self::StructValue(v) => v.r } }
        pub(crate) fn of(r: Ref) -> Self {
            match basic_of(unsafe { LLVMTypeOf(r) }) {
                BasicTypeEnum::IntType(_) => Self::IntValue(IntValue::mk(r)), BasicTypeEnum::PointerType(_) => Self::PointerValue(PointerValue::mk(r)),
                BasicTypeEnum::ArrayType(_) => Self::ArrayValue(ArrayValue::mk(r)), BasicTypeEnum::StructType(_) => Self::StructValue(StructValue::mk(r)),
                t => unreachable!("value type {:?}", t),
            }
        }
        pub fn get_type(&self) -> BasicTypeEnum<'c> { BasicTypeEnum::of(unsafe { LLVMTypeOf(self.raw()) }) }
        pub fn is_int_value(self) -> bool { matches!(self, Self::IntValue(_)) }
        pub fn is_pointer_value(self) -> bool { matches!(self, Self::PointerValue(_)) }
        pub fn is_array_value(self) -> bool { matches!(self, Self::ArrayValue(_)) }
        pub fn is_struct_value(self) -> bool { matches!(self, Self::StructValue(_)) }
        pub fn into_int_value(self) -> IntValue<'c> { if let Self::IntValue(v) = self { v } else { panic!("Found {:?} but expected the IntValue variant", self) } }
        pub fn into_pointer_value(self) -> PointerValue<'c> { if let Self::PointerValue(v) = self { v } else { panic!("Found {:?} but expected the PointerValue variant", self) } }
        pub fn into_array_value(self) -> ArrayValue<'c> { if let Self::ArrayValue(v) = self { v } else { panic!("Found {:?} but expected the ArrayValue variant", self) } }
        pub fn into_struct_value(self) -> StructValue<'c> { if let Self::StructValue(v) = self { v } else { panic!("Found {:?} but expected the StructValue variant", self) } }
        pub fn set_name(&self, _n: &str) {}
    }
    pub trait BasicValue<'c> { fn as_basic_value_enum(&self) -> BasicValueEnum<'c>; }
    impl<'c> BasicValue<'c> for BasicValueEnum<'c> { fn as_basic_value_enum(&self) -> BasicValueEnum<'c> { *self } }
    macro_rules! vals { ($($v:ident),*) => { $(
        impl<'c> BasicValue<'c> for $v<'c> { fn as_basic_value_enum(&self) -> BasicValueEnum<'c> { BasicValueEnum::$v(*self) } }
        impl<'c> From<$v<'c>> for BasicValueEnum<'c> { fn from(v: $v<'c>) -> Self { BasicValueEnum::$v(v) } }
        impl<'c> From<$v<'c>> for BasicMetadataValueEnum<'c> { fn from(v: $v<'c>) -> Self { Self(BasicValueEnum::$v(v)) } }
    )* } }
    vals!(IntValue, PointerValue, ArrayValue, StructValue);
    impl<'c> IntValue<'c> {
        pub fn get_type(self) -> IntType<'c> { IntType::mk(unsafe { LLVMTypeOf(self.r) }) }
        pub fn is_const(self) -> bool { unsafe { LLVMIsConstant(self.r) != 0 } }
        pub fn get_zero_extended_constant(self) -> Option<u64> { extern "C" { fn LLVMIsAConstantInt(v: Ref) -> Ref; fn LLVMConstIntGetZExtValue(v: Ref) -> u64; } unsafe { if LLVMIsAConstantInt(self.r).is_null() || self.get_type().get_bit_width() > 64 { None } else { Some(LLVMConstIntGetZExtValue(self.r)) } } }
    }
    impl<'c> PointerValue<'c> { pub fn get_type(self) -> PointerType<'c> { PointerType::mk(unsafe { LLVMTypeOf(self.r) }) } }
    impl<'c> FunctionValue<'c> {
        pub fn get_nth_param(self, n: u32) -> Option<BasicValueEnum<'c>> { if n >= unsafe { LLVMCountParams(self.r) } { None } else { Some(BasicValueEnum::of(unsafe { LLVMGetParam(self.r, n) })) } }
        pub fn get_type(self) -> FunctionType<'c> { FunctionType::mk(unsafe { LLVMGlobalGetValueType(self.r) }) }
    }
    impl<'c> GlobalValue<'c> {
        pub fn set_initializer(self, v: &dyn BasicValue<'c>) { unsafe { LLVMSetInitializer(self.r, v.as_basic_value_enum().raw()) } }
        pub fn as_pointer_value(self) -> PointerValue<'c> { PointerValue::mk(self.r) }
        pub fn set_constant(self, c: bool) { extern "C" { fn LLVMSetGlobalConstant(g: Ref, c: i32); } unsafe { LLVMSetGlobalConstant(self.r, c as i32) } }
        pub fn set_linkage(self, l: crate::module::Linkage) { unsafe { LLVMSetLinkage(self.r, l.raw()) } }
    }
    pub struct Either<L, R>(Result<L, R>);
    impl<L, R> Either<L, R> { pub fn left(self) -> Option<L> { self.0.ok() } pub fn right(self) -> Option<R> { self.0.err() } }
    impl<'c> CallSiteValue<'c> {
        pub fn try_as_basic_value(self) -> Either<BasicValueEnum<'c>, InstructionValue<'c>> {
            let t = unsafe { LLVMGetTypeKind(LLVMTypeOf(self.r)) };
            Either(if t == 0 { Err(InstructionValue::mk(self.r)) } else { Ok(BasicValueEnum::of(self.r)) })
        }
    }
    impl<'c> PhiValue<'c> {
        pub fn add_incoming(self, inc: &[(&dyn BasicValue<'c>, crate::basic_block::BasicBlock<'c>)]) { let v: Vec<Ref> = inc.iter().map(|x| x.0.as_basic_value_enum().raw()).collect(); let b: Vec<Ref> = inc.iter().map(|x| x.1.r).collect(); unsafe { LLVMAddIncoming(self.r, v.as_ptr(), b.as_ptr(), v.len() as c_uint) } }
        pub fn as_basic_value(self) -> BasicValueEnum<'c> { BasicValueEnum::of(self.r) }
    }
}

pub mod module {
    use super::*;
    use crate::{context::Context, memory_buffer::MemoryBuffer, types::*, values::*};
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Linkage { External, Internal, Private, WeakAny, LinkOnceAny }
    impl Linkage { pub(crate) fn raw(self) -> i32 { match self { Linkage::External => 0, Linkage::LinkOnceAny => 2, Linkage::WeakAny => 5, Linkage::Internal => 8, Linkage::Private => 9 } } }
    pub struct Module<'ctx> { pub(crate) r: Ref, pub(crate) _m: PhantomData<&'ctx Context> }
    impl<'c> fmt::Debug for Module<'c> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("Module") } }
    impl<'c> Module<'c> {
        pub fn parse_bitcode_from_buffer(b: &MemoryBuffer, c: &'c Context) -> Result<Self, LLVMString> {
            let mut m: Ref = std::ptr::null_mut();
            if unsafe { LLVMParseBitcodeInContext2(c.r, b.r, &mut m) } != 0 { return Err(LLVMString("bitcode parse error".into())); }
            Ok(Module { r: m, _m: PhantomData })
        }
        pub fn link_in_module(&self, o: Module<'c>) -> Result<(), LLVMString> { if unsafe { LLVMLinkModules2(self.r, o.r) } != 0 { Err(LLVMString("link error".into())) } else { Ok(()) } }
        pub fn get_function(&self, n: &str) -> Option<FunctionValue<'c>> { let r = unsafe { LLVMGetNamedFunction(self.r, cs(n).as_ptr()) }; if r.is_null() { None } else { Some(FunctionValue::mk(r)) } }
        pub fn get_global(&self, n: &str) -> Option<GlobalValue<'c>> { let r = unsafe { LLVMGetNamedGlobal(self.r, cs(n).as_ptr()) }; if r.is_null() { None } else { Some(GlobalValue::mk(r)) } }
        pub fn add_global<T: BasicType<'c>>(&self, t: T, a: Option<AddressSpace>, n: &str) -> GlobalValue<'c> {
            let raw = t.as_basic_type_enum().raw();
            GlobalValue::mk(unsafe { match a { None => LLVMAddGlobal(self.r, raw, cs(n).as_ptr()), Some(a) => LLVMAddGlobalInAddressSpace(self.r, raw, cs(n).as_ptr(), a.0) } })
        }
        pub fn add_function(&self, n: &str, t: FunctionType<'c>, l: Option<Linkage>) -> FunctionValue<'c> {
            let f = unsafe { LLVMAddFunction(self.r, cs(n).as_ptr(), t.r) };
            if let Some(l) = l { unsafe { LLVMSetLinkage(f, l.raw()) } }
            FunctionValue::mk(f)
        }
        pub fn print_to_file<P: AsRef<std::path::Path>>(&self, p: P) -> Result<(), LLVMString> {
            let mut e: *mut c_char = std::ptr::null_mut();
            if unsafe { LLVMPrintModuleToFile(self.r, cs(p.as_ref().to_str().unwrap()).as_ptr(), &mut e) } != 0 { Err(LLVMString(take(e))) } else { Ok(()) }
        }
        pub fn print_to_string(&self) -> LLVMString { LLVMString(take(unsafe { LLVMPrintModuleToString(self.r) })) }
        pub fn verify(&self) -> Result<(), LLVMString> { let mut e: *mut c_char = std::ptr::null_mut(); let bad = unsafe { LLVMVerifyModule(self.r, 2, &mut e) } != 0; let s = take(e); if bad { Err(LLVMString(s)) } else { Ok(()) } }
    }
}

pub mod builder {
    use super::*;
    use crate::{basic_block::*, types::*, values::*};
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub enum BuilderError { UnsetPosition, Other(&'static str) }
    impl fmt::Display for BuilderError { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}", self) } }
    impl std::error::Error for BuilderError {}
    pub struct Builder<'ctx> { pub(crate) r: Ref, pub(crate) _m: PhantomData<&'ctx ()> }
    impl<'c> fmt::Debug for Builder<'c> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str("Builder") } }
    type R<T> = Result<T, BuilderError>;
    macro_rules! bin { ($($n:ident $f:ident),*) => { $(pub fn $n(&self, l: IntValue<'c>, r: IntValue<'c>, n: &str) -> R<IntValue<'c>> { self.pos()?; same(l, r); Ok(IntValue::mk(unsafe { $f(self.r, l.r, r.r, cs(n).as_ptr()) })) })* } }
    fn same(l: IntValue, r: IntValue) { assert!(l.get_type() == r.get_type(), "operands of different types: {:?} / {:?}", l, r); }
    impl<'c> Builder<'c> {
        fn pos(&self) -> R<()> { if unsafe { LLVMGetInsertBlock(self.r) }.is_null() { Err(BuilderError::UnsetPosition) } else { Ok(()) } }
        pub fn position_at_end(&self, b: BasicBlock<'c>) { unsafe { LLVMPositionBuilderAtEnd(self.r, b.r) } }
        pub fn get_insert_block(&self) -> Option<BasicBlock<'c>> { let r = unsafe { LLVMGetInsertBlock(self.r) }; if r.is_null() { None } else { Some(BasicBlock::mk(r)) } }
        bin!(build_int_add LLVMBuildAdd, build_int_sub LLVMBuildSub, build_int_mul LLVMBuildMul, build_int_unsigned_div LLVMBuildUDiv, build_int_signed_div LLVMBuildSDiv, build_int_unsigned_rem LLVMBuildURem, build_int_signed_rem LLVMBuildSRem, build_and LLVMBuildAnd, build_or LLVMBuildOr, build_xor LLVMBuildXor, build_left_shift LLVMBuildShl);
        pub fn build_right_shift(&self, l: IntValue<'c>, r: IntValue<'c>, sx: bool, n: &str) -> R<IntValue<'c>> { self.pos()?; same(l, r); Ok(IntValue::mk(unsafe { if sx { LLVMBuildAShr(self.r, l.r, r.r, cs(n).as_ptr()) } else { LLVMBuildLShr(self.r, l.r, r.r, cs(n).as_ptr()) } })) }
        pub fn build_not(&self, v: IntValue<'c>, n: &str) -> R<IntValue<'c>> { self.pos()?; Ok(IntValue::mk(unsafe { LLVMBuildNot(self.r, v.r, cs(n).as_ptr()) })) }
        pub fn build_int_neg(&self, v: IntValue<'c>, n: &str) -> R<IntValue<'c>> { self.pos()?; Ok(IntValue::mk(unsafe { LLVMBuildNeg(self.r, v.r, cs(n).as_ptr()) })) }
        pub fn build_int_compare(&self, p: IntPredicate, l: IntValue<'c>, r: IntValue<'c>, n: &str) -> R<IntValue<'c>> { self.pos()?; same(l, r); Ok(IntValue::mk(unsafe { LLVMBuildICmp(self.r, p as i32, l.r, r.r, cs(n).as_ptr()) })) }
        pub fn build_select<A: BasicValue<'c>>(&self, c: IntValue<'c>, t: A, e: A, n: &str) -> R<BasicValueEnum<'c>> { self.pos()?; Ok(BasicValueEnum::of(unsafe { LLVMBuildSelect(self.r, c.r, t.as_basic_value_enum().raw(), e.as_basic_value_enum().raw(), cs(n).as_ptr()) })) }
        pub fn build_phi<T: BasicType<'c>>(&self, t: T, n: &str) -> R<PhiValue<'c>> { self.pos()?; Ok(PhiValue::mk(unsafe { LLVMBuildPhi(self.r, t.as_basic_type_enum().raw(), cs(n).as_ptr()) })) }
        pub fn build_int_z_extend(&self, v: IntValue<'c>, t: IntType<'c>, n: &str) -> R<IntValue<'c>> { self.pos()?; Ok(IntValue::mk(unsafe { LLVMBuildZExt(self.r, v.r, t.r, cs(n).as_ptr()) })) }
        pub fn build_int_s_extend(&self, v: IntValue<'c>, t: IntType<'c>, n: &str) -> R<IntValue<'c>> { self.pos()?; Ok(IntValue::mk(unsafe { LLVMBuildSExt(self.r, v.r, t.r, cs(n).as_ptr()) })) }
        pub fn build_int_truncate(&self, v: IntValue<'c>, t: IntType<'c>, n: &str) -> R<IntValue<'c>> { self.pos()?; Ok(IntValue::mk(unsafe { LLVMBuildTrunc(self.r, v.r, t.r, cs(n).as_ptr()) })) }
        pub fn build_int_cast(&self, v: IntValue<'c>, t: IntType<'c>, n: &str) -> R<IntValue<'c>> { self.pos()?; Ok(IntValue::mk(unsafe { LLVMBuildIntCast(self.r, v.r, t.r, cs(n).as_ptr()) })) }
        pub fn build_ptr_to_int(&self, v: PointerValue<'c>, t: IntType<'c>, n: &str) -> R<IntValue<'c>> { self.pos()?; Ok(IntValue::mk(unsafe { LLVMBuildPtrToInt(self.r, v.r, t.r, cs(n).as_ptr()) })) }
        pub fn build_int_to_ptr(&self, v: IntValue<'c>, t: PointerType<'c>, n: &str) -> R<PointerValue<'c>> { self.pos()?; Ok(PointerValue::mk(unsafe { LLVMBuildIntToPtr(self.r, v.r, t.r, cs(n).as_ptr()) })) }
        pub fn build_alloca<T: BasicType<'c>>(&self, t: T, n: &str) -> R<PointerValue<'c>> { self.pos()?; Ok(PointerValue::mk(unsafe { LLVMBuildAlloca(self.r, t.as_basic_type_enum().raw(), cs(n).as_ptr()) })) }
        pub fn build_load<T: BasicType<'c>>(&self, t: T, p: PointerValue<'c>, n: &str) -> R<BasicValueEnum<'c>> { self.pos()?; Ok(BasicValueEnum::of(unsafe { LLVMBuildLoad2(self.r, t.as_basic_type_enum().raw(), p.r, cs(n).as_ptr()) })) }
        pub fn build_store<V: BasicValue<'c>>(&self, p: PointerValue<'c>, v: V) -> R<InstructionValue<'c>> { self.pos()?; Ok(InstructionValue::mk(unsafe { LLVMBuildStore(self.r, v.as_basic_value_enum().raw(), p.r) })) }
        pub fn build_call(&self, f: FunctionValue<'c>, a: &[BasicMetadataValueEnum<'c>], n: &str) -> R<CallSiteValue<'c>> {
            self.pos()?;
            let v: Vec<Ref> = a.iter().map(|x| x.0.raw()).collect();
            Ok(CallSiteValue::mk(unsafe { LLVMBuildCall2(self.r, f.get_type().r, f.r, v.as_ptr(), v.len() as c_uint, cs(n).as_ptr()) }))
        }
        pub fn build_return(&self, v: Option<&dyn BasicValue<'c>>) -> R<InstructionValue<'c>> { self.pos()?; Ok(InstructionValue::mk(unsafe { match v { None => LLVMBuildRetVoid(self.r), Some(v) => LLVMBuildRet(self.r, v.as_basic_value_enum().raw()) } })) }
        pub fn build_unreachable(&self) -> R<InstructionValue<'c>> { self.pos()?; Ok(InstructionValue::mk(unsafe { LLVMBuildUnreachable(self.r) })) }
        pub fn build_unconditional_branch(&self, b: BasicBlock<'c>) -> R<InstructionValue<'c>> { self.pos()?; Ok(InstructionValue::mk(unsafe { LLVMBuildBr(self.r, b.r) })) }
        pub fn build_conditional_branch(&self, c: IntValue<'c>, t: BasicBlock<'c>, e: BasicBlock<'c>) -> R<InstructionValue<'c>> { self.pos()?; Ok(InstructionValue::mk(unsafe { LLVMBuildCondBr(self.r, c.r, t.r, e.r) })) }
        pub fn build_switch(&self, v: IntValue<'c>, e: BasicBlock<'c>, cases: &[(IntValue<'c>, BasicBlock<'c>)]) -> R<InstructionValue<'c>> {
            self.pos()?;
            let s = unsafe { LLVMBuildSwitch(self.r, v.r, e.r, cases.len() as c_uint) };
            for (v, b) in cases { unsafe { LLVMAddCase(s, v.r, b.r) } }
            Ok(InstructionValue::mk(s))
        }
        pub fn build_struct_gep<T: BasicType<'c>>(&self, t: T, p: PointerValue<'c>, i: u32, n: &str) -> R<PointerValue<'c>> {
            self.pos()?;
            match t.as_basic_type_enum() { BasicTypeEnum::StructType(s) => if i >= s.count_fields() { return Err(BuilderError::Other("GEPIndex")); }, _ => return Err(BuilderError::Other("GEPPointee")) }
            Ok(PointerValue::mk(unsafe { LLVMBuildStructGEP2(self.r, t.as_basic_type_enum().raw(), p.r, i, cs(n).as_ptr()) }))
        }
    }
}

pub mod targets {
    use super::*;
    use crate::{memory_buffer::MemoryBuffer, module::Module};
    #[derive(Clone, Copy, Debug)] pub enum CodeModel { Default = 0 }
    #[derive(Clone, Copy, Debug)] pub enum RelocMode { Default = 0, Static = 1, PIC = 2 }
    #[derive(Clone, Copy, Debug)] pub enum FileType { Assembly = 0, Object = 1 }
    #[derive(Default)] pub struct InitializationConfig;
    pub struct TargetTriple(pub(crate) String);
    impl TargetTriple { pub fn create(s: &str) -> Self { TargetTriple(s.to_string()) } }
    pub struct Target { r: Ref }
    pub struct TargetMachine { r: Ref }
    impl Target {
        pub fn initialize_webassembly(_c: &InitializationConfig) { unsafe { LLVMInitializeWebAssemblyTargetInfo(); LLVMInitializeWebAssemblyTarget(); LLVMInitializeWebAssemblyTargetMC(); LLVMInitializeWebAssemblyAsmPrinter(); LLVMInitializeWebAssemblyAsmParser(); } }
        pub fn from_name(n: &str) -> Option<Self> { let r = unsafe { LLVMGetTargetFromName(cs(n).as_ptr()) }; if r.is_null() { None } else { Some(Target { r }) } }
        pub fn create_target_machine(&self, t: &TargetTriple, cpu: &str, f: &str, l: OptimizationLevel, r: RelocMode, c: CodeModel) -> Option<TargetMachine> {
            let m = unsafe { LLVMCreateTargetMachine(self.r, cs(&t.0).as_ptr(), cs(cpu).as_ptr(), cs(f).as_ptr(), l as i32, r as i32, c as i32) };
            if m.is_null() { None } else { Some(TargetMachine { r: m }) }
        }
    }
    impl TargetMachine {
        pub fn write_to_memory_buffer(&self, m: &Module<'_>, k: FileType) -> Result<MemoryBuffer, LLVMString> {
            let mut e: *mut c_char = std::ptr::null_mut(); let mut b: Ref = std::ptr::null_mut();
            if unsafe { LLVMTargetMachineEmitToMemoryBuffer(self.r, m.r, k as i32, &mut e, &mut b) } != 0 { Err(LLVMString(take(e))) } else { Ok(MemoryBuffer { r: b }) }
        }
    }
}

pub mod passes {
    use super::*;
    use crate::module::Module;
    pub struct PassManagerBuilder { r: Ref }
    pub struct PassManager<T = ()> { r: Ref, _m: PhantomData<T> }
    impl PassManagerBuilder {
        pub fn create() -> Self { PassManagerBuilder { r: unsafe { LLVMPassManagerBuilderCreate() } } }
        pub fn set_optimization_level(&self, l: OptimizationLevel) { unsafe { LLVMPassManagerBuilderSetOptLevel(self.r, l as c_uint) } }
        pub fn set_inliner_with_threshold(&self, t: u32) { unsafe { LLVMPassManagerBuilderUseInlinerWithThreshold(self.r, t) } }
        pub fn populate_module_pass_manager(&self, p: &PassManager) { unsafe { LLVMPassManagerBuilderPopulateModulePassManager(self.r, p.r) } }
    }
    macro_rules! passes { ($($n:ident $f:ident),* $(,)?) => { extern "C" { $(fn $f(p: Ref);)* } impl PassManager { $(pub fn $n(&self) { unsafe { $f(self.r) } })* } } }
    impl PassManager {
        pub fn create(_: ()) -> Self { PassManager { r: unsafe { LLVMCreatePassManager() }, _m: PhantomData } }
        pub fn run_on(&self, m: &Module<'_>) -> bool { unsafe { LLVMRunPassManager(self.r, m.r) == 1 } }
    }
    passes! {
        add_always_inliner_pass LLVMAddAlwaysInlinerPass, add_loop_unroll_and_jam_pass LLVMAddLoopUnrollAndJamPass, add_loop_unroll_pass LLVMAddLoopUnrollPass,
        add_loop_rotate_pass LLVMAddLoopRotatePass, add_loop_vectorize_pass LLVMAddLoopVectorizePass, add_loop_idiom_pass LLVMAddLoopIdiomPass,
        add_loop_deletion_pass LLVMAddLoopDeletionPass, add_loop_reroll_pass LLVMAddLoopRerollPass, add_aggressive_dce_pass LLVMAddAggressiveDCEPass,
        add_promote_memory_to_register_pass LLVMAddPromoteMemoryToRegisterPass, add_merged_load_store_motion_pass LLVMAddMergedLoadStoreMotionPass,
        add_demote_memory_to_register_pass LLVMAddDemoteMemoryToRegisterPass, add_memcpy_optimize_pass LLVMAddMemCpyOptPass, add_licm_pass LLVMAddLICMPass,
        add_gvn_pass LLVMAddGVNPass, add_new_gvn_pass LLVMAddNewGVNPass, add_sccp_pass LLVMAddSCCPPass, add_instruction_combining_pass LLVMAddInstructionCombiningPass,
        add_instruction_simplify_pass LLVMAddInstructionSimplifyPass, add_jump_threading_pass LLVMAddJumpThreadingPass, add_cfg_simplification_pass LLVMAddCFGSimplificationPass,
        add_tail_call_elimination_pass LLVMAddTailCallEliminationPass, add_reassociate_pass LLVMAddReassociatePass, add_early_cse_pass LLVMAddEarlyCSEPass,
        add_early_cse_mem_ssa_pass LLVMAddEarlyCSEMemSSAPass, add_correlated_value_propagation_pass LLVMAddCorrelatedValuePropagationPass,
        add_dead_store_elimination_pass LLVMAddDeadStoreEliminationPass, add_ind_var_simplify_pass LLVMAddIndVarSimplifyPass,
        add_lower_expect_intrinsic_pass LLVMAddLowerExpectIntrinsicPass, add_merge_functions_pass LLVMAddMergeFunctionsPass,
        add_strip_dead_prototypes_pass LLVMAddStripDeadPrototypesPass, add_scalarizer_pass LLVMAddScalarizerPass,
        add_global_dce_pass LLVMAddGlobalDCEPass, add_dead_arg_elimination_pass LLVMAddDeadArgEliminationPass, add_function_inlining_pass LLVMAddFunctionInliningPass,
        add_constant_merge_pass LLVMAddConstantMergePass, add_global_optimizer_pass LLVMAddGlobalOptimizerPass, add_ipsccp_pass LLVMAddIPSCCPPass,
        add_bit_tracking_dce_pass LLVMAddBitTrackingDCEPass, add_scalar_repl_aggregates_pass LLVMAddScalarReplAggregatesPass,
    }
}
