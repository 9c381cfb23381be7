#![allow(non_snake_case, dead_code)]
use std::os::raw::{c_char, c_int, c_uint, c_ulonglong, c_void};
pub type Ref = *mut c_void;
extern "C" {
    pub fn LLVMContextCreate() -> Ref;
    pub fn LLVMModuleCreateWithNameInContext(n: *const c_char, c: Ref) -> Ref;
    pub fn LLVMCreateBuilderInContext(c: Ref) -> Ref;
    pub fn LLVMAppendBasicBlockInContext(c: Ref, f: Ref, n: *const c_char) -> Ref;
    pub fn LLVMIntTypeInContext(c: Ref, n: c_uint) -> Ref;
    pub fn LLVMVoidTypeInContext(c: Ref) -> Ref;
    pub fn LLVMPointerTypeInContext(c: Ref, a: c_uint) -> Ref;
    pub fn LLVMStructTypeInContext(c: Ref, e: *const Ref, n: c_uint, packed: c_int) -> Ref;
    pub fn LLVMArrayType(e: Ref, n: c_uint) -> Ref;
    pub fn LLVMFunctionType(r: Ref, p: *const Ref, n: c_uint, va: c_int) -> Ref;
    pub fn LLVMConstStringInContext(c: Ref, s: *const c_char, l: c_uint, dont_null: c_int) -> Ref;
    pub fn LLVMGetIntTypeWidth(t: Ref) -> c_uint;
    pub fn LLVMGetTypeKind(t: Ref) -> c_int;
    pub fn LLVMGetElementType(t: Ref) -> Ref;
    pub fn LLVMGetArrayLength(t: Ref) -> c_uint;
    pub fn LLVMTypeIsSized(t: Ref) -> c_int;
    pub fn LLVMStructGetTypeAtIndex(t: Ref, i: c_uint) -> Ref;
    pub fn LLVMCountStructElementTypes(t: Ref) -> c_uint;
    pub fn LLVMPrintTypeToString(t: Ref) -> *mut c_char;
    pub fn LLVMPrintValueToString(t: Ref) -> *mut c_char;
    pub fn LLVMDisposeMessage(m: *mut c_char);
    pub fn LLVMConstInt(t: Ref, v: c_ulonglong, sx: c_int) -> Ref;
    pub fn LLVMConstIntOfStringAndSize(t: Ref, s: *const c_char, l: c_uint, radix: u8) -> Ref;
    pub fn LLVMConstNull(t: Ref) -> Ref;
    pub fn LLVMTypeOf(v: Ref) -> Ref;
    pub fn LLVMIsConstant(v: Ref) -> c_int;
    pub fn LLVMGetParam(f: Ref, i: c_uint) -> Ref;
    pub fn LLVMCountParams(f: Ref) -> c_uint;
    pub fn LLVMGlobalGetValueType(f: Ref) -> Ref;
    pub fn LLVMGetReturnType(f: Ref) -> Ref;
    pub fn LLVMSetInitializer(g: Ref, v: Ref);
    pub fn LLVMSetLinkage(g: Ref, l: c_int);
    pub fn LLVMAddGlobal(m: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMAddGlobalInAddressSpace(m: Ref, t: Ref, n: *const c_char, a: c_uint) -> Ref;
    pub fn LLVMGetNamedGlobal(m: Ref, n: *const c_char) -> Ref;
    pub fn LLVMGetNamedFunction(m: Ref, n: *const c_char) -> Ref;
    pub fn LLVMAddFunction(m: Ref, n: *const c_char, t: Ref) -> Ref;
    pub fn LLVMLinkModules2(d: Ref, s: Ref) -> c_int;
    pub fn LLVMParseBitcodeInContext2(c: Ref, b: Ref, m: *mut Ref) -> c_int;
    pub fn LLVMCreateMemoryBufferWithMemoryRangeCopy(d: *const c_char, l: usize, n: *const c_char) -> Ref;
    pub fn LLVMGetBufferStart(b: Ref) -> *const c_char;
    pub fn LLVMGetBufferSize(b: Ref) -> usize;
    pub fn LLVMPrintModuleToFile(m: Ref, f: *const c_char, e: *mut *mut c_char) -> c_int;
    pub fn LLVMPrintModuleToString(m: Ref) -> *mut c_char;
    pub fn LLVMVerifyModule(m: Ref, a: c_int, e: *mut *mut c_char) -> c_int;
    pub fn LLVMPositionBuilderAtEnd(b: Ref, bb: Ref);
    pub fn LLVMGetInsertBlock(b: Ref) -> Ref;
    pub fn LLVMBuildAlloca(b: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildLoad2(b: Ref, t: Ref, p: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildStore(b: Ref, v: Ref, p: Ref) -> Ref;
    pub fn LLVMBuildCall2(b: Ref, t: Ref, f: Ref, a: *const Ref, n: c_uint, nm: *const c_char) -> Ref;
    pub fn LLVMBuildRet(b: Ref, v: Ref) -> Ref;
    pub fn LLVMBuildRetVoid(b: Ref) -> Ref;
    pub fn LLVMBuildBr(b: Ref, bb: Ref) -> Ref;
    pub fn LLVMBuildCondBr(b: Ref, c: Ref, t: Ref, e: Ref) -> Ref;
    pub fn LLVMBuildSwitch(b: Ref, v: Ref, e: Ref, n: c_uint) -> Ref;
    pub fn LLVMAddCase(s: Ref, v: Ref, bb: Ref);
    pub fn LLVMBuildUnreachable(b: Ref) -> Ref;
    pub fn LLVMBuildStructGEP2(b: Ref, t: Ref, p: Ref, i: c_uint, n: *const c_char) -> Ref;
    pub fn LLVMBuildAdd(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildSub(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildMul(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildUDiv(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildSDiv(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildURem(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildSRem(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildShl(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildLShr(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildAShr(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildAnd(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildOr(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildXor(b: Ref, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildNot(b: Ref, l: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildNeg(b: Ref, l: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildICmp(b: Ref, p: c_int, l: Ref, r: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildSelect(b: Ref, i: Ref, t: Ref, e: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildPhi(b: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMAddIncoming(p: Ref, v: *const Ref, b: *const Ref, n: c_uint);
    pub fn LLVMBuildZExt(b: Ref, v: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildSExt(b: Ref, v: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildTrunc(b: Ref, v: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildIntCast(b: Ref, v: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildPtrToInt(b: Ref, v: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMBuildIntToPtr(b: Ref, v: Ref, t: Ref, n: *const c_char) -> Ref;
    pub fn LLVMInitializeWebAssemblyTargetInfo();
    pub fn LLVMInitializeWebAssemblyTarget();
    pub fn LLVMInitializeWebAssemblyTargetMC();
    pub fn LLVMInitializeWebAssemblyAsmPrinter();
    pub fn LLVMInitializeWebAssemblyAsmParser();
    pub fn LLVMGetTargetFromName(n: *const c_char) -> Ref;
    pub fn LLVMCreateTargetMachine(t: Ref, tr: *const c_char, cpu: *const c_char, f: *const c_char, l: c_int, r: c_int, c: c_int) -> Ref;
    pub fn LLVMTargetMachineEmitToMemoryBuffer(t: Ref, m: Ref, k: c_int, e: *mut *mut c_char, b: *mut Ref) -> c_int;
    pub fn LLVMCreatePassManager() -> Ref;
    pub fn LLVMRunPassManager(p: Ref, m: Ref) -> c_int;
    pub fn LLVMPassManagerBuilderCreate() -> Ref;
    pub fn LLVMPassManagerBuilderSetOptLevel(p: Ref, l: c_uint);
    pub fn LLVMPassManagerBuilderUseInlinerWithThreshold(p: Ref, t: c_uint);
    pub fn LLVMPassManagerBuilderPopulateModulePassManager(p: Ref, m: Ref);
}
