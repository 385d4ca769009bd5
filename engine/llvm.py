"""Minimal ctypes binding of the LLVM-18 C API used by the symbolic executor."""
import ctypes as C

_lib = None


def lib():
    global _lib
    if _lib is None:
        for cand in ("/usr/lib/llvm-18/lib/libLLVM-18.so", "/usr/lib/llvm-18/lib/libLLVM.so",
                     "/usr/lib/x86_64-linux-gnu/libLLVM-18.so", "libLLVM-18.so", "libLLVM.so.18.1"):
            try:
                _lib = C.CDLL(cand)
                break
            except OSError:
                continue
        _setup(_lib)
    return _lib


P = C.c_void_p
_SIG = {
    "LLVMCreateMemoryBufferWithContentsOfFile": (C.c_int, [C.c_char_p, C.POINTER(P), C.POINTER(C.c_char_p)]),
    "LLVMContextCreate": (P, []),
    "LLVMParseBitcodeInContext2": (C.c_int, [P, P, C.POINTER(P)]),
    "LLVMGetModuleDataLayout": (P, [P]),
    "LLVMABISizeOfType": (C.c_ulonglong, [P, P]),
    "LLVMStoreSizeOfType": (C.c_ulonglong, [P, P]),
    "LLVMABIAlignmentOfType": (C.c_uint, [P, P]),
    "LLVMOffsetOfElement": (C.c_ulonglong, [P, P, C.c_uint]),
    "LLVMGetFirstFunction": (P, [P]), "LLVMGetNextFunction": (P, [P]),
    "LLVMGetFirstGlobal": (P, [P]), "LLVMGetNextGlobal": (P, [P]),
    "LLVMGetFirstGlobalAlias": (P, [P]), "LLVMGetNextGlobalAlias": (P, [P]),
    "LLVMAliasGetAliasee": (P, [P]),
    "LLVMGetValueName2": (P, [P, C.POINTER(C.c_size_t)]),
    "LLVMIsDeclaration": (C.c_int, [P]),
    "LLVMIsGlobalConstant": (C.c_int, [P]),
    "LLVMGetInitializer": (P, [P]),
    "LLVMGlobalGetValueType": (P, [P]),
    "LLVMGetFirstBasicBlock": (P, [P]), "LLVMGetNextBasicBlock": (P, [P]),
    "LLVMGetFirstInstruction": (P, [P]), "LLVMGetNextInstruction": (P, [P]),
    "LLVMGetInstructionOpcode": (C.c_int, [P]),
    "LLVMGetNumOperands": (C.c_int, [P]), "LLVMGetOperand": (P, [P, C.c_uint]),
    "LLVMTypeOf": (P, [P]), "LLVMGetTypeKind": (C.c_int, [P]),
    "LLVMGetIntTypeWidth": (C.c_uint, [P]),
    "LLVMCountStructElementTypes": (C.c_uint, [P]),
    "LLVMStructGetTypeAtIndex": (P, [P, C.c_uint]),
    "LLVMGetElementType": (P, [P]),
    "LLVMGetArrayLength2": (C.c_ulonglong, [P]),
    "LLVMGetVectorSize": (C.c_uint, [P]),
    "LLVMGetReturnType": (P, [P]),
    "LLVMIsFunctionVarArg": (C.c_int, [P]),
    "LLVMGetICmpPredicate": (C.c_int, [P]), "LLVMGetFCmpPredicate": (C.c_int, [P]),
    "LLVMGetNSW": (C.c_int, [P]), "LLVMGetNUW": (C.c_int, [P]),
    "LLVMGetExact": (C.c_int, [P]),
    "LLVMGetGEPSourceElementType": (P, [P]),
    "LLVMGetAllocatedType": (P, [P]),
    "LLVMGetNumSuccessors": (C.c_uint, [P]), "LLVMGetSuccessor": (P, [P, C.c_uint]),
    "LLVMIsConditional": (C.c_int, [P]),
    "LLVMCountIncoming": (C.c_uint, [P]),
    "LLVMGetIncomingValue": (P, [P, C.c_uint]), "LLVMGetIncomingBlock": (P, [P, C.c_uint]),
    "LLVMGetNumArgOperands": (C.c_uint, [P]),
    "LLVMGetCalledValue": (P, [P]), "LLVMGetCalledFunctionType": (P, [P]),
    "LLVMGetNormalDest": (P, [P]), "LLVMGetUnwindDest": (P, [P]),
    "LLVMGetNumIndices": (C.c_uint, [P]), "LLVMGetIndices": (C.POINTER(C.c_uint), [P]),
    "LLVMGetNumClauses": (C.c_uint, [P]), "LLVMGetClause": (P, [P, C.c_uint]),
    "LLVMIsCleanup": (C.c_int, [P]),
    "LLVMGetSwitchDefaultDest": (P, [P]),
    "LLVMBasicBlockAsValue": (P, [P]), "LLVMValueAsBasicBlock": (P, [P]),
    "LLVMGetValueKind": (C.c_int, [P]),
    "LLVMConstIntGetZExtValue": (C.c_ulonglong, [P]),
    "LLVMConstRealGetDouble": (C.c_double, [P, C.POINTER(C.c_int)]),
    "LLVMGetConstOpcode": (C.c_int, [P]),
    "LLVMGetAsString": (P, [P, C.POINTER(C.c_size_t)]),
    "LLVMGetElementAsConstant": (P, [P, C.c_uint]),
    "LLVMGetAggregateElement": (P, [P, C.c_uint]),
    "LLVMCountParams": (C.c_uint, [P]), "LLVMGetParam": (P, [P, C.c_uint]),
    "LLVMPrintValueToString": (P, [P]), "LLVMDisposeMessage": (None, [P]),
    "LLVMGetAtomicRMWBinOp": (C.c_int, [P]),
    "LLVMGetNumMaskElements": (C.c_uint, [P]), "LLVMGetMaskValue": (C.c_int, [P, C.c_uint]),
    "LLVMPrintTypeToString": (P, [P]),
    "LLVMGetOrdering": (C.c_int, [P]),
    "LLVMGetFirstUse": (P, [P]),
}


def _setup(l):
    for n, (r, a) in _SIG.items():
        f = getattr(l, n)
        f.restype = r
        f.argtypes = a


def name(v):
    n = C.c_size_t()
    p = lib().LLVMGetValueName2(v, C.byref(n))
    return C.string_at(p, n.value).decode()


def tostr(v):
    p = lib().LLVMPrintValueToString(v)
    s = C.string_at(p).decode(errors="replace")
    lib().LLVMDisposeMessage(p)
    return s


def load(path):
    l = lib()
    buf = P()
    err = C.c_char_p()
    if l.LLVMCreateMemoryBufferWithContentsOfFile(path.encode(), C.byref(buf), C.byref(err)):
        raise RuntimeError(err.value)
    m = P()
    ctx = l.LLVMContextCreate()
    if l.LLVMParseBitcodeInContext2(ctx, buf, C.byref(m)):
        raise RuntimeError("cannot parse " + path)
    return m.value


# value kinds
VK = dict(Argument=0, BasicBlock=1, MemoryUse=2, MemoryDef=3, MemoryPhi=4, Function=5,
          GlobalAlias=6, GlobalIFunc=7, GlobalVariable=8, BlockAddress=9, ConstantExpr=10,
          ConstantArray=11, ConstantStruct=12, ConstantVector=13, UndefValue=14,
          ConstantAggregateZero=15, ConstantDataArray=16, ConstantDataVector=17,
          ConstantInt=18, ConstantFP=19, ConstantPointerNull=20, ConstantTokenNone=21,
          MetadataAsValue=22, InlineAsm=23, Instruction=24, PoisonValue=25)
TK_VOID, TK_HALF, TK_FLOAT, TK_DOUBLE, TK_X86, TK_FP128, TK_PPC, TK_LABEL, TK_INT, TK_FUNC, \
    TK_STRUCT, TK_ARRAY, TK_PTR, TK_VECTOR, TK_META = range(15)
