"""Compile /repo's sources (contract headers instead of std headers) to LLVM IR and load it.

Reads bitcode through the LLVM C API (ctypes) and turns it into plain Python objects."""
import ctypes as C, os, subprocess, tempfile, shutil, glob, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
CLANG = "clang++"


class CompileError(Exception):
    pass


FIELDS = {
    "MeshFormat": "version file_type data_size",
    "NodeBlock": "entity_dim entity_tag parametric num_nodes_in_block tags data",
    "Nodes": "num_entity_blocks num_nodes min_node_tag max_node_tag entity_blocks",
    "ElementBlock": "entity_dim entity_tag element_type num_elements_in_block data",
    "Elements": "num_entity_blocks num_elements min_element_tag max_element_tag entity_blocks",
    "DataHeader": "string_tags real_tags int_tags",
    "DataEntry": "tag num_nodes_per_element data",
    "Data": "header entries",
    "PointEntity": "tag x y z physical_group_tags",
    "CurveEntity": "tag min_x min_y min_z max_x max_y max_z physical_group_tags boundary_point_tags",
    "SurfaceEntity": "tag min_x min_y min_z max_x max_y max_z physical_group_tags boundary_curve_tags",
    "VolumeEntity": "tag min_x min_y min_z max_x max_y max_z physical_group_tags boundary_surface_tags",
    "Entities": "points curves surfaces volumes",
    "PhysicalGroup": "dim tag name",
    "MshSpec": "mesh_format nodes elements entities physical_groups node_data element_data element_node_data nanospline_format curves patches",
    "NanoSplineFormat": "version",
    "Curve": "curve_tag curve_type curve_degree num_control_points num_knots with_weights data",
    "Patch": "patch_tag patch_type degree_u degree_v num_control_points num_u_knots num_v_knots with_weights data",
}
PROBE = "#include <mshio/MshSpec.h>\n" + "".join(
    "".join("extern const unsigned long vpo_%s__%s; const unsigned long vpo_%s__%s = __builtin_offsetof(mshio::%s, %s);\n" % (k, f, k, f, k, f) for f in v.split())
    + "mshio::%s vpt_%s;\n" % (k, k) for k, v in FIELDS.items())


def compile_all(outdir, ext):
    srcs = sorted(glob.glob(REPO + "/src/*.cpp"))
    flags = ["-std=gnu++17", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-DNDEBUG", "-w",
             "-isystem", HERE + "/stubs", "-I" + REPO + "/include"]
    if ext:
        flags.append("-DMSHIO_EXT_NANOSPLINE")

    def one(s):
        o = os.path.join(outdir, os.path.basename(s) + ".bc")
        r = subprocess.run([CLANG] + flags + ["-c", "-emit-llvm", s, "-o", o], capture_output=True, text=True)
        if r.returncode:
            raise CompileError("%s: %s" % (s, r.stderr[:2000]))
        return o
    probe = os.path.join(outdir, "vp_probe.cpp")
    with open(probe, "w") as f: f.write(PROBE)
    with cf.ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(one, srcs + [probe]))
    out = os.path.join(outdir, "all.bc")
    r = subprocess.run(["llvm-link-18"] + bcs + ["-o", out], capture_output=True, text=True)
    if r.returncode:
        raise CompileError(r.stderr[:2000])
    return out


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ("kind", "size", "bits", "fields", "elem", "n", "name", "key")

    def __init__(s, kind, size=0, bits=0, fields=None, elem=None, n=0, name=None, key=None):
        s.kind, s.size, s.bits, s.fields, s.elem, s.n, s.name, s.key = kind, size, bits, fields, elem, n, name, key

    def __repr__(s):
        if s.kind == "int": return "i%d" % s.bits
        if s.kind == "vec": return "vector<%r>" % s.elem
        if s.kind == "arr": return "[%d x %r]" % (s.n, s.elem)
        if s.kind == "struct": return s.name or "{..}"
        return s.kind


I1 = Ty("int", 1, 1); I8 = Ty("int", 1, 8); I32 = Ty("int", 4, 32); I64 = Ty("int", 8, 64)
DBL = Ty("fp", 8, 64); PTR = Ty("ptr", 8, 64)


# ------------------------------------------------------------------ operands
class Loc:  # local value (instruction or argument)
    __slots__ = ("id",)
    def __init__(s, i): s.id = i
    def __repr__(s): return "%%%s" % s.id


class Glob:
    __slots__ = ("name", "isfn")
    def __init__(s, n, f): s.name, s.isfn = n, f
    def __repr__(s): return "@" + s.name


class GepC:  # constant expression gep
    __slots__ = ("base", "srcty", "idx")
    def __init__(s, b, t, i): s.base, s.srcty, s.idx = b, t, i


class Null:
    def __repr__(s): return "null"


class Und:
    def __repr__(s): return "undef"


class FpC:
    __slots__ = ("v",)
    def __init__(s, v): s.v = v


class AggZ:  # zero aggregate / constant aggregate
    __slots__ = ("vals", "ty")
    def __init__(s, v, ty): s.vals, s.ty = v, ty


class Ins:
    __slots__ = ("op", "ty", "ops", "id", "x", "line", "file", "uid")
    def __repr__(s): return "%%%s=%s %r %r" % (s.id, s.op, s.ops, s.x)


class Fn:
    __slots__ = ("name", "dem", "args", "argtys", "retty", "blocks", "order", "internal", "file", "line", "sret", "_cfg")


OPC = {1: "ret", 2: "br", 3: "switch", 4: "indirectbr", 5: "invoke", 7: "unreachable", 8: "add", 9: "fadd", 10: "sub", 11: "fsub",
       12: "mul", 13: "fmul", 14: "udiv", 15: "sdiv", 16: "fdiv", 17: "urem", 18: "srem", 19: "frem", 20: "shl", 21: "lshr",
       22: "ashr", 23: "and", 24: "or", 25: "xor", 26: "alloca", 27: "load", 28: "store", 29: "gep", 30: "trunc", 31: "zext",
       32: "sext", 33: "fptoui", 34: "fptosi", 35: "uitofp", 36: "sitofp", 37: "fptrunc", 38: "fpext", 39: "ptrtoint",
       40: "inttoptr", 41: "bitcast", 42: "icmp", 43: "fcmp", 44: "phi", 45: "call", 46: "select", 49: "va_arg",
       50: "extractelement", 51: "insertelement", 52: "shufflevector", 53: "extractvalue", 54: "insertvalue", 55: "fence",
       58: "resume", 59: "landingpad", 60: "addrspacecast", 66: "fneg", 67: "callbr", 68: "freeze"}
PRED = {32: "eq", 33: "ne", 34: "ugt", 35: "uge", 36: "ult", 37: "ule", 38: "sgt", 39: "sge", 40: "slt", 41: "sle"}


class Module:
    def __init__(self, bc):
        L = C.CDLL("libLLVM-18.so")
        self.L = L
        self._tyc = {}
        P = C.c_void_p

        def f(name, res, *args):
            g = getattr(L, name); g.restype = res; g.argtypes = list(args); return g
        ctx = f("LLVMContextCreate", P)()
        buf = P(); msg = C.c_char_p()
        if f("LLVMCreateMemoryBufferWithContentsOfFile", C.c_int, C.c_char_p, P, P)(bc.encode(), C.byref(buf), C.byref(msg)):
            raise CompileError(msg.value)
        mod = P()
        if f("LLVMParseBitcodeInContext2", C.c_int, P, P, P)(ctx, buf, C.byref(mod)):
            raise CompileError("bitcode")
        g = self
        for nm, res, args in [
            ("LLVMGetModuleDataLayout", P, [P]), ("LLVMABISizeOfType", C.c_ulonglong, [P, P]),
            ("LLVMOffsetOfElement", C.c_ulonglong, [P, P, C.c_uint]), ("LLVMGetTypeKind", C.c_int, [P]),
            ("LLVMGetIntTypeWidth", C.c_uint, [P]), ("LLVMCountStructElementTypes", C.c_uint, [P]),
            ("LLVMStructGetTypeAtIndex", P, [P, C.c_uint]), ("LLVMGetStructName", C.c_char_p, [P]),
            ("LLVMGetElementType", P, [P]), ("LLVMGetArrayLength2", C.c_ulonglong, [P]), ("LLVMGetArrayLength", C.c_uint, [P]),
            ("LLVMGetFirstFunction", P, [P]), ("LLVMGetNextFunction", P, [P]), ("LLVMGetFirstGlobal", P, [P]), ("LLVMGetNextGlobal", P, [P]),
            ("LLVMGetValueName2", C.c_char_p, [P, C.POINTER(C.c_size_t)]), ("LLVMCountParams", C.c_uint, [P]), ("LLVMGetParam", P, [P, C.c_uint]),
            ("LLVMGetFirstBasicBlock", P, [P]), ("LLVMGetNextBasicBlock", P, [P]), ("LLVMGetFirstInstruction", P, [P]), ("LLVMGetNextInstruction", P, [P]),
            ("LLVMGetInstructionOpcode", C.c_int, [P]), ("LLVMGetNumOperands", C.c_int, [P]), ("LLVMGetOperand", P, [P, C.c_uint]),
            ("LLVMTypeOf", P, [P]), ("LLVMGetValueKind", C.c_int, [P]), ("LLVMConstIntGetZExtValue", C.c_ulonglong, [P]), ("LLVMConstIntGetSExtValue", C.c_longlong, [P]),
            ("LLVMConstRealGetDouble", C.c_double, [P, C.POINTER(C.c_int)]), ("LLVMGetICmpPredicate", C.c_int, [P]), ("LLVMGetFCmpPredicate", C.c_int, [P]),
            ("LLVMGetAllocatedType", P, [P]), ("LLVMGetGEPSourceElementType", P, [P]), ("LLVMGetCalledValue", P, [P]), ("LLVMGetNumArgOperands", C.c_uint, [P]),
            ("LLVMGetNormalDest", P, [P]), ("LLVMGetUnwindDest", P, [P]), ("LLVMGetNumSuccessors", C.c_uint, [P]), ("LLVMGetSuccessor", P, [P, C.c_uint]),
            ("LLVMIsConditional", C.c_int, [P]), ("LLVMGetCondition", P, [P]), ("LLVMCountIncoming", C.c_uint, [P]), ("LLVMGetIncomingValue", P, [P, C.c_uint]),
            ("LLVMGetIncomingBlock", P, [P, C.c_uint]), ("LLVMGetNumIndices", C.c_uint, [P]), ("LLVMGetIndices", C.POINTER(C.c_uint), [P]),
            ("LLVMGetNSW", C.c_int, [P]), ("LLVMGetNumClauses", C.c_uint, [P]), ("LLVMIsCleanup", C.c_int, [P]), ("LLVMGetDebugLocLine", C.c_uint, [P]),
            ("LLVMGetDebugLocFilename", C.c_char_p, [P, C.POINTER(C.c_uint)]), ("LLVMGetInitializer", P, [P]), ("LLVMIsGlobalConstant", C.c_int, [P]),
            ("LLVMGetConstOpcode", C.c_int, [P]), ("LLVMIsConstantString", C.c_int, [P]), ("LLVMGetAsString", C.c_void_p, [P, C.POINTER(C.c_size_t)]),
            ("LLVMGetAggregateElement", P, [P, C.c_uint]), ("LLVMGlobalGetValueType", P, [P]), ("LLVMGetReturnType", P, [P]), ("LLVMGetLinkage", C.c_int, [P]),
            ("LLVMGetElementAsConstant", P, [P, C.c_uint]), ("LLVMIsDeclaration", C.c_int, [P]), ("LLVMValueAsBasicBlock", P, [P]), ("LLVMBasicBlockAsValue", P, [P]),
            ("LLVMGetSwitchDefaultDest", P, [P]), ("LLVMGetEnumAttributeAtIndex", P, [P, C.c_uint, C.c_uint]), ("LLVMGetEnumAttributeKindForName", C.c_uint, [C.c_char_p, C.c_size_t]),
            ("LLVMDisposeModule", None, [P]), ("LLVMContextDispose", None, [P]),
        ]:
            setattr(self, nm[4:], f(nm, res, *args))
        self.TD = self.GetModuleDataLayout(mod)
        self.sret_kind = self.GetEnumAttributeKindForName(b"sret", 4)
        self.funcs = {}
        self.globals = {}
        gv = self.GetFirstGlobal(mod)
        while gv:
            self._global(gv); gv = self.GetNextGlobal(gv)
        fn = self.GetFirstFunction(mod)
        fns = []
        while fn:
            fns.append(fn); fn = self.GetNextFunction(fn)
        names = [self.vname(x) for x in fns]
        dem = demangle(names)
        for x, n in zip(fns, names):
            self._function(x, n, dem[n])
        self.DisposeModule(mod); self.ContextDispose(ctx)
        for a in list(self.__dict__):
            if a not in ("funcs", "globals"):
                del self.__dict__[a]

    def vname(self, v):
        n = C.c_size_t(); return self.GetValueName2(v, C.byref(n)).decode()

    def ty(self, t):
        if t in self._tyc: return self._tyc[t]
        k = self.GetTypeKind(t)
        if k == 0: r = Ty("void")
        elif k == 8:
            b = self.GetIntTypeWidth(t)
            r = {1: I1, 8: I8, 32: I32, 64: I64}.get(b) or Ty("int", (b + 7) // 8, b)
        elif k in (2, 3): r = Ty("fp", 4 if k == 2 else 8, 32 if k == 2 else 64) if k == 2 else DBL
        elif k == 12: r = PTR
        elif k == 11: r = Ty("arr", int(self.ABISizeOfType(self.TD, t)), elem=self.ty(self.GetElementType(t)), n=int(self.GetArrayLength2(t)))
        elif k == 10:
            nm = self.GetStructName(t)
            n = self.CountStructElementTypes(t)
            r = Ty("struct", name=nm.decode() if nm else None)
            self._tyc[t] = r
            fl = [(int(self.OffsetOfElement(self.TD, t, i)), self.ty(self.StructGetTypeAtIndex(t, i))) for i in range(n)]
            r.fields = fl; r.size = int(self.ABISizeOfType(self.TD, t))
            classify(r)
        elif k == 9: r = Ty("func")
        else: r = Ty("other%d" % k)
        self._tyc[t] = r
        return r

    def _global(self, g):
        n = self.vname(g)
        init = self.GetInitializer(g)
        self.globals[n] = (self.ty(self.GlobalGetValueType(g)), bool(self.IsGlobalConstant(g)), self._cinit(init) if init else None)

    def _cinit(self, v):
        """constant initialiser -> python (bytes | int | float | list | None)"""
        k = self.GetValueKind(v)
        t = self.ty(self.TypeOf(v))
        if VK.get(k) == "ConstantAggregateZero" and t.kind == "arr" and t.elem.kind == "int" and t.elem.bits == 8: return bytes(t.n)
        if VK.get(k) == "ConstantDataArray" and self.IsConstantString(v):
            n = C.c_size_t(); p = self.GetAsString(v, C.byref(n)); return C.string_at(p, n.value)
        if k == 17 or (t.kind == "int" and t.bits <= 64 and k in (18,)):
            pass
        if t.kind == "int":
            try: return int(self.ConstIntGetZExtValue(v)) if t.bits != 32 else sx(int(self.ConstIntGetZExtValue(v)), 32)
            except Exception: return None
        if t.kind == "fp":
            l = C.c_int(); return float(self.ConstRealGetDouble(v, C.byref(l)))
        if t.kind == "arr" or t.kind in ("struct",):
            m = t.n if t.kind == "arr" else len(t.fields)
            if m > 100000: return None
            out = []
            for i in range(m):
                e = self.GetAggregateElement(v, i)
                out.append(self._cinit(e) if e else None)
            return out
        if t.kind == "ptr":
            return self._operand(v, None)
        return None

    def _operand(self, v, ids):
        k = self.GetValueKind(v)
        # LLVMValueKind enum
        if ids is not None and v in ids: return Loc(ids[v])
        KN = VK.get(k)
        if KN == "Function": return Glob(self.vname(v), True)
        if KN in ("GlobalVariable", "GlobalAlias"): return Glob(self.vname(v), False)
        t = self.ty(self.TypeOf(v))
        if KN == "ConstantInt":
            if t.bits == 1: return bool(self.ConstIntGetZExtValue(v))
            if t.bits == 32: return sx(int(self.ConstIntGetZExtValue(v)), 32)
            if t.bits > 64: raise CompileError("wide int")
            return int(self.ConstIntGetZExtValue(v))
        if KN == "ConstantFP":
            l = C.c_int(); return FpC(float(self.ConstRealGetDouble(v, C.byref(l))))
        if KN == "ConstantPointerNull": return Null()
        if KN in ("UndefValue", "PoisonValue"): return Und()
        if KN == "ConstantExpr":
            op = OPC.get(self.GetConstOpcode(v))
            if op == "gep":
                n = self.GetNumOperands(v)
                os_ = [self._operand(self.GetOperand(v, i), ids) for i in range(n)]
                return GepC(os_[0], self.ty(self.GetGEPSourceElementType(v)), os_[1:])
            return ("constexpr", op)
        if KN in ("ConstantAggregateZero", "ConstantStruct", "ConstantArray", "ConstantDataArray", "ConstantDataVector"):
            return AggZ(self._cinit(v), t)
        return ("value", KN, k)

    def _function(self, f, name, dem):
        F = Fn()
        F.name, F.dem = name, dem
        F.internal = False
        F.file = None; F.line = 0
        n = self.CountParams(f)
        ps = [self.GetParam(f, i) for i in range(n)]
        F.args = ["a%d" % i for i in range(n)]
        F.argtys = [self.ty(self.TypeOf(p)) for p in ps]
        F.retty = self.ty(self.GetReturnType(self.GlobalGetValueType(f)))
        F.sret = bool(n and self.GetEnumAttributeAtIndex(f, 1, self.sret_kind))
        F.blocks = {}; F.order = []; F._cfg = None
        self.funcs[name] = F
        if self.IsDeclaration(f):
            F.blocks = None
            return
        ids = {p: "a%d" % i for i, p in enumerate(ps)}
        bids = {}
        b = self.GetFirstBasicBlock(f); c = 0; bl = []
        while b:
            bids[b] = len(bl); bl.append(b)
            i = self.GetFirstInstruction(b)
            while i:
                ids[i] = c; c += 1
                i = self.GetNextInstruction(i)
            b = self.GetNextBasicBlock(b)
        for b in bl:
            ins = []
            i = self.GetFirstInstruction(b)
            while i:
                x = self._ins(i, ids, bids)
                if x is not None:
                    x.uid = (name, x.id)
                    if F.file is None and x.file and x.line:
                        F.file, F.line = x.file, x.line
                    ins.append(x)
                i = self.GetNextInstruction(i)
            F.blocks[bids[b]] = ins
            F.order.append(bids[b])

    def _ins(self, i, ids, bids):
        I = Ins()
        I.op = OPC.get(self.GetInstructionOpcode(i), "op%d" % self.GetInstructionOpcode(i))
        I.ty = self.ty(self.TypeOf(i)); I.id = ids[i]; I.x = None
        I.line = self.GetDebugLocLine(i)
        l = C.c_uint(); fnm = self.GetDebugLocFilename(i, C.byref(l)) if I.line else None
        I.file = fnm.decode() if fnm else None
        n = self.GetNumOperands(i)
        op = I.op
        if op in ("call", "invoke"):
            cv = self.GetCalledValue(i)
            m = self.GetNumArgOperands(i)
            callee = self._operand(cv, ids)
            if isinstance(callee, Glob) and callee.name.startswith("llvm.dbg"): return None
            args = []
            for k in range(m):
                o = self.GetOperand(i, k)
                if VK.get(self.GetValueKind(o)) == "MetadataAsValue": args.append(None)
                else: args.append(self._operand(o, ids))
            I.ops = args
            I.x = {"callee": callee, "sret": False}
            I.x["argtys"] = [self.ty(self.TypeOf(self.GetOperand(i, k))) for k in range(m)]
            if op == "invoke":
                I.x["normal"] = bids[self.GetNormalDest(i)]
                I.x["unwind"] = bids[self.GetUnwindDest(i)]
            return I
        if op == "br":
            I.ops = [self._operand(self.GetCondition(i), ids)] if self.IsConditional(i) else []
            I.x = [bids[self.GetSuccessor(i, k)] for k in range(self.GetNumSuccessors(i))]
            return I
        if op == "switch":
            I.ops = [self._operand(self.GetOperand(i, 0), ids)]
            m = self.GetNumSuccessors(i)
            dflt = bids[self.GetSuccessor(i, 0)]
            cases = [(self._operand(self.GetOperand(i, 2 * k), ids), bids[self.GetSuccessor(i, k)]) for k in range(1, m)]
            I.x = (cases, dflt)
            return I
        if op == "phi":
            m = self.CountIncoming(i)
            I.ops = []
            I.x = {}
            for k in range(m):
                I.x[bids[self.GetIncomingBlock(i, k)]] = self._operand(self.GetIncomingValue(i, k), ids)
            return I
        I.ops = [self._operand(self.GetOperand(i, k), ids) for k in range(n)] if op != "landingpad" else []
        if op == "alloca": I.x = self.ty(self.GetAllocatedType(i))
        elif op == "gep": I.x = self.ty(self.GetGEPSourceElementType(i))
        elif op == "icmp": I.x = (PRED[self.GetICmpPredicate(i)], self.ty(self.TypeOf(self.GetOperand(i, 0))))
        elif op == "fcmp": I.x = self.GetFCmpPredicate(i)
        elif op in ("add", "sub", "mul"): I.x = bool(self.GetNSW(i))
        elif op in ("trunc", "zext", "sext", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "bitcast"): I.x = self.ty(self.TypeOf(self.GetOperand(i, 0)))
        elif op == "store": I.x = self.ty(self.TypeOf(self.GetOperand(i, 0)))
        elif op in ("extractvalue", "insertvalue"):
            m = self.GetNumIndices(i); p = self.GetIndices(i)
            I.x = [p[k] for k in range(m)]
        elif op == "landingpad":
            I.x = (self.GetNumClauses(i), bool(self.IsCleanup(i)))
        elif op == "ret":
            I.x = None
        return I


VK = {0: "Argument", 1: "BasicBlock", 2: "MemoryUse", 3: "MemoryDef", 4: "MemoryPhi", 5: "Function", 6: "GlobalAlias", 7: "GlobalIFunc",
      8: "GlobalVariable", 9: "BlockAddress", 10: "ConstantExpr", 11: "ConstantArray", 12: "ConstantStruct", 13: "ConstantVector",
      14: "UndefValue", 15: "ConstantAggregateZero", 16: "ConstantDataArray", 17: "ConstantDataVector", 18: "ConstantInt",
      19: "ConstantFP", 20: "ConstantPointerNull", 21: "ConstantTokenNone", 22: "MetadataAsValue", 23: "InlineAsm", 24: "Instruction",
      25: "PoisonValue", 26: "ConstantTargetNone"}


def sx(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> (bits - 1) else v


def classify(t):
    """Recognise the container types of the contract headers by their marker arrays."""
    f = [x[1] for x in t.fields]
    def z(x, bits=None): return x.kind == "arr" and x.n == 0 and (bits is None or (x.elem.kind == "int" and x.elem.bits == bits))
    if not f or f[0].kind != "ptr": return
    if len(f) == 2 and z(f[1]): t.kind, t.elem = "vec", f[1].elem
    elif len(f) == 3 and z(f[1], 8) and z(f[2], 32): t.kind = "str"
    elif len(f) == 3 and z(f[1], 64) and z(f[2], 8): t.kind = "ios"
    elif len(f) == 3 and z(f[1]) and z(f[2], 8): t.kind, t.elem = "set", f[1].elem
    elif len(f) == 4 and z(f[1]) and z(f[2]) and z(f[3], 16): t.kind, t.elem, t.key = "map", f[1].elem, f[2].elem


def demangle(names):
    r = subprocess.run(["c++filt"], input="\n".join(names), capture_output=True, text=True)
    return dict(zip(names, r.stdout.split("\n")))


_cache = {}


def load(ext):
    if ext in _cache: return _cache[ext]
    d = tempfile.mkdtemp(prefix="vpir.")
    try:
        m = Module(compile_all(d, ext))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    _cache[ext] = m
    return m


if __name__ == "__main__":
    import time, sys
    t = time.time(); m = load(False); print(time.time() - t, len(m.funcs))
    for n, f in m.funcs.items():
        if f.blocks is None: print("DECL", f.dem)
    for n, f in m.funcs.items():
        for b in (f.blocks or {}).values():
            for i in b:
                for o in i.ops:
                    if isinstance(o, tuple): print(f.dem, i)
    f = [f for f in m.funcs.values() if "v22::load_nodes_ascii" in f.dem][0]
    for b in f.order[:4]:
        for i in f.blocks[b]: print(b, i, i.line)
