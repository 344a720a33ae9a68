// Instruction interpreter, external models, scheduling of states and result output.

static bool startsWith(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
static bool endsWith(const std::string& s, const std::string& p) { return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0; }
static std::string fmtNum(double d) { char b[64]; if (std::isnan(d)) return "\"nan\""; if (std::isinf(d)) return d < 0 ? "\"-inf\"" : "\"inf\""; snprintf(b, sizeof b, "%.17g", d); return b; }

void Engine::step() {
  Frame& f = S->st.back();
  IInst& ii = f.fi->bbs[f.bb][f.pc];
  Instruction* I = ii.I; steps++; f.fi->instCount++;
  auto setr = [&](Val v) { Frame& g = S->st.back(); g.regs[ii.dst] = std::move(v); g.pc++; };
  // a use of an undefined register in a control decision is fixed to one arbitrary value first
  auto mat = [&](int k, bool fl) -> const Val& {
    const Val& v = get(f, ii.ops[k]);
    if (v.kind == 0 && ii.ops[k].slot >= 0) { Type* t = I->getOperand(k)->getType(); Val nv; if (t->isFloatingPointTy() || fl) nv = mkE(freshD()); else { Val tmp; tmp.kind = 0; tmp.w = t->isPointerTy() ? 64 : t->getIntegerBitWidth(); nv = tmp.w == 1 ? mkE(asBool(tmp)) : mkE(asBV(tmp)); } f.regs[ii.ops[k].slot] = nv; return f.regs[ii.ops[k].slot]; }
    return v;
  };
  switch (I->getOpcode()) {
    case Instruction::Alloca: {
      auto* A = cast<AllocaInst>(I); uint64_t n = (uint64_t)concretize(get(f, ii.ops[0])); uint64_t sz = DL->getTypeAllocSize(A->getAllocatedType()) * n;
      uint64_t a = alloc(sz, 1, A->hasName() ? A->getName().str() : "stack"); f.allocas.push_back(a); setr(Val::P(a)); break; }
    case Instruction::Load: { uint64_t a = ptr(mat(0, false)); setr(load(I->getType(), a)); break; }
    case Instruction::Store: { uint64_t a = ptr(mat(1, false)); Value* v = I->getOperand(0); store(v->getType(), a, get(f, ii.ops[0])); f.pc++; break; }
    case Instruction::GetElementPtr: {
      auto* G = cast<GetElementPtrInst>(I); const Val& b = get(f, ii.ops[0]);
      if (b.kind == 3) throw Unsupported{"vector gep"};
      u128 off = 0; E sym = nullptr; unsigned k = 1;
      for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi, ++k) {
        const Val& ix = get(f, ii.ops[k]);
        if (auto* st = gi.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset((unsigned)ix.i); continue; }
        uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
        if (ix.kind == 1) off += (u128)(sext(ix.i, ix.w) * (i128)es);
        else { E x = asBV(ix); x = x->width < 64 ? c.sextE(x, 64) : c.extract(x, 0, 64); E t = c.bbin(Op::BMul, x, c.bv(es, 64)); sym = sym ? c.bbin(Op::BAdd, sym, t) : t; }
      }
      if (!sym && b.kind == 1) { setr(Val::P((uint64_t)(b.i + off))); break; }
      E base = asBV(b); E r = c.bbin(Op::BAdd, base, c.bv(off, 64)); if (sym) r = c.bbin(Op::BAdd, r, sym);
      setr(mkE(r)); break; }
    case Instruction::FNeg: { const Val& a = get(f, ii.ops[0]); if (a.kind == 3) { Val r; r.kind = 3; r.agg = std::make_shared<std::vector<Val>>(); for (auto& x : *a.agg) r.agg->push_back(mkE(opt.fp ? c.fun1(Op::FNeg, asD(x)) : c.rneg(asD(x)))); setr(r); break; } E x = asD(a); setr(mkE(opt.fp ? c.fun1(Op::FNeg, x) : c.rneg(x))); break; }
    case Instruction::ICmp: setr(icmp(cast<CmpInst>(I)->getPredicate(), get(f, ii.ops[0]), get(f, ii.ops[1]))); break;
    case Instruction::FCmp: setr(fcmp(cast<CmpInst>(I)->getPredicate(), get(f, ii.ops[0]), get(f, ii.ops[1]))); break;
    case Instruction::Select: {
      const Val& cv = get(f, ii.ops[0]);
      if (cv.kind == 3) { const Val &a = get(f, ii.ops[1]), &b = get(f, ii.ops[2]); Val r; r.kind = 3; r.agg = std::make_shared<std::vector<Val>>(); for (size_t i = 0; i < cv.agg->size(); i++) r.agg->push_back(selectV(asBool((*cv.agg)[i]), (*a.agg)[i], (*b.agg)[i])); setr(r); break; }
      E cond = asBool(mat(0, false));
      if (I->getType()->isPointerTy() && cond != c.t && cond != c.f) { bool b = decide(cond); setr(get(S->st.back(), ii.ops[b ? 1 : 2])); break; }
      setr(selectV(cond, get(f, ii.ops[1]), get(f, ii.ops[2]))); break; }
    case Instruction::Br: {
      auto* B = cast<BranchInst>(I);
      if (B->isUnconditional()) { jump(f, B->getSuccessor(0)); break; }
      bool b = decide(asBool(mat(0, false)));
      jump(S->st.back(), B->getSuccessor(b ? 0 : 1)); break; }
    case Instruction::Switch: {
      auto* W = cast<SwitchInst>(I); const Val& v = mat(0, false);
      if (v.kind == 1) { BasicBlock* d = W->getDefaultDest(); for (auto& cs : W->cases()) if (cs.getCaseValue()->getValue().getZExtValue() == (uint64_t)v.i) d = cs.getCaseSuccessor(); jump(f, d); break; }
      E e = asBV(v); BasicBlock* d = W->getDefaultDest();
      for (auto& cs : W->cases()) if (decide(c.eq(e, c.bv(cs.getCaseValue()->getValue().getZExtValue(), e->width)))) { d = cs.getCaseSuccessor(); break; }
      jump(S->st.back(), d); break; }
    case Instruction::Ret: { if (I->getNumOperands()) { Val v = get(f, ii.ops[0]); popFrame(&v); } else popFrame(nullptr); break; }
    case Instruction::Call: case Instruction::Invoke: doCall(f, ii); break;
    case Instruction::Trunc: { const Val& a = get(f, ii.ops[0]); unsigned w = I->getType()->getScalarSizeInBits(); if (a.kind == 3) throw Unsupported{"vector trunc"}; if (a.kind == 1) setr(Val::I(a.i, w)); else if (a.kind == 0) { Val v; v.kind = 0; v.w = w; setr(v); } else { E e = c.extract(asBV(a), 0, w); setr(mkE(w == 1 ? c.eq(e, c.bv(1, 1)) : e)); } break; }
    case Instruction::ZExt: { const Val& a = get(f, ii.ops[0]); unsigned w = I->getType()->getScalarSizeInBits(); if (a.kind == 3) { Val r; r.kind = 3; r.agg = std::make_shared<std::vector<Val>>(); for (auto& x : *a.agg) r.agg->push_back(x.kind == 1 ? Val::I(x.i, w) : mkE(c.zext(x.w == 1 ? asBool(x) : asBV(x), w))); setr(r); break; } if (a.kind == 1) setr(Val::I(a.i, w)); else { E e = a.w == 1 ? asBool(a) : asBV(a); setr(mkE(c.zext(e, w))); } break; }
    case Instruction::SExt: { const Val& a = get(f, ii.ops[0]); unsigned w = I->getType()->getScalarSizeInBits(); if (a.kind == 3) throw Unsupported{"vector sext"}; if (a.kind == 1) setr(Val::I((u128)sext(a.i, a.w), w)); else { E e = a.w == 1 ? asBool(a) : asBV(a); setr(mkE(c.sextE(e, w))); } break; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { const Val& a = get(f, ii.ops[0]); unsigned w = I->getType()->isPointerTy() ? 64 : I->getType()->getIntegerBitWidth(); if (a.kind == 1) setr(Val::I(a.i, w)); else if (a.kind == 2 && w == 64) setr(a); else setr(mkE(c.extract(asBV(a), 0, w))); break; }
    case Instruction::AddrSpaceCast: setr(get(f, ii.ops[0])); break;
    case Instruction::BitCast: {
      const Val& a = get(f, ii.ops[0]); Type *st = I->getOperand(0)->getType(), *dt = I->getType();
      if (st == dt) { setr(a); break; }
      if (a.kind == 3 || dt->isVectorTy()) { // through memory
        uint64_t m = alloc(64, 1, "bitcast"); store(st, m, a); Val v = load(dt, m); S->mem.erase(m); setr(v); break; }
      if (dt->isDoubleTy()) setr(mkE(asD(a)));
      else if (dt->isFloatTy()) setr(mkE(asD(a)));
      else if (st->isFloatTy()) { E e = asD(a); if (e->op == Op::RConst || e->op == Op::FConst) { float x = (float)(e->op == Op::RConst ? e->q->get_d() : Ctx::fval(e)); uint32_t b; memcpy(&b, &x, 4); setr(Val::I(b, 32)); } else throw Unsupported{"bits of a symbolic float"}; }
      else setr(a);
      break; }
    case Instruction::FPExt: setr(mkE(asD(get(f, ii.ops[0])))); break;
    case Instruction::FPTrunc: { E e = asD(get(f, ii.ops[0])); if (I->getType()->isFloatTy()) { if (e->op == Op::FConst) e = c.fconst((double)(float)Ctx::fval(e)); else if (opt.fp) e = c.mk(Op::FCast, Sort::FP, 64, {e}); } setr(mkE(e)); break; }
    case Instruction::FPToSI: setr(d2i(asD(get(f, ii.ops[0])), I->getType()->getIntegerBitWidth(), true)); break;
    case Instruction::FPToUI: setr(d2i(asD(get(f, ii.ops[0])), I->getType()->getIntegerBitWidth(), false)); break;
    case Instruction::SIToFP: case Instruction::UIToFP: { const Val& a = get(f, ii.ops[0]); bool sg = I->getOpcode() == Instruction::SIToFP; if (a.kind == 3) { Val r; r.kind = 3; r.agg = std::make_shared<std::vector<Val>>(); for (auto& x : *a.agg) r.agg->push_back(i2d(x, sg)); setr(r); break; } setr(i2d(a, sg)); break; }
    case Instruction::ExtractValue: { const Val* v = &get(f, ii.ops[0]); if (v->kind == 0) { Val u; u.kind = 0; u.w = I->getType()->isIntegerTy() ? I->getType()->getIntegerBitWidth() : 64; setr(u); break; } for (unsigned x : cast<ExtractValueInst>(I)->indices()) v = &(*v->agg)[x]; setr(Val(*v)); break; }
    case Instruction::InsertValue: {
      Val v = get(f, ii.ops[0]); if (v.kind == 0) v = zeroOf(I->getType()); v.agg = std::make_shared<std::vector<Val>>(*v.agg); Val* p = &v;
      auto ix = cast<InsertValueInst>(I)->getIndices();
      for (size_t k = 0; k + 1 < ix.size(); k++) { p = &(*p->agg)[ix[k]]; p->agg = std::make_shared<std::vector<Val>>(*p->agg); }
      (*p->agg)[ix.back()] = get(f, ii.ops[1]); setr(v); break; }
    case Instruction::ExtractElement: { const Val& v = get(f, ii.ops[0]); uint64_t k = (uint64_t)concretize(get(f, ii.ops[1])); if (v.kind != 3) { Val u; u.kind = 0; u.w = 64; setr(u); break; } Val r = (*v.agg)[k]; setr(r); break; }
    case Instruction::InsertElement: { Val v = get(f, ii.ops[0]); uint64_t k = (uint64_t)concretize(get(f, ii.ops[2])); if (v.kind == 0) v = zeroOf(I->getType()); v.agg = std::make_shared<std::vector<Val>>(*v.agg); (*v.agg)[k] = get(f, ii.ops[1]); setr(v); break; }
    case Instruction::ShuffleVector: {
      auto* SV = cast<ShuffleVectorInst>(I); const Val &a = get(f, ii.ops[0]), &b = get(f, ii.ops[1]); Val r; r.kind = 3; r.agg = std::make_shared<std::vector<Val>>();
      unsigned na = cast<FixedVectorType>(SV->getOperand(0)->getType())->getNumElements();
      for (int m : SV->getShuffleMask()) { Val u; u.kind = 0; u.w = 64; if (m >= 0) { if ((unsigned)m < na) { if (a.kind == 3) u = (*a.agg)[m]; } else if (b.kind == 3) u = (*b.agg)[m - na]; } r.agg->push_back(u); }
      setr(r); break; }
    case Instruction::Freeze: { const Val& a = get(f, ii.ops[0]); if (a.kind == 0) { Type* t = I->getType(); if (t->isFloatingPointTy()) setr(mkE(freshD())); else { Val u; u.kind = 0; u.w = t->isPointerTy() ? 64 : t->getIntegerBitWidth(); setr(u.w == 1 ? mkE(asBool(u)) : mkE(asBV(u))); } } else setr(a); break; }
    case Instruction::AtomicRMW: {
      auto* A = cast<AtomicRMWInst>(I); uint64_t p = ptr(get(f, ii.ops[0])); Type* t = A->getValOperand()->getType(); Val old = load(t, p), v = get(f, ii.ops[1]), nv; unsigned w = t->isPointerTy() ? 64 : t->getIntegerBitWidth(); 
      E x = asBV(old), y = asBV(v);
      switch (A->getOperation()) { case AtomicRMWInst::Xchg: nv = v; break; case AtomicRMWInst::Add: nv = mkE(c.bbin(Op::BAdd, x, y)); break; case AtomicRMWInst::Sub: nv = mkE(c.bbin(Op::BSub, x, y)); break; case AtomicRMWInst::And: nv = mkE(c.bbin(Op::BAnd, x, y)); break; case AtomicRMWInst::Or: nv = mkE(c.bbin(Op::BOr, x, y)); break; default: throw Unsupported{"atomicrmw"}; }
      (void)w; store(t, p, nv); setr(old); break; }
    case Instruction::AtomicCmpXchg: {
      uint64_t p = ptr(get(f, ii.ops[0])); Type* t = I->getOperand(1)->getType(); Val old = load(t, p); E eq = c.eq(asBV(old), asBV(get(f, ii.ops[1]))); bool ok = decide(eq);
      if (ok) store(t, p, get(S->st.back(), ii.ops[2])); Val r; r.kind = 3; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(old); r.agg->push_back(Val::I(ok, 1)); setr(r); break; }
    case Instruction::Fence: f.pc++; break;
    case Instruction::Unreachable: reportError("unreachable", "control reached undefined behaviour (unreachable)"); throw PathEnd{1, "unreachable"};
    case Instruction::LandingPad: case Instruction::Resume: throw Unsupported{"exception handling"};
    case Instruction::VAArg: throw Unsupported{"vaarg"};
    default:
      if (I->isBinaryOp()) { Val r = binop(I->getOpcode(), get(f, ii.ops[0]), get(f, ii.ops[1]), I); setr(r); break; }
      throw Unsupported{std::string("instruction ") + I->getOpcodeName()};
  }
}

void Engine::doCall(Frame& f, IInst& ii) {
  auto* cb = cast<CallBase>(ii.I);
  Function* F = cb->getCalledFunction();
  unsigned na = cb->arg_size();
  std::vector<Val> args; args.reserve(na);
  for (unsigned i = 0; i < na; i++) { if (ii.ops[i].slot == -3) { Val v; v.kind = 0; args.push_back(v); } else args.push_back(get(f, ii.ops[i])); }
  if (!F) {
    if (cb->isInlineAsm()) { auto* ia = cast<InlineAsm>(cb->getCalledOperand()); if (ia->getAsmString().empty() || I_isVoid(cb)) { finishCall(f, ii, nullptr); return; } throw Unsupported{"inline asm"}; }
    Value* cv = cb->getCalledOperand()->stripPointerCasts(); F = dyn_cast<Function>(cv);
    if (!F) {
      uint64_t a = ptr(get(f, ii.ops.back())); auto it = faddr.find(a);
      if (it == faddr.end()) { if (a == 0) memError("call through a null function pointer"); memError("call through an invalid function pointer"); }
      F = it->second;
    }
  }
  std::string name = F->getName().str();
  Val ret; bool hasRet = false;
  static std::unordered_map<Function*, std::string> dems; auto di = dems.find(F); if (di == dems.end()) di = dems.emplace(F, demangle(name)).first; const std::string& dem = di->second;
  static std::unordered_map<Function*, int> kindOf;  // 1 interpret 2 external
  int& k = kindOf[F];
  if (k == 0) {
    k = F->isDeclaration() ? 2 : 1;
    if (startsWith(name, "sym_")) k = 2;
    for (auto& p : opt.skip) if (startsWith(dem, p)) { k = 3; notes.insert("skipped: " + dem.substr(0, 120)); }
    if (dem.find("std::basic_ostream") == 0 || startsWith(dem, "std::ostream::") ) k = 2;
  }
  if (k == 3) { // output-only function: arbitrary (zero) result
    Type* rt = F->getReturnType(); if (rt->isVoidTy()) finishCall(f, ii, nullptr); else { Val z = na && rt->isPointerTy() ? args[0] : zeroOf(rt); finishCall(f, ii, &z); } return; }
  if (k == 1) { pushCall(F, args); return; }
  if (!external(F, name, dem, args, cb, ret, hasRet)) { if (!F->isDeclaration()) { pushCall(F, args); return; } throw Unsupported{"external function " + dem.substr(0, 160)}; }
  if (S->st.empty()) return;
  Frame& g = S->st.back();
  finishCall(g, ii, hasRet ? &ret : nullptr);
}

bool Engine::external(Function* F, const std::string& n, const std::string& dem, std::vector<Val>& a, CallBase* cb, Val& ret, bool& hasRet) {
  auto R = [&](Val v) { ret = v; hasRet = true; return true; };
  auto U = [&](int i) { return ptr(a[i]); };
  Type* rt = F->getReturnType();
  auto fl = [&](E e) { return R(mkE(e)); };
  auto exc = [&](const std::string& what) -> bool {
    for (auto& fr : S->st) { auto* I = fr.fi->bbs[fr.bb][std::min(fr.pc, fr.fi->bbs[fr.bb].size() - 1)].I; if (auto* inv = dyn_cast<InvokeInst>(I)) { auto* lp = inv->getLandingPadInst(); for (unsigned k = 0; lp && k < lp->getNumClauses(); k++) if (lp->isCatch(k)) throw Unsupported{"exception caught by a handler: " + what}; } }
    reportError("exception", what); throw PathEnd{2, what}; };
  if (F->isIntrinsic()) {
    switch (F->getIntrinsicID()) {
      case Intrinsic::memcpy: case Intrinsic::memmove: { uint64_t len = (uint64_t)concretize(a[2]); if (len) { uint64_t d = U(0), s = U(1); if (F->getIntrinsicID() == Intrinsic::memcpy && d != s && d < s + len && s < d + len) { reportError("overlap", "memcpy with overlapping regions"); } copyMem(d, s, len); } return true; }
      case Intrinsic::memset: { uint64_t len = (uint64_t)concretize(a[2]); if (len) { uint64_t off, d = U(0); if (a[1].kind == 0) return true; uint8_t b = (uint8_t)concretize(a[1]); Obj& o = access(d, len, true, off); if (hasCells(o, off, len)) clearCells(o, off, len); memset(&o.bytes[off], b, len); memset(&o.init[off], 1, len); } return true; }
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::invariant_end: return true;
      case Intrinsic::invariant_start: case Intrinsic::stacksave: return R(Val::P(0));
      case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::expect: case Intrinsic::annotation: case Intrinsic::ptr_annotation: case Intrinsic::ssa_copy: return R(a[0]);
      case Intrinsic::is_constant: return R(Val::I(0, 1));
      case Intrinsic::objectsize: return R(Val::I(~(u128)0, rt->getIntegerBitWidth()));
      case Intrinsic::trap: case Intrinsic::ubsantrap: reportError("trap", "trap executed"); throw PathEnd{1, "trap"};
      case Intrinsic::sqrt: return fl(math1("sqrt", asD(a[0])));
      case Intrinsic::fabs: return fl(math1("fabs", asD(a[0])));
      case Intrinsic::sin: return fl(math1("sin", asD(a[0]))); case Intrinsic::cos: return fl(math1("cos", asD(a[0])));
      case Intrinsic::exp: return fl(math1("exp", asD(a[0]))); case Intrinsic::log: return fl(math1("log", asD(a[0])));
      case Intrinsic::pow: return fl(math2("pow", asD(a[0]), asD(a[1])));
      case Intrinsic::powi: { int k = (int)sext((u128)concretize(a[1]), a[1].w); E x = asD(a[0]), r = dconst(1); for (int i = 0; i < std::abs(k); i++) r = farith(Instruction::FMul, r, x); if (k < 0) r = farith(Instruction::FDiv, dconst(1), r); return fl(r); }
      case Intrinsic::floor: return fl(roundOp("floor", asD(a[0]))); case Intrinsic::ceil: return fl(roundOp("ceil", asD(a[0]))); case Intrinsic::trunc: return fl(roundOp("trunc", asD(a[0])));
      case Intrinsic::round: return fl(roundOp("round", asD(a[0]))); case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return fl(roundOp("rint", asD(a[0])));
      case Intrinsic::fmuladd: case Intrinsic::fma: return fl(farith(Instruction::FAdd, farith(Instruction::FMul, asD(a[0]), asD(a[1])), asD(a[2])));
      case Intrinsic::copysign: {
        E x = asD(a[0]), y = asD(a[1]);
        if (opt.fp) { if (Ctx::isFC(y)) { E ab = c.fun1(Op::FAbs, x); return fl(std::signbit(Ctx::fval(y)) ? c.fun1(Op::FNeg, ab) : ab); } E neg = c.bcmp(Op::BSlt, fpBits(y), c.bv(0, 64)); E ab = c.fun1(Op::FAbs, x); return fl(c.ite(neg, c.fun1(Op::FNeg, ab), ab)); }
        if (y->op == Op::RNan) return fl(c.rabs(x)); E neg = y->op == Op::RInf ? c.boolc(y->val == 1) : c.rlt(y, c.rint(0)); E ab = c.rabs(x); return fl(c.ite(neg, c.rneg(ab), ab)); }
      case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::minimum: case Intrinsic::maximum: {
        E x = asD(a[0]), y = asD(a[1]); bool mn = F->getIntrinsicID() == Intrinsic::minnum || F->getIntrinsicID() == Intrinsic::minimum; if (x->op == Op::RNan) return fl(y); if (y->op == Op::RNan) return fl(x);
        if (opt.fp) return fl(c.fbin(mn ? Op::FMin : Op::FMax, x, y)); E lt = c.rlt(x, y); return R(selectV(lt, mkE(mn ? x : y), mkE(mn ? y : x))); }
      case Intrinsic::is_fpclass: {
        unsigned m = (unsigned)concretize(a[1]); E x = asD(a[0]); E r = c.f; E inf, nan, neg, zero;
        if (opt.fp) { E bits = fpBits(x); nan = isNan(x); inf = c.mk(Op::FIsInf, Sort::Bool, 1, {x}); if (Ctx::isFC(x)) inf = c.boolc(std::isinf(Ctx::fval(x))); neg = c.bcmp(Op::BSlt, bits, c.bv(0, 64)); zero = c.fcmp(Op::FEq, x, c.fconst(0)); }
        else { nan = c.boolc(x->op == Op::RNan); inf = c.boolc(x->op == Op::RInf); if (Ctx::isSpecial(x)) { neg = c.boolc(x->op == Op::RInf && x->val == 1); zero = c.f; } else { neg = c.rlt(x, c.rint(0)); zero = c.req(x, c.rint(0)); } }
        E fin = c.mkAnd(c.mkNot(nan), c.mkNot(inf)); E nz = c.mkAnd(fin, c.mkNot(zero));
        if (m & 3) r = c.mkOr(r, nan); if (m & 4) r = c.mkOr(r, c.mkAnd(inf, neg)); if (m & 512) r = c.mkOr(r, c.mkAnd(inf, c.mkNot(neg)));
        if (m & 8) r = c.mkOr(r, c.mkAnd(nz, neg)); if (m & 256) r = c.mkOr(r, c.mkAnd(nz, c.mkNot(neg))); if (m & 32) r = c.mkOr(r, c.mkAnd(c.mkAnd(fin, zero), neg)); if (m & 64) r = c.mkOr(r, c.mkAnd(c.mkAnd(fin, zero), c.mkNot(neg)));
        if (opt.fp && ((m & 0x90) && ((m & 0x108) != 0x108) )) { }
        return R(mkE(r)); }
      case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: {
        E x = asBV(a[0]), y = asBV(a[1]); auto id = F->getIntrinsicID(); bool sg = id == Intrinsic::smax || id == Intrinsic::smin; bool mx = id == Intrinsic::smax || id == Intrinsic::umax;
        E lt = c.bcmp(sg ? Op::BSlt : Op::BUlt, x, y); return R(mkE(c.ite(lt, mx ? y : x, mx ? x : y))); }
      case Intrinsic::abs: { E x = asBV(a[0]); return R(mkE(c.ite(c.bcmp(Op::BSlt, x, c.bv(0, x->width)), c.bbin(Op::BSub, c.bv(0, x->width), x), x))); }
      case Intrinsic::usub_sat: { E x = asBV(a[0]), y = asBV(a[1]); return R(mkE(c.ite(c.bcmp(Op::BUlt, x, y), c.bv(0, x->width), c.bbin(Op::BSub, x, y)))); }
      case Intrinsic::uadd_sat: { E x = asBV(a[0]), y = asBV(a[1]); E s = c.bbin(Op::BAdd, x, y); return R(mkE(c.ite(c.bcmp(Op::BUlt, s, x), c.bv(~(u128)0, x->width), s))); }
      case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap: {
        u128 x = concretize(a[0]); unsigned w = a[0].w; u128 r = 0;
        switch (F->getIntrinsicID()) { case Intrinsic::ctlz: while (r < w && !((x >> (w - 1 - (unsigned)r)) & 1)) r++; break; case Intrinsic::cttz: while (r < w && !((x >> (unsigned)r) & 1)) r++; break; case Intrinsic::ctpop: for (unsigned i = 0; i < w; i++) r += (x >> i) & 1; break; default: for (unsigned i = 0; i < w; i += 8) r = (r << 8) | ((x >> i) & 255); }
        return R(Val::I(r, w)); }
      case Intrinsic::fshl: case Intrinsic::fshr: {
        unsigned w = rt->getIntegerBitWidth(); unsigned k = (unsigned)(concretize(a[2]) % w); E hi = asBV(a[0]), lo = asBV(a[1]); if (2 * w > 128) throw Unsupported{"fsh"}; E cc = c.concat(hi, lo);
        return R(mkE(F->getIntrinsicID() == Intrinsic::fshl ? c.extract(cc, w - k, w) : c.extract(cc, k, w))); }
      case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: {
        auto id = F->getIntrinsicID(); E x = asBV(a[0]), y = asBV(a[1]); unsigned w = x->width; bool sg = id == Intrinsic::smul_with_overflow || id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow;
        Op op = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow ? Op::BMul : id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow ? Op::BAdd : Op::BSub; unsigned ww = op == Op::BMul ? 2 * w : w + 1; if (ww > 128) throw Unsupported{"overflow width"};
        E r = c.bbin(op, x, y); E wr = sg ? c.bbin(op, c.sextE(x, ww), c.sextE(y, ww)) : c.bbin(op, c.zext(x, ww), c.zext(y, ww)); E fits = c.eq(wr, sg ? c.sextE(r, ww) : c.zext(r, ww));
        Val v; v.kind = 3; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(mkE(r)); v.agg->push_back(mkE(c.mkNot(fits))); return R(v); }
      case Intrinsic::vastart: case Intrinsic::vaend: return true;
      default: break;
    }
    if (rt->isVoidTy()) { notes.insert("intrinsic ignored: " + n); return true; }
    // reductions
    if (startsWith(n, "llvm.vector.reduce.")) {
      std::string op = n.substr(19); op = op.substr(0, op.find('.')); auto& v = a.back(); if (v.kind == 3) {
        if (op == "fadd" || op == "fmul") { E r = asD(a[0]); for (auto& x : *v.agg) r = farith(op == "fadd" ? Instruction::FAdd : Instruction::FMul, r, asD(x)); return fl(r); }
        Val r = (*v.agg)[0]; for (size_t i = 1; i < v.agg->size(); i++) { Val y = (*v.agg)[i]; if (op == "and") { r = r.w == 1 ? mkE(c.mkAnd(asBool(r), asBool(y))) : mkE(c.bbin(Op::BAnd, asBV(r), asBV(y))); } else if (op == "or") { r = r.w == 1 ? mkE(c.mkOr(asBool(r), asBool(y))) : mkE(c.bbin(Op::BOr, asBV(r), asBV(y))); } else if (op == "add") r = mkE(c.bbin(Op::BAdd, asBV(r), asBV(y))); else throw Unsupported{n}; }
        return R(r); } }
    return false;
  }
  // ---------------------------------------------------------------- harness interface
  if (startsWith(n, "sym_")) {
    auto key = [&](const std::string& base, int k) { return k == 0 ? base : base + "#" + std::to_string(k); };
    if (n == "sym_real" || n == "sym_fp" || n == "sym_int" || n == "sym_long" || n == "sym_u64" || n == "sym_bool" || n == "sym_choice") {
      std::string base = cstr(U(0)); std::string nm = key(base, S->nameCount[base]); Val v; 
      auto dlo = [&](int i) { E e = asD(a[i]); return e->op == Op::FConst ? Ctx::fval(e) : e->op == Op::RInf ? (e->val ? -INFINITY : INFINITY) : e->q->get_d(); };
      if (n == "sym_real") v = mkE(c.newVar(nm, opt.fp ? Sort::FP : Sort::Real, opt.fp ? 64 : 0, true, dlo(1), dlo(2)));
      else if (n == "sym_fp") v = mkE(c.newVar(nm, opt.fp ? Sort::FP : Sort::Real, opt.fp ? 64 : 0));
      else if (n == "sym_int") v = mkE(c.newVar(nm, Sort::BV, 32, true, (double)sext(a[1].i, 32), (double)sext(a[2].i, 32)));
      else if (n == "sym_long") v = mkE(c.newVar(nm, Sort::BV, 64, true, (double)sext(a[1].i, 64), (double)sext(a[2].i, 64)));
      else if (n == "sym_u64") v = mkE(c.newVar(nm, Sort::BV, 64));
      else if (n == "sym_bool") v = mkE(c.newVar(nm, Sort::Bool, 1));
      else { E e = c.newVar(nm, Sort::BV, 32, true, 0, (double)((int)a[1].i - 1)); v = Val::I(concretize(mkE(e)), 32); }
      S->nameCount[base]++; return R(v);
    }
    if (n == "sym_unit4" || n == "sym_unit2") {
      int un = n == "sym_unit4" ? 4 : 2;
      std::string base = cstr(U(0)); int k = S->nameCount[base]++; uint64_t p = U(1); static const char* cn[4] = {"_w", "_x", "_y", "_z"}; std::vector<E> g; bool fresh = false;
      for (int i = 0; i < un; i++) { std::string nm = key(base, k) + cn[i]; if (!c.varNode.count(nm)) fresh = true; g.push_back(c.newVar(nm, opt.fp ? Sort::FP : Sort::Real, opt.fp ? 64 : 0, true, -1, 1)); }
      if (fresh) { int id = c.unitGroups.size(); c.unitGroups.push_back(g); for (int i = 0; i < un; i++) { auto& vi = c.vars[g[i]->name]; vi.unitGroup = id; vi.unitPos = i; } }
      Type* d = Type::getDoubleTy(lctx); for (int i = 0; i < un; i++) store(d, p + 8 * i, mkE(g[i])); return true;
    }
    if (n == "sym_assume") { addAssume(asBool(a[0])); return true; }
    if (n == "sym_assert") { assertB(asBool(a[0]), cstr(U(1))); return true; }
    if (n == "sym_eq") { assertEq(asD(a[0]), asD(a[1]), cstr(U(2))); return true; }
    if (n == "sym_reach") { std::string m = cstr(U(0)); S->reached.insert(m); return true; }
    if (n == "sym_symbolic") return R(Val::I(1, 32));
    if (n == "sym_decide") { return R(Val::I(decide(asBool(a[0])), 1)); }
    if (n == "sym_diff") { E v = asD(a[1]); if (v->op != Op::RVar) throw Unsupported{"sym_diff: not a variable"}; return fl(diffAtZero(c, asD(a[0]), v)); }
    if (n == "sym_zero") { E v = asD(a[1]); if (v->op != Op::RVar) throw Unsupported{"sym_zero: not a variable"}; return fl(substZero(c, asD(a[0]), v)); }
    if (n == "sym_print") { if (opt.verbose) { std::string m = cstr(U(0)); fprintf(stderr, "[print] %s %s\n", m.c_str(), toStr(asD(a[1]), 6).substr(0, 400).c_str()); } return true; }
    if (n == "sym_printi") { if (opt.verbose) { std::string m = cstr(U(0)); fprintf(stderr, "[print] %s %s\n", m.c_str(), toStr(asBV(a[1]), 6).substr(0, 400).c_str()); } return true; }
    if (n == "sym_allocated") { uint64_t t = 0; for (auto& kv : S->mem) if (kv.second->kind == 2 && !kv.second->freed) t += kv.second->size; return R(Val::I(t, 64)); }
    return false;
  }
  externsUsed.insert(dem.substr(0, 100));
  // ---------------------------------------------------------------- C / C++ runtime
  if (n == "malloc" || n == "_Znwm" || n == "_Znam" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t" || n == "_ZnwmRKSt9nothrow_t" || n == "_ZnamRKSt9nothrow_t") { uint64_t sz = (uint64_t)concretize(a[0]); if (sz > (1ull << 28)) throw Unsupported{"huge allocation"}; return R(Val::P(alloc(sz, 2, "heap"))); }
  if (n == "calloc") { uint64_t sz = (uint64_t)(concretize(a[0]) * concretize(a[1])); return R(Val::P(alloc(sz, 2, "heap", true))); }
  if (n == "aligned_alloc" || n == "memalign") { uint64_t sz = (uint64_t)concretize(a[1]); return R(Val::P(alloc(sz, 2, "heap"))); }
  if (n == "posix_memalign") { uint64_t sz = (uint64_t)concretize(a[2]); uint64_t p = alloc(sz, 2, "heap"); store(PointerType::get(lctx, 0), U(0), Val::P(p)); return R(Val::I(0, 32)); }
  if (n == "realloc") { uint64_t sz = (uint64_t)concretize(a[1]); uint64_t o = U(0); uint64_t p = alloc(sz, 2, "heap"); if (o) { ObjP* ob = find(o); if (!ob || (*ob)->base != o) memError("realloc of an invalid pointer"); copyMem(p, o, std::min(sz, (*ob)->size)); ob = find(o); *ob = std::make_shared<Obj>(**ob); (*ob)->freed = true; } return R(Val::P(p)); }
  if (n == "free" || startsWith(n, "_ZdlPv") || startsWith(n, "_ZdaPv")) {
    uint64_t p = U(0); if (!p) return true; auto it = S->mem.find(p);
    if (it == S->mem.end()) memError("free of an invalid pointer"); if (it->second->freed) memError("double free"); if (it->second->kind != 2) memError("free of a non-heap object");
    auto o = std::make_shared<Obj>(); o->base = it->second->base; o->size = it->second->size; o->kind = 2; o->freed = true; o->name = it->second->name; it->second = o; return true; }
  if (n == "memcpy" || n == "memmove") { uint64_t len = (uint64_t)concretize(a[2]); if (len) { uint64_t d = U(0), s = U(1); if (n == "memcpy" && d != s && d < s + len && s < d + len) reportError("overlap", "memcpy with overlapping regions"); copyMem(d, s, len); } return R(a[0]); }
  if (n == "memset") { uint64_t len = (uint64_t)concretize(a[2]); if (len) { uint64_t off, d = U(0); uint8_t b = (uint8_t)concretize(a[1]); Obj& o = access(d, len, true, off); if (hasCells(o, off, len)) clearCells(o, off, len); memset(&o.bytes[off], b, len); memset(&o.init[off], 1, len); } return R(a[0]); }
  if (n == "strlen") { return R(Val::I(cstr(U(0)).size(), 64)); }
  if (n == "memcmp" || n == "bcmp" || n == "strcmp" || n == "strncmp") {
    uint64_t p = U(0), q = U(1), len = n == "strcmp" ? 1u << 20 : (uint64_t)concretize(a[2]); bool str = n[0] == 's'; int r = 0; uint64_t off;
    for (uint64_t i = 0; i < len; i++) { Obj& o1 = access(p + i, 1, false, off); Val x = loadRaw(o1, off, 1, false); Obj& o2 = access(q + i, 1, false, off); Val y = loadRaw(o2, off, 1, false); uint8_t u = (uint8_t)concretize(x), v = (uint8_t)concretize(y); if (u != v) { r = u < v ? -1 : 1; break; } if (str && !u) break; }
    return R(Val::I((u128)(i128)r, 32)); }
  if (n == "memchr") { uint64_t p = U(0), len = (uint64_t)concretize(a[2]), off; uint8_t ch = (uint8_t)concretize(a[1]); for (uint64_t i = 0; i < len; i++) { Obj& o = access(p + i, 1, false, off); if ((uint8_t)concretize(loadRaw(o, off, 1, false)) == ch) return R(Val::P(p + i)); } return R(Val::P(0)); }
  static const std::set<std::string> m1 = {"sin","cos","tan","asin","acos","atan","exp","log","sqrt","fabs","sinh","cosh","tanh","cbrt","log10","log2","exp2"};
  static const std::set<std::string> m2 = {"pow","atan2","fmod","hypot"};
  { std::string b = n; if (!b.empty() && b.back() == 'f' && (m1.count(b.substr(0, b.size() - 1)) || m2.count(b.substr(0, b.size() - 1)))) b.pop_back();
    if (m1.count(b)) return fl(math1(b, asD(a[0]))); if (m2.count(b)) return fl(math2(b, asD(a[0]), asD(a[1])));
    if (b == "sincos") { E x = asD(a[0]); Type* d = Type::getDoubleTy(lctx); store(d, U(1), mkE(math1("sin", x))); store(d, U(2), mkE(math1("cos", x))); return true; }
    if (b == "floor" || b == "ceil" || b == "trunc" || b == "round" || b == "rint" || b == "nearbyint") return fl(roundOp(b == "nearbyint" ? "rint" : b, asD(a[0])));
    if (b == "fmax" || b == "fmin") { E x = asD(a[0]), y = asD(a[1]); if (x->op == Op::RNan) return fl(y); if (y->op == Op::RNan) return fl(x); if (opt.fp) return fl(c.fbin(b == "fmin" ? Op::FMin : Op::FMax, x, y)); E lt = c.rlt(x, y); return R(selectV(lt, mkE(b == "fmin" ? x : y), mkE(b == "fmin" ? y : x))); }
    if (b == "lround" || b == "llround") return R(d2i(roundOp("round", asD(a[0])), 64, true));
    if (b == "abs" || b == "labs") { E x = asBV(a[0]); return R(mkE(c.ite(c.bcmp(Op::BSlt, x, c.bv(0, x->width)), c.bbin(Op::BSub, c.bv(0, x->width), x), x))); }
    if (b == "isnan" || b == "__isnan") return R(mkE(c.zext(isNan(asD(a[0])), 32)));
    if (b == "__errno_location") { return R(Val::P(alloc(8, 0, "errno", true))); } }
  if (n == "__cxa_atexit" || n == "atexit") return R(Val::I(0, 32));
  if (n == "__cxa_guard_acquire") { Type* t = Type::getInt8Ty(lctx); Val v = load(t, U(0)); return R(Val::I(v.i == 0, 32)); }
  if (n == "__cxa_guard_release") { store(Type::getInt8Ty(lctx), U(0), Val::I(1, 8)); return true; }
  if (n == "__cxa_guard_abort") return true;
  if (startsWith(n, "pthread_mutex_") || startsWith(n, "pthread_cond_") || startsWith(n, "pthread_once") || startsWith(n, "pthread_key") || n == "sched_yield" || n == "usleep" || n == "nanosleep" || startsWith(n, "pthread_")) { return rt->isVoidTy() ? true : R(zeroOf(rt)); }
  if (n == "__cxa_allocate_exception") return R(Val::P(alloc((uint64_t)concretize(a[0]), 2, "exception")));
  if (n == "__dynamic_cast") { // Itanium ABI: walk the type information reachable from the object's virtual table
    uint64_t p = U(0), want = U(2); if (!p) return R(Val::P(0)); Type* pt = PointerType::get(lctx, 0); Type* i64 = Type::getInt64Ty(lctx);
    uint64_t vp = (uint64_t)load(pt, p).i, ti = (uint64_t)load(pt, vp - 8).i, top = p + (uint64_t)load(i64, vp - 16).i;
    auto byAddr = [&](uint64_t x) -> const GlobalVariable* { for (auto& kv : gaddr) if (kv.second == x) return kv.first; return nullptr; };
    std::function<int64_t(uint64_t)> off = [&](uint64_t t) -> int64_t { // offset of the wanted base in type t, or -1
      if (t == want) return 0; const GlobalVariable* g = byAddr(t); if (!g) throw Unsupported{"dynamic_cast over an unknown type"};
      if (!g->hasInitializer()) return -1; // type of another library (e.g. a standard exception)
      auto* cs = cast<ConstantStruct>(g->getInitializer()); unsigned k = cs->getNumOperands(); if (k == 2) return -1;
      uint64_t a3 = (uint64_t)load(pt, t + 16).i; if (k == 3) return off(a3);
      unsigned cnt = (unsigned)(a3 >> 32); for (unsigned b = 0; b < cnt; b++) { uint64_t bt = (uint64_t)load(pt, t + 24 + 16 * b).i; int64_t of = (int64_t)(uint64_t)load(i64, t + 32 + 16 * b).i; if (of & 1) throw Unsupported{"dynamic_cast with a virtual base"}; int64_t r = off(bt); if (r >= 0) return r + (of >> 8); }
      return -1; };
    int64_t o = off(ti); return R(Val::P(o < 0 ? 0 : top + (uint64_t)o)); }
  if (n == "__cxa_throw") { std::string ti; for (auto& kv : gaddr) if (kv.second == (uint64_t)a[1].i) ti = demangle(kv.first->getName().str()); return exc("exception thrown: " + ti); }
  if (startsWith(dem, "std::__throw_")) return exc(dem.substr(0, 60));
  if (n == "__clang_call_terminate" || n == "_ZSt9terminatev" || n == "abort" || n == "__assert_fail" || n == "exit" || n == "_exit" || n == "__cxa_pure_virtual") { reportError("abort", n == "__assert_fail" ? "assertion failed: " + cstr(U(0)) : "program terminated through " + n); throw PathEnd{1, n}; }
  if (startsWith(n, "_ZN6google") || startsWith(n, "_ZNK6google")) { // glog: message construction is a no-op; LOG(FATAL) ends the program
    if (dem.find("LogMessageFatal::~LogMessageFatal") != std::string::npos) { reportError("abort", "LOG(FATAL)"); throw PathEnd{1, "LOG(FATAL)"}; }
    if (rt->isVoidTy()) return true; if (rt->isPointerTy() && dem.find("::stream") != std::string::npos) { static std::map<int,int> d; uint64_t p = alloc(512, 2, "stream", true); return R(Val::P(p)); } return R(zeroOf(rt)); }
  if (dem.find("stringstream<") != std::string::npos && (endsWith(n, "C1Ev") || endsWith(n, "C1ESt13_Ios_Openmode"))) { // an empty text stream
    uint64_t d = U(0); auto* i64 = Type::getInt64Ty(lctx); for (int i = 0; i < (dem.find("ostringstream<") != std::string::npos ? 376 : 392); i += 8) store(i64, d + i, Val::I(0, 64)); uint64_t vt = alloc(128, 2, "stream", true); for (int i = 0; i < 128; i += 8) store(i64, vt + i, Val::I(0, 64)); store(PointerType::get(lctx, 0), d, Val::P(vt + 64)); store(PointerType::get(lctx, 0), d + 16, Val::P(vt + 64)); return true; }
  if (startsWith(dem, "std::basic_ostream") || startsWith(dem, "std::ostream") || startsWith(dem, "std::basic_ios") || startsWith(dem, "std::ios_base") || startsWith(dem, "std::basic_ofstream") || startsWith(dem, "std::operator<<") || startsWith(dem, "std::endl") || startsWith(dem, "std::basic_stringstream") || startsWith(dem, "std::__cxx11::basic_ostringstream") || startsWith(dem, "std::__cxx11::basic_stringstream") || startsWith(dem, "std::locale") || startsWith(dem, "std::basic_streambuf") || startsWith(dem, "std::basic_filebuf") || dem.find("std::basic_ostream<") != std::string::npos || startsWith(dem, "std::istream") || startsWith(dem, "std::basic_istream")) { if (rt->isVoidTy()) return true; if (rt->isPointerTy() && !a.empty()) return R(a[0]); return R(zeroOf(rt)); }
  if (n == "printf" || n == "puts" || n == "putchar" || n == "fprintf" || n == "fflush" || n == "fputs" || n == "fwrite" || n == "fputc" || n == "putc" || n == "snprintf" || n == "sprintf" || n == "vsnprintf") {
    if (n == "snprintf" || n == "sprintf") { uint64_t d = U(0); store(Type::getInt8Ty(lctx), d, Val::I('0', 8)); store(Type::getInt8Ty(lctx), d + 1, Val::I(0, 8)); return R(Val::I(1, 32)); }
    return R(Val::I(0, 32)); }
  if (n == "getenv") return R(Val::P(0));
  if (n == "_ZNSt8ios_base4InitC1Ev" || n == "_ZNSt8ios_base4InitD1Ev") return true;
  if (n == "_ZNSt9exceptionD2Ev" || startsWith(dem, "std::exception::") || startsWith(dem, "std::out_of_range") || startsWith(dem, "std::runtime_error") || startsWith(dem, "std::logic_error") || startsWith(dem, "std::invalid_argument") || startsWith(dem, "std::length_error") || startsWith(dem, "std::bad_")) { if (rt->isVoidTy()) return true; return R(zeroOf(rt)); }
  if (n == "__cxa_free_exception" || n == "__cxa_end_catch") return true;
  if (startsWith(dem, "boost::throw_exception") || startsWith(dem, "boost::wrapexcept")) { if (startsWith(dem, "boost::throw_exception")) return exc(dem.substr(0, 80)); return true; }
  (void)cb;
  return false;
}
static void printProgress(Engine* e) { fprintf(stderr, "[%.0fs] paths=%ld done=%ld work=%zu steps=%ld ob=%ld queries=%ld solver=%.1fs\n", nowS() - e->t0, e->nPaths, e->nDone, e->work.size(), e->steps, e->obTotal, e->smt.nQueries, e->smt.solverTime); }

void Engine::runState() {
  long k = 0;
  while (!S->st.empty()) {
    if ((++k & 1023) == 0) {
      if (nowS() - t0 > opt.timeLimit) { timedOut = true; throw PathEnd{3, "time limit"}; }
      if (steps > opt.maxSteps) { timedOut = true; throw PathEnd{3, "step limit"}; }
    }
    step();
  }
}

void Engine::run() {
  SMDiagnostic err; M = parseIRFile(opt.bc, err, lctx); if (!M) { err.print("engine", errs()); exit(3); }
  DL = &M->getDataLayout();
  State init; S = &init;
  initGlobals();
  Function* entry = M->getFunction(opt.entry); if (!entry || entry->isDeclaration()) { fprintf(stderr, "no entry %s\n", opt.entry.c_str()); exit(3); }
  // static constructors
  if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* ca = dyn_cast<ConstantArray>(gc->getInitializer())) {
    std::vector<std::pair<uint64_t, Function*>> cs;
    for (auto& o : ca->operands()) { auto* cs0 = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(cs0->getOperand(1))) cs.push_back({cast<ConstantInt>(cs0->getOperand(0))->getZExtValue(), f}); }
    std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& p : cs) {
      try { pushCall(p.second, {}); runState(); }
      catch (Unsupported& u) { notes.insert("static constructor " + demangle(p.second->getName().str()) + ": " + u.msg); while (!S->st.empty()) S->st.pop_back(); }
      catch (PathEnd&) { notes.insert("static constructor ended abnormally"); while (!S->st.empty()) S->st.pop_back(); }
      if (!work.empty()) { notes.insert("static constructor forked"); work.clear(); }
    }
  }
  pushCall(entry, {});
  work.push_back(std::move(init)); S = nullptr;
  double lastP = nowS();
  while (!work.empty()) {
    if (nowS() - t0 > opt.timeLimit || nPaths >= opt.maxPaths) { timedOut = true; break; }
    State cur = std::move(work.back()); work.pop_back(); S = &cur; nPaths++;
    try { runState(); nDone++; for (auto& m : cur.reached) reach[m]++; endOfPath(); }
    catch (PathEnd& e) { if (e.kind == 0) nAssumed++; else if (e.kind == 2) nExc++; else if (e.kind == 3) break; }
    catch (Unsupported& u) { nUnsup++; if (unsupMsgs.size() < 12) unsupMsgs.insert(u.msg + " at " + where()); }
    catch (TooBig&) { nUnsup++; unsupMsgs.insert("polynomial too large at " + where()); }
    S = nullptr;
    if (opt.verbose && nowS() - lastP > 10) { lastP = nowS(); printProgress(this); }
  }
}
void Engine::endOfPath() {
  // a concrete model of a completed path, replayed natively to validate the encoding
  if ((int)pathModels.size() >= opt.pathModels) return;
  if (nDone > 1 && (rng() % 100) > 40 && nDone > opt.pathModels) return;
  Model m; Res r = smt.check(S->pc, 4000, &m); if (r == Res::Unsat) return;
  std::map<std::string, NumVal> a; bool ok = false;
  if (r == Res::Sat) { completeModel(a, m); NumEnv memo; ok = opt.fp || pcHolds(a, memo); }
  for (int it = 0; it < 300 && !ok && !opt.fp; it++) { // the solver gave up: look for values on this path
    a.clear(); for (auto& vn : c.varOrder) a[vn] = randFor(c.vars[vn]); normaliseUnits(a, {}); NumEnv memo; ok = pcHolds(a, memo);
  }
  if (!ok) return;
  pathModels.push_back(a); pathReach.push_back(std::vector<std::string>(S->reached.begin(), S->reached.end()));
}

void Engine::writeOut() {
  std::ostringstream o; 
  auto strs = [&](const auto& v) { std::string r = "["; bool f = true; for (auto& s : v) { r += (f ? "\"" : ",\"") + jesc(s) + "\""; f = false; } return r + "]"; };
  auto lmap = [&](const std::map<std::string, long>& m) { std::string r = "{"; bool f = true; for (auto& p : m) { r += (f ? "\"" : ",\"") + jesc(p.first) + "\":" + std::to_string(p.second); f = false; } return r + "}"; };
  auto asg = [&](const std::map<std::string, NumVal>& a) { std::string r = "{"; bool f = true; for (auto& p : a) { auto it = c.vars.find(p.first); if (it == c.vars.end() || startsWith(p.first, "probe!")) continue; auto& vi = it->second; std::string v;
      if (vi.sort == Sort::Bool) v = p.second.b ? "1" : "0"; else if (vi.sort == Sort::BV) v = std::to_string((long long)sext(p.second.b, vi.width)); else v = fmtNum(p.second.d);
      r += (f ? "\"" : ",\"") + jesc(p.first) + "\":" + v; f = false; } return r + "}"; };
  o << "{\"entry\":\"" << opt.entry << "\",\"mode\":\"" << (opt.fp ? "fp" : "real") << "\",\"paths\":" << nPaths << ",\"completed\":" << nDone << ",\"assume_pruned\":" << nAssumed << ",\"error_paths\":" << nErr << ",\"exception_paths\":" << nExc << ",\"unsupported_paths\":" << nUnsup
    << ",\"forks\":" << nForks << ",\"steps\":" << steps << ",\"timed_out\":" << (timedOut ? "true" : "false") << ",\"wall_s\":" << nowS() - t0
    << ",\"obligations\":{\"total\":" << obTotal << ",\"structural\":" << obTrivial << ",\"polynomial\":" << obPoly << ",\"solver\":" << obSolver << ",\"failed\":" << obFail << ",\"unknown\":" << obUnknown << "}"
    << ",\"by_message\":" << lmap(obByMsg) << ",\"failed_by_message\":" << lmap(obFailByMsg) << ",\"unknown_by_message\":" << lmap(obUnkByMsg) << ",\"reach\":" << lmap(reach)
    << ",\"crosscheck\":{\"asked\":" << cross << ",\"agreed\":" << crossOk << ",\"unknown\":" << crossUnk << ",\"disagreed\":" << crossBad << "}"
    << ",\"queries\":" << smt.nQueries << ",\"queries_unsat\":" << smt.nUnsat << ",\"queries_sat\":" << smt.nSat << ",\"queries_unknown\":" << smt.nUnknown << ",\"external_queries\":" << smt.nExternal << ",\"solver_s\":" << smt.solverTime
    << ",\"feasibility_unknown\":" << feasUnk << ",\"undef_branches\":" << undefBr << ",\"undef_locations\":" << strs(undefLocs) << ",\"division_by_nonzero_assumed\":" << divAssumed
    << ",\"unsupported\":" << strs(unsupMsgs) << ",\"notes\":" << strs(notes) << ",\"externals\":" << strs(externsUsed) << ",\"samples\":" << strs(obSamples);
  std::set<std::string> fr; long nf = 0; for (auto& p : fis) if (p.second && p.second->entered) { nf++; if (p.second->inRepo) fr.insert(p.second->dem.substr(0, 140)); for (auto& x : p.second->repoSubs) fr.insert(x.substr(0, 140)); }
  o << ",\"functions_encoded\":" << nf << ",\"functions_repo\":["; bool f = true; for (auto& p : fr) { o << (f ? "\"" : ",\"") << jesc(p) << "\""; f = false; } o << "]";
  o << ",\"variables\":" << c.vars.size() << ",\"expr_nodes\":" << c.all.size();
  o << ",\"path_models\":["; for (size_t i = 0; i < pathModels.size(); i++) o << (i ? "," : "") << "{\"reach\":" << strs(pathReach[i]) << ",\"values\":" << asg(pathModels[i]) << "}"; o << "]";
  o << ",\"cexs\":["; f = true;
  for (auto& x : cexs) { o << (f ? "" : ",") << "{\"kind\":\"" << x.kind << "\",\"msg\":\"" << jesc(x.msg) << "\",\"loc\":\"" << jesc(x.loc) << "\",\"numeric_ok\":" << (x.numericOk ? "true" : "false") << ",\"undef\":" << (x.undefDep ? "true" : "false") << ",\"feas_unknown\":" << (x.feasUnknown ? "true" : "false") << ",\"values\":" << asg(x.asg) << "}"; f = false; }
  o << "]}\n";
  if (opt.out.empty()) std::cout << o.str(); else { std::ofstream fo(opt.out); fo << o.str(); }
}

static int realMain(int argc, char** argv) {
  Options o;
  for (int i = 1; i < argc; i++) {
    std::string s = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (s == "--bc") o.bc = nx(); else if (s == "--entry") o.entry = nx(); else if (s == "--out") o.out = nx(); else if (s == "--fp") o.fp = true; else if (s == "--skip") o.skip.push_back(nx());
    else if (s == "--time") o.timeLimit = atof(nx().c_str()); else if (s == "--ob-timeout") o.obTimeout = atoi(nx().c_str()); else if (s == "--max-paths") o.maxPaths = atol(nx().c_str()); else if (s == "--feas-timeout") o.feasTimeout = atoi(nx().c_str());
    else if (s == "--ub-int") o.ubInt = true; else if (s == "--seed") o.seed = atoi(nx().c_str()); else if (s == "--div-fork") o.divFork = true; else if (s == "--round-const") o.roundConst = true; else if (s == "--poly-cap") o.polyCap = atol(nx().c_str()); else if (s == "--poly-work") o.polyWork = atol(nx().c_str()); else if (s == "--fork-select") o.forkSelect = true;
    else if (s == "--verbose") o.verbose = true; else if (s == "--max-enum") o.maxEnum = atoi(nx().c_str()); else if (s == "--work-dir") o.workDir = nx(); else if (s == "--path-models") o.pathModels = atoi(nx().c_str()); else if (s == "--cross-check") o.crossCheck = atoi(nx().c_str()); else if (s == "--max-steps") o.maxSteps = atol(nx().c_str());
    else { fprintf(stderr, "unknown option %s\n", s.c_str()); return 3; }
  }
  Engine* e = new Engine(o);
  try { e->run(); } catch (Unsupported& u) { e->nUnsup++; e->unsupMsgs.insert("outside a path: " + u.msg); }
  e->writeOut(); fflush(stdout); _exit(0);
}
int main(int argc, char** argv) {
  int rc = 0; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1ull << 30);
  struct A { int c; char** v; int* r; } arg{argc, argv, &rc}; pthread_t t;
  pthread_create(&t, &at, [](void* p) -> void* { A* a = (A*)p; *a->r = realMain(a->c, a->v); return nullptr; }, &arg); pthread_join(t, nullptr); return rc;
}
