// LLVM bitcode -> engine form.
#include "mir.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
using namespace llvm;

namespace {
struct Front {
	Module &M; const DataLayout &DL; MModule *mm;
	std::map<const GlobalVariable *, int> gidx;
	std::map<const Function *, MFunc *> fmap;
	std::map<std::string, int> fileIdx;
	Front(Module &m) : M(m), DL(m.getDataLayout()), mm(new MModule) {}

	int fileOf(const std::string &f) {
		auto it = fileIdx.find(f);
		if (it != fileIdx.end()) return it->second;
		mm->files.push_back(f);
		return fileIdx[f] = (int)mm->files.size() - 1;
	}
	int widthOf(Type *t) {
		if (t->isIntegerTy()) return (int)t->getIntegerBitWidth();
		if (t->isPointerTy()) return 64;
		if (t->isDoubleTy()) return 64;
		if (t->isFloatTy()) return 32;
		return 0;
	}
	int slotsOf(Type *t) {
		if (t->isVoidTy()) return 0;
		if (auto *st = dyn_cast<StructType>(t)) { int n = 0; for (auto *e : st->elements()) n += slotsOf(e); return n; }
		if (auto *at = dyn_cast<ArrayType>(t)) return (int)at->getNumElements() * slotsOf(at->getElementType());
		return 1;
	}
	u64 constScalar(const Constant *c) {
		if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return 0; return ci->getZExtValue(); }
		if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) return 0;
		if (auto *cf = dyn_cast<ConstantFP>(c)) return cf->getValueAPF().bitcastToAPInt().getZExtValue();
		if (auto *g = dyn_cast<GlobalVariable>(c)) return mm->globals[gidx.at(g)].addr;
		if (auto *f = dyn_cast<Function>(c)) return fmap.at(f)->addr;
		if (auto *ga = dyn_cast<GlobalAlias>(c)) return constScalar(ga->getAliasee());
		if (auto *ce = dyn_cast<ConstantExpr>(c)) {
			switch (ce->getOpcode()) {
			case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast:
				return constScalar(ce->getOperand(0));
			case Instruction::GetElementPtr: {
				APInt off(64, 0);
				if (cast<GEPOperator>(ce)->accumulateConstantOffset(DL, off))
					return constScalar(ce->getOperand(0)) + (u64)off.getSExtValue();
				break;
			}
			case Instruction::Add: return constScalar(ce->getOperand(0)) + constScalar(ce->getOperand(1));
			case Instruction::Sub: return constScalar(ce->getOperand(0)) - constScalar(ce->getOperand(1));
			case Instruction::Trunc: return constScalar(ce->getOperand(0)) & maskw(widthOf(ce->getType()));
			default: break;
			}
		}
		errs() << "front: unsupported constant: " << *c << "\n";
		exit(3);
	}
	void initBytes(const Constant *c, std::vector<u8> &out, u64 off) {
		Type *t = c->getType();
		if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return;
		if (auto *cds = dyn_cast<ConstantDataSequential>(c)) {
			u64 es = DL.getTypeAllocSize(cds->getElementType());
			for (unsigned i = 0; i < cds->getNumElements(); i++) {
				u64 v = cds->getElementType()->isIntegerTy() ? cds->getElementAsInteger(i) : cds->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue();
				for (u64 b = 0; b < es; b++) out[off + i*es + b] = (u8)(v >> (8*b));
			}
			return;
		}
		if (auto *ca = dyn_cast<ConstantArray>(c)) {
			u64 es = DL.getTypeAllocSize(ca->getType()->getElementType());
			for (unsigned i = 0; i < ca->getNumOperands(); i++) initBytes(ca->getOperand(i), out, off + i*es);
			return;
		}
		if (auto *cs = dyn_cast<ConstantStruct>(c)) {
			auto *sl = DL.getStructLayout(cs->getType());
			for (unsigned i = 0; i < cs->getNumOperands(); i++) initBytes(cs->getOperand(i), out, off + sl->getElementOffset(i));
			return;
		}
		u64 v = constScalar(c), sz = DL.getTypeStoreSize(t);
		for (u64 b = 0; b < sz; b++) out[off + b] = (u8)(v >> (8*b));
	}

	// per function
	std::map<const Value *, int> slot;
	MFunc *cf = nullptr;
	Opd opd(const Value *v) {
		Opd o;
		if (auto *c = dyn_cast<Constant>(v)) { o.c = constScalar(c) & maskw(std::max(1, widthOf(v->getType()))); return o; }
		auto it = slot.find(v);
		if (it == slot.end()) { errs() << "front: no slot " << *v << "\n"; exit(3); }
		o.reg = it->second;
		return o;
	}
	int newSlot(const Value *v) {
		int n = slotsOf(v->getType());
		int s = cf->nslots;
		cf->nslots += n;
		slot[v] = s;
		return s;
	}
	static int ekBin(unsigned opc) {
		switch (opc) {
		case Instruction::Add: return E_ADD; case Instruction::Sub: return E_SUB; case Instruction::Mul: return E_MUL;
		case Instruction::UDiv: return E_UDIV; case Instruction::SDiv: return E_SDIV; case Instruction::URem: return E_UREM;
		case Instruction::SRem: return E_SREM; case Instruction::And: return E_AND; case Instruction::Or: return E_OR;
		case Instruction::Xor: return E_XOR; case Instruction::Shl: return E_SHL; case Instruction::LShr: return E_LSHR; case Instruction::AShr: return E_ASHR;
		}
		return -1;
	}
	void setLoc(MInst &mi, const Instruction &I) {
		if (const DebugLoc &d = I.getDebugLoc()) {
			mi.line = (int)d.getLine();
			if (auto *sc = dyn_cast_or_null<DIScope>(d.getScope())) mi.file = fileOf(sc->getFilename().str());
		}
	}
	Edge edge(const BasicBlock *from, const BasicBlock *to, std::map<const BasicBlock *, int> &bidx) {
		Edge e; e.target = bidx[to];
		for (const PHINode &p : to->phis()) {
			const Value *v = p.getIncomingValueForBlock(from);
			int n = slotsOf(p.getType());
			if (n == 1) { PhiCopy pc; pc.dst = slot[&p]; pc.src = opd(v); e.copies.push_back(pc); }
			else for (int i = 0; i < n; i++) {
				PhiCopy pc; pc.dst = slot[&p] + i;
				if (!isa<Constant>(v)) pc.src.reg = slot[v] + i;
				e.copies.push_back(pc);
			}
		}
		return e;
	}
	void unsup(const Instruction &I, std::vector<MInst> &out) {
		MInst mi; mi.op = M_UNSUP; setLoc(mi, I);
		std::string s; raw_string_ostream os(s); os << I;
		errs() << "front: unsupported in " << cf->name << ": " << s << "\n";
		out.push_back(mi);
	}
	void loadFlat(Type *t, u64 off, std::vector<std::pair<u64, Type *>> &v) {
		if (auto *st = dyn_cast<StructType>(t)) {
			auto *sl = DL.getStructLayout(st);
			for (unsigned i = 0; i < st->getNumElements(); i++) loadFlat(st->getElementType(i), off + sl->getElementOffset(i), v);
		} else if (auto *at = dyn_cast<ArrayType>(t)) {
			for (u64 i = 0; i < at->getNumElements(); i++) loadFlat(at->getElementType(), off + i * DL.getTypeAllocSize(at->getElementType()), v);
		} else v.push_back({off, t});
	}
	int aggIndex(Type *t, ArrayRef<unsigned> idx) {
		int s = 0;
		for (unsigned i : idx) {
			if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) s += slotsOf(st->getElementType(j)); t = st->getElementType(i); }
			else { auto *at = cast<ArrayType>(t); s += (int)i * slotsOf(at->getElementType()); t = at->getElementType(); }
		}
		return s;
	}
	void doInst(const Instruction &I, std::vector<MInst> &out, std::map<const BasicBlock *, int> &bidx) {
		MInst mi; setLoc(mi, I);
		Type *t = I.getType();
		mi.w = (u8)widthOf(t);
		if (slot.count(&I)) mi.dst = slot[&I];
		if (isa<DbgInfoIntrinsic>(I)) return;
		if (t->isVectorTy() || t->isX86_FP80Ty()) { unsup(I, out); return; }
		for (auto &op : I.operands()) if (op->getType()->isVectorTy()) { unsup(I, out); return; }
		if (auto *bo = dyn_cast<BinaryOperator>(&I)) {
			if (t->isFloatingPointTy()) {
				mi.op = M_FBIN;
				switch (bo->getOpcode()) { case Instruction::FAdd: mi.sub = FB_ADD; break; case Instruction::FSub: mi.sub = FB_SUB; break;
				case Instruction::FMul: mi.sub = FB_MUL; break; case Instruction::FDiv: mi.sub = FB_DIV; break; default: mi.sub = FB_REM; }
			} else { mi.op = M_BIN; mi.sub = (u8)ekBin(bo->getOpcode()); if (mi.w > 64) { unsup(I, out); return; } }
			mi.a = opd(bo->getOperand(0)); mi.b = opd(bo->getOperand(1));
			out.push_back(mi); return;
		}
		switch (I.getOpcode()) {
		case Instruction::FNeg: mi.op = M_FBIN; mi.sub = FB_NEG; mi.a = opd(I.getOperand(0)); break;
		case Instruction::ICmp: {
			auto &c = cast<ICmpInst>(I);
			mi.op = M_ICMP; mi.w2 = (u8)widthOf(c.getOperand(0)->getType());
			mi.a = opd(c.getOperand(0)); mi.b = opd(c.getOperand(1));
			switch (c.getPredicate()) {
			case ICmpInst::ICMP_EQ: mi.sub = E_EQ; break;
			case ICmpInst::ICMP_NE: mi.sub = E_EQ; mi.neg = 1; break;
			case ICmpInst::ICMP_ULT: mi.sub = E_ULT; break;
			case ICmpInst::ICMP_ULE: mi.sub = E_ULE; break;
			case ICmpInst::ICMP_UGT: mi.sub = E_ULT; std::swap(mi.a, mi.b); break;
			case ICmpInst::ICMP_UGE: mi.sub = E_ULE; std::swap(mi.a, mi.b); break;
			case ICmpInst::ICMP_SLT: mi.sub = E_SLT; break;
			case ICmpInst::ICMP_SLE: mi.sub = E_SLE; break;
			case ICmpInst::ICMP_SGT: mi.sub = E_SLT; std::swap(mi.a, mi.b); break;
			default: mi.sub = E_SLE; std::swap(mi.a, mi.b); break;
			}
			break;
		}
		case Instruction::FCmp: mi.op = M_FCMP; mi.sub = (u8)cast<FCmpInst>(I).getPredicate(); mi.w2 = (u8)widthOf(I.getOperand(0)->getType());
			mi.a = opd(I.getOperand(0)); mi.b = opd(I.getOperand(1)); break;
		case Instruction::Select:
			if (slotsOf(t) != 1) { unsup(I, out); return; }
			mi.op = M_SELECT; mi.a = opd(I.getOperand(0)); mi.b = opd(I.getOperand(1)); mi.c = opd(I.getOperand(2)); break;
		case Instruction::ZExt: mi.op = M_ZEXT; mi.w2 = (u8)widthOf(I.getOperand(0)->getType()); mi.a = opd(I.getOperand(0)); break;
		case Instruction::SExt: mi.op = M_SEXT; mi.w2 = (u8)widthOf(I.getOperand(0)->getType()); mi.a = opd(I.getOperand(0)); break;
		case Instruction::Trunc: mi.op = M_TRUNC; mi.w2 = (u8)widthOf(I.getOperand(0)->getType()); mi.a = opd(I.getOperand(0)); break;
		case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::BitCast: case Instruction::Freeze: {
			int sw = widthOf(I.getOperand(0)->getType());
			if (slotsOf(t) != 1) { unsup(I, out); return; }
			mi.a = opd(I.getOperand(0)); mi.w2 = (u8)sw;
			mi.op = sw == mi.w ? M_COPY : sw > mi.w ? M_TRUNC : M_ZEXT; break;
		}
		case Instruction::FPToSI: mi.op = M_FCAST; mi.sub = FC_FPTOSI; goto fc;
		case Instruction::FPToUI: mi.op = M_FCAST; mi.sub = FC_FPTOUI; goto fc;
		case Instruction::SIToFP: mi.op = M_FCAST; mi.sub = FC_SITOFP; goto fc;
		case Instruction::UIToFP: mi.op = M_FCAST; mi.sub = FC_UITOFP; goto fc;
		case Instruction::FPExt: mi.op = M_FCAST; mi.sub = FC_FPEXT; goto fc;
		case Instruction::FPTrunc: mi.op = M_FCAST; mi.sub = FC_FPTRUNC;
		fc: mi.w2 = (u8)widthOf(I.getOperand(0)->getType()); mi.a = opd(I.getOperand(0)); break;
		case Instruction::Load: {
			auto &l = cast<LoadInst>(I);
			std::vector<std::pair<u64, Type *>> v; loadFlat(t, 0, v);
			for (size_t i = 0; i < v.size(); i++) {
				MInst x = mi; x.op = M_LOAD; x.a = opd(l.getPointerOperand()); x.imm = v[i].first;
				x.w = (u8)widthOf(v[i].second); x.w2 = (u8)DL.getTypeStoreSize(v[i].second); x.dst = mi.dst + (int)i;
				if (x.w2 > 8 || x.w == 0) { unsup(I, out); return; }
				out.push_back(x);
			}
			return;
		}
		case Instruction::Store: {
			auto &s = cast<StoreInst>(I);
			Type *vt = s.getValueOperand()->getType();
			std::vector<std::pair<u64, Type *>> v; loadFlat(vt, 0, v);
			for (size_t i = 0; i < v.size(); i++) {
				MInst x = mi; x.op = M_STORE; x.a = opd(s.getPointerOperand()); x.imm = v[i].first;
				x.w = (u8)widthOf(v[i].second); x.w2 = (u8)DL.getTypeStoreSize(v[i].second);
				if (x.w2 > 8 || x.w == 0) { unsup(I, out); return; }
				if (v.size() == 1) x.b = opd(s.getValueOperand());
				else if (auto *c = dyn_cast<Constant>(s.getValueOperand())) { if (!isa<UndefValue>(c) && !isa<ConstantAggregateZero>(c)) { unsup(I, out); return; } }
				else x.b.reg = slot[s.getValueOperand()] + (int)i;
				out.push_back(x);
			}
			return;
		}
		case Instruction::GetElementPtr: {
			auto &g = cast<GetElementPtrInst>(I);
			mi.op = M_GEP; mi.a = opd(g.getPointerOperand());
			i64 off = 0;
			for (auto gti = gep_type_begin(g), ge = gep_type_end(g); gti != ge; ++gti) {
				Value *ix = gti.getOperand();
				if (StructType *st = gti.getStructTypeOrNull()) { off += (i64)DL.getStructLayout(st)->getElementOffset((unsigned)cast<ConstantInt>(ix)->getZExtValue()); continue; }
				i64 sc = (i64)gti.getSequentialElementStride(DL);
				if (auto *ci = dyn_cast<ConstantInt>(ix)) off += sc * ci->getSExtValue();
				else { mi.idx.push_back({opd(ix), sc}); mi.idxw.push_back((u8)widthOf(ix->getType())); }
			}
			mi.imm = (u64)off;
			break;
		}
		case Instruction::Alloca: {
			auto &a = cast<AllocaInst>(I);
			mi.op = M_ALLOCA; mi.imm = DL.getTypeAllocSize(a.getAllocatedType());
			mi.a = opd(a.getArraySize()); break;
		}
		case Instruction::Br: {
			auto &b = cast<BranchInst>(I);
			if (b.isUnconditional()) { mi.op = M_BR; mi.e0 = edge(I.getParent(), b.getSuccessor(0), bidx); }
			else { mi.op = M_CBR; mi.a = opd(b.getCondition()); mi.e0 = edge(I.getParent(), b.getSuccessor(0), bidx); mi.e1 = edge(I.getParent(), b.getSuccessor(1), bidx); }
			break;
		}
		case Instruction::Switch: {
			auto &s = cast<SwitchInst>(I);
			mi.op = M_SWITCH; mi.a = opd(s.getCondition()); mi.w2 = (u8)widthOf(s.getCondition()->getType());
			mi.e0 = edge(I.getParent(), s.getDefaultDest(), bidx);
			for (auto &c : s.cases()) mi.cases.push_back({c.getCaseValue()->getZExtValue(), edge(I.getParent(), c.getCaseSuccessor(), bidx)});
			break;
		}
		case Instruction::Ret: {
			mi.op = M_RET;
			auto *rv = cast<ReturnInst>(I).getReturnValue();
			if (rv) {
				int n = slotsOf(rv->getType());
				for (int i = 0; i < n; i++) {
					Opd o;
					if (n == 1) o = opd(rv);
					else if (auto *c = dyn_cast<Constant>(rv)) {
						if (auto *ca = dyn_cast<ConstantStruct>(c)) o.c = constScalar(ca->getOperand((unsigned)i));
					} else o.reg = slot[rv] + i;
					mi.args.push_back(o);
				}
			}
			break;
		}
		case Instruction::Unreachable: mi.op = M_UNREACH; break;
		case Instruction::ExtractValue: {
			auto &x = cast<ExtractValueInst>(I);
			mi.op = M_COPY;
			if (slotsOf(t) != 1 || isa<Constant>(x.getAggregateOperand())) { unsup(I, out); return; }
			mi.a.reg = slot[x.getAggregateOperand()] + aggIndex(x.getAggregateOperand()->getType(), x.getIndices());
			break;
		}
		case Instruction::InsertValue: {
			auto &x = cast<InsertValueInst>(I);
			int n = slotsOf(t), at = aggIndex(t, x.getIndices());
			for (int i = 0; i < n; i++) {
				MInst y = mi; y.op = M_COPY; y.dst = mi.dst + i;
				if (i == at) { y.a = opd(x.getInsertedValueOperand()); }
				else if (auto *c = dyn_cast<Constant>(x.getAggregateOperand())) {
					if (auto *cs = dyn_cast<ConstantStruct>(c)) { if (isa<UndefValue>(cs->getOperand((unsigned)i))) y.a.c = 0; else y.a.c = constScalar(cs->getOperand((unsigned)i)); }
				} else y.a.reg = slot[x.getAggregateOperand()] + i;
				out.push_back(y);
			}
			return;
		}
		case Instruction::Call: {
			auto &c = cast<CallInst>(I);
			const Function *f = dyn_cast<Function>(c.getCalledOperand()->stripPointerCasts());
			if (f && f->isIntrinsic()) { doIntrin(c, f, mi, out); return; }
			if (c.isInlineAsm()) { unsup(I, out); return; }
			mi.op = M_CALL;
			if (f) mi.callee = fmap.at(f); else mi.a = opd(c.getCalledOperand());
			mi.nfixed = (int)c.getFunctionType()->getNumParams();
			mi.vararg = c.getFunctionType()->isVarArg();
			for (unsigned i = 0; i < c.arg_size(); i++) {
				Value *v = c.getArgOperand(i);
				if (slotsOf(v->getType()) != 1 || widthOf(v->getType()) == 0) { unsup(I, out); return; }
				mi.args.push_back(opd(v)); mi.argw.push_back((u8)widthOf(v->getType()));
			}
			break;
		}
		case Instruction::PHI: return;
		default: unsup(I, out); return;
		}
		out.push_back(mi);
	}
	void doIntrin(const CallInst &c, const Function *f, MInst &mi, std::vector<MInst> &out) {
		mi.op = M_INTRIN;
		auto A = [&](unsigned i) { return opd(c.getArgOperand(i)); };
		switch (f->getIntrinsicID()) {
		case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: mi.sub = IN_MEMCPY; mi.a = A(0); mi.b = A(1); mi.c = A(2); break;
		case Intrinsic::memset: case Intrinsic::memset_inline: mi.sub = IN_MEMSET; mi.a = A(0); mi.b = A(1); mi.c = A(2); break;
		case Intrinsic::umax: mi.sub = IN_UMAX; mi.a = A(0); mi.b = A(1); break;
		case Intrinsic::umin: mi.sub = IN_UMIN; mi.a = A(0); mi.b = A(1); break;
		case Intrinsic::smax: mi.sub = IN_SMAX; mi.a = A(0); mi.b = A(1); break;
		case Intrinsic::smin: mi.sub = IN_SMIN; mi.a = A(0); mi.b = A(1); break;
		case Intrinsic::abs: mi.sub = IN_ABS; mi.a = A(0); break;
		case Intrinsic::ctpop: mi.sub = IN_CTPOP; mi.a = A(0); break;
		case Intrinsic::ctlz: mi.sub = IN_CTLZ; mi.a = A(0); break;
		case Intrinsic::cttz: mi.sub = IN_CTTZ; mi.a = A(0); break;
		case Intrinsic::bswap: mi.sub = IN_BSWAP; mi.a = A(0); break;
		case Intrinsic::fshl: mi.sub = IN_FSHL; mi.a = A(0); mi.b = A(1); mi.c = A(2); break;
		case Intrinsic::fshr: mi.sub = IN_FSHR; mi.a = A(0); mi.b = A(1); mi.c = A(2); break;
		case Intrinsic::usub_sat: mi.sub = IN_USUBSAT; mi.a = A(0); mi.b = A(1); break;
		case Intrinsic::uadd_sat: mi.sub = IN_UADDSAT; mi.a = A(0); mi.b = A(1); break;
		case Intrinsic::fabs: mi.sub = IN_FABS; mi.a = A(0); break;
		case Intrinsic::objectsize: mi.sub = IN_OBJSIZE; break;
		case Intrinsic::vastart: mi.sub = IN_VASTART; mi.a = A(0); break;
		case Intrinsic::vacopy: mi.sub = IN_VACOPY; mi.a = A(0); mi.b = A(1); break;
		case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: mi.sub = IN_TRAP;
			mi.imm = f->getIntrinsicID() == Intrinsic::ubsantrap ? cast<ConstantInt>(c.getArgOperand(0))->getZExtValue() : 999; break;
		case Intrinsic::expect: case Intrinsic::ptrmask: case Intrinsic::launder_invariant_group: mi.op = M_COPY; mi.a = A(0); break;
		case Intrinsic::sadd_with_overflow: mi.op = M_OVF; mi.sub = E_ADD; mi.neg = 1; goto ovf;
		case Intrinsic::uadd_with_overflow: mi.op = M_OVF; mi.sub = E_ADD; goto ovf;
		case Intrinsic::ssub_with_overflow: mi.op = M_OVF; mi.sub = E_SUB; mi.neg = 1; goto ovf;
		case Intrinsic::usub_with_overflow: mi.op = M_OVF; mi.sub = E_SUB; goto ovf;
		case Intrinsic::smul_with_overflow: mi.op = M_OVF; mi.sub = E_MUL; mi.neg = 1; goto ovf;
		case Intrinsic::umul_with_overflow: mi.op = M_OVF; mi.sub = E_MUL;
		ovf: mi.a = A(0); mi.b = A(1); mi.w = (u8)widthOf(c.getArgOperand(0)->getType()); break;
		case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::donothing:
		case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::vaend: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end:
		case Intrinsic::stackrestore:
			return;
		case Intrinsic::stacksave: mi.op = M_COPY; mi.a = Opd(); break;
		case Intrinsic::is_constant: mi.op = M_COPY; mi.a = Opd(); break;
		default: unsup(c, out); return;
		}
		out.push_back(mi);
	}
	void doFunc(const Function &F) {
		cf = fmap.at(&F); slot.clear();
		MFunc *m = cf;
		m->defined = true; m->vararg = F.isVarArg();
		if (auto *sp = F.getSubprogram()) m->file = sp->getFilename().str();
		for (auto &a : F.args()) { int s = newSlot(&a); m->argslot.push_back(s); m->argw.push_back((u8)widthOf(a.getType())); }
		m->nargs = (int)m->argslot.size();
		for (auto &B : F) for (auto &I : B) if (!I.getType()->isVoidTy()) newSlot(&I);
		std::map<const BasicBlock *, int> bidx; int n = 0;
		for (auto &B : F) bidx[&B] = n++;
		for (auto &B : F) {
			m->blockStart.push_back((int)m->code.size());
			for (auto &I : B) doInst(I, m->code, bidx);
		}
		auto fix = [&](Edge &e) { e.target = m->blockStart[(size_t)e.target]; };
		for (auto &mi : m->code) {
			if (mi.op == M_BR) fix(mi.e0);
			else if (mi.op == M_CBR) { fix(mi.e0); fix(mi.e1); }
			else if (mi.op == M_SWITCH) { fix(mi.e0); for (auto &c : mi.cases) fix(c.second); }
		}
		m->isBlockStart.assign(m->code.size() + 1, 0);
		for (int b : m->blockStart) m->isBlockStart[(size_t)b] = 1;
		m->cov.assign(m->code.size() + 1, 0);
	}
	MModule *run() {
		for (auto &F : M) {
			if (F.isIntrinsic()) continue;
			auto *m = new MFunc; m->name = F.getName().str(); m->id = (int)mm->funcs.size(); m->addr = FUNCBASE + (u64)m->id * 16;
			m->retw = widthOf(F.getReturnType());
			mm->funcs.push_back(m); mm->byName[m->name] = m; fmap[&F] = m;
		}
		for (auto &G : M.globals()) {
			if (G.getName().starts_with("llvm.")) continue;
			MGlobal g; g.name = G.getName().str();
			g.size = G.getValueType()->isSized() ? DL.getTypeAllocSize(G.getValueType()) : 8;
			g.ro = G.isConstant() && G.hasInitializer();
			g.objid = (int)mm->nextObj; g.addr = (u64)g.objid << OBJSHIFT;
			mm->nextObj += 1 + (g.size >> OBJSHIFT);
			gidx[&G] = (int)mm->globals.size();
			mm->globals.push_back(g);
		}
		for (auto &G : M.globals()) {
			if (!gidx.count(&G)) continue;
			auto &g = mm->globals[(size_t)gidx[&G]];
			g.init.assign(g.size, 0);
			if (G.hasInitializer()) initBytes(G.getInitializer(), g.init, 0);
		}
		for (auto &F : M) if (!F.isDeclaration()) doFunc(F);
		return mm;
	}
};
}

MModule *loadModule(const std::string &path, std::string &err) {
	static LLVMContext C;
	SMDiagnostic d;
	auto M = parseIRFile(path, d, C);
	if (!M) { err = d.getMessage().str(); return nullptr; }
	auto *m = M.release();
	Front f(*m);
	return f.run();
}
