// lixtract: dump one LLVM bitcode module (clang -O0 -g, optnone disabled) as JSON
// after promoting scalar allocas to SSA.  Resolves struct field names via debug info.
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Dominators.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/PassManager.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/Utils/PromoteMemToReg.h"
#include <map>
#include <set>
#include <functional>
using namespace llvm;

static json::OStream *J;
static std::map<std::string, const DICompositeType *> ditypes;     // C tag/typedef name -> composite
static std::map<const StructType *, const DICompositeType *> st2di;
static std::map<const DICompositeType *, std::string> dinames;      // preferred name
static const DataLayout *DL;
static std::map<const DISubprogram*, int> dummy;
static std::vector<std::string> files; static std::map<std::string,int> fileidx;

static int fidx(const DIFile *f, StringRef dir="") {
	std::string n;
	if (f) n = f->getFilename().startswith("/") ? f->getFilename().str() : (f->getDirectory() + "/" + f->getFilename()).str();
	auto it = fileidx.find(n); if (it != fileidx.end()) return it->second;
	int i = files.size(); files.push_back(n); fileidx[n] = i; return i;
}

static const DIType *strip(const DIType *t) {
	while (t) {
		if (auto *d = dyn_cast<DIDerivedType>(t)) {
			switch (d->getTag()) {
			case dwarf::DW_TAG_typedef: case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type:
			case dwarf::DW_TAG_restrict_type: case dwarf::DW_TAG_atomic_type:
				t = d->getBaseType(); continue;
			}
		}
		return t;
	}
	return t;
}
static std::string tname(const DIType *t, int depth=0) {
	if (!t) return "void";
	if (depth > 8) return "...";
	if (auto *d = dyn_cast<DIDerivedType>(t)) {
		switch (d->getTag()) {
		case dwarf::DW_TAG_pointer_type: return tname(d->getBaseType(), depth+1) + "*";
		case dwarf::DW_TAG_const_type: case dwarf::DW_TAG_volatile_type: case dwarf::DW_TAG_restrict_type:
			return tname(d->getBaseType(), depth+1);
		case dwarf::DW_TAG_typedef: {
			return d->getName().str(); }
		default: break;
		}
		return tname(d->getBaseType(), depth+1);
	}
	if (auto *c = dyn_cast<DICompositeType>(t)) {
		if (c->getTag() == dwarf::DW_TAG_array_type) return tname(c->getBaseType(), depth+1) + "[]";
		auto it = dinames.find(c);
		if (it != dinames.end()) return it->second;
		if (!c->getName().empty()) return c->getName().str();
		return "anon";
	}
	if (isa<DISubroutineType>(t)) return "fn";
	return t->getName().str();
}

// name a composite (and nested anonymous composites) from its LLVM struct type
static void bindStruct(const StructType *st, const DICompositeType *c, std::string nm) {
	if (!st || !c || st2di.count(st)) return;
	st2di[st] = c;
	if (!dinames.count(c)) dinames[c] = nm;
	if (st->isOpaque()) return;
	if (c->getTag() == dwarf::DW_TAG_union_type) return;
	const StructLayout *SL = DL->getStructLayout(const_cast<StructType *>(st));
	for (unsigned i = 0; i < st->getNumElements(); i++) {
		Type *et = st->getElementType(i);
		while (auto *at = dyn_cast<ArrayType>(et)) et = at->getElementType();
		auto *est = dyn_cast<StructType>(et);
		if (!est) continue;
		uint64_t off = SL->getElementOffset(i) * 8;
		for (auto *el : c->getElements()) {
			auto *m = dyn_cast<DIDerivedType>(el);
			if (!m || m->getOffsetInBits() != off) continue;
			const DIType *bt = strip(m->getBaseType());
			while (bt && bt->getTag() == dwarf::DW_TAG_array_type) bt = strip(cast<DICompositeType>(bt)->getBaseType());
			if (auto *mc = dyn_cast_or_null<DICompositeType>(bt)) {
				if (mc->getName().empty() && (mc->getTag() == dwarf::DW_TAG_structure_type || mc->getTag() == dwarf::DW_TAG_union_type)) {
					std::string n2 = dinames.count(mc) ? dinames[mc] : nm + "." + m->getName().str();
					bindStruct(est, mc, n2);
				}
			}
		}
	}
}

static std::string fieldName(const StructType *st, unsigned idx, std::string &sname) {
	auto it = st2di.find(st);
	sname = st->hasName() ? st->getName().str() : "lit";
	if (it == st2di.end()) return "#" + std::to_string(idx);
	const DICompositeType *c = it->second;
	sname = dinames[c];
	const StructLayout *SL = DL->getStructLayout(const_cast<StructType *>(st));
	uint64_t off = SL->getElementOffset(idx) * 8;
	const DIDerivedType *best = nullptr;
	for (auto *el : c->getElements()) {
		auto *m = dyn_cast<DIDerivedType>(el);
		if (!m) continue;
		uint64_t mo = m->getOffsetInBits();
		if (m->isBitField()) { // storage offset
			auto *so = dyn_cast_or_null<ConstantInt>(m->getStorageOffsetInBits());
			if (so) mo = so->getZExtValue();
		}
		if (mo == off) { best = m; if (!m->isBitField()) break; }
	}
	if (!best) return "#" + std::to_string(idx);
	if (best->isBitField()) return "bf" + std::to_string(off/8);
	return best->getName().str();
}

static std::string tyStr(Type *t) {
	std::string s; raw_string_ostream o(s);
	if (t->isPointerTy()) return "ptr";
	if (auto *st = dyn_cast<StructType>(t)) {
		auto it = st2di.find(st);
		if (it != st2di.end()) return "%" + dinames[it->second];
	}
	if (auto *at = dyn_cast<ArrayType>(t)) return "[" + std::to_string(at->getNumElements()) + " x " + tyStr(at->getElementType()) + "]";
	t->print(o, false, true); return o.str();
}

static std::map<const Value *, int> ids;
static std::string printableUtf8(StringRef s) { // latin-1 -> utf8 so JSON is valid
	std::string r;
	for (unsigned char ch : s) { if (ch < 0x80) r += (char)ch; else { r += (char)(0xC0 | (ch >> 6)); r += (char)(0x80 | (ch & 0x3f)); } }
	return r;
}

static void emitConstInit(const Constant *c, int depth);
static void emitGepSteps(const GEPOperator *g);

static bool strOf(const GlobalVariable *gv, std::string &out) {
	if (!gv->hasInitializer()) return false;
	if (!gv->isConstant() ) return false;
	if (auto *ca = dyn_cast<ConstantDataArray>(gv->getInitializer())) {
		if (ca->isString()) { StringRef s = ca->getAsString(); if (s.size() && s.back() == 0) s = s.drop_back(); out = printableUtf8(s); return true; }
		return false;
	}
	if (isa<ConstantAggregateZero>(gv->getInitializer())) {
		if (auto *at = dyn_cast<ArrayType>(gv->getValueType())) if (at->getElementType()->isIntegerTy(8)) { out = ""; return true; }
	}
	return false;
}

static void emitVal(const Value *v) {
	if (auto *ci = dyn_cast<ConstantInt>(v)) {
		if (ci->getBitWidth() <= 64) {
			if (ci->getBitWidth() == 1) J->value((int64_t)ci->getZExtValue());
			else J->value(ci->getSExtValue());
		} else J->value("?");
		return;
	}
	if (isa<ConstantPointerNull>(v)) { J->value((int64_t)0); return; }
	if (isa<ConstantAggregateZero>(v)) { J->value((int64_t)0); return; }
	if (auto *cf = dyn_cast<ConstantFP>(v)) {
		double d = 0; if (cf->getType()->isDoubleTy()) d = cf->getValueAPF().convertToDouble(); else if (cf->getType()->isFloatTy()) d = cf->getValueAPF().convertToFloat();
		J->array([&]{ J->value("f"); J->value(d); }); return; }
	if (isa<UndefValue>(v)) { J->value("?"); return; }
	if (auto *f = dyn_cast<Function>(v)) { J->value("@" + f->getName().str()); return; }
	if (auto *gv = dyn_cast<GlobalVariable>(v)) {
		std::string s;
		if (strOf(gv, s)) { J->array([&]{ J->value("s"); J->value(s); J->value("@" + gv->getName().str()); }); return; }
		J->value("@" + gv->getName().str()); return;
	}
	if (auto *ce = dyn_cast<ConstantExpr>(v)) {
		if (auto *g = dyn_cast<GEPOperator>(ce)) {
			J->array([&]{ J->value("gep"); emitVal(g->getPointerOperand()); emitGepSteps(g); });
			return;
		}
		J->array([&]{ J->value("ce"); J->value(ce->getOpcodeName()); for (auto &o : ce->operands()) emitVal(o.get()); });
		return;
	}
	if (auto *a = dyn_cast<Argument>(v)) { J->value("$" + std::to_string(a->getArgNo())); return; }
	auto it = ids.find(v);
	if (it != ids.end()) { J->value("%" + std::to_string(it->second)); return; }
	if (isa<MetadataAsValue>(v)) { J->value("?md"); return; }
	J->value("?");
}

static void emitGepSteps(const GEPOperator *g) {
	J->array([&]{
		Type *t = g->getSourceElementType();
		bool first = true;
		for (auto it = g->idx_begin(); it != g->idx_end(); ++it) {
			const Value *iv = it->get();
			if (first) {
				first = false;
				auto *ci = dyn_cast<ConstantInt>(iv);
				if (ci && ci->isZero()) continue;
				J->array([&]{ J->value("i"); J->value(tyStr(t)); emitVal(iv); J->value((int64_t)(t->isSized() ? DL->getTypeAllocSize(t).getFixedValue() : 1)); });
				continue;
			}
			if (auto *st = dyn_cast<StructType>(t)) {
				unsigned idx = cast<ConstantInt>(iv)->getZExtValue();
				std::string sn, fn = fieldName(st, idx, sn);
				uint64_t off = DL->getStructLayout(st)->getElementOffset(idx);
				J->array([&]{ J->value("f"); J->value(sn); J->value(fn); J->value((int64_t)off); });
				t = st->getElementType(idx);
			} else if (auto *at = dyn_cast<ArrayType>(t)) {
				t = at->getElementType();
				J->array([&]{ J->value("e"); J->value(tyStr(at)); emitVal(iv); J->value((int64_t)DL->getTypeAllocSize(t).getFixedValue()); });
			} else { J->array([&]{ J->value("?"); }); break; }
		}
	});
}

static void emitConstInit(const Constant *c, int depth) {
	if (depth > 6) { J->value("?"); return; }
	if (auto *cs = dyn_cast<ConstantStruct>(c)) {
		J->object([&]{
			auto *st = cs->getType();
			J->attributeArray("st", [&]{
			for (unsigned i = 0; i < cs->getNumOperands(); i++) {
				std::string sn, fn = fieldName(st, i, sn);
				J->array([&]{ J->value(fn); emitConstInit(cs->getOperand(i), depth+1); });
			}});
			J->attribute("ty", tyStr(st));
		});
		return;
	}
	if (auto *ca = dyn_cast<ConstantArray>(c)) {
		J->array([&]{ for (auto &o : ca->operands()) emitConstInit(cast<Constant>(o.get()), depth+1); });
		return;
	}
	if (auto *cd = dyn_cast<ConstantDataArray>(c)) {
		if (cd->isString()) { J->object([&]{ J->attribute("str", printableUtf8(cd->getAsString())); }); return; }
		J->array([&]{ for (unsigned i = 0; i < cd->getNumElements() && i < 70000; i++) { auto *e = cd->getElementAsConstant(i); emitVal(e); } });
		return;
	}
	emitVal(c);
}

int main(int argc, char **argv) {
	LLVMContext ctx; SMDiagnostic err;
	auto M = parseIRFile(argv[1], err, ctx);
	if (!M) { err.print(argv[0], errs()); return 2; }
	DL = &M->getDataLayout();
	std::error_code ec; raw_fd_ostream out(argv[2], ec);
	if (ec) return 2;
	DebugInfoFinder F; F.processModule(*M);
	for (auto *t : F.types()) {
		if (auto *d = dyn_cast<DIDerivedType>(t)) if (d->getTag() == dwarf::DW_TAG_typedef) {
			if (auto *c = dyn_cast_or_null<DICompositeType>(d->getBaseType()))
				if (c->getName().empty() && !dinames.count(c)) { dinames[c] = d->getName().str(); ditypes[d->getName().str()] = c; }
		}
	}
	for (auto *t : F.types()) if (auto *c = dyn_cast<DICompositeType>(t)) {
		if ((c->getTag() == dwarf::DW_TAG_structure_type || c->getTag() == dwarf::DW_TAG_union_type) && !c->getName().empty() && !c->isForwardDecl())
			{ ditypes[c->getName().str()] = c; dinames[c] = c->getName().str(); }
	}
	std::vector<StructType *> sts; std::set<Type *> seenT;
	std::function<void(Type *)> collect = [&](Type *t) {
		if (!t || !seenT.insert(t).second) return;
		if (auto *st = dyn_cast<StructType>(t)) { if (st->hasName()) sts.push_back(st); for (auto *e : st->elements()) collect(e); }
		else if (auto *at = dyn_cast<ArrayType>(t)) collect(at->getElementType());
	};
	std::set<const Constant *> seenC;
	std::function<void(const Constant *)> collectC = [&](const Constant *c) {
		if (!seenC.insert(c).second) return;
		collect(c->getType());
		if (auto *g = dyn_cast<GEPOperator>(c)) collect(g->getSourceElementType());
		for (auto &o : c->operands()) if (auto *oc = dyn_cast<Constant>(o.get())) if (!isa<GlobalValue>(oc)) collectC(oc);
	};
	for (auto &gv : M->globals()) { collect(gv.getValueType()); if (gv.hasInitializer()) collectC(gv.getInitializer()); }
	for (auto &f : *M) for (auto &bb : f) for (auto &in : bb) {
		collect(in.getType());
		if (auto *g = dyn_cast<GetElementPtrInst>(&in)) collect(g->getSourceElementType());
		if (auto *al = dyn_cast<AllocaInst>(&in)) collect(al->getAllocatedType());
		for (auto &o : in.operands()) if (auto *oc = dyn_cast<Constant>(o.get())) if (!isa<GlobalValue>(oc)) collectC(oc);
	}
	for (auto *st : sts) {
		StringRef n = st->getName();
		if (n.consume_front("struct.") || n.consume_front("union.")) {
			auto it = ditypes.find(n.str());
			if (it == ditypes.end()) { // strip .N suffix
				auto p = n.rfind('.'); if (p != StringRef::npos) it = ditypes.find(n.substr(0, p).str());
			}
			if (it != ditypes.end() && !n.startswith("anon")) bindStruct(st, it->second, it->first);
		}
	}
	json::OStream JS(out, 0); J = &JS;
	JS.object([&]{
		JS.attribute("module", M->getSourceFileName());
		JS.attributeObject("structs", [&]{
			std::set<std::string> done;
			for (auto &kv : dinames) {
				auto *c = kv.first; if (c->isForwardDecl() || !done.insert(kv.second).second) continue;
				JS.attributeObject(kv.second, [&]{
					JS.attribute("size", (int64_t)(c->getSizeInBits()/8));
					JS.attribute("file", (int64_t)fidx(c->getFile()));
					JS.attribute("line", (int64_t)c->getLine());
					JS.attributeArray("fields", [&]{
						for (auto *el : c->getElements()) if (auto *m = dyn_cast<DIDerivedType>(el)) {
							JS.array([&]{ JS.value(m->getName()); JS.value((int64_t)(m->getOffsetInBits()/8)); JS.value(tname(m->getBaseType())); JS.value((int64_t)(m->getSizeInBits()/8)); });
						}
					});
				});
			}
		});
		JS.attributeObject("enums", [&]{
			std::set<const void*> done; int anon = 0; std::set<std::string> names;
			for (auto *t : F.types()) if (auto *c = dyn_cast<DICompositeType>(t)) if (c->getTag() == dwarf::DW_TAG_enumeration_type) {
				std::string n = c->getName().str();
				if (n.empty()) { for (auto *t2 : F.types()) if (auto *d = dyn_cast<DIDerivedType>(t2)) if (d->getTag() == dwarf::DW_TAG_typedef && d->getBaseType() == c) n = d->getName().str(); }
				if (n.empty()) n = "anon" + std::to_string(anon++);
				if (!names.insert(n).second) continue;
				JS.attributeObject(n, [&]{
					std::set<std::string> en;
					for (auto *e : c->getElements()) if (auto *x = dyn_cast<DIEnumerator>(e)) if (en.insert(x->getName().str()).second) JS.attribute(x->getName(), (int64_t)x->getValue().getSExtValue());
				});
			}
			// enums retained via CU (unused as variable types)
			for (auto *cu : F.compile_units()) for (auto *c : cu->getEnumTypes()) {
				std::string n = c->getName().str();
				if (n.empty()) n = "anon" + std::to_string(anon++);
				if (!names.insert(n).second) continue;
				JS.attributeObject(n, [&]{
					std::set<std::string> en;
					for (auto *e : c->getElements()) if (auto *x = dyn_cast<DIEnumerator>(e)) if (en.insert(x->getName().str()).second) JS.attribute(x->getName(), (int64_t)x->getValue().getSExtValue());
				});
			}
		});
		JS.attributeObject("globals", [&]{
			for (auto &gv : M->globals()) {
				std::string s;
				if (gv.getName().startswith(".str")) continue;
				JS.attributeObject(gv.getName(), [&]{
					JS.attribute("local", gv.hasLocalLinkage());
					JS.attribute("const", gv.isConstant());
					JS.attribute("ty", tyStr(gv.getValueType()));
					SmallVector<DIGlobalVariableExpression *, 1> dg; gv.getDebugInfo(dg);
					if (dg.size()) { auto *v = dg[0]->getVariable(); JS.attribute("line", (int64_t)v->getLine()); JS.attribute("file", (int64_t)fidx(v->getFile())); JS.attribute("dty", tname(v->getType())); JS.attribute("dname", v->getName()); }
					if (gv.hasInitializer()) { JS.attributeBegin("init"); emitConstInit(gv.getInitializer(), 0); JS.attributeEnd(); }
				});
			}
		});
		JS.attributeArray("functions", [&]{
			for (auto &f : *M) {
				if (f.isIntrinsic()) continue;
				JS.object([&]{
					JS.attribute("name", f.getName());
					JS.attribute("local", f.hasLocalLinkage());
					JS.attribute("noret", f.doesNotReturn());
					JS.attribute("nargs", (int64_t)f.arg_size());
					JS.attribute("rty", tyStr(f.getReturnType()));
					if (f.isDeclaration()) { JS.attribute("decl", true); return; }
					if (auto *sp = f.getSubprogram()) {
						JS.attribute("file", (int64_t)fidx(sp->getFile())); JS.attribute("line", (int64_t)sp->getLine());
						if (auto *ty = sp->getType()) {
							JS.attributeArray("dty", [&]{ for (auto *t : ty->getTypeArray()) JS.value(tname(t)); });
						}
					}
					// promote
					DominatorTree DT(f);
					std::map<const AllocaInst*, std::string> vn;
					for (auto &bb : f) for (auto &in : bb) if (auto *d = dyn_cast<DbgDeclareInst>(&in)) {
						if (auto *al = dyn_cast_or_null<AllocaInst>(d->getAddress())) vn[al] = d->getVariable()->getName().str();
					}
					while (true) {
						std::vector<AllocaInst *> as;
						for (auto &bb : f) for (auto &in : bb) if (auto *al = dyn_cast<AllocaInst>(&in)) if (isAllocaPromotable(al)) as.push_back(al);
						if (as.empty()) break;
						PromoteMemToReg(as, DT);
					}
					ids.clear(); int n = 0; std::map<const BasicBlock *, int> bbs; int nb = 0;
					for (auto &bb : f) { bbs[&bb] = nb++; for (auto &in : bb) if (!in.isDebugOrPseudoInst()) ids[&in] = n++; }
					JS.attributeArray("args", [&]{ for (auto &a : f.args()) JS.value(a.getName()); });
					JS.attributeArray("blocks", [&]{
						for (auto &bb : f) JS.array([&]{
							for (auto &in : bb) {
								if (in.isDebugOrPseudoInst()) continue;
								JS.object([&]{
									JS.attribute("i", (int64_t)ids[&in]);
									std::string op = in.getOpcodeName();
									JS.attribute("o", op);
									if (!in.getType()->isVoidTy()) JS.attribute("t", tyStr(in.getType()));
									if (auto dl = in.getDebugLoc()) {
										JS.attribute("l", (int64_t)dl.getLine());
										int fi = fidx(cast<DIScope>(dl.getScope())->getFile());
										JS.attribute("F", (int64_t)fi);
									}
									if (auto *g = dyn_cast<GetElementPtrInst>(&in)) {
										JS.attributeArray("a", [&]{ emitVal(g->getPointerOperand()); });
										JS.attributeBegin("p"); emitGepSteps(cast<GEPOperator>(g)); JS.attributeEnd();
									} else if (auto *cb = dyn_cast<CallBase>(&in)) {
										JS.attributeBegin("fn"); emitVal(cb->getCalledOperand()); JS.attributeEnd();
										JS.attributeArray("a", [&]{ for (auto &a : cb->args()) emitVal(a.get()); });
									} else if (auto *br = dyn_cast<BranchInst>(&in)) {
										JS.attributeArray("a", [&]{ if (br->isConditional()) emitVal(br->getCondition()); });
										JS.attributeArray("s", [&]{ for (unsigned k = 0; k < br->getNumSuccessors(); k++) JS.value((int64_t)bbs[br->getSuccessor(k)]); });
									} else if (auto *sw = dyn_cast<SwitchInst>(&in)) {
										JS.attributeArray("a", [&]{ emitVal(sw->getCondition()); });
										JS.attributeArray("s", [&]{ JS.value((int64_t)bbs[sw->getDefaultDest()]); for (auto c : sw->cases()) JS.value((int64_t)bbs[c.getCaseSuccessor()]); });
										JS.attributeArray("cv", [&]{ for (auto c : sw->cases()) JS.value(c.getCaseValue()->getSExtValue()); });
									} else if (auto *ph = dyn_cast<PHINode>(&in)) {
										JS.attributeArray("a", [&]{ for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) emitVal(ph->getIncomingValue(i)); });
										JS.attributeArray("b", [&]{ for (unsigned i = 0; i < ph->getNumIncomingValues(); i++) JS.value((int64_t)bbs[ph->getIncomingBlock(i)]); });
									} else if (auto *ic = dyn_cast<CmpInst>(&in)) {
										JS.attribute("pr", CmpInst::getPredicateName(ic->getPredicate()));
										JS.attributeArray("a", [&]{ for (auto &o : in.operands()) emitVal(o.get()); });
									} else if (auto *al = dyn_cast<AllocaInst>(&in)) {
										JS.attribute("aty", tyStr(al->getAllocatedType()));
										JS.attribute("asz", (int64_t)(al->getAllocatedType()->isSized() ? DL->getTypeAllocSize(al->getAllocatedType()).getFixedValue() : 0));
										auto it = vn.find(al); if (it != vn.end()) JS.attribute("vn", it->second);
										JS.attributeArray("a", [&]{ for (auto &o : in.operands()) emitVal(o.get()); });
									} else if (auto *ev = dyn_cast<ExtractValueInst>(&in)) {
										JS.attributeArray("a", [&]{ for (auto &o : in.operands()) emitVal(o.get()); });
										JS.attributeArray("ix", [&]{ for (auto x : ev->indices()) JS.value((int64_t)x); });
									} else if (auto *iv = dyn_cast<InsertValueInst>(&in)) {
										JS.attributeArray("a", [&]{ for (auto &o : in.operands()) emitVal(o.get()); });
										JS.attributeArray("ix", [&]{ for (auto x : iv->indices()) JS.value((int64_t)x); });
									} else if (auto *rmw = dyn_cast<AtomicRMWInst>(&in)) {
										JS.attribute("rmw", AtomicRMWInst::getOperationName(rmw->getOperation()));
										JS.attributeArray("a", [&]{ for (auto &o : in.operands()) emitVal(o.get()); });
									} else {
										if (auto *ld = dyn_cast<LoadInst>(&in)) if (ld->isAtomic()) JS.attribute("at", true);
										if (auto *s = dyn_cast<StoreInst>(&in)) { if (s->isAtomic()) JS.attribute("at", true); JS.attribute("vt", tyStr(s->getValueOperand()->getType())); }
										if (isa<CastInst>(&in)) JS.attribute("ft", tyStr(in.getOperand(0)->getType()));
										JS.attributeArray("a", [&]{ for (auto &o : in.operands()) emitVal(o.get()); });
									}
								});
							}
						});
					});
				});
			}
		});
		JS.attributeArray("files", [&]{ for (auto &s : files) JS.value(s); });
	});
	return 0;
}
