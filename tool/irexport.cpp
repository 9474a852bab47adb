// Exports a linked LLVM module (clang -O0 -g + mem2reg) as JSON for the Python analyses.
// The module is only read: nothing in it is ever executed.
#include <llvm/ADT/SmallString.h>
#include <llvm/ADT/MapVector.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <set>
using namespace llvm;

static raw_fd_ostream *OS;
static const DataLayout *DL;

static void str(StringRef s) {
	raw_ostream &o = *OS;
	o << '"';
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') o << '\\' << c;
		else if (c < 0x20 || c >= 0x7f) {
			char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o << b;
		} else o << c;
	}
	o << '"';
}

static std::string tystr(Type *t) {
	if (auto *st = dyn_cast<StructType>(t)) {
		if (st->hasName()) return st->getName().str();
		return "anon";
	}
	if (auto *at = dyn_cast<ArrayType>(t)) {
		return "[" + std::to_string(at->getNumElements()) + " x " + tystr(at->getElementType()) + "]";
	}
	std::string s; raw_string_ostream ss(s); t->print(ss); return ss.str();
}

static std::map<const Value *, int> ids;
static std::map<const BasicBlock *, int> bids;

static void cons(const Constant *c, int depth = 0);

static void val(const Value *v) {
	raw_ostream &o = *OS;
	if (auto *a = dyn_cast<Argument>(v)) { o << "[\"a\"," << a->getArgNo() << "]"; return; }
	if (isa<Instruction>(v)) { o << "[\"i\"," << ids[v] << "]"; return; }
	if (auto *c = dyn_cast<Constant>(v)) { cons(c); return; }
	if (isa<InlineAsm>(v)) { o << "[\"asm\"]"; return; }
	if (isa<MetadataAsValue>(v)) { o << "[\"md\"]"; return; }
	if (auto *b = dyn_cast<BasicBlock>(v)) { o << "[\"b\"," << bids[b] << "]"; return; }
	o << "[\"?\"]";
}

static void cons(const Constant *c, int depth) {
	raw_ostream &o = *OS;
	if (auto *i = dyn_cast<ConstantInt>(c)) {
		SmallString<40> s;
		if (i->getBitWidth() == 1) o << "[\"c\"," << (i->isZero() ? 0 : 1) << "]";
		else { i->getValue().toStringSigned(s); o << "[\"c\"," << s << "]"; }
		return;
	}
	if (isa<ConstantPointerNull>(c)) { o << "[\"null\"]"; return; }
	if (isa<PoisonValue>(c) || isa<UndefValue>(c)) { o << "[\"undef\"]"; return; }
	if (auto *f = dyn_cast<Function>(c)) { o << "[\"f\","; str(f->getName()); o << "]"; return; }
	if (auto *g = dyn_cast<GlobalVariable>(c)) { o << "[\"g\","; str(g->getName()); o << ",0]"; return; }
	if (auto *g = dyn_cast<GlobalAlias>(c)) { cons(g->getAliasee(), depth); return; }
	if (auto *f = dyn_cast<ConstantFP>(c)) { o << "[\"fp\","; SmallString<32> s; f->getValueAPF().toString(s); str(s); o << "]"; return; }
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		if (ce->getType()->isPointerTy()) {
			APInt off(64, 0);
			const Value *b = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
			if (auto *g = dyn_cast<GlobalVariable>(b)) { o << "[\"g\","; str(g->getName()); o << "," << off.getSExtValue() << "]"; return; }
			if (auto *f = dyn_cast<Function>(b)) { o << "[\"f\","; str(f->getName()); o << "]"; return; }
		}
		o << "[\"ce\","; str(ce->getOpcodeName()); 
		for (auto &op : ce->operands()) { o << ","; val(op); }
		o << "]";
		return;
	}
	if (isa<ConstantAggregateZero>(c)) { o << "[\"zero\"]"; return; }
	if (auto *s = dyn_cast<ConstantDataSequential>(c)) {
		if (s->isString() ) { o << "[\"str\","; str(s->getAsString()); o << "]"; return; }
		o << "[\"agg\""; for (unsigned i = 0; i < s->getNumElements(); ++i) { o << ","; cons(s->getElementAsConstant(i), depth+1); } o << "]"; return;
	}
	if (isa<ConstantAggregate>(c)) {
		o << "[\"agg\"";
		for (auto &op : c->operands()) { o << ","; cons(cast<Constant>(op), depth+1); }
		o << "]"; return;
	}
	o << "[\"?\"]";
}

static const char *ord(AtomicOrdering a) {
	switch (a) {
	case AtomicOrdering::NotAtomic: return "na";
	case AtomicOrdering::Unordered: return "unordered";
	case AtomicOrdering::Monotonic: return "relaxed";
	case AtomicOrdering::Acquire: return "acquire";
	case AtomicOrdering::Release: return "release";
	case AtomicOrdering::AcquireRelease: return "acq_rel";
	case AtomicOrdering::SequentiallyConsistent: return "seq_cst";
	}
	return "?";
}

static std::string ditype(const DIType *t) {
	while (t) {
		if (auto *d = dyn_cast<DIDerivedType>(t)) {
			if (d->getTag() == dwarf::DW_TAG_pointer_type) return (d->getBaseType() ? ditype(d->getBaseType()) : std::string("void")) + "*";
			if (d->getTag() == dwarf::DW_TAG_typedef) return d->getName().str();
			t = d->getBaseType(); continue;
		}
		if (auto *c = dyn_cast<DICompositeType>(t)) {
			if (c->getTag() == dwarf::DW_TAG_array_type) return ditype(c->getBaseType()) + "[]";
			std::string k = c->getTag() == dwarf::DW_TAG_union_type ? "union " : c->getTag() == dwarf::DW_TAG_enumeration_type ? "enum " : "struct ";
			return k + c->getName().str();
		}
		if (isa<DISubroutineType>(t)) return "fn";
		return t->getName().str();
	}
	return "void";
}

static const DICompositeType *comp(const DIType *t) {
	while (t) {
		if (auto *c = dyn_cast<DICompositeType>(t)) return c;
		if (auto *d = dyn_cast<DIDerivedType>(t)) {
			if (d->getTag() == dwarf::DW_TAG_pointer_type) return nullptr;
			t = d->getBaseType(); continue;
		}
		return nullptr;
	}
	return nullptr;
}

static void fields(const DICompositeType *c, uint64_t base, const std::string &prefix, bool &first, int depth) {
	raw_ostream &o = *OS;
	if (depth > 6) return;
	for (auto *e : c->getElements()) {
		auto *m = dyn_cast_or_null<DIDerivedType>(e);
		if (!m || m->getTag() != dwarf::DW_TAG_member) continue;
		uint64_t off = base + m->getOffsetInBits();
		std::string nm = prefix;
		if (!m->getName().empty()) { if (!nm.empty()) nm += "."; nm += m->getName().str(); }
		if (!m->getName().empty()) {
			if (!first) o << ","; first = false;
			o << "["; str(nm); o << "," << off / 8 << "," << m->getSizeInBits() / 8 << ","; str(ditype(m->getBaseType())); o << "]";
		}
		auto *cc = comp(m->getBaseType());
		if (cc && (cc->getTag() == dwarf::DW_TAG_structure_type || cc->getTag() == dwarf::DW_TAG_union_type))
			fields(cc, off, nm, first, depth + 1);
	}
}

// Flattened scalar leaves of an initializer: [absolute offset, enclosing named struct, offset in it, value]
static void flat(const Constant *c, Type *t, uint64_t abs, const std::string &st, uint64_t sbase, bool &first) {
	if (auto *s = dyn_cast<StructType>(t)) {
		auto *sl = DL->getStructLayout(s);
		std::string nst = st; uint64_t nb = sbase;
		if (s->hasName() && !s->getName().contains("anon")) { nst = s->getName().str(); nb = abs; }
		for (unsigned i = 0; i < s->getNumElements(); ++i) flat(c->getAggregateElement(i), s->getElementType(i), abs + sl->getElementOffset(i), nst, nb, first);
		return;
	}
	if (auto *a = dyn_cast<ArrayType>(t)) {
		if (a->getElementType()->isIntegerTy(8)) {
			raw_ostream &o = *OS;
			if (auto *s = dyn_cast<ConstantDataSequential>(c)) if (s->isString()) { if (!first) o << ","; first = false; o << "[" << abs << ","; str(st); o << "," << abs - sbase << ","; cons(c); o << "]"; }
			return;
		}
		if (isa<ConstantAggregateZero>(c)) return;
		uint64_t es = DL->getTypeAllocSize(a->getElementType());
		for (uint64_t i = 0; i < a->getNumElements(); ++i) flat(c->getAggregateElement(i), a->getElementType(), abs + i * es, st, sbase, first);
		return;
	}
	raw_ostream &o = *OS;
	if (!first) o << ","; first = false;
	o << "[" << abs << ","; str(st); o << "," << abs - sbase << ","; cons(c); o << "]";
}

int main(int argc, char **argv) {
	LLVMContext ctx; SMDiagnostic err;
	auto m = parseIRFile(argv[1], err, ctx);
	if (!m) { err.print(argv[0], errs()); return 2; }
	std::error_code ec;
	raw_fd_ostream os(argv[2], ec);
	if (ec) return 2;
	OS = &os; DL = &m->getDataLayout();
	raw_ostream &o = os;

	o << "{\"types\":{";
	DebugInfoFinder dif; dif.processModule(*m);
	std::set<std::string> seen; bool first = true;
	for (auto *t : dif.types()) {
		auto *c = dyn_cast<DICompositeType>(t);
		if (!c || c->isForwardDecl() || c->getName().empty()) continue;
		std::string k;
		if (c->getTag() == dwarf::DW_TAG_structure_type) k = "struct.";
		else if (c->getTag() == dwarf::DW_TAG_union_type) k = "union.";
		else continue;
		k += c->getName().str();
		if (!seen.insert(k).second) continue;
		if (!first) o << ",\n"; first = false;
		str(k); o << ":{\"size\":" << c->getSizeInBits() / 8 << ",\"fields\":[";
		bool f = true; fields(c, 0, "", f, 0);
		o << "]}";
	}
	// typedef'd anonymous structs
	for (auto *t : dif.types()) {
		auto *d = dyn_cast<DIDerivedType>(t);
		if (!d || d->getTag() != dwarf::DW_TAG_typedef) continue;
		auto *c = dyn_cast_or_null<DICompositeType>(d->getBaseType());
		if (!c || !c->getName().empty() || c->isForwardDecl()) continue;
		if (c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_union_type) continue;
		std::string k = (c->getTag() == dwarf::DW_TAG_structure_type ? "struct." : "union.") + d->getName().str();
		if (!seen.insert(k).second) continue;
		if (!first) o << ",\n"; first = false;
		str(k); o << ":{\"size\":" << c->getSizeInBits() / 8 << ",\"fields\":[";
		bool f = true; fields(c, 0, "", f, 0);
		o << "]}";
	}
	o << "},\n\"enums\":{";
	first = true; seen.clear();
	std::set<const DICompositeType *> enums;
	for (auto *t : dif.types()) {
		auto *c = dyn_cast<DICompositeType>(t);
		if (c && c->getTag() == dwarf::DW_TAG_enumeration_type) enums.insert(c);
	}
	if (NamedMDNode *cus = m->getNamedMetadata("llvm.dbg.cu"))
		for (auto *n : cus->operands())
			if (auto *cu = dyn_cast<DICompileUnit>(n))
				for (auto *e : cu->getEnumTypes()) if (e) enums.insert(e);
	for (auto *c : enums) {
		for (auto *e : c->getElements()) {
			auto *en = dyn_cast_or_null<DIEnumerator>(e);
			if (!en || !seen.insert(en->getName().str()).second) continue;
			if (!first) o << ","; first = false;
			str(en->getName()); SmallString<32> s; en->getValue().toStringSigned(s); o << ":" << s;
		}
	}
	o << "},\n\"globals\":{";
	first = true;
	for (auto &g : m->globals()) {
		if (g.getName().starts_with("llvm.")) continue;
		if (!first) o << ",\n"; first = false;
		str(g.getName()); o << ":{\"const\":" << (g.isConstant() ? 1 : 0) << ",\"tls\":" << (g.isThreadLocal() ? 1 : 0) << ",\"type\":"; str(tystr(g.getValueType()));
		o << ",\"decl\":" << (g.isDeclaration() ? 1 : 0);
		SmallVector<DIGlobalVariableExpression *, 1> gvs; g.getDebugInfo(gvs);
		if (!gvs.empty()) {
			auto *gv = gvs[0]->getVariable();
			o << ",\"name\":"; str(gv->getName()); o << ",\"file\":"; str(gv->getFilename()); o << ",\"line\":" << gv->getLine();
			o << ",\"dtype\":"; str(ditype(gv->getType()));
			o << ",\"scope\":"; str(gv->getScope() && isa<DISubprogram>(gv->getScope()) ? cast<DISubprogram>(gv->getScope())->getName() : "");
		}
		if (g.hasInitializer()) {
			o << ",\"init\":"; cons(g.getInitializer());
			// flattened pointer/function slots with byte offsets, for tables
			o << ",\"esz\":" << DL->getTypeAllocSize(g.getValueType()) << ",\"flat\":[";
			bool ff = true; flat(g.getInitializer(), g.getValueType(), 0, "", 0, ff); o << "]";
		}
		o << "}";
	}
	o << "},\n\"functions\":{";
	first = true;
	for (auto &f : *m) {
		if (f.isIntrinsic() && (f.getName().starts_with("llvm.dbg") || f.getName().starts_with("llvm.lifetime"))) continue;
		if (!first) o << ",\n"; first = false;
		str(f.getName());
		o << ":{\"decl\":" << (f.isDeclaration() ? 1 : 0) << ",\"ret\":"; str(tystr(f.getReturnType()));
		o << ",\"noreturn\":" << (f.doesNotReturn() ? 1 : 0) << ",\"va\":" << (f.isVarArg() ? 1 : 0) << ",\"local\":" << (f.hasLocalLinkage() ? 1 : 0);
		const DISubprogram *sp = f.getSubprogram();
		if (sp) {
			o << ",\"file\":"; str(sp->getFilename()); o << ",\"line\":" << sp->getLine();
			if (sp->getType()) {
				o << ",\"dtypes\":[";
				bool ff = true;
				for (auto *t : sp->getType()->getTypeArray()) { if (!ff) o << ","; ff = false; str(ditype(t)); }
				o << "]";
			}
		}
		o << ",\"args\":[";
		bool fa = true;
		for (auto &a : f.args()) { if (!fa) o << ","; fa = false; o << "["; str(a.getName()); o << ","; str(tystr(a.getType())); o << "," << (a.hasByValAttr() ? 1 : 0) << "," << (a.hasStructRetAttr() ? 1 : 0) << "]"; }
		o << "]";
		if (f.isDeclaration()) { o << "}"; continue; }
		ids.clear(); bids.clear();
		int n = 0, b = 0;
		std::map<const Value *, std::string> names;
		for (auto &bb : f) {
			bids[&bb] = b++;
			for (auto &i : bb) {
				if (auto *dv = dyn_cast<DbgVariableIntrinsic>(&i)) {
					for (auto *l : dv->location_ops()) if (l) names.emplace(l, dv->getVariable()->getName().str());
					continue;
				}
				ids[&i] = n++;
			}
		}
		o << ",\"names\":{";
		bool fn = true;
		for (auto &kv : names) {
			if (!isa<Instruction>(kv.first) || !ids.count(kv.first)) continue;
			if (!fn) o << ","; fn = false;
			o << "\"" << ids[kv.first] << "\":"; str(kv.second);
		}
		o << "},\n\"blocks\":[";
		bool fb = true;
		for (auto &bb : f) {
			if (!fb) o << ","; fb = false;
			o << "[";
			bool fi = true;
			for (auto &i : bb) {
				if (isa<DbgInfoIntrinsic>(&i)) continue;
				if (auto *ii = dyn_cast<IntrinsicInst>(&i)) if (ii->isLifetimeStartOrEnd()) continue;
				if (!fi) o << ",\n"; fi = false;
				o << "{\"i\":" << ids[&i] << ",\"o\":"; str(i.getOpcodeName());
				if (!i.getType()->isVoidTy()) { o << ",\"t\":"; str(tystr(i.getType())); }
				if (auto &dl = i.getDebugLoc()) {
					o << ",\"l\":" << dl.getLine();
					if (sp && dl->getFilename() != sp->getFilename()) { o << ",\"f\":"; str(dl->getFilename()); }
				}
				if (auto *c = dyn_cast<CallBase>(&i)) {
					o << ",\"c\":"; val(c->getCalledOperand());
					if (c->doesNotReturn()) o << ",\"nr\":1";
					o << ",\"a\":["; bool ff = true;
					for (auto &a : c->args()) { if (!ff) o << ","; ff = false; val(a); }
					o << "]";
				} else if (auto *p = dyn_cast<PHINode>(&i)) {
					o << ",\"p\":["; 
					for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) { if (k) o << ","; o << "["; val(p->getIncomingValue(k)); o << "," << bids[p->getIncomingBlock(k)] << "]"; }
					o << "]";
				} else if (auto *br = dyn_cast<BranchInst>(&i)) {
					o << ",\"a\":["; if (br->isConditional()) val(br->getCondition()); o << "],\"b\":[";
					for (unsigned k = 0; k < br->getNumSuccessors(); ++k) { if (k) o << ","; o << bids[br->getSuccessor(k)]; }
					o << "]";
				} else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
					o << ",\"a\":["; val(sw->getCondition()); o << "],\"b\":[" << bids[sw->getDefaultDest()] << "],\"cs\":[";
					bool ff = true;
					for (auto &cs : sw->cases()) { if (!ff) o << ","; ff = false; SmallString<32> s; cs.getCaseValue()->getValue().toStringSigned(s); o << "[" << s << "," << bids[cs.getCaseSuccessor()] << "]"; }
					o << "]";
				} else {
					if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
						o << ",\"st\":"; str(tystr(g->getSourceElementType()));
						APInt off(64, 0);
						if (g->accumulateConstantOffset(*DL, off)) o << ",\"off\":" << off.getSExtValue();
						else {
							// constant part of the offset, ignoring variable array indices
							MapVector<Value *, APInt> vo; APInt co(64, 0);
							if (g->collectOffset(*DL, 64, vo, co)) {
								o << ",\"coff\":" << co.getSExtValue() << ",\"vo\":[";
								bool vf = true;
								for (auto &p : vo) { if (!vf) o << ","; vf = false; o << "["; val(p.first); o << "," << p.second.getSExtValue() << "]"; }
								o << "]";
							}
						}
						o << ",\"esz\":" << DL->getTypeAllocSize(g->getSourceElementType());
						o << ",\"inb\":" << (g->isInBounds() ? 1 : 0);
					} else if (auto *ic = dyn_cast<CmpInst>(&i)) {
						o << ",\"pr\":"; str(CmpInst::getPredicateName(ic->getPredicate()));
						o << ",\"ot\":"; str(tystr(ic->getOperand(0)->getType()));
					} else if (auto *l = dyn_cast<LoadInst>(&i)) {
						if (l->isAtomic()) { o << ",\"ord\":"; str(ord(l->getOrdering())); }
						if (l->isVolatile()) o << ",\"vol\":1";
					} else if (auto *s = dyn_cast<StoreInst>(&i)) {
						if (s->isAtomic()) { o << ",\"ord\":"; str(ord(s->getOrdering())); }
						if (s->isVolatile()) o << ",\"vol\":1";
						o << ",\"vt\":"; str(tystr(s->getValueOperand()->getType()));
					} else if (auto *x = dyn_cast<AtomicCmpXchgInst>(&i)) {
						o << ",\"ord\":"; str(ord(x->getSuccessOrdering())); o << ",\"ford\":"; str(ord(x->getFailureOrdering()));
					} else if (auto *x = dyn_cast<AtomicRMWInst>(&i)) {
						o << ",\"ord\":"; str(ord(x->getOrdering())); o << ",\"rmw\":"; str(AtomicRMWInst::getOperationName(x->getOperation()));
					} else if (auto *x = dyn_cast<FenceInst>(&i)) {
						o << ",\"ord\":"; str(ord(x->getOrdering())); o << ",\"ss\":" << (x->getSyncScopeID() == SyncScope::SingleThread ? 1 : 0);
					} else if (auto *al = dyn_cast<AllocaInst>(&i)) {
						o << ",\"at\":"; str(tystr(al->getAllocatedType()));
						o << ",\"asz\":" << DL->getTypeAllocSize(al->getAllocatedType());
					} else if (auto *ev = dyn_cast<ExtractValueInst>(&i)) {
						o << ",\"ix\":["; bool ff = true; for (auto k : ev->indices()) { if (!ff) o << ","; ff = false; o << k; } o << "]";
					} else if (auto *ev = dyn_cast<InsertValueInst>(&i)) {
						o << ",\"ix\":["; bool ff = true; for (auto k : ev->indices()) { if (!ff) o << ","; ff = false; o << k; } o << "]";
					}
					o << ",\"a\":["; bool ff = true;
					for (auto &a : i.operands()) { if (!ff) o << ","; ff = false; val(a); }
					o << "]";
				}
				o << "}";
			}
			o << "]";
		}
		o << "]}";
	}
	o << "}}\n";
	return 0;
}
