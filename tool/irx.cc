// irx: read an LLVM bitcode module made from /repo's sources, inline every
// call to a function defined in the analysed tree (except the named
// "markers"), promote locals to SSA and dump the resulting flow graphs as
// JSON.  Nothing is executed; this is the front half of the dataflow checks.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/ADT/MapVector.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/MemoryBuffer.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Transforms/Utils/Cloning.h>
#include <llvm/Transforms/Utils/SimplifyCFGOptions.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Scalar/ADCE.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <llvm/Transforms/Utils/Local.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Transforms/Utils/BasicBlockUtils.h>
#include <map>
#include <set>
#include <regex>
#include <string>
#include <vector>
#include <fstream>
#include <iostream>

using namespace llvm;
using std::string;

static std::vector<std::regex> entryRx, markRx, forceRx, skipRx;
static string root = "/repo";
static bool matchAny(const std::vector<std::regex> &v, const string &s) {
	for (auto &r : v) if (std::regex_search(s, r)) return true;
	return false;
}

static std::map<const Function*, string> dem;
static const string &dn(const Function *f) {
	auto it = dem.find(f);
	if (it != dem.end()) return it->second;
	return dem[f] = demangle(f->getName().str());
}

static string srcFile(const Function *f) {
	if (auto *sp = f->getSubprogram()) {
		string file = sp->getFilename().str();
		if (!file.empty() && file[0] != '/') file = sp->getDirectory().str() + "/" + file;
		return file;
	}
	return "";
}

static bool inTree(const Function *f) {
	string s = srcFile(f);
	if (s.empty()) {
		// compiler-generated members (copy ctors, defaulted dtors) have a subprogram of
		// the class; those without one: inline unless std::
		string d = dn(f);
		return d.find("std::") == string::npos && d.find("boost::") == string::npos && d.find("__gnu") == string::npos;
	}
	if (s.compare(0, 5, "/usr/") == 0) return false;
	return true;
}


// A GEP whose indices are all zero still names a field; the inliner would fold
// it away, so it is hidden in a call to a placeholder until inlining is over.
static std::map<const Function*, std::pair<StructType*, unsigned>> fld0; // placeholder -> struct, number of zero indices
static std::map<std::pair<StructType*, unsigned>, Function*> fld0rev;
static void hide0(Function &F) {
	std::vector<GetElementPtrInst*> v;
	for (auto &i : instructions(F))
		if (auto *g = dyn_cast<GetElementPtrInst>(&i))
			if (g->hasAllZeroIndices() && g->getNumIndices() > 1)
				if (isa<StructType>(g->getSourceElementType())) v.push_back(g);
	for (auto *g : v) {
		auto *st = cast<StructType>(g->getSourceElementType());
		auto key = std::make_pair(st, g->getNumIndices());
		Function *&f = fld0rev[key];
		if (!f) {
			auto *pt = PointerType::getUnqual(F.getContext());
			f = Function::Create(FunctionType::get(pt, {pt}, false), GlobalValue::ExternalLinkage, "__fld0." + std::to_string(fld0rev.size()), F.getParent());
			f->setDoesNotAccessMemory(); f->setDoesNotThrow(); f->addFnAttr(Attribute::WillReturn);
			fld0[f] = key;
		}
		auto *c = CallInst::Create(f, {g->getPointerOperand()}, "", g);
		c->setDebugLoc(g->getDebugLoc());
		g->replaceAllUsesWith(c); g->eraseFromParent();
	}
}
static bool allocaRooted(Value *v) {
	for (int k = 0; k < 64; k++) {
		if (isa<AllocaInst>(v)) return true;
		if (auto *g = dyn_cast<GEPOperator>(v)) v = g->getPointerOperand();
		else if (auto *c = dyn_cast<CallInst>(v)) { if (c->getCalledFunction() && fld0.count(c->getCalledFunction())) v = c->getArgOperand(0); else return false; }
		else return false;
	}
	return false;
}
static void unhide0(Function &F) {
	std::vector<CallInst*> v;
	for (auto &i : instructions(F)) if (auto *c = dyn_cast<CallInst>(&i))
		if (c->getCalledFunction() && fld0.count(c->getCalledFunction()) && allocaRooted(c)) v.push_back(c);
	for (auto *c : v) {
		auto key = fld0[c->getCalledFunction()];
		std::vector<Value*> idx(key.second, ConstantInt::get(Type::getInt32Ty(F.getContext()), 0));
		auto *g = GetElementPtrInst::Create(key.first, c->getArgOperand(0), idx, "", c);
		g->setDebugLoc(c->getDebugLoc());
		c->replaceAllUsesWith(g); c->eraseFromParent();
	}
}
// Copies of small records into or out of locals are written field by field so
// that they keep their field names when the local is split.
static bool isPad(StructType *st, Type *e) {
	auto *a = dyn_cast<ArrayType>(e);
	return st->isPacked() && a && a->getElementType()->isIntegerTy(8) && a->getNumElements() < 8;
}
static bool scalars(Type *t, unsigned &n) {
	if (auto *st = dyn_cast<StructType>(t)) { for (auto *e : st->elements()) if (!isPad(st, e) && !scalars(e, n)) return false; return true; }
	if (t->isArrayTy() || t->isVectorTy()) return false;
	return ++n <= 16;
}
static void copyFields(IRBuilder<> &B, Type *root, Type *t, Value *d, Value *s, std::vector<Value*> &idx) {
	if (auto *st = dyn_cast<StructType>(t)) {
		for (unsigned k = 0; k < st->getNumElements(); k++) {
			if (isPad(st, st->getElementType(k))) continue;
			idx.push_back(B.getInt32(k));
			copyFields(B, root, st->getElementType(k), d, s, idx);
			idx.pop_back();
		}
		return;
	}
	auto mkg = [&](Value *p) { auto *g = GetElementPtrInst::Create(root, p, idx); B.Insert(g); return g; };
	Value *v = B.CreateLoad(t, mkg(s));
	B.CreateStore(v, mkg(d));
}
static void expandCopies(Function &F) {
	std::vector<MemCpyInst*> v;
	for (auto &i : instructions(F)) if (auto *m = dyn_cast<MemCpyInst>(&i)) v.push_back(m);
	const DataLayout &DL = F.getParent()->getDataLayout();
	for (auto *m : v) {
		auto *len = dyn_cast<ConstantInt>(m->getLength());
		if (!len) continue;
		Type *t = nullptr;
		for (Value *p : {m->getRawDest(), m->getRawSource()})
			if (auto *a = dyn_cast<AllocaInst>(p)) if (isa<StructType>(a->getAllocatedType())) { t = a->getAllocatedType(); break; }
		unsigned n = 0;
		if (!t || !scalars(t, n)) continue;
		uint64_t L = len->getZExtValue(), full = DL.getTypeAllocSize(t);
		if (L > full || L + 7 < full) continue;		// tail padding need not be copied
		if (L < full) {
			auto *st = cast<StructType>(t);
			unsigned last = st->getNumElements() - 1;
			if (last && isPad(st, st->getElementType(last))) last--;
			if (DL.getStructLayout(st)->getElementOffset(last) + DL.getTypeStoreSize(st->getElementType(last)) > L) continue;
		}
		IRBuilder<> B(m);
		std::vector<Value*> idx{B.getInt32(0)};
		copyFields(B, t, t, m->getRawDest(), m->getRawSource(), idx);
		m->eraseFromParent();
	}
}

static std::set<const Function*> done, active;

static bool inlinable(Function *g) {
	if (!g || g->isDeclaration() || g->isVarArg()) return false;
	const string &d = dn(g);
	if (matchAny(forceRx, d)) return true;
	if (matchAny(markRx, d)) return false;
	return inTree(g);
}

static void process(Function *f) {
	if (done.count(f) || active.count(f)) return;
	active.insert(f);
	bool again = true;
	std::set<CallBase*> tried;
	while (again) {
		again = false;
		std::vector<CallBase*> calls;
		for (auto &i : instructions(*f))
			if (auto *cb = dyn_cast<CallBase>(&i)) if (!tried.count(cb)) calls.push_back(cb);
		for (auto *cb : calls) {
			tried.insert(cb);
			Function *g = cb->getCalledFunction();
			if (!inlinable(g) || active.count(g)) continue;
			process(g);
			if (f->getInstructionCount() > 60000) continue;
			InlineFunctionInfo ifi;
			auto r = InlineFunction(*cb, ifi);
			if (r.isSuccess()) { again = false; }
		}
	}
	active.erase(f);
	done.insert(f);
}

// ---- field names -------------------------------------------------------
struct FieldDB {
	const DataLayout *DL;
	std::map<string, std::vector<const DICompositeType*>> byname;
	std::map<const StructType*, std::vector<string>> cache;
	DebugInfoFinder dif;

	static string scopeName(const DIScope *s) {
		if (!s || isa<DIFile>(s) || isa<DICompileUnit>(s)) return "";
		string p = scopeName(s->getScope());
		string n = s->getName().str();
		if (isa<DISubprogram>(s)) n = s->getName().str();
		return p.empty() ? n : p + "::" + n;
	}
	static string stripTpl(const string &s) {
		string o; int d = 0;
		for (size_t i = 0; i < s.size(); i++) {
			if (s[i] == '<') { d++; continue; }
			if (s[i] == '>') { if (d) d--; continue; }
			if (!d) o += s[i];
		}
		return o;
	}
	void build(Module &m) {
		DL = &m.getDataLayout();
		dif.processModule(m);
		for (auto *t : dif.types())
			if (auto *c = dyn_cast<DICompositeType>(t)) {
				if (c->isForwardDecl()) continue;
				if (c->getTag() != dwarf::DW_TAG_structure_type && c->getTag() != dwarf::DW_TAG_class_type && c->getTag() != dwarf::DW_TAG_union_type) continue;
				byname[stripTpl(scopeName(c))].push_back(c);
			}
	}
	static string baseName(const StructType *st) {
		string n = st->hasName() ? st->getName().str() : "";
		for (const char *p : {"struct.", "class.", "union."})
			if (n.compare(0, strlen(p), p) == 0) { n = n.substr(strlen(p)); break; }
		// strip numeric suffix
		size_t k = n.rfind('.');
		while (k != string::npos && k + 1 < n.size() && n.find_first_not_of("0123456789", k + 1) == string::npos) { n = n.substr(0, k); k = n.rfind('.'); }
		if (n.size() > 5 && n.substr(n.size() - 5) == ".base") n = n.substr(0, n.size() - 5);
		return n;
	}
	const std::vector<string> &fields(const StructType *st) {
		auto it = cache.find(st);
		if (it != cache.end()) return it->second;
		std::vector<string> res(st->getNumElements());
		for (unsigned i = 0; i < res.size(); i++) res[i] = "#" + std::to_string(i);
		if (!st->isSized() ) return cache[st] = res;
		const StructLayout *sl = DL->getStructLayout(const_cast<StructType*>(st));
		string n = stripTpl(baseName(st));
		int best = -1; std::vector<string> bestv;
		for (auto *c : byname[n]) {
			std::map<uint64_t, string> off; // byte offset -> name
			for (auto *e : c->getElements()) {
				auto *d = dyn_cast<DIDerivedType>(e);
				if (!d) continue;
				if (d->getTag() == dwarf::DW_TAG_member && !d->isStaticMember()) {
					uint64_t o = d->getOffsetInBits() / 8;
					string nm = d->getName().str();
					if (!off.count(o) || off[o].compare(0, 1, "<") == 0) off[o] = nm.empty() ? "<anon>" : nm;
				} else if (d->getTag() == dwarf::DW_TAG_inheritance) {
					uint64_t o = d->getOffsetInBits() / 8;
					if (!off.count(o)) off[o] = "<base " + (d->getBaseType() ? d->getBaseType()->getName().str() : string("?")) + ">";
				}
			}
			uint64_t sz = c->getSizeInBits() / 8;
			int score = 0; std::vector<string> v(res);
			for (unsigned i = 0; i < res.size(); i++) {
				uint64_t o = sl->getElementOffset(i);
				auto f = off.find(o);
				if (f != off.end()) { v[i] = f->second; score += 2; }
				else score -= 3;
			}
			if (sz != sl->getSizeInBytes()) score -= 4;
			score -= abs((int)off.size() - (int)res.size());
			if (best == -1 || score > best) { best = score; bestv = v; }
		}
		if (best != -1 && !bestv.empty()) res = bestv;
		return cache[st] = res;
	}
};
static FieldDB fdb;

static string tyStr(Type *t) {
	string s; raw_string_ostream os(s); t->print(os, false, true); return os.str();
}

static string locStr(const DebugLoc &dl) {
	if (!dl) return "";
	auto *sc = cast<DIScope>(dl.getScope());
	string f = sc->getFilename().str();
	if (!f.empty() && f[0] != '/') f = sc->getDirectory().str() + "/" + f;
	return f + ":" + std::to_string(dl.getLine());
}
static string inFn(const DebugLoc &dl) {
	if (!dl) return "";
	const DILocalScope *sc = cast<DILocalScope>(dl.getScope());
	if (auto *sp = sc->getSubprogram()) return sp->getName().str();
	return "";
}

struct Dumper {
	json::OStream &J;
	std::map<const Value*, int> num;
	std::map<const BasicBlock*, int> bnum;
	Dumper(json::OStream &j) : J(j) {}

	string val(const Value *v) {
		if (auto *ci = dyn_cast<ConstantInt>(v)) {
			SmallString<32> s; ci->getValue().toString(s, 10, true);
			return "i:" + s.str().str();
		}
		if (auto *cf = dyn_cast<ConstantFP>(v)) {
			SmallString<32> s; cf->getValueAPF().toString(s);
			return "d:" + s.str().str();
		}
		if (isa<ConstantPointerNull>(v)) return "null";
		if (isa<UndefValue>(v)) return "undef";
		if (auto *f = dyn_cast<Function>(v)) return "@f:" + dn(f);
		if (auto *g = dyn_cast<GlobalVariable>(v)) {
			if (g->isConstant() && g->hasInitializer())
				if (auto *ca = dyn_cast<ConstantDataArray>(g->getInitializer()))
					if (ca->isCString()) return "s:" + ca->getAsCString().str();
			return "@g:" + demangle(g->getName().str());
		}
		if (auto *ce = dyn_cast<ConstantExpr>(v)) {
			if (ce->getOpcode() == Instruction::GetElementPtr) {
				string s = "@e:" + val(ce->getOperand(0));
				for (unsigned i = 1; i < ce->getNumOperands(); i++) s += "," + val(ce->getOperand(i));
				return s;
			}
			string s = string("@c:") + ce->getOpcodeName();
			for (unsigned i = 0; i < ce->getNumOperands(); i++) s += "," + val(ce->getOperand(i));
			return s;
		}
		if (isa<ConstantAggregateZero>(v)) return "zero";
		if (isa<Constant>(v)) { return "@k:" + tyStr(v->getType()); }
		auto it = num.find(v);
		if (it != num.end()) return "%" + std::to_string(it->second);
		return "?";
	}

	static Type *pointee(const Value *p) {
		if (auto *a = dyn_cast<AllocaInst>(p)) return a->getAllocatedType();
		if (auto *g = dyn_cast<GEPOperator>(p)) return g->getResultElementType();
		if (auto *g = dyn_cast<GlobalVariable>(p)) return g->getValueType();
		if (auto *c = dyn_cast<CallInst>(p)) if (c->getCalledFunction()) {
			auto it = fld0.find(c->getCalledFunction());
			if (it != fld0.end()) {
				Type *t = it->second.first;
				for (unsigned k = 1; k < it->second.second; k++) {
					if (auto *st = dyn_cast<StructType>(t)) t = st->getElementType(0);
					else if (auto *at = dyn_cast<ArrayType>(t)) t = at->getElementType();
				}
				return t;
			}
		}
		return nullptr;
	}
	void leaf(const Value *p, Type *acc) {
		Type *t = pointee(p);
		if (!t || acc->isAggregateType()) return;
		if (!t->isStructTy() && !t->isArrayTy()) return;
		J.attributeArray("leaf", [&] {
			while (true) {
				if (auto *st = dyn_cast<StructType>(t)) {
					if (!st->getNumElements()) break;
					J.array([&] { J.value("f"); J.value(FieldDB::baseName(st)); J.value(fdb.fields(st)[0]); J.value(0); });
					t = st->getElementType(0);
				} else if (auto *at = dyn_cast<ArrayType>(t)) {
					J.array([&] { J.value("i"); J.value("i:0"); J.value("a"); });
					t = at->getElementType();
				} else break;
			}
		});
	}
	void fld0Path(const Function *f) {
		auto key = fld0[f];
		Type *t = key.first;
		J.attributeArray("path", [&] {
			for (unsigned k = 1; k < key.second; k++) {
				if (auto *st = dyn_cast<StructType>(t)) {
					J.array([&] { J.value("f"); J.value(FieldDB::baseName(st)); J.value(fdb.fields(st)[0]); J.value(0); });
					t = st->getElementType(0);
				} else if (auto *at = dyn_cast<ArrayType>(t)) {
					J.array([&] { J.value("i"); J.value("i:0"); J.value("a"); });
					t = at->getElementType();
				}
			}
		});
	}

	void gepPath(const GEPOperator *g, json::OStream &J) {
		J.attributeArray("path", [&] {
			bool first = true;
			for (auto gti = gep_type_begin(g), e = gep_type_end(g); gti != e; ++gti) {
				Value *idx = gti.getOperand();
				if (StructType *st = gti.getStructTypeOrNull()) {
					unsigned k = cast<ConstantInt>(idx)->getZExtValue();
					J.array([&] { J.value("f"); J.value(FieldDB::baseName(st)); J.value(fdb.fields(st)[k]); J.value((int64_t)k); });
				} else {
					auto *ci = dyn_cast<ConstantInt>(idx);
					if (first && ci && ci->isZero()) { first = false; continue; }
					if (first && g->getSourceElementType()->isIntegerTy(8) && ci)
						J.array([&] { J.value("b"); J.value(ci->getSExtValue()); });
					else
						J.array([&] { J.value("i"); J.value(val(idx)); J.value(first ? "p" : "a"); });
				}
				first = false;
			}
		});
	}

	void fn(Function &F) {
		int n = 0;
		for (auto &a : F.args()) num[&a] = n++;
		for (auto &b : F) { bnum[&b] = bnum.size(); }
		for (auto &b : F) for (auto &i : b) num[&i] = n++;
		DominatorTree DT(F);
		LoopInfo LI(DT);
		J.object([&] {
			J.attribute("name", F.getName());
			J.attribute("dem", dn(&F));
			J.attribute("file", srcFile(&F));
			J.attribute("line", F.getSubprogram() ? (int64_t)F.getSubprogram()->getLine() : 0);
			J.attributeArray("args", [&] { for (auto &a : F.args()) J.array([&] {
				J.value(a.getName().empty() ? StringRef("") : a.getName());
				J.value(tyStr(a.getType())); }); });
			J.attribute("ret", tyStr(F.getReturnType()));
			J.attributeArray("loops", [&] {
				for (Loop *L : LI.getLoopsInPreorder()) {
					J.object([&] {
						J.attribute("header", (int64_t)bnum[L->getHeader()]);
						J.attribute("depth", (int64_t)L->getLoopDepth());
						J.attribute("loc", locStr(L->getStartLoc()));
						J.attributeArray("blocks", [&] { for (auto *b : L->blocks()) J.value((int64_t)bnum[b]); });
					});
				}
			});
			J.attributeArray("blocks", [&] {
				for (auto &b : F) {
					J.array([&] {
						for (auto &i : b) inst(i);
					});
				}
			});
		});
	}

	void inst(Instruction &i) {
		if (isa<DbgInfoIntrinsic>(&i)) return;
		J.object([&] {
			if (!i.getType()->isVoidTy()) { J.attribute("id", "%" + std::to_string(num[&i])); J.attribute("ty", tyStr(i.getType())); }
			string loc = locStr(i.getDebugLoc());
			if (!loc.empty()) J.attribute("loc", loc);
			string fnm = inFn(i.getDebugLoc());
			if (!fnm.empty()) J.attribute("in", fnm);
			if (auto *l = dyn_cast<LoadInst>(&i)) {
				J.attribute("op", "load"); J.attribute("ptr", val(l->getPointerOperand()));
				if (l->isVolatile()) J.attribute("vol", true);
				leaf(l->getPointerOperand(), l->getType());
			} else if (auto *s = dyn_cast<StoreInst>(&i)) {
				J.attribute("op", "store"); J.attribute("ptr", val(s->getPointerOperand())); J.attribute("val", val(s->getValueOperand()));
				J.attribute("vty", tyStr(s->getValueOperand()->getType()));
				if (s->isVolatile()) J.attribute("vol", true);
				leaf(s->getPointerOperand(), s->getValueOperand()->getType());
			} else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) {
				J.attribute("op", "gep"); J.attribute("base", val(g->getPointerOperand()));
				gepPath(cast<GEPOperator>(g), J);
				// the lengths of the arrays that are indexed, in order
				{
					std::vector<int64_t> lens;
					Type *cur = g->getSourceElementType();
					for (auto x = g->idx_begin() + 1; x < g->idx_end(); ++x) {
						if (auto *at = dyn_cast<ArrayType>(cur)) {
							lens.push_back((int64_t) at->getNumElements());
							cur = at->getElementType();
						} else if (auto *st = dyn_cast<StructType>(cur)) {
							cur = st->getElementType(cast<ConstantInt>(x->get())->getZExtValue());
						} else
							break;
					}
					if (!lens.empty())
						J.attributeArray("alen", [&] { for (auto l : lens) J.value(l); });
				}
				{
					const DataLayout &DL = i.getModule()->getDataLayout();
					unsigned w = DL.getIndexTypeSizeInBits(g->getType());
					MapVector<Value*, APInt> vo; APInt co(w, 0);
					if (cast<GEPOperator>(g)->collectOffset(DL, w, vo, co)) {
						J.attribute("off", co.getSExtValue());
						if (!vo.empty())
							J.attributeArray("vars", [&] { for (auto &x : vo) J.array([&] { J.value(val(x.first)); J.value(x.second.getSExtValue()); }); });
					}
				}
			} else if (isa<CallInst>(&i) && cast<CallInst>(i).getCalledFunction() && fld0.count(cast<CallInst>(i).getCalledFunction())) {
				J.attribute("op", "gep"); J.attribute("base", val(cast<CallInst>(i).getArgOperand(0)));
				fld0Path(cast<CallInst>(i).getCalledFunction());
				J.attribute("off", 0);
			} else if (auto *cb = dyn_cast<CallBase>(&i)) {
				J.attribute("op", "call");
				if (Function *g = cb->getCalledFunction()) {
					J.attribute("callee", dn(g));
					J.attribute("mangled", g->getName());
					J.attribute("defined", !g->isDeclaration() && inTree(g));
					if (g->isVarArg()) J.attribute("vararg", (int64_t)g->getFunctionType()->getNumParams());
					
				} else {
					J.attribute("callee", cb->isInlineAsm() ? "<asm>" : "<indirect>");
					if (!cb->isInlineAsm()) J.attribute("target", val(cb->getCalledOperand()));
					// virtual dispatch: load(gep ptr (load obj), slot)
					if (auto *l = dyn_cast<LoadInst>(cb->getCalledOperand()))
						if (auto *g = dyn_cast<GEPOperator>(l->getPointerOperand()->stripPointerCasts()))
							if (g->getNumIndices() == 1 && isa<ConstantInt>(*g->idx_begin()) && isa<LoadInst>(g->getPointerOperand()))
								J.attribute("vslot", cast<ConstantInt>(*g->idx_begin())->getSExtValue());
				}
				if (cb->doesNotReturn()) J.attribute("noreturn", true);
				J.attributeArray("args", [&] { for (auto &a : cb->args()) J.value(val(a.get())); });
				J.attributeArray("aty", [&] { for (auto &a : cb->args()) J.value(tyStr(a->getType())); });
			} else if (auto *a = dyn_cast<AllocaInst>(&i)) {
				J.attribute("op", "alloca"); J.attribute("aty", tyStr(a->getAllocatedType()));
				J.attribute("nm", i.getName());
			} else if (auto *c = dyn_cast<CmpInst>(&i)) {
				J.attribute("op", isa<ICmpInst>(c) ? "icmp" : "fcmp");
				J.attribute("pred", CmpInst::getPredicateName(c->getPredicate()));
				if (c->getOperand(0)->getType()->isPointerTy()) J.attribute("oty", "ptr");
				J.attribute("a", val(c->getOperand(0))); J.attribute("b", val(c->getOperand(1)));
			} else if (auto *br = dyn_cast<BranchInst>(&i)) {
				J.attribute("op", "br");
				if (br->isConditional()) J.attribute("cond", val(br->getCondition()));
				J.attributeArray("succ", [&] { for (unsigned k = 0; k < br->getNumSuccessors(); k++) J.value((int64_t)bnum[br->getSuccessor(k)]); });
			} else if (auto *sw = dyn_cast<SwitchInst>(&i)) {
				J.attribute("op", "switch"); J.attribute("cond", val(sw->getCondition()));
				J.attributeArray("cases", [&] { for (auto &c : sw->cases()) J.array([&] { J.value(val(c.getCaseValue())); J.value((int64_t)bnum[c.getCaseSuccessor()]); }); });
				J.attribute("default", (int64_t)bnum[sw->getDefaultDest()]);
			} else if (auto *r = dyn_cast<ReturnInst>(&i)) {
				J.attribute("op", "ret"); if (r->getReturnValue()) J.attribute("val", val(r->getReturnValue()));
			} else if (isa<UnreachableInst>(&i)) {
				J.attribute("op", "unreachable");
			} else if (auto *p = dyn_cast<PHINode>(&i)) {
				J.attribute("op", "phi");
				J.attributeArray("in_", [&] { for (unsigned k = 0; k < p->getNumIncomingValues(); k++) J.array([&] { J.value((int64_t)bnum[p->getIncomingBlock(k)]); J.value(val(p->getIncomingValue(k))); }); });
			} else if (auto *s = dyn_cast<SelectInst>(&i)) {
				J.attribute("op", "select"); J.attribute("cond", val(s->getCondition())); J.attribute("a", val(s->getTrueValue())); J.attribute("b", val(s->getFalseValue()));
			} else if (isa<CastInst>(&i)) {
				J.attribute("op", "cast"); J.attribute("kind", i.getOpcodeName()); J.attribute("a", val(i.getOperand(0)));
				J.attribute("from", tyStr(i.getOperand(0)->getType()));
			} else if (isa<FreezeInst>(&i)) {
				J.attribute("op", "cast"); J.attribute("kind", "freeze"); J.attribute("a", val(i.getOperand(0)));
			} else {
				string kind = i.getOpcodeName();
				if (auto *x = dyn_cast<ExtractValueInst>(&i)) for (unsigned k : x->indices()) kind += "." + std::to_string(k);
				if (auto *x = dyn_cast<InsertValueInst>(&i)) for (unsigned k : x->indices()) kind += "." + std::to_string(k);
				J.attribute("op", i.isBinaryOp() ? "bin" : "other"); J.attribute("kind", kind);
				J.attributeArray("ops", [&] { for (auto &o : i.operands()) J.value(val(o.get())); });
			}
		});
		if (auto *iv = dyn_cast<InvokeInst>(&i))
			J.object([&] {
				J.attribute("op", "invoke");
				J.attributeArray("succ", [&] { J.value((int64_t)bnum[iv->getNormalDest()]); J.value((int64_t)bnum[iv->getUnwindDest()]); });
			});
		if (isa<ResumeInst>(&i)) J.object([&] { J.attribute("op", "unreachable"); });
	}
};

// -calls: every call of every function of the repository, with the types of the
// arguments and the constants they can hold; no inlining
static void constsOf(Value *v, std::set<Value*> &seen, std::vector<string> &out, bool &all) {
	if (!seen.insert(v).second) return;
	v = v->stripPointerCasts();
	if (auto *p = dyn_cast<PHINode>(v)) { for (auto &u : p->incoming_values()) constsOf(u.get(), seen, out, all); return; }
	if (auto *s = dyn_cast<SelectInst>(v)) { constsOf(s->getTrueValue(), seen, out, all); constsOf(s->getFalseValue(), seen, out, all); return; }
	if (auto *c = dyn_cast<CastInst>(v)) { constsOf(c->getOperand(0), seen, out, all); return; }
	if (auto *ci = dyn_cast<ConstantInt>(v)) { SmallString<32> s; ci->getValue().toString(s, 10, true); out.push_back("i:" + s.str().str()); return; }
	if (auto *g = dyn_cast<GlobalVariable>(v))
		if (g->isConstant() && g->hasInitializer())
			if (auto *ca = dyn_cast<ConstantDataArray>(g->getInitializer()))
				if (ca->isCString()) { out.push_back("s:" + ca->getAsCString().str()); return; }
	if (isa<ConstantPointerNull>(v)) { out.push_back("null"); return; }
	if (auto *l = dyn_cast<LoadInst>(v))
		if (auto *g = dyn_cast<GlobalVariable>(l->getPointerOperand()->stripPointerCasts())) {
			// a constant pointer to a string
			if (g->isConstant() && g->hasInitializer()) { constsOf(g->getInitializer(), seen, out, all); return; }
			out.push_back("@g:" + demangle(g->getName().str())); return;
		}
	all = false;
}

static void dumpCalls(Module &M, const string &outf) {
	PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
	PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
	PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
	FunctionPassManager FPM;
	FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
	FPM.addPass(PromotePass());
	std::error_code ec; raw_fd_ostream os(outf, ec);
	json::OStream J(os);
	J.arrayBegin();
	for (auto &F : M) {
		if (F.isDeclaration() || srcFile(&F).compare(0, 5, "/usr/") == 0) continue;
		FPM.run(F, FAM); FAM.clear(F, F.getName());
		J.object([&] {
			J.attribute("name", dn(&F)); J.attribute("file", srcFile(&F)); J.attribute("taken", F.hasAddressTaken()); J.attribute("local", F.hasLocalLinkage());
			J.attributeArray("calls", [&] {
				for (auto &b : F) for (auto &i : b) {
					auto *c = dyn_cast<CallBase>(&i);
					if (!c || isa<DbgInfoIntrinsic>(c)) continue;
					auto *f = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
					J.object([&] {
						J.attribute("to", f ? dn(f) : string("?"));
						J.attribute("loc", locStr(c->getDebugLoc()));
						J.attribute("nfix", (int64_t)c->getFunctionType()->getNumParams());
						J.attributeArray("args", [&] {
							for (auto &a : c->args()) J.array([&] {
								J.value(tyStr(a->getType()));
								std::set<Value*> seen; std::vector<string> cs; bool all = true;
								constsOf(a.get(), seen, cs, all);
								J.value(all);
								for (auto &s : cs) J.value(json::fixUTF8(s));
							});
						});
					});
				}
			});
		});
	}
	J.arrayEnd();
}

int main(int argc, char **argv) {
	std::vector<string> ins; string out = "-"; bool list = false, layouts = false, noopt = false, calls = false;
	auto rd = [](const string &f, std::vector<std::regex> &v) {
		std::ifstream in(f); string l; while (std::getline(in, l)) if (!l.empty() && l[0] != '#') v.emplace_back(l);
	};
	for (int i = 1; i < argc; i++) {
		string a = argv[i];
		if (a == "-entry") entryRx.emplace_back(argv[++i]);
		else if (a == "-mark") markRx.emplace_back(argv[++i]);
		else if (a == "-markfile") rd(argv[++i], markRx);
		else if (a == "-force") forceRx.emplace_back(argv[++i]);
		else if (a == "-skip") skipRx.emplace_back(argv[++i]);
		else if (a == "-o") out = argv[++i];
		else if (a == "-root") root = argv[++i];
		else if (a == "-layouts") layouts = true;
		else if (a == "-list") list = true;
		else if (a == "-noopt") noopt = true;
		else if (a == "-calls") calls = true;
		else ins.push_back(a);
	}
	LLVMContext ctx; SMDiagnostic err;
	std::unique_ptr<Module> M;
	for (auto &f : ins) {
		auto m = parseIRFile(f, err, ctx);
		if (!m) { err.print("irx", errs()); return 3; }
		if (!M) M = std::move(m);
		else if (Linker::linkModules(*M, std::move(m))) { errs() << "link failed: " << f << "\n"; return 3; }
	}
	if (!M) { errs() << "no input\n"; return 3; }
	// constructor aliases (C1 -> C2) would hide direct calls
	{
		std::vector<GlobalAlias*> as;
		for (auto &a : M->aliases()) as.push_back(&a);
		for (auto *a : as) if (auto *f = dyn_cast<Function>(a->getAliasee()->stripPointerCasts())) { a->replaceAllUsesWith(f); a->eraseFromParent(); }
	}
	for (auto &F : *M) { F.removeFnAttr(Attribute::OptimizeNone); F.removeFnAttr(Attribute::NoInline); }
	if (layouts) {
		fdb.build(*M);
		const DataLayout &DL = M->getDataLayout();
		json::OStream J(outs());
		J.object([&] {
			for (auto *st : M->getIdentifiedStructTypes()) {
				if (!st->isSized() || !st->hasName()) continue;
				auto *sl = DL.getStructLayout(st);
				J.attributeObject(st->getName(), [&] {
					J.attribute("size", (int64_t)sl->getSizeInBytes());
					J.attributeArray("fields", [&] {
						for (unsigned k = 0; k < st->getNumElements(); k++)
							J.array([&] { J.value(fdb.fields(st)[k]); J.value((int64_t)sl->getElementOffset(k)); J.value((int64_t)DL.getTypeAllocSize(st->getElementType(k))); J.value(tyStr(st->getElementType(k))); });
					});
				});
			}
		});
		return 0;
	}
	if (list) { for (auto &F : *M) outs() << (F.isDeclaration() ? "decl " : "def  ") << dn(&F) << "\t" << srcFile(&F) << "\n"; return 0; }
	if (calls) { dumpCalls(*M, out); return 0; }
	fdb.build(*M);

	std::vector<Function*> entries;
	for (auto &F : *M) if (!F.isDeclaration() && matchAny(entryRx, dn(&F)) && !matchAny(skipRx, dn(&F))) {
		string s = srcFile(&F);
		if (s.compare(0, 5, "/usr/") == 0) continue;
		entries.push_back(&F);
	}
	// Each entry is analysed in its own clone so that entries may inline one another.
	for (auto &F : *M) if (!F.isDeclaration()) hide0(F);
	for (auto *F : entries) process(F);

	PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
	PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
	PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
	FunctionPassManager FPM;
	FPM.addPass(SROAPass(SROAOptions::PreserveCFG));
	FPM.addPass(PromotePass());
	FunctionPassManager FPM2;
	std::error_code ec; raw_fd_ostream os(out, ec);
	json::OStream J(os);
	J.arrayBegin();
	for (auto *F : entries) {
		if (!noopt) {
			for (auto &b : *F) for (auto it = b.begin(); it != b.end(); ) { Instruction &i = *it++; if (isa<DbgInfoIntrinsic>(&i)) i.eraseFromParent(); }
			removeUnreachableBlocks(*F);
			unhide0(*F);
			expandCopies(*F);
			FPM.run(*F, FAM);
			FAM.clear(*F, F->getName());
			for (bool ch = true; ch; ) {
				ch = false;
				for (auto &b : *F) ch |= ConstantFoldTerminator(&b, true);
				ch |= removeUnreachableBlocks(*F);
				for (auto it = F->begin(); it != F->end(); ) { BasicBlock *b = &*it++; if (MergeBlockIntoPredecessor(b)) ch = true; }
			}
		}
		Dumper(J).fn(*F);
	}
	J.arrayEnd();
	return 0;
}
