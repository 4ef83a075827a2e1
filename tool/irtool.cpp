/*
	irtool: normalises LLVM bitcode and dumps it as JSON for the analyses in /verif/lib.

	irtool IN.bc OUT.json --passes P --funcs REGEX [--flatten REGEX] [--keep REGEX] [--flat-passes P]
	   --funcs    demangled-name regex of the functions to dump as they are
	   --flatten  demangled-name regex of roots: each is cloned to NAME.flat and every defined callee
	              (not matching --keep, not recursive) is inlined into the clone, then --flat-passes run
*/
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/FileSystem.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Transforms/Utils/Cloning.h"
#include "llvm/ADT/MapVector.h"
#include <map>
#include <set>
#include <string>
#include <vector>
#include <regex>
#include <cstdlib>

using namespace llvm;

static const DataLayout *DL;
static json::OStream *J;
static std::map<const Value *, unsigned> ids;
static std::map<const BasicBlock *, unsigned> bbids;
static std::set<const GlobalVariable *> globals_seen;

static std::string tystr(Type *t)
	{
	std::string s;
	raw_string_ostream o(s);
	t->print(o, false, true);
	return o.str();
	}

static std::string demangled(StringRef n)
	{
	return demangle(std::string(n));
	}

static void operand(const Value *v);

static void gep_parts(const GEPOperator *g)
	{
	unsigned bits = DL->getIndexSizeInBits(g->getPointerAddressSpace());
	MapVector<Value *, APInt> var;
	APInt off(bits, 0);
	J->attribute("sty", tystr(g->getSourceElementType()));
	if (g->collectOffset(*DL, bits, var, off))
		{
		J->attribute("off", off.getSExtValue());
		J->attributeArray("var", [&]{ for (auto &p : var) J->array([&]{ operand(p.first); J->value(p.second.getSExtValue()); }); });
		}
	J->attributeArray("idx", [&]{ for (auto i = g->idx_begin(); i != g->idx_end(); ++i) operand(*i); });
	}

static void constant_value(const Constant *c)
	{
	if (auto *ci = dyn_cast<ConstantInt>(c))
		{
		SmallString<40> s; ci->getValue().toStringUnsigned(s);
		J->object([&]{ J->attribute("k", "c"); J->attribute("v", s); J->attribute("w", (int64_t)ci->getBitWidth()); });
		}
	else if (auto *cf = dyn_cast<ConstantFP>(c))
		J->object([&]{ SmallString<40> s; cf->getValueAPF().toString(s); J->attribute("k", "f"); J->attribute("v", s); });
	else if (isa<ConstantPointerNull>(c))
		J->object([&]{ J->attribute("k", "null"); });
	else if (isa<UndefValue>(c))
		J->object([&]{ J->attribute("k", "undef"); J->attribute("ty", tystr(c->getType())); });
	else if (auto *f = dyn_cast<Function>(c))
		J->object([&]{ J->attribute("k", "fn"); J->attribute("n", f->getName()); });
	else if (auto *g = dyn_cast<GlobalVariable>(c))
		{
		globals_seen.insert(g);
		J->object([&]{ J->attribute("k", "g"); J->attribute("n", g->getName()); });
		}
	else if (auto *a = dyn_cast<GlobalAlias>(c))
		J->object([&]{ J->attribute("k", "fn"); J->attribute("n", a->getAliaseeObject() ? a->getAliaseeObject()->getName() : a->getName()); });
	else if (auto *e = dyn_cast<ConstantExpr>(c))
		{
		J->object([&]{
			J->attribute("k", "ce");
			J->attribute("op", e->getOpcodeName());
			J->attributeArray("o", [&]{ for (auto &o : e->operands()) operand(o); });
			if (auto *g = dyn_cast<GEPOperator>(e)) gep_parts(g);
			});
		}
	else if (auto *cd = dyn_cast<ConstantDataSequential>(c))
		{
		J->object([&]{
			J->attribute("k", "vec");
			J->attribute("w", (int64_t)cd->getElementByteSize() * 8);
			if (cd->isString())
				{
				std::string s = cd->getAsString().str(), h;
				bool ascii = true;
				for (unsigned char ch : s) if (ch >= 0x80) ascii = false;
				if (ascii) { while (!s.empty() && s.back() == 0) s.pop_back(); J->attribute("str", s); }
				}
			if (cd->getElementType()->isIntegerTy())
				J->attributeArray("e", [&]{ for (unsigned i = 0; i < cd->getNumElements(); i++) J->value(std::to_string(cd->getElementAsInteger(i))); });
			});
		}
	else if (isa<ConstantAggregateZero>(c))
		J->object([&]{ J->attribute("k", "zero"); J->attribute("ty", tystr(c->getType())); });
	else if (isa<ConstantAggregate>(c))
		J->object([&]{ J->attribute("k", "agg"); J->attribute("ty", tystr(c->getType())); J->attributeArray("e", [&]{ for (auto &o : c->operands()) operand(o); }); });
	else
		J->object([&]{ J->attribute("k", "?"); });
	}

static void operand(const Value *v)
	{
	if (auto *c = dyn_cast<Constant>(v))
		constant_value(c);
	else if (auto *b = dyn_cast<BasicBlock>(v))
		J->object([&]{ J->attribute("k", "b"); J->attribute("n", (int64_t)bbids[b]); });
	else if (isa<MetadataAsValue>(v))
		J->object([&]{ J->attribute("k", "md"); });
	else if (isa<InlineAsm>(v))
		J->object([&]{ J->attribute("k", "asm"); });
	else
		{
		auto it = ids.find(v);
		J->value((int64_t)(it == ids.end() ? -1 : it->second));
		}
	}

static std::string path_of(const DIFile *f)
	{
	if (!f) return "";
	std::string p = f->getFilename().str();
	if (!p.empty() && p[0] != '/')
		p = f->getDirectory().str() + "/" + p;
	return p;
	}

static std::string scope_name(const DIScope *s)
	{
	std::string r;
	while (s)
		{
		if (isa<DIFile>(s) || isa<DICompileUnit>(s)) break;
		std::string n = s->getName().str();
		if (n.empty()) n = "(anon)";
		r = r.empty() ? n : n + "::" + r;
		s = s->getScope();
		}
	return r;
	}

static std::string ditype(const DIType *t, int depth = 0)
	{
	if (!t) return "void";
	if (depth > 12) return "...";
	if (auto *d = dyn_cast<DIDerivedType>(t))
		{
		auto tag = d->getTag();
		std::string b = ditype(d->getBaseType(), depth + 1);
		if (tag == dwarf::DW_TAG_pointer_type) return b + "*";
		if (tag == dwarf::DW_TAG_reference_type) return b + "&";
		if (tag == dwarf::DW_TAG_rvalue_reference_type) return b + "&&";
		if (tag == dwarf::DW_TAG_const_type) return "const " + b;
		if (tag == dwarf::DW_TAG_volatile_type) return "volatile " + b;
		if (tag == dwarf::DW_TAG_typedef) return d->getName().str() == "integer" ? "integer" : b;
		return b;
		}
	if (auto *c = dyn_cast<DICompositeType>(t))
		{
		if (c->getTag() == dwarf::DW_TAG_array_type)
			{
			std::string r = ditype(c->getBaseType(), depth + 1);
			for (auto *e : c->getElements())
				if (auto *sr = dyn_cast<DISubrange>(e))
					{
					if (auto *ci = dyn_cast_if_present<ConstantInt *>(sr->getCount())) r += "[" + std::to_string(ci->getSExtValue()) + "]";
					else r += "[]";
					}
			return r;
			}
		return scope_name(c);
		}
	if (isa<DISubroutineType>(t)) return "fn";
	return t->getName().str();
	}

static void loc(const DebugLoc &l)
	{
	if (!l) return;
	J->attributeArray("l", [&]{
		auto *s = cast<DIScope>(l.getScope());
		J->value((int64_t)l.getLine());
		J->value(path_of(s->getFile()));
		});
	}

static void dump_function(Function &f, const std::string &display, const std::vector<std::string> &inl)
	{
	ids.clear(); bbids.clear();
	unsigned n = 0;
	for (auto &a : f.args()) ids[&a] = n++;
	unsigned b = 0;
	for (auto &bb : f)
		{
		bbids[&bb] = b++;
		for (auto &i : bb) if (!isa<DbgInfoIntrinsic>(i)) ids[&i] = n++;
		}
	J->object([&]{
		J->attribute("name", f.getName());
		J->attribute("dem", display);
		J->attribute("ret", tystr(f.getReturnType()));
		J->attribute("linkage", (int64_t)f.getLinkage());
		J->attributeArray("inlined", [&]{ for (auto &s : inl) J->value(s); });
		if (auto *sp = f.getSubprogram())
			{
			J->attribute("file", path_of(sp->getFile()));
			J->attribute("line", (int64_t)sp->getLine());
			J->attribute("scope", sp->getScope() ? scope_name(sp->getScope()) : "");
			J->attribute("sname", sp->getName());
			if (auto *st = sp->getType())
				J->attributeArray("dity", [&]{ for (auto *t : st->getTypeArray()) J->value(ditype(t)); });
			}
		J->attributeArray("args", [&]{
			for (auto &a : f.args())
				J->object([&]{
					J->attribute("n", a.getName()); J->attribute("ty", tystr(a.getType()));
					if (a.hasStructRetAttr()) J->attribute("sret", true);
					if (a.hasByValAttr()) J->attribute("byval", true);
					});
			});
		J->attributeArray("blocks", [&]{
			for (auto &bb : f)
				J->array([&]{
					for (auto &i : bb)
						{
						if (isa<DbgInfoIntrinsic>(i)) continue;
						J->object([&]{
							J->attribute("i", (int64_t)ids[&i]);
							J->attribute("op", i.getOpcodeName());
							J->attribute("ty", tystr(i.getType()));
							if (auto *c = dyn_cast<CallBase>(&i))
								{
								if (auto *cf = dyn_cast<Function>(c->getCalledOperand()->stripPointerCastsAndAliases()))
									J->attribute("callee", cf->getName());
								else if (isa<InlineAsm>(c->getCalledOperand()))
									J->attribute("callee", "#asm");
								else
									J->attributeBegin("fp"), operand(c->getCalledOperand()), J->attributeEnd();
								J->attributeArray("o", [&]{ for (auto &a : c->args()) operand(a); });
								if (auto *iv = dyn_cast<InvokeInst>(&i))
									J->attributeArray("succ", [&]{ J->value((int64_t)bbids[iv->getNormalDest()]); J->value((int64_t)bbids[iv->getUnwindDest()]); });
								if (c->doesNotReturn()) J->attribute("noret", true);
								}
							else if (auto *p = dyn_cast<PHINode>(&i))
								{
								J->attributeArray("o", [&]{ for (unsigned k = 0; k < p->getNumIncomingValues(); k++) operand(p->getIncomingValue(k)); });
								J->attributeArray("from", [&]{ for (unsigned k = 0; k < p->getNumIncomingValues(); k++) J->value((int64_t)bbids[p->getIncomingBlock(k)]); });
								}
							else if (auto *br = dyn_cast<BranchInst>(&i))
								{
								if (br->isConditional()) J->attributeArray("o", [&]{ operand(br->getCondition()); });
								J->attributeArray("succ", [&]{ for (auto *s : br->successors()) J->value((int64_t)bbids[s]); });
								}
							else if (auto *sw = dyn_cast<SwitchInst>(&i))
								{
								J->attributeArray("o", [&]{ operand(sw->getCondition()); });
								J->attributeArray("succ", [&]{ J->value((int64_t)bbids[sw->getDefaultDest()]); for (auto &c : sw->cases()) J->value((int64_t)bbids[c.getCaseSuccessor()]); });
								J->attributeArray("cases", [&]{ for (auto &c : sw->cases()) J->value((int64_t)c.getCaseValue()->getZExtValue()); });
								}
							else if (auto *g = dyn_cast<GetElementPtrInst>(&i))
								{
								J->attributeArray("o", [&]{ operand(g->getPointerOperand()); });
								gep_parts(cast<GEPOperator>(&i));
								}
							else if (auto *sv = dyn_cast<ShuffleVectorInst>(&i))
								{
								J->attributeArray("o", [&]{ operand(sv->getOperand(0)); operand(sv->getOperand(1)); });
								J->attributeArray("mask", [&]{ for (int m : sv->getShuffleMask()) J->value((int64_t)m); });
								}
							else if (auto *ev = dyn_cast<ExtractValueInst>(&i))
								{
								J->attributeArray("o", [&]{ operand(ev->getAggregateOperand()); });
								J->attributeArray("ix", [&]{ for (auto x : ev->indices()) J->value((int64_t)x); });
								}
							else if (auto *iv = dyn_cast<InsertValueInst>(&i))
								{
								J->attributeArray("o", [&]{ operand(iv->getAggregateOperand()); operand(iv->getInsertedValueOperand()); });
								J->attributeArray("ix", [&]{ for (auto x : iv->indices()) J->value((int64_t)x); });
								}
							else
								J->attributeArray("o", [&]{ for (auto &o : i.operands()) operand(o); });
							if (auto *ic = dyn_cast<CmpInst>(&i)) J->attribute("p", CmpInst::getPredicateName(ic->getPredicate()));
							if (auto *al = dyn_cast<AllocaInst>(&i))
								{
								J->attribute("aty", tystr(al->getAllocatedType()));
								if (auto sz = al->getAllocationSize(*DL)) J->attribute("size", (int64_t)sz->getFixedValue());
								}
							if (auto *ld = dyn_cast<LoadInst>(&i)) { J->attribute("size", (int64_t)DL->getTypeStoreSize(ld->getType()).getFixedValue()); if (ld->isAtomic()) J->attribute("atomic", true); }
							if (auto *st = dyn_cast<StoreInst>(&i)) { J->attribute("size", (int64_t)DL->getTypeStoreSize(st->getValueOperand()->getType()).getFixedValue()); if (st->isAtomic()) J->attribute("atomic", true); }
							if (auto *rm = dyn_cast<AtomicRMWInst>(&i)) J->attribute("rmw", AtomicRMWInst::getOperationName(rm->getOperation()));
							if (auto *u = dyn_cast<UnreachableInst>(&i)) (void)u;
							if (auto *lp = dyn_cast<LandingPadInst>(&i)) { J->attribute("cleanup", lp->isCleanup()); J->attribute("clauses", (int64_t)lp->getNumClauses());
								J->attributeArray("clause", [&]{ for (unsigned k = 0; k < lp->getNumClauses(); k++) operand(lp->getClause(k)); }); }
							loc(i.getDebugLoc());
							});
						}
					});
			});
		});
	}

static bool flattenable(Function *c, const std::regex &keep)
	{
	if (!c || c->isDeclaration() || c->isVarArg()) return false;
	if (c->getName().ends_with(".flat")) return false;
	return !std::regex_search(demangled(c->getName()), keep);
	}

static bool recursive(Function *c)
	{
	for (auto &bb : *c) for (auto &i : bb) if (auto *cb = dyn_cast<CallBase>(&i)) if (cb->getCalledFunction() == c) return true;
	return false;
	}

int main(int argc, char **argv)
	{
	std::map<std::string, std::string> opt = {{"--passes", "function(sroa,simplifycfg)"}, {"--funcs", "$^"}, {"--flatten", "$^"}, {"--keep", "$^"}, {"--flat-passes", "function(sroa,instsimplify,simplifycfg)"}, {"--limit", "60000"}, {"--globals", "$^"}};
	if (argc < 3) return 2;
	for (int a = 3; a + 1 < argc; a += 2) opt[argv[a]] = argv[a + 1];
	LLVMContext ctx;
	SMDiagnostic err;
	auto m = parseIRFile(argv[1], err, ctx);
	if (!m) { err.print(argv[0], errs()); return 2; }
	DL = &m->getDataLayout();

	LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
	PassBuilder pb;
	pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
	pb.crossRegisterProxies(lam, fam, cam, mam);
	auto run = [&](const std::string &p)
		{
		if (p.empty()) return;
		ModulePassManager mpm;
		if (auto e = pb.parsePassPipeline(mpm, p)) { errs() << "bad pipeline " << p << ": " << toString(std::move(e)) << "\n"; exit(2); }
		mpm.run(*m, mam);
		};
	run(opt["--passes"]);

	std::regex funcs(opt["--funcs"]), flat(opt["--flatten"]), keep(opt["--keep"]), greg(opt["--globals"]);
	unsigned limit = atoi(opt["--limit"].c_str());
	std::map<std::string, std::vector<std::string>> inl;
	std::vector<Function *> roots;
	for (auto &f : *m)
		if (!f.isDeclaration() && std::regex_search(demangled(f.getName()), flat))
			roots.push_back(&f);
	std::vector<Function *> flats;
	for (auto *r : roots)
		{
		ValueToValueMapTy vm;
		Function *c = CloneFunction(r, vm);
		c->setName(r->getName() + ".flat");
		flats.push_back(c);
		std::vector<std::string> names;
		bool change = true;
		int rounds = 0;
		std::map<Function *, int> times;
		while (change && rounds++ < 40 && c->getInstructionCount() < limit)
			{
			change = false;
			std::vector<CallBase *> work;
			for (auto &bb : *c) for (auto &i : bb)
				if (auto *cb = dyn_cast<CallBase>(&i))
					{
					auto *t = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases());
					if (flattenable(t, keep) && !recursive(t) && t != r && rounds < 30) work.push_back(cb);
					}
			for (auto *cb : work)
				{
				auto *t = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCastsAndAliases());
				if (cb->getCalledFunction() != t) continue;
				InlineFunctionInfo ifi;
				if (InlineFunction(*cb, ifi).isSuccess()) { change = true; names.push_back(demangled(t->getName())); }
				if (c->getInstructionCount() > limit) break;
				}
			}
		inl[c->getName().str()] = names;
		}
	// run flat passes on the clones only: make everything else a declaration-free no-op by running function passes directly
	if (!flats.empty() && !opt["--flat-passes"].empty())
		{
		FunctionPassManager fpm;
		std::string p = opt["--flat-passes"];
		if (auto e = pb.parsePassPipeline(fpm, p)) { errs() << "bad pipeline " << p << ": " << toString(std::move(e)) << "\n"; return 2; }
		for (auto *c : flats) { fam.clear(*c, c->getName()); }
		mam.clear(); cam.clear(); fam.clear(); lam.clear();
		for (auto *c : flats) fpm.run(*c, fam);
		}

	std::error_code ec;
	raw_fd_ostream out(argv[2], ec);
	if (ec) { errs() << ec.message() << "\n"; return 2; }
	json::OStream js(out);
	J = &js;
	J->object([&]{
		J->attributeArray("functions", [&]{
			for (auto &f : *m)
				{
				if (f.isDeclaration()) continue;
				std::string d = demangled(f.getName().ends_with(".flat") ? f.getName().drop_back(5) : f.getName());
				bool isflat = f.getName().ends_with(".flat");
				if (isflat || std::regex_search(d, funcs))
					dump_function(f, d, inl[f.getName().str()]);
				}
			});
		J->attributeArray("decls", [&]{
			for (auto &f : *m)
				J->array([&]{ J->value(f.getName()); J->value(demangled(f.getName())); J->value(f.isDeclaration() ? 1 : 0);
					auto *sp = f.getSubprogram(); J->value(sp ? path_of(sp->getFile()) : ""); J->value(f.hasFnAttribute(Attribute::NoUnwind) ? 1 : 0); });
			});
		J->attributeObject("globals", [&]{
			std::set<const GlobalVariable *> done;
			for (auto &g : m->globals())
				if (std::regex_search(demangled(g.getName()), greg)) globals_seen.insert(&g);
			bool change = true;
			while (change)
				{
				change = false;
				auto todo = globals_seen;
				for (auto *g : todo)
					{
					if (done.count(g)) continue;
					done.insert(g); change = true;
					J->attributeObject(g->getName(), [&]{
						J->attribute("dem", demangled(g->getName()));
						J->attribute("ty", tystr(g->getValueType()));
						J->attribute("const", g->isConstant());
						J->attribute("tls", g->isThreadLocal());
						J->attribute("size", (int64_t)DL->getTypeAllocSize(g->getValueType()).getFixedValue());
						SmallVector<DIGlobalVariableExpression *, 1> ge; g->getDebugInfo(ge);
						if (!ge.empty()) { J->attribute("line", (int64_t)ge[0]->getVariable()->getLine()); J->attribute("file", path_of(ge[0]->getVariable()->getFile())); }
						if (g->hasInitializer() && DL->getTypeAllocSize(g->getValueType()).getFixedValue() < 4000000) { J->attributeBegin("init"); operand(g->getInitializer()); J->attributeEnd(); }
						});
					}
				}
			});
		J->attributeObject("structs", [&]{
			for (auto *st : m->getIdentifiedStructTypes())
				if (!st->isOpaque())
					J->attributeObject(st->getName(), [&]{
						auto *sl = DL->getStructLayout(st);
						J->attribute("size", (int64_t)sl->getSizeInBytes().getFixedValue());
						J->attributeArray("f", [&]{ for (unsigned k = 0; k < st->getNumElements(); k++) J->array([&]{ J->value((int64_t)sl->getElementOffset(k).getFixedValue()); J->value((int64_t)DL->getTypeAllocSize(st->getElementType(k)).getFixedValue()); J->value(tystr(st->getElementType(k))); }); });
						});
			});
		J->attributeArray("types", [&]{
			DebugInfoFinder fnd;
			fnd.processModule(*m);
			std::set<std::string> seen;
			for (auto *t : fnd.types())
				if (auto *c = dyn_cast<DICompositeType>(t))
					{
					if (c->isForwardDecl()) continue;
					auto tag = c->getTag();
					if (tag != dwarf::DW_TAG_class_type && tag != dwarf::DW_TAG_structure_type && tag != dwarf::DW_TAG_union_type) continue;
					std::string n = scope_name(c);
					std::string file = path_of(c->getFile());
					if (!seen.insert(n).second) continue;
					J->object([&]{
						J->attribute("n", n); J->attribute("id", c->getIdentifier()); J->attribute("size", (int64_t)(c->getSizeInBits() / 8));
						J->attribute("file", file); J->attribute("line", (int64_t)c->getLine());
						J->attributeArray("m", [&]{
							for (auto *e : c->getElements())
								if (auto *d = dyn_cast<DIDerivedType>(e))
									{
									if (d->isStaticMember()) continue;
									auto mt = d->getTag();
									if (mt != dwarf::DW_TAG_member && mt != dwarf::DW_TAG_inheritance) continue;
									J->object([&]{
										J->attribute("n", mt == dwarf::DW_TAG_inheritance ? "<base>" : d->getName());
										J->attribute("o", (int64_t)(d->getOffsetInBits() / 8));
										uint64_t sz = d->getSizeInBits();
										if (sz == 0 && d->getBaseType()) sz = d->getBaseType()->getSizeInBits();
										J->attribute("s", (int64_t)(sz / 8));
										J->attribute("t", ditype(d->getBaseType()));
										J->attribute("line", (int64_t)d->getLine());
										});
									}
							});
						});
					}
			});
		});
	return 0;
	}
