/*
	absint: a whole-program abstract interpreter over LLVM IR.

	Domain: every bit of every value is one of  0 | 1 | a provenance symbol (bit b of input integer k, or its complement) | top.
	Known bits decide branches; where a branch is not decided both arms are evaluated to the join point and the two abstract
	states are joined bitwise.  Nothing is executed natively, and no solver is used: the transfer functions are the usual
	known-bits ones, extended with provenance so that "the decoder returns bit b of input k" is a fact of the domain.

	absint IN.bc JOBS.json OUT.json
	Jobs (list of objects):
	   {"id":..., "ctor":MANGLED|"", "encode":MANGLED, "decode":MANGLED, "size":BYTES, "widths":[...], "capacity":BYTES, "slack":BYTES}
*/
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/IntrinsicsX86.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Dominators.h"
#include "llvm/Analysis/PostDominators.h"
#include "llvm/Analysis/ConstantFolding.h"
#include "llvm/Analysis/TargetLibraryInfo.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/Passes/PassBuilder.h"
#include <map>
#include <atomic>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <set>
#include <string>
#include <vector>
#include <memory>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;
typedef uint32_t id_t32;
static const id_t32 TOP = 2;
static const uint64_t LOW = 0x10000;		// objects start here, so that a pointer just below one is still recognised as its own
static const id_t32 NEG = 0x80000000u;

// TOP: not known.  MIX: certainly a function of two different input bits.  UNDEF: never written.  From SYM on: one input bit (or, with NEG, its complement).
static const id_t32 MIX = 3, UNDEF = 4, SYM = 8;
static inline bool isconst(id_t32 x) { return x < 2; }
static inline bool issym(id_t32 x) { return (x & ~NEG) >= SYM; }
static inline bool same(id_t32 a, id_t32 b) { return a == b && (isconst(a) || issym(a)); }
static inline id_t32 bnot(id_t32 x) { return x < 2 ? 1 - x : issym(x) ? x ^ NEG : x; }
static inline bool inverse(id_t32 a, id_t32 b) { return issym(a) ? a == (b ^ NEG) : isconst(a) && isconst(b) && a != b; }
static inline id_t32 weak(id_t32 a, id_t32 b) { if (a == UNDEF || b == UNDEF) return UNDEF; if (a == TOP || b == TOP) return TOP; return MIX; }
static inline id_t32 band(id_t32 a, id_t32 b) { if (a == 0 || b == 0) return 0; if (a == 1) return b; if (b == 1) return a; if (same(a, b)) return a; if (inverse(a, b)) return 0; return weak(a, b); }
static inline id_t32 bor(id_t32 a, id_t32 b) { if (a == 1 || b == 1) return 1; if (a == 0) return b; if (b == 0) return a; if (same(a, b)) return a; if (inverse(a, b)) return 1; return weak(a, b); }
static inline id_t32 bxor(id_t32 a, id_t32 b) { if (a == 0) return b; if (b == 0) return a; if (a == 1) return bnot(b); if (b == 1) return bnot(a); if (same(a, b)) return 0; if (inverse(a, b)) return 1; return weak(a, b); }
static inline id_t32 bjoin(id_t32 a, id_t32 b) { return a == b ? a : TOP; }

struct Bits
	{
	uint32_t n = 0;
	bool known = true;
	uint64_t v = 0;
	std::vector<id_t32> b;
	std::vector<uint64_t> alts;		// when not empty: the value is one of these (disjunction of constants)
	Bits() {}
	Bits(uint32_t n_, uint64_t v_) : n(n_) { if (n <= 64) { known = true; v = n == 64 ? v_ : v_ & ((1ULL << n) - 1); } else { known = false; b.assign(n, 0); for (unsigned i = 0; i < 64; i++) b[i] = v_ >> i & 1; } }
	static Bits top(uint32_t n) { Bits r; r.n = n; r.known = false; r.b.assign(n, TOP); return r; }
	id_t32 get(uint32_t i) const { return known ? (id_t32)(v >> i & 1) : b[i]; }
	void norm()
		{
		if (known) return;
		if (n > 64) return;
		uint64_t r = 0;
		for (unsigned i = 0; i < n; i++) { if (b[i] > 1) return; r |= (uint64_t)b[i] << i; }
		known = true; v = r; b.clear();
		}
	bool allconst() const { if (known) return true; for (auto x : b) if (x > 1) return false; return true; }
	void expand() { if (known) { b.resize(n); for (unsigned i = 0; i < n; i++) b[i] = v >> i & 1; known = false; } }
	uint64_t lo() const { uint64_t r = 0; for (unsigned i = 0; i < n && i < 64; i++) if (get(i) == 1) r |= 1ULL << i; return r; }
	uint64_t hi() const { uint64_t r = 0; for (unsigned i = 0; i < n && i < 64; i++) if (get(i) != 0) r |= 1ULL << i; return r; }
	bool operator==(const Bits &o) const { if (n != o.n) return false; if (known && o.known) return v == o.v; for (unsigned i = 0; i < n; i++) if (!same(get(i), o.get(i))) return false; return true; }
	};

static Bits from(std::vector<id_t32> b) { Bits r; r.n = b.size(); r.known = false; r.b = std::move(b); r.norm(); return r; }
static bool alternatives(const Bits &a, const Bits &c, std::vector<uint64_t> &out)
	{
	if (a.n > 64) return false;
	std::set<uint64_t> r;
	for (auto *x : {&a, &c})
		{
		if (x->known) r.insert(x->v);
		else if (!x->alts.empty()) r.insert(x->alts.begin(), x->alts.end());
		else return false;
		}
	if (r.size() > 16) return false;
	out.assign(r.begin(), r.end());
	return true;
	}
static Bits slice(const Bits &x, uint32_t lo, uint32_t n)
	{
	if (x.known) return Bits(n, lo >= 64 ? 0 : x.v >> lo);
	return from(std::vector<id_t32>(x.b.begin() + lo, x.b.begin() + lo + n));
	}
static Bits joinb(const Bits &a, const Bits &c)
	{
	if (a.known && c.known && a.v == c.v) return a;
	std::vector<id_t32> r(a.n);
	for (unsigned i = 0; i < a.n; i++) r[i] = bjoin(a.get(i), c.get(i));
	Bits q = from(r);
	if (!q.known) alternatives(a, c, q.alts);
	return q;
	}

struct Obligation { std::string what, status, why; };
static std::vector<Obligation> obligations;
struct Fail { std::string kind, why; };

struct Obj { uint64_t base, size; std::string name; bool ro = false; bool dead = false; bool lazy = false; std::vector<id_t32> b; id_t32 fill = 4; std::map<uint64_t, std::vector<id_t32>> page;
	// big objects are kept as sparse pages
	static const uint64_t PAGE = 4096 * 8;
	id_t32 get(uint64_t i) const { if (!lazy) return b[i]; auto it = page.find(i / PAGE); return it == page.end() ? fill : it->second[i % PAGE]; }
	void put(uint64_t i, id_t32 x) { if (!lazy) { b[i] = x; return; } auto it = page.find(i / PAGE); if (it == page.end()) { if (x == fill) return; it = page.emplace(i / PAGE, std::vector<id_t32>(PAGE, fill)).first; } it->second[i % PAGE] = x; }
	};

struct State { std::vector<std::shared_ptr<Obj>> mem; };

struct Frame { Function *f; std::unordered_map<const Value *, Bits> v; };

static Module *M;
static const DataLayout *DL;
static std::map<const GlobalValue *, uint64_t> gaddr;
static std::map<uint64_t, Function *> faddr;
static State base_state;
static uint64_t steps, step_limit = 30000000;
static const Instruction *where_now;
static std::map<std::string, uint64_t> covered;		// functions entered
static std::map<const Function *, std::set<const BasicBlock *>> covered_blocks;

static std::string loc(const Instruction *i)
	{
	if (!i) return "?";
	std::string s;
	if (auto &d = i->getDebugLoc())
		s = cast<DIScope>(d.getScope())->getFilename().str() + ":" + std::to_string(d.getLine());
	else
		s = "?";
	return s + " in " + demangle(i->getFunction()->getName().str());
	}
[[noreturn]] static void fail(const std::string &k, const std::string &w) { throw Fail{k, w + " at " + loc(where_now)}; }

static uint64_t new_object(State &s, uint64_t size, const std::string &name, id_t32 fill = UNDEF)
	{
	auto o = std::make_shared<Obj>();
	o->base = ((uint64_t)(s.mem.size() + 1) << 32) + LOW;
	o->size = size; o->name = name;
	if (size > 0xF0000000u) fail("undecided", "object too large to model");
	o->fill = fill;
	if (size > (1u << 20)) o->lazy = true; else o->b.assign(size * 8, fill);
	s.mem.push_back(o);
	return o->base;
	}

static Obj *object_at(State &s, uint64_t addr, uint64_t size, bool write)
	{
	uint64_t k = addr >> 32;
	if (k == 0 || k > s.mem.size()) fail("bad-pointer", "access through an invalid pointer");
	auto &p = s.mem[k - 1];
	uint64_t off = (addr & 0xFFFFFFFF) - LOW;
	if (off + size > p->size || off > p->size)
		{
		long so = (long)(int32_t)off;
		fail(write ? "oob-write" : "oob-read", std::string(write ? "write" : "read") + " of " + std::to_string(size) + " byte(s) at offset " + std::to_string(so) + " of " + p->name + " (" + std::to_string(p->size) + " bytes)");
		}
	if (p->dead) fail("use-after-free", "access to freed " + p->name);
	if (write)
		{
		if (p->ro) fail("write-const", "write to constant " + p->name);
		if (p.use_count() > 1) p = std::make_shared<Obj>(*p);
		}
	return p.get();
	}

/*
	Threads: two accesses to the same byte, one of them a write, by threads that neither wait for each other nor hold the same mutex, are a data race.
	The order of threads comes from their creation and joining only, so it does not matter in which order they are interpreted.
*/
typedef std::map<unsigned, uint64_t> Clock;
struct Access { unsigned thread; uint64_t time; bool write, atomic; std::set<uint64_t> held; const Instruction *at; };
static bool threaded = false, atomic_now = false;
static bool ordered_by_atomics = false, acquires = false, releases = false;		// whether atomic operations order the threads too, and what the current one does
static uint64_t preempt_at = 0, atomics_seen = 0;		// which atomic operation another thread comes before (0: none)
static unsigned current_thread = 0, unwatched = 0;
static std::map<unsigned, Clock> clock_of;
static std::map<unsigned, std::set<uint64_t>> held_by;
static std::unordered_map<uint64_t, std::vector<Access>> accesses;
static std::map<uint64_t, Clock> released_at;				// what a thread that acquires this address comes after
static void join_clocks(Clock &into, const Clock &from) { for (auto &kv : from) { auto &x = into[kv.first]; x = std::max(x, kv.second); } }
static void watch(const Obj *o, uint64_t addr, uint64_t bytes, bool write)
	{
	if (o->ro) return;
	if (ordered_by_atomics && atomic_now && !write && acquires && released_at.count(addr)) join_clocks(clock_of[current_thread], released_at[addr]);
	if (where_now)
		if (auto *d = where_now->getFunction()->getSubprogram())
			if (d->getFilename().contains("harness/h_")) return;		// what the harness itself keeps count of
	uint64_t now = clock_of[current_thread][current_thread];
	auto &held = held_by[current_thread];
	for (uint64_t k = 0; k < bytes; k++)
		{
		auto &seen = accesses[addr + k];
		bool known = false;
		for (auto &a : seen)
			{
			if (a.thread == current_thread)
				{
				if (a.time == now && a.write == write && a.atomic == atomic_now && a.held == held) known = true;
				continue;
				}
			if ((!a.write && !write) || (a.atomic && atomic_now) || clock_of[current_thread][a.thread] >= a.time) continue;
			bool common = false;
			for (auto m : a.held) common |= held.count(m) != 0;
			if (!common) fail("data-race", std::string(write ? "a write to " : "a read of ") + o->name + " by one thread and a " + (a.write ? "write" : "read") + " by another (" + loc(a.at) + ") are not ordered:");
			}
		if (!known) seen.push_back({current_thread, now, write, atomic_now, held, where_now});
		}
	if (ordered_by_atomics && atomic_now && write && releases)
		{
		join_clocks(released_at[addr], clock_of[current_thread]);
		clock_of[current_thread][current_thread]++;
		}
	else if (write && !atomic_now)
		released_at.erase(addr);
	}

static Bits load(State &s, uint64_t addr, uint32_t bits)
	{
	uint64_t bytes = (bits + 7) / 8;
	Obj *o = object_at(s, addr, bytes, false);
	if (threaded && !unwatched) watch(o, addr, bytes, false);
	uint64_t off = ((addr & 0xFFFFFFFF) - LOW) * 8;
	if (!o->lazy) return from(std::vector<id_t32>(o->b.begin() + off, o->b.begin() + off + bits));
	std::vector<id_t32> r(bits);
	for (unsigned i = 0; i < bits; i++) r[i] = o->get(off + i);
	return from(r);
	}
static void store(State &s, uint64_t addr, const Bits &x)
	{
	uint64_t bytes = (x.n + 7) / 8;
	Obj *o = object_at(s, addr, bytes, true);
	if (threaded && !unwatched) watch(o, addr, bytes, true);
	uint64_t off = ((addr & 0xFFFFFFFF) - LOW) * 8;
	for (unsigned i = 0; i < bytes * 8; i++) o->put(off + i, i < x.n ? x.get(i) : 0);
	}

static void init_constant(State &s, uint64_t addr, const Constant *c);
static Bits constant_bits(const Constant *c);

static uint32_t bitsize(Type *t) { return t->isVoidTy() ? 0 : t->isPointerTy() ? 64 : (uint32_t)(t->isSingleValueType() ? DL->getTypeSizeInBits(t).getFixedValue() : DL->getTypeAllocSize(t).getFixedValue() * 8); }

static uint64_t address_of(const GlobalValue *g)
	{
	auto it = gaddr.find(g);
	if (it != gaddr.end()) return it->second;
	fail("undecided", "address of unmodelled global " + g->getName().str());
	}

static Bits constant_bits(const Constant *c)
	{
	if (auto *ci = dyn_cast<ConstantInt>(c))
		{
		unsigned w = ci->getBitWidth();
		if (w <= 64) return Bits(w, ci->getZExtValue());
		std::vector<id_t32> b(w);
		for (unsigned i = 0; i < w; i++) b[i] = ci->getValue()[i];
		return from(b);
		}
	if (isa<ConstantPointerNull>(c)) return Bits(64, 0);
	if (isa<UndefValue>(c)) return Bits::top(bitsize(c->getType()));
	if (auto *g = dyn_cast<GlobalAlias>(c)) return Bits(64, address_of(cast<GlobalValue>(g->getAliaseeObject())));
	if (auto *g = dyn_cast<GlobalValue>(c)) return Bits(64, address_of(g));
	if (auto *f = dyn_cast<ConstantFP>(c)) { APInt a = f->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() <= 64) return Bits(a.getBitWidth(), a.getZExtValue()); return Bits::top(a.getBitWidth()); }
	if (isa<ConstantAggregateZero>(c)) { uint32_t n = bitsize(c->getType()); return from(std::vector<id_t32>(n, 0)); }
	if (auto *ce = dyn_cast<ConstantExpr>(c))
		{
		if (auto *g = dyn_cast<GEPOperator>(ce))
			{
			APInt off(64, 0);
			if (g->accumulateConstantOffset(*DL, off)) return Bits(64, constant_bits(cast<Constant>(g->getPointerOperand())).v + off.getSExtValue());
			}
		if (ce->isCast()) return constant_bits(ce->getOperand(0));
		fail("undecided", "constant expression");
		}
	if (auto *cd = dyn_cast<ConstantDataSequential>(c))
		{
		std::vector<id_t32> b;
		unsigned w = cd->getElementByteSize() * 8;
		for (unsigned i = 0; i < cd->getNumElements(); i++)
			{
			uint64_t v = cd->getElementType()->isIntegerTy() ? cd->getElementAsInteger(i) : cd->getElementAsAPFloat(i).bitcastToAPInt().getZExtValue();
			for (unsigned k = 0; k < w; k++) b.push_back(v >> k & 1);
			}
		return from(b);
		}
	if (auto *cv = dyn_cast<ConstantVector>(c))
		{
		std::vector<id_t32> b;
		for (auto &o : cv->operands()) { Bits e = constant_bits(cast<Constant>(&o)); for (unsigned k = 0; k < e.n; k++) b.push_back(e.get(k)); }
		return from(b);
		}
	if (auto *ca = dyn_cast<ConstantAggregate>(c))
		{
		std::vector<id_t32> b(bitsize(c->getType()), 0);
		for (unsigned i = 0; i < ca->getNumOperands(); i++)
			{
			uint64_t off = isa<ConstantStruct>(ca) ? DL->getStructLayout(cast<StructType>(ca->getType()))->getElementOffset(i).getFixedValue() : i * DL->getTypeAllocSize(ca->getType()->getArrayElementType()).getFixedValue();
			Bits e = constant_bits(ca->getOperand(i));
			for (unsigned k = 0; k < e.n; k++) b[off * 8 + k] = e.get(k);
			}
		return from(b);
		}
	fail("undecided", "constant kind");
	}

static void setup_globals()
	{
	for (auto &f : *M) { uint64_t a = 0xF000000000000000ULL + faddr.size() * 16; faddr[a] = &f; gaddr[&f] = a; }
	for (auto &g : M->globals())
		{
		uint64_t sz = DL->getTypeAllocSize(g.getValueType()).getFixedValue();
		if (sz > (1u << 22)) continue;
		auto o = std::make_shared<Obj>();
		o->base = ((uint64_t)(base_state.mem.size() + 1) << 32) + LOW;
		o->size = sz; o->name = "global " + demangle(g.getName().str());
		base_state.mem.push_back(o);
		gaddr[&g] = o->base;
		}
	for (auto &g : M->globals())
		{
		auto it = gaddr.find(&g);
		if (it == gaddr.end()) continue;
		Obj *o = base_state.mem[(it->second >> 32) - 1].get();
		o->b.assign(o->size * 8, TOP);
		if (g.hasInitializer())
			{
			try
				{
				Bits b = constant_bits(g.getInitializer());
				for (unsigned i = 0; i < b.n && i < o->b.size(); i++) o->b[i] = b.get(i);
				}
			catch (Fail &) { }
			}
		o->ro = g.isConstant();
		}
	}

// constructors of bases that play no part in what is analysed (their effects are taken as "anything" on their own object)
static std::map<const Function *, bool> stub_cache;
static std::vector<std::string> stubs;
static bool stubbed(const Function *f)
	{
	if (stubs.empty()) return false;
	auto it = stub_cache.find(f);
	if (it != stub_cache.end()) return it->second;
	std::string d = demangle(f->getName().str());
	bool r = false;
	for (auto &s : stubs) if (StringRef(d).starts_with(s)) r = true;
	return stub_cache[f] = r;
	}

struct Ret { bool returned = false; bool threw = false; Bits value; };

static Ret call(State &s, Function *f, std::vector<Bits> args, int depth);

// ---- affine forms: sums of the same words (modulo 2^n) are recognised as the same value, whatever order they were computed in
static bool affine_on = false;
static id_t32 next_symbol = SYM;
static id_t32 derived_from = 0x7FFFFFF0;					// symbols from here on stand for computed words
struct Aff { unsigned n = 0; uint64_t c = 0; std::map<uint32_t, uint64_t> t; bool operator<(const Aff &o) const { return std::tie(n, c, t) < std::tie(o.n, o.c, o.t); } };
static std::map<std::vector<id_t32>, uint32_t> atom_of;
static std::vector<std::vector<id_t32>> atoms;
static std::map<std::vector<id_t32>, Aff> form_of;			// vectors of derived symbols
static std::map<Aff, Bits> word_of;
static std::set<id_t32> derived_symbols;
static uint64_t mask_n(unsigned n) { return n >= 64 ? ~0ULL : (1ULL << n) - 1; }
// ---- order facts: words of which only their place in a weak order is known (rank 0 is zero, and every other one is not)
struct Ranked { std::vector<id_t32> b; uint64_t group, rank; };
static std::map<id_t32, Ranked> ranked_by_top;
static std::map<std::tuple<uint64_t, uint64_t, uint64_t>, std::vector<id_t32>> ranked_word;
static const Ranked *ranked(const std::vector<id_t32> &v, unsigned upto)		// the ranked word that makes up the low bits of v
	{
	while (upto && v[upto - 1] == 0) upto--;
	if (!upto) return nullptr;
	auto it = ranked_by_top.find(v[upto - 1]);
	if (it == ranked_by_top.end() || it->second.b.size() != upto) return nullptr;
	for (unsigned i = 0; i < upto; i++) if (v[i] != it->second.b[i]) return nullptr;
	return &it->second;
	}
static uint32_t atom(const std::vector<id_t32> &b)
	{
	auto at = atom_of.find(b);
	if (at != atom_of.end()) return at->second;
	uint32_t k = atoms.size(); atoms.push_back(b); atom_of[b] = k;
	return k;
	}
static bool form(const Bits &x, Aff &out)
	{
	out = Aff(); out.n = x.n;
	if (x.n > 64) return false;
	if (x.known) { out.c = x.v; return true; }
	if (x.b.empty()) return false;
	for (auto q : x.b) if (!isconst(q) && !issym(q)) return false;
	auto it = form_of.find(x.b);
	if (it != form_of.end()) { out = it->second; return true; }
	if (!ranked_by_top.empty())
		{
		// a zero-extended difference of two ranked words, the first one no smaller: the difference of the zero-extended words
		unsigned m = x.n;
		while (m && x.b[m - 1] == 0) m--;
		for (; m && m < x.n; m++)
			{
			auto nt = form_of.find(std::vector<id_t32>(x.b.begin(), x.b.begin() + m));
			if (nt == form_of.end() || nt->second.c || nt->second.t.size() != 2) continue;
			uint32_t plus = ~0u, minus = ~0u;
			for (auto &q : nt->second.t) if (q.second == 1) plus = q.first; else if (q.second == mask_n(m)) minus = q.first;
			if (plus == ~0u || minus == ~0u) continue;
			auto *rp = ranked(atoms[plus], m), *rm = ranked(atoms[minus], m);
			if (!rp || !rm || rp->group != rm->group || rp->rank < rm->rank) continue;
			std::vector<id_t32> wp = atoms[plus], wm = atoms[minus];
			wp.resize(x.n, 0); wm.resize(x.n, 0);
			out.t[atom(wp)] = 1;
			out.t[atom(wm)] = ~0ULL & mask_n(x.n);
			return true;
			}
		}
	// a zero-extended or shifted-by-constant word is its own atom
	out.t[atom(x.b)] = 1;
	return true;
	}
static Bits word(Aff f, const Bits &hint)
	{
	f.c &= mask_n(f.n);
	for (auto it = f.t.begin(); it != f.t.end(); ) { it->second &= mask_n(f.n); if (it->second == 0) it = f.t.erase(it); else ++it; }
	if (f.t.empty()) return Bits(f.n, f.c);
	if (f.t.size() == 1 && f.t.begin()->second == 1 && f.c == 0) return from(atoms[f.t.begin()->first]);
	auto it = word_of.find(f);
	if (it != word_of.end()) return it->second;
	std::vector<id_t32> b(f.n);
	for (unsigned i = 0; i < f.n; i++)
		{
		id_t32 h = hint.get(i);
		if (isconst(h) || (issym(h))) b[i] = h; else { b[i] = next_symbol++; derived_symbols.insert(b[i]); }
		}
	Bits r = from(b);
	word_of[f] = r;
	if (!r.known) form_of[r.b] = f;
	return r;
	}
// the low bits of a computed word
static Bits narrowed(const Bits &x, const Bits &plain)
	{
	if (!affine_on || x.known || plain.known || x.n > 64) return plain;
	auto it = form_of.find(x.b);
	if (it == form_of.end()) return plain;
	Aff r; r.n = plain.n; r.c = it->second.c;
	for (auto &q : it->second.t)
		{
		Aff y;
		if (!form(from(std::vector<id_t32>(atoms[q.first].begin(), atoms[q.first].begin() + plain.n)), y)) return plain;
		r.c += y.c * q.second;
		for (auto &z : y.t) r.t[z.first] += z.second * q.second;
		}
	return word(r, plain);
	}
static bool has_top(const Bits &x) { if (x.known) return false; for (auto q : x.b) if (q == TOP || q == MIX) return true; return false; }
static Bits affine(const Bits &plain, const Bits &a, const Bits &c, uint64_t ka, uint64_t kc, uint64_t k)
	{
	if (!affine_on || a.n > 64 || a.n < 8 || !has_top(plain)) return plain;
	Aff x, y;
	if (!form(a, x) || !form(c, y)) return plain;
	Aff r; r.n = a.n; r.c = x.c * ka + y.c * kc + k;
	for (auto &q : x.t) r.t[q.first] += q.second * ka;
	for (auto &q : y.t) r.t[q.first] += q.second * kc;
	return word(r, plain);
	}

static Bits scalar_add(const Bits &a, const Bits &c, id_t32 carry)
	{
	if (a.known && c.known) return Bits(a.n, a.v + c.v + carry);
	if ((a.known && !c.alts.empty()) || (c.known && !a.alts.empty()))
		{
		const Bits &k = a.known ? a : c, &x = a.known ? c : a;
		Bits r; bool first = true;
		for (auto v : x.alts) { Bits t(a.n, k.v + v + carry); r = first ? t : joinb(r, t); first = false; }
		return r;
		}
	std::vector<id_t32> r(a.n);
	for (unsigned i = 0; i < a.n; i++)
		{
		id_t32 x = a.get(i), y = c.get(i);
		r[i] = bxor(bxor(x, y), carry);
		// carry = majority
		id_t32 m;
		if (same(x, y)) m = x; else if (same(x, carry)) m = x; else if (same(y, carry)) m = y;
		else if (inverse(x, y)) m = carry; else if (inverse(x, carry)) m = y; else if (inverse(y, carry)) m = x;
		else m = TOP;
		carry = m;
		}
	return from(r);
	}

static Bits shift(const Bits &a, unsigned op, uint64_t k)
	{
	unsigned n = a.n;
	if (k >= n)
		{
		if (a.known && a.v == 0) return a;			// nothing to lose
		return Bits::top(n);
		}
	if (a.known)
		{
		if (op == Instruction::Shl) return Bits(n, a.v << k);
		if (op == Instruction::LShr) return Bits(n, a.v >> k);
		int64_t sv = (int64_t)(a.v << (64 - n)) >> (64 - n);
		return Bits(n, (uint64_t)(sv >> k));
		}
	std::vector<id_t32> r(n, 0);
	for (unsigned i = 0; i < n; i++)
		{
		if (op == Instruction::Shl) r[i] = i >= k ? a.get(i - k) : 0;
		else if (i + k < n) r[i] = a.get(i + k);
		else r[i] = op == Instruction::AShr ? a.get(n - 1) : 0;
		}
	return from(r);
	}

static bool enum_values(const Bits &x, std::vector<uint64_t> &out, unsigned limit)
	{
	// every value the known bits allow
	std::vector<unsigned> u;
	if (!x.alts.empty()) { out = x.alts; return true; }
	if (x.n > 64) return false;
	for (unsigned i = 0; i < x.n; i++) if (!isconst(x.get(i))) u.push_back(i);
	if (u.size() > limit) return false;
	uint64_t basev = x.lo();
	for (uint64_t k = 0; k < (1ULL << u.size()); k++)
		{
		uint64_t v = basev;
		for (unsigned i = 0; i < u.size(); i++) if (k >> i & 1) v |= 1ULL << u[i];
		out.push_back(v);
		}
	return true;
	}

static Bits scalar_binop(unsigned op, const Bits &a, const Bits &c)
	{
	unsigned n = a.n;
	switch (op)
		{
		case Instruction::And: case Instruction::Or: case Instruction::Xor:
			{
			if (a.known && c.known) return Bits(n, op == Instruction::And ? a.v & c.v : op == Instruction::Or ? a.v | c.v : a.v ^ c.v);
			std::vector<id_t32> r(n);
			for (unsigned i = 0; i < n; i++) r[i] = op == Instruction::And ? band(a.get(i), c.get(i)) : op == Instruction::Or ? bor(a.get(i), c.get(i)) : bxor(a.get(i), c.get(i));
			return from(r);
			}
		case Instruction::Add: return affine(scalar_add(a, c, 0), a, c, 1, 1, 0);
		case Instruction::Sub:
			{
			if (a.known && c.known) return Bits(n, a.v - c.v);
			std::vector<id_t32> r(n);
			for (unsigned i = 0; i < n; i++) r[i] = bnot(c.get(i));
			if (affine_on && a == c) return Bits(n, 0);
			return affine(scalar_add(a, from(r), 1), a, c, 1, ~0ULL, 0);
			}
		case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
			{
			if (c.known) return shift(a, op, c.v);
			std::vector<uint64_t> ks;
			if (!enum_values(c, ks, 7)) return Bits::top(n);
			Bits r; bool first = true;
			for (auto k : ks) { Bits t = shift(a, op, k); r = first ? t : joinb(r, t); first = false; }
			return r;
			}
		case Instruction::Mul:
			{
			if (a.known && c.known) return Bits(n, a.v * c.v);
			const Bits &k = a.known ? a : c, &x = a.known ? c : a;
			if (!k.known) return Bits::top(n);
			Bits r(n, 0);
			for (unsigned i = 0; i < n; i++) if (k.v >> i & 1) r = scalar_add(r, shift(x, Instruction::Shl, i), 0);
			return affine(r, x, Bits(n, 0), k.v, 0, 0);
			}
		case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
			{
			if (a.known && c.known)
				{
				if (c.v == 0) fail("div-by-zero", "division by zero");
				if (op == Instruction::UDiv) return Bits(n, a.v / c.v);
				if (op == Instruction::URem) return Bits(n, a.v % c.v);
				int64_t x = (int64_t)(a.v << (64 - n)) >> (64 - n), y = (int64_t)(c.v << (64 - n)) >> (64 - n);
				return Bits(n, op == Instruction::SDiv ? (uint64_t)(x / y) : (uint64_t)(x % y));
				}
			if (c.known && c.v && !(c.v & (c.v - 1)) && (op == Instruction::UDiv || op == Instruction::URem || a.get(n - 1) == 0))
				{
				unsigned k = __builtin_ctzll(c.v);
				if (op == Instruction::UDiv || op == Instruction::SDiv) return shift(a, Instruction::LShr, k);
				return scalar_binop(Instruction::And, a, Bits(n, c.v - 1));
				}
			return Bits::top(n);
			}
		}
	return Bits::top(n);
	}

static unsigned elems(Type *t) { return t->isVectorTy() ? cast<FixedVectorType>(t)->getNumElements() : 1; }

static Bits binop(unsigned op, Type *t, const Bits &a, const Bits &c)
	{
	if (!t->isVectorTy()) return scalar_binop(op, a, c);
	unsigned k = elems(t), w = a.n / k;
	std::vector<id_t32> r;
	r.reserve(a.n);
	for (unsigned e = 0; e < k; e++)
		{
		Bits x = scalar_binop(op, slice(a, e * w, w), slice(c, e * w, w));
		for (unsigned i = 0; i < w; i++) r.push_back(x.get(i));
		}
	return from(r);
	}

// unsigned comparison by order facts: -1, 0, 1, or 2 when they do not tell
static int ordered_cmp(const Bits &a, const Bits &c)
	{
	if (ranked_by_top.empty() || a.n > 64) return 2;
	for (unsigned i = a.n; i > 0; )
		{
		id_t32 x = a.get(i - 1), y = c.get(i - 1);
		if (same(x, y)) { i--; continue; }
		if (isconst(x) && isconst(y)) return x < y ? -1 : 1;
		auto whole = [&](const Bits &w, unsigned top) -> const Ranked *
			{
			auto it = ranked_by_top.find(w.get(top - 1));
			if (it == ranked_by_top.end() || it->second.b.size() > top) return nullptr;
			unsigned k = it->second.b.size();
			for (unsigned q = 0; q < k; q++) if (w.get(top - k + q) != it->second.b[q]) return nullptr;
			return &it->second;
			};
		const Ranked *p = whole(a, i), *q = whole(c, i);
		if (p && q && p->group == q->group && p->b.size() == q->b.size() && p->rank != q->rank) return p->rank < q->rank ? -1 : 1;
		auto zero = [&](const Bits &w, const Ranked *r) { for (unsigned k = 0; k < r->b.size(); k++) if (w.get(i - 1 - k) != 0) return false; return true; };
		if (p && !q && zero(c, p)) return 1;
		if (q && !p && zero(a, q)) return -1;
		return 2;
		}
	return 0;
	}
// are two computed words always different, by order facts?
// the difference of two words as a range of integers that does not include a multiple of 2^n
static bool apart(const Bits &a, const Bits &c)
	{
	Aff x, y;
	if (a.n > 64 || (a.known && c.known) || !form(a, x) || !form(c, y)) return false;
	uint64_t m = mask_n(a.n);
	for (auto &q : y.t) x.t[q.first] -= q.second;
	auto value = [&](uint64_t v) { v &= m; return (v >> (a.n - 1) & 1) ? (__int128)v - (__int128)m - 1 : (__int128)v; };
	__int128 low = value(x.c - y.c), high = low;
	unsigned terms = 0;
	for (auto &q : x.t)
		{
		__int128 k = value(q.second);
		if (k == 0) continue;
		if (++terms > 8 || k > 1024 || k < -1024) return false;
		Bits w = from(atoms[q.first]);
		low += k > 0 ? k * w.lo() : k * w.hi();
		high += k > 0 ? k * w.hi() : k * w.lo();
		}
	return (low > 0 && high <= (__int128)m) || (high < 0 && low >= -(__int128)m);
	}

// the range of a computed word, when the sum it is does not wrap around
static void narrow(const Bits &a, uint64_t &low, uint64_t &high)
	{
	Aff x;
	if (a.n > 64 || low == high || !form(a, x) || x.t.empty() || x.t.size() > 64) return;
	uint64_t m = mask_n(a.n);
	auto value = [&](uint64_t v) { v &= m; return a.n > 1 && (v >> (a.n - 1) & 1) ? (__int128)v - (__int128)m - 1 : (__int128)v; };
	__int128 l = value(x.c), h = l;
	for (auto &q : x.t)
		{
		__int128 k = value(q.second);
		if (k > 1024 || k < -1024) return;
		Bits w = from(atoms[q.first]);
		l += k > 0 ? k * w.lo() : k * w.hi();
		h += k > 0 ? k * w.hi() : k * w.lo();
		}
	if (l < 0 || h > (__int128)m) return;
	if ((uint64_t)l > low) low = l;
	if ((uint64_t)h < high) high = h;
	}

static bool never_equal(const Bits &a, const Bits &c)
	{
	if (affine_on && apart(a, c)) return true;
	if (ranked_by_top.empty() || !affine_on) return false;
	int o = ordered_cmp(a, c);
	if (o == 1 || o == -1) return true;
	for (auto *w : {&a, &c})
		{
		const Bits &k = w == &a ? c : a;
		if (auto *r = !w->known && k.known ? ranked(w->b, w->n) : nullptr) if (k.v < r->rank) return true;
		}
	Aff x, y;
	if (a.n > 64 || !form(a, x) || !form(c, y)) return false;
	uint64_t m = mask_n(a.n);
	std::map<uint32_t, uint64_t> d;
	for (auto &q : x.t) d[q.first] += q.second;
	for (auto &q : y.t) d[q.first] -= q.second;
	for (auto it = d.begin(); it != d.end(); ) if (!(it->second & m)) it = d.erase(it); else ++it;
	if ((x.c - y.c) & m) return d.empty();
	std::vector<const Ranked *> plus, minus;
	for (auto &q : d)
		{
		auto *r = ranked(atoms[q.first], atoms[q.first].size());
		uint64_t k = q.second & m;
		if (!r || (k != 1 && k != m)) return false;
		(k == 1 ? plus : minus).push_back(r);
		}
	if (plus.size() + minus.size() == 1) return true;			// a ranked word that is not zero
	if (plus.size() == 1 && minus.size() == 1) return plus[0]->group == minus[0]->group && plus[0]->rank != minus[0]->rank;
	return false;
	}

// 0 / 1 / TOP
static id_t32 decide_cmp(CmpInst::Predicate p, const Bits &a, const Bits &c)
	{
	unsigned n = a.n;
	if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)
		{
		bool alike = true;
		for (unsigned i = 0; i < n; i++)
			{
			id_t32 x = a.get(i), y = c.get(i);
			if (inverse(x, y)) return p == CmpInst::ICMP_NE;
			if (!same(x, y)) alike = false;
			}
		if (alike) return p == CmpInst::ICMP_EQ;
		if (n == 1)
			{
			// a one bit comparison against a constant is the bit itself
			if (isconst(c.get(0))) return (c.get(0) == 1) == (p == CmpInst::ICMP_EQ) ? a.get(0) : bnot(a.get(0));
			}
		// exactly one undetermined bit and the other side constant: still a fact about that bit
		if (c.allconst())
			{
			int u = -1, many = 0;
			for (unsigned i = 0; i < n; i++) if (!isconst(a.get(i))) { u = i; many++; }
			if (many == 1) { id_t32 bit = a.get(u); return (c.get(u) == 1) == (p == CmpInst::ICMP_EQ) ? bit : bnot(bit); }
			}
		if (never_equal(a, c)) return p == CmpInst::ICMP_NE;
		if (affine_on && n <= 64) { Aff x, y; if (form(a, x) && form(c, y) && x.c == y.c && x.t == y.t) return p == CmpInst::ICMP_EQ; }
		return TOP;
		}
	if (n > 64) return TOP;
	bool sgn = CmpInst::isSigned(p);
	if (sgn)
		{
		id_t32 x = a.get(n - 1), y = c.get(n - 1);
		if (!isconst(x) || !isconst(y))
			{
			// comparison against zero is the sign bit itself
			if (c.known && c.v == 0) { if (p == CmpInst::ICMP_SLT) return x; if (p == CmpInst::ICMP_SGE) return bnot(x); }
			if (c.known && c.v == (n == 64 ? ~0ULL : (1ULL << n) - 1)) { if (p == CmpInst::ICMP_SGT) return bnot(x); if (p == CmpInst::ICMP_SLE) return x; }
			return TOP;
			}
		if (x != y)
			{
			bool less = x == 1;
			return (p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_SLE) ? less : !less;
			}
		}
	uint64_t al = a.lo(), ah = a.hi(), cl = c.lo(), ch = c.hi();
	if (affine_on) { narrow(a, al, ah); narrow(c, cl, ch); }
	if (!ranked_by_top.empty())
		{
		// a word of rank r has at least r - 1 different positive ones below it
		if (auto *r = al == 0 && !a.known ? ranked(a.b, a.n) : nullptr) al = r->rank;
		if (auto *r = cl == 0 && !c.known ? ranked(c.b, c.n) : nullptr) cl = r->rank;
		}
	switch (p)
		{
		case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: if (ah < cl) return 1; if (al >= ch) return 0; break;
		case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: if (ah <= cl) return 1; if (al > ch) return 0; break;
		case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: if (al > ch) return 1; if (ah <= cl) return 0; break;
		case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: if (al >= ch) return 1; if (ah < cl) return 0; break;
		default: break;
		}
	int o = ordered_cmp(a, c);
	if (o != 2)
		switch (p)
			{
			case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return o < 0;
			case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return o <= 0;
			case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return o > 0;
			default: return o >= 0;
			}
	// lexicographic from the top over identical bits
	bool lt_possible = p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_SGE;
	(void)lt_possible;
	for (int i = (int)n - 1; i >= 0; i--)
		{
		id_t32 x = a.get(i), y = c.get(i);
		if (same(x, y)) continue;
		if (isconst(x) && isconst(y))
			{
			bool less = x == 0;
			if (p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_SLE) return less;
			return !less;
			}
		return TOP;
		}
	return p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_SLE || p == CmpInst::ICMP_UGE || p == CmpInst::ICMP_SGE;
	}

static id_t32 scalar_cmp(CmpInst::Predicate p, const Bits &a, const Bits &c)
	{
	id_t32 r = decide_cmp(p, a, c);
	if (r == TOP)
		for (unsigned k = 0; k < a.n; k++)
			if (a.get(k) == UNDEF || c.get(k) == UNDEF) return UNDEF;
	return r;
	}

// the join of two bits reached under condition bit c (when it is an input bit) being 1 and 0
static inline id_t32 cjoin(id_t32 c, id_t32 t, id_t32 f)
	{
	if (t == f) return t;
	if (!issym(c)) return TOP;
	if (t == 1 && f == 0) return c;
	if (t == 0 && f == 1) return bnot(c);
	if (t == c && f == 0) return c;
	if (t == 1 && f == c) return c;
	if (t == bnot(c) && f == 1) return bnot(c);
	if (t == 0 && f == bnot(c)) return bnot(c);
	return TOP;
	}
static Bits cjoinb(id_t32 c, const Bits &a, const Bits &d)
	{
	if (a.known && d.known && a.v == d.v) return a;
	std::vector<id_t32> r(a.n);
	for (unsigned i = 0; i < a.n; i++) r[i] = cjoin(c, a.get(i), d.get(i));
	Bits q = from(r);
	if (!q.known) alternatives(a, d, q.alts);
	return q;
	}
static Bits selectb(id_t32 c, const Bits &a, const Bits &d)
	{
	if (c == 1) return a;
	if (c == 0) return d;
	if (a.known && d.known && a.v == d.v) return a;
	std::vector<id_t32> r(a.n);
	for (unsigned i = 0; i < a.n; i++)
		{
		id_t32 x = a.get(i), y = d.get(i);
		if (x == y) r[i] = x;
		else r[i] = cjoin(c, x, y);
		}
	Bits q = from(r);
	if (!q.known) alternatives(a, d, q.alts);
	return q;
	}

// what the bounds of the operands say about a minimum or maximum
static Bits bounded(unsigned id, Bits z, const Bits &x, const Bits &y)
	{
	if (z.known || z.n > 64) return z;
	uint64_t hi = ~0ULL;
	if (id == Intrinsic::umin) hi = std::min(x.hi(), y.hi());
	else if (id == Intrinsic::umax) hi = std::max(x.hi(), y.hi());
	for (int i = (int)z.n - 1; i >= 0 && !(hi >> i & 1); i--) z.b[i] = 0;
	z.alts.clear();
	z.norm();
	return z;
	}

static Bits value(Frame &fr, const Value *v);
static Constant *as_constant(const Bits &x, Type *t)
	{
	if (!x.known || t->isVectorTy()) return nullptr;
	if (t->isIntegerTy()) return ConstantInt::get(t, x.v);
	if (t->isDoubleTy()) return ConstantFP::get(t, APFloat(APFloat::IEEEdouble(), APInt(64, x.v)));
	if (t->isFloatTy()) return ConstantFP::get(t, APFloat(APFloat::IEEEsingle(), APInt(32, x.v)));
	return nullptr;
	}
static Bits of_constant(Constant *c)
	{
	if (auto *i = dyn_cast<ConstantInt>(c)) if (i->getBitWidth() <= 64) return Bits(i->getBitWidth(), i->getZExtValue());
	if (auto *f = dyn_cast<ConstantFP>(c)) { APInt a = f->getValueAPF().bitcastToAPInt(); if (a.getBitWidth() <= 64) return Bits(a.getBitWidth(), a.getZExtValue()); }
	return Bits::top(bitsize(c->getType()));
	}
// floating point on known operands (constant folding); anything else is unknown
static Bits folded(Frame &fr, Instruction *i, unsigned n)
	{
	std::vector<Constant *> ops;
	for (unsigned k = 0; k < (isa<CallBase>(i) ? cast<CallBase>(i)->arg_size() : i->getNumOperands()); k++)
		{
		Value *o = isa<CallBase>(i) ? cast<CallBase>(i)->getArgOperand(k) : i->getOperand(k);
		Constant *c = as_constant(value(fr, o), o->getType());
		if (!c) return Bits::top(n);
		ops.push_back(c);
		}
	static TargetLibraryInfoImpl tlii(Triple(M->getTargetTriple()));
	static TargetLibraryInfo tli(tlii);
	Constant *r = nullptr;
	if (auto *c = dyn_cast<FCmpInst>(i)) r = ConstantFoldCompareInstOperands(c->getPredicate(), ops[0], ops[1], *DL, &tli);
	else if (auto *c = dyn_cast<CallBase>(i)) 
		{
		if (!c->getCalledFunction()) return Bits::top(n);
		auto *fp = ops.empty() ? nullptr : dyn_cast<ConstantFP>(ops[0]);
		if (c->getCalledFunction()->getName() == "sqrt" && fp && fp->isNegative() && !fp->isZero()) r = ConstantFP::getNaN(fp->getType());
		else r = ConstantFoldCall(c, c->getCalledFunction(), ops, &tli);
		}
	
	else r = ConstantFoldInstOperands(i, ops, *DL, &tli);
	return r ? of_constant(r) : Bits::top(n);
	}
static Bits value(Frame &fr, const Value *v)
	{
	if (auto *c = dyn_cast<Constant>(v)) return constant_bits(c);
	auto it = fr.v.find(v);
	if (it == fr.v.end())
		{
		if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return Bits(1, 0);
		return Bits::top(bitsize(v->getType()));
		}
	return it->second;
	}

static uint64_t gep_struct_off(StructType *st, unsigned i) { return DL->getStructLayout(st)->getElementOffset(i).getFixedValue(); }

static uint64_t agg_off(Type *t, ArrayRef<unsigned> ix, Type **out)
	{
	uint64_t off = 0;
	for (unsigned i : ix)
		{
		if (auto *st = dyn_cast<StructType>(t)) { off += gep_struct_off(st, i) * 8; t = st->getElementType(i); }
		else { t = t->getArrayElementType(); off += i * DL->getTypeAllocSize(t).getFixedValue() * 8; }
		}
	*out = t;
	return off;
	}

struct PD { PostDominatorTree t; };
static std::map<const Function *, std::unique_ptr<PostDominatorTree>> pdts;
static const BasicBlock *ipdom(const BasicBlock *b)
	{
	auto *f = const_cast<Function *>(b->getParent());
	auto &p = pdts[f];
	if (!p) p = std::make_unique<PostDominatorTree>(*f);
	auto *n = p->getNode(const_cast<BasicBlock *>(b));
	if (!n || !n->getIDom()) return nullptr;
	return n->getIDom()->getBlock();
	}

static void join_state(State &a, const State &b, id_t32 c = TOP)
	{
	size_t n = std::min(a.mem.size(), b.mem.size());
	for (size_t k = 0; k < n; k++)
		{
		if (a.mem[k] == b.mem[k]) continue;
		auto o = std::make_shared<Obj>(*a.mem[k]);
		if (o->size != b.mem[k]->size) fail("undecided", "join of different heaps");
		for (size_t i = 0; i < o->b.size(); i++) o->b[i] = cjoin(c, o->b[i], b.mem[k]->b[i]);
		if (o->lazy)
			{
			std::set<uint64_t> pg;
			for (auto &p : o->page) pg.insert(p.first);
			for (auto &p : b.mem[k]->page) pg.insert(p.first);
			for (auto p : pg) for (uint64_t i = p * Obj::PAGE; i < (p + 1) * Obj::PAGE; i++) o->put(i, cjoin(c, o->get(i), b.mem[k]->get(i)));
			}
		o->dead = o->dead || b.mem[k]->dead;
		a.mem[k] = o;
		}
	if (b.mem.size() > a.mem.size())
		for (size_t k = n; k < b.mem.size(); k++) a.mem.push_back(b.mem[k]);
	}

static uint64_t known_addr(const Bits &p, const char *what)
	{
	if (!p.allconst())
		for (unsigned k = 0; k < p.n; k++)
			if (p.get(k) == UNDEF) fail("uninitialised", std::string("an address (") + what + ") depends on memory that was never written");
	if (!p.allconst()) fail("undecided", std::string(what) + " address is not determined by the abstract input");
	return p.known ? p.v : p.lo();
	}

static Bits load_any(State &s, const Bits &p, uint32_t n)
	{
	if (p.allconst()) return load(s, p.known ? p.v : p.lo(), n);
	std::vector<uint64_t> as;
	if (!enum_values(p, as, 12))
		for (unsigned k = 0; k < p.n; k++)
			if (p.get(k) == UNDEF) fail("uninitialised", "an address depends on memory that was never written");
	as.clear();
	if (!enum_values(p, as, 12)) fail("undecided", "load address is not determined by the abstract input");
	Bits r; bool first = true;
	std::vector<Bits> alternatives;
	for (auto a : as) { Bits t = load(s, a, n); r = first ? t : joinb(r, t); first = false; alternatives.push_back(t); }
	/*
		a table look up: the bits of the entry that are always a bit of the index, or its complement, are that bit
	*/
	if (!r.known && as.size() > 1 && n <= 64)
		{
		r.expand();
		for (unsigned i = 0; i < n; i++)
			if (r.b[i] == TOP)
				for (unsigned j = 0; j < p.n && r.b[i] == TOP; j++)
					{
					id_t32 from_index = p.get(j);
					if (!issym(from_index))
						continue;
					bool as_is = true, inverted = true;
					for (size_t k = 0; k < as.size() && (as_is || inverted); k++)
						{
						id_t32 got = alternatives[k].get(i);
						if (got != (as[k] >> j & 1)) as_is = false;
						if (got != 1 - (as[k] >> j & 1)) inverted = false;
						}
					if (as_is) r.b[i] = from_index; else if (inverted) r.b[i] = bnot(from_index);
					}
		r.norm();
		}
	return r;
	}

static Bits x86_call(Function *f, CallBase *c, std::vector<Bits> &a, bool &ok)
	{
	ok = true;
	StringRef n = f->getName();
	unsigned N = bitsize(c->getType());
	auto per = [&](unsigned w, auto fn) { std::vector<id_t32> r; r.reserve(N); for (unsigned e = 0; e < N / w; e++) { Bits x = fn(e); for (unsigned i = 0; i < w; i++) r.push_back(x.get(i)); } return from(r); };
	if (n.contains(".pshuf.b"))
		{
		return per(8, [&](unsigned e)
			{
			Bits ctl = slice(a[1], e * 8, 8);
			std::vector<uint64_t> ks;
			if (!enum_values(ctl, ks, 8)) return Bits::top(8);
			unsigned lane = e / 16 * 16;
			Bits r; bool first = true;
			for (auto k : ks) { Bits t = k & 0x80 ? Bits(8, 0) : slice(a[0], (lane + (k & 15)) * 8, 8); r = first ? t : joinb(r, t); first = false; }
			return r;
			});
		}
	// variable shifts: psllv.d, psrlv.d, .q, .w, psrav
	if (n.contains(".psllv") || n.contains(".psrlv") || n.contains(".psrav"))
		{
		unsigned w = elems(c->getType()) ? N / elems(c->getType()) : 32;
		unsigned op = n.contains(".psllv") ? Instruction::Shl : n.contains(".psrlv") ? Instruction::LShr : Instruction::AShr;
		return per(w, [&](unsigned e)
			{
			Bits k = slice(a[1], e * w, w), x = slice(a[0], e * w, w);
			if (k.known) return k.v >= w ? (op == Instruction::AShr ? shift(x, op, w - 1) : Bits(w, 0)) : shift(x, op, k.v);
			return Bits::top(w);
			});
		}
	// immediate / scalar-count shifts
	for (auto &p : std::vector<std::pair<const char *, unsigned>>{{".pslli.", Instruction::Shl}, {".psrli.", Instruction::LShr}, {".psrai.", Instruction::AShr}, {".psll.", Instruction::Shl}, {".psrl.", Instruction::LShr}, {".psra.", Instruction::AShr}})
		if (n.contains(p.first))
			{
			unsigned w = N / elems(c->getType());
			Bits cnt = a[1].n > 64 ? slice(a[1], 0, 64) : a[1];
			return per(w, [&](unsigned e)
				{
				Bits x = slice(a[0], e * w, w);
				if (!cnt.known) return Bits::top(w);
				return cnt.v >= w ? (p.second == Instruction::AShr ? shift(x, p.second, w - 1) : Bits(w, 0)) : shift(x, p.second, cnt.v);
				});
			}
	if (n.contains(".permd") || n.contains(".permvar.si"))
		{
		unsigned w = 32, k = N / w;
		return per(w, [&](unsigned e) { Bits i = slice(a[1], e * w, w); if (!i.known) return Bits::top(w); return slice(a[0], (i.v & (k - 1)) * w, w); });
		}
	if (n.contains(".permvar.di") || n.contains(".permvar.hi") || n.contains(".permvar.qi"))
		{
		unsigned w = N / elems(c->getType()), k = N / w;
		return per(w, [&](unsigned e) { Bits i = slice(a[1], e * w, w); if (!i.known) return Bits::top(w); return slice(a[0], (i.v & (k - 1)) * w, w); });
		}
	if (n.contains(".ptestz") || n.contains(".ptestc") || n.contains(".ptestnzc"))
		{
		// ZF: a & b == 0 ; CF: ~a & b == 0
		auto all0 = [&](bool neg) -> id_t32 { id_t32 r = 1; for (unsigned i = 0; i < a[0].n; i++) { id_t32 x = band(neg ? bnot(a[0].get(i)) : a[0].get(i), a[1].get(i)); if (x == 1) return 0; if (x != 0) r = TOP; } return r; };
		id_t32 z = n.contains("ptestz") ? all0(false) : n.contains("ptestc") ? all0(true) : TOP;
		std::vector<id_t32> r(32, 0); r[0] = z;
		return from(r);
		}
	if (n.contains(".pmovmskb") || n.contains(".movmsk"))
		{
		unsigned k = elems(c->getArgOperand(0)->getType()), w = a[0].n / k;
		std::vector<id_t32> r(32, 0);
		for (unsigned e = 0; e < k && e < 32; e++) r[e] = a[0].get(e * w + w - 1);
		return from(r);
		}
	if (n.contains("packusdw") || n.contains("packuswb") || n.contains("packssdw") || n.contains("packsswb"))
		{
		unsigned wo = N / elems(c->getType()), wi = wo * 2, lanes = N / 128, pl = 128 / wi;
		std::vector<id_t32> r;
		for (unsigned l = 0; l < lanes; l++)
			for (unsigned s2 = 0; s2 < 2; s2++)
				for (unsigned e = 0; e < pl; e++)
					{
					Bits x = slice(a[s2], l * 128 + e * wi, wi);
					bool fits = true;
					bool us = n.contains("packus");
					for (unsigned i = us ? wo : wo - 1; i < wi; i++) if (x.get(i) != 0) fits = false;
					Bits y = fits ? slice(x, 0, wo) : Bits::top(wo);
					for (unsigned i = 0; i < wo; i++) r.push_back(y.get(i));
					}
		return from(r);
		}
	if (n.contains(".bextr."))
		{
		unsigned w = N;
		if (!a[1].known) return Bits::top(w);
		unsigned st = a[1].v & 0xFF, len = a[1].v >> 8 & 0xFF;
		std::vector<id_t32> r(w, 0);
		for (unsigned i = 0; i < len && i < w && st + i < w; i++) r[i] = a[0].get(st + i);
		return from(r);
		}
	if (n.contains(".bzhi."))
		{
		if (!a[1].known) return Bits::top(N);
		std::vector<id_t32> r(N, 0);
		for (unsigned i = 0; i < N && i < (a[1].v & 0xFF); i++) r[i] = a[0].get(i);
		return from(r);
		}
	if (n.contains(".pdep.") || n.contains(".pext."))
		{
		if (!a[1].known) return Bits::top(N);
		std::vector<id_t32> r(N, 0); unsigned k = 0;
		for (unsigned i = 0; i < N; i++) if (a[1].v >> i & 1) { if (n.contains("pdep")) r[i] = a[0].get(k); else r[k] = a[0].get(i); k++; }
		return from(r);
		}
	if (n.contains("mask.expand") || n.contains("mask.compress"))
		{
		unsigned k = elems(c->getType()), w = N / k, j = 0;
		std::vector<id_t32> r(N);
		for (unsigned i = 0; i < N; i++) r[i] = a[1].get(i);
		if (!a[2].allconst()) return Bits::top(N);
		for (unsigned e = 0; e < k; e++)
			if (a[2].get(e) == 1)
				{
				for (unsigned i = 0; i < w; i++)
					if (n.contains("expand")) r[e * w + i] = a[0].get(j * w + i); else r[j * w + i] = a[0].get(e * w + i);
				j++;
				}
		return from(r);
		}
	if (n.contains("vpermi2var") || n.contains("vpermt2var"))
		{
		unsigned k = elems(c->getType()), w = N / k;
		return per(w, [&](unsigned e) { Bits i = slice(a[1], e * w, w); if (!i.known) return Bits::top(w); unsigned j = i.v & (2 * k - 1); return slice(j < k ? a[0] : a[2], (j & (k - 1)) * w, w); });
		}
	ok = false;
	return Bits();
	}

// ---- harness mode: the analysed program states its obligations through verif_i_* calls
static std::vector<std::pair<std::string, std::string>> replacements;
static std::map<const Function *, Function *> replacement_cache;
static std::string text_at(State &s, uint64_t p) { std::string r; for (;;) { Bits c = load(s, p++, 8); if (!c.known || !c.v) return r; r += (char)c.v; } }
static std::string describe_bit(id_t32 x)
	{
	if (x < 2) return std::to_string(x);
	if (x == TOP) return "unknown";
	if (x == MIX) return "a mixture of several symbols";
	if (x == UNDEF) return "never written";
	return std::string(x & NEG ? "!" : "") + "s" + std::to_string((x & ~NEG) - SYM);
	}
static void compare_words(const std::string &what, const Bits &a, const Bits &c, size_t index)
	{
	if (a == c) { obligations.push_back({what, "ok", ""}); return; }
	std::string at = " (word " + std::to_string(index) + ")";
	Aff x, y;
	if (a.n <= 64 && form(a, x) && form(c, y))
		{
		uint64_t m = mask_n(a.n);
		uint64_t k = (x.c - y.c) & m;
		std::map<uint32_t, uint64_t> d = x.t;
		for (auto &q : y.t) d[q.first] -= q.second;
		bool varies = false, zero = true;
		for (auto &q : d)
			{
			uint64_t cf = q.second & m;
			if (!cf) continue;
			zero = false;
			auto &b = atoms[q.first];
			for (unsigned i = 0; i < b.size(); i++) if (issym(b[i]))
				{ if (!derived_symbols.count(b[i] & ~NEG) && ((cf << i) & m)) varies = true; break; }
			}
		if (zero && k == 0) { obligations.push_back({what, "ok", ""}); return; }
		if (zero) { obligations.push_back({what, "violated", "the two values always differ by " + std::to_string(k) + at}); return; }
		if (varies)
			{
			// the difference is a linear form that is not constant; bits of one atom that are also bits of another one may still cancel
			std::map<id_t32, uint64_t> per;
			uint64_t kk = k; bool exact = true;
			for (auto &q : d)
				{
				uint64_t cf = q.second & m;
				if (!cf) continue;
				auto &b = atoms[q.first];
				for (unsigned i = 0; i < b.size(); i++)
					{
					if (b[i] == 1) kk += cf << i;
					else if (issym(b[i])) { if (derived_symbols.count(b[i] & ~NEG)) exact = false; if (b[i] & NEG) { kk += cf << i; per[b[i] & ~NEG] -= cf << i; } else per[b[i]] += cf << i; }
					}
				}
			bool nz = false;
			for (auto &q : per) if (q.second & m) nz = true;
			if (exact && !nz && (kk & m) == 0) { obligations.push_back({what, "ok", ""}); return; }
			if (exact && (nz || (kk & m))) { obligations.push_back({what, "violated", "the two values are different functions of the input" + at}); return; }
			obligations.push_back({what, "unknown", "cannot relate the two values" + at}); return;
			}
		}
	for (unsigned i = 0; i < a.n; i++)
		{
		id_t32 p = a.get(i), q = c.get(i);
		if (same(p, q)) continue;
		bool definite = (p == UNDEF || q == UNDEF) || inverse(p, q);
		if (!definite && (isconst(p) || issym(p)) && (isconst(q) || issym(q)) && !derived_symbols.count(p & ~NEG) && !derived_symbols.count(q & ~NEG)) definite = true;
		if (definite) { obligations.push_back({what, "violated", "bit " + std::to_string(i) + " is " + describe_bit(p) + " where " + describe_bit(q) + " is required" + at}); return; }
		}
	obligations.push_back({what, "unknown", "not determined by the abstract values" + at});
	}
/*
	Refinement: a job that stays undetermined is looked at again for one point of its abstract input, where everything is determined.
*/
static uint64_t pin = 0, pinned = 0;
static bool check_alignment = true;
static id_t32 fresh_bit(void)
	{
	if (pin == 0)
		return next_symbol++;
	if (pin == 1 || pin == 2)
		return pin - 1;
	uint64_t x = pin * 0x9E3779B97F4A7C15ULL + ++pinned;
	x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ULL; x ^= x >> 27; x *= 0x94d049bb133111ebULL; x ^= x >> 31;
	return x & 1;
	}
static void harness_call(State &s, Function *f, std::vector<Bits> &a)
	{
	StringRef n = f->getName();
	auto num = [&](unsigned i) { if (!a[i].known) fail("undecided", "harness argument"); return a[i].v; };
	if (n == "verif_i_fresh")			// (address, total bits, free low bits, value of the bit above them or -1)
		{
		uint64_t p = num(0), total = num(1), w = num(2); int64_t lead = (int64_t)(int32_t)num(3);
		std::vector<id_t32> b(total, 0);
		for (unsigned i = 0; i < w; i++) b[i] = fresh_bit();
		if (lead >= 0 && w < total) b[w] = lead;
		store(s, p, from(b));
		return;
		}
	if (n == "verif_i_fresh_at")		// (address, total bits, first free bit, number of free bits): the rest is left as it is
		{
		uint64_t p = num(0), total = num(1), lo = num(2), w = num(3);
		Bits x = load(s, p, total); x.expand();
		for (unsigned i = 0; i < w; i++) x.b[lo + i] = fresh_bit();
		x.norm();
		store(s, p, x);
		return;
		}
	if (n == "verif_i_ranked")			// (address, bits, group, rank): a word at that place of the group's weak order, with rank - 1 different positive ones below it
		{
		uint64_t p = num(0), bits = num(1), group = num(2), rank = num(3);
		if (rank == 0) { store(s, p, Bits(bits, 0)); return; }
		if (pin) { store(s, p, Bits(bits, rank)); return; }
		auto &w = ranked_word[{group, bits, rank}];
		if (w.empty())
			{
			for (unsigned i = 0; i < bits; i++) w.push_back(next_symbol++);
			ranked_by_top[w.back()] = {w, group, rank};
			}
		store(s, p, from(w));
		return;
		}
	if (n == "verif_i_undefine") { uint64_t p = num(0), k = num(1); for (uint64_t i = 0; i < k; i++) store(s, p + i, from(std::vector<id_t32>(8, UNDEF))); return; }
	if (n == "verif_i_same")			// (what, a, b, words, bytes per word)
		{
		std::string w = text_at(s, num(0));
		for (uint64_t k = 0; k < num(3); k++)
			compare_words(w, load(s, num(1) + k * num(4), num(4) * 8), load(s, num(2) + k * num(4), num(4) * 8), k);
		return;
		}
	if (n == "verif_i_true")			// (what, condition)
		{
		std::string w = text_at(s, num(0));
		id_t32 r = TOP;
		bool one = false, allz = true;
		for (unsigned i = 0; i < a[1].n; i++) { if (a[1].get(i) == 1) one = true; if (a[1].get(i) != 0) allz = false; }
		if (one) r = 1; else if (allz) r = 0; else if (a[1].n && issym(a[1].get(0)) && !derived_symbols.count(a[1].get(0) & ~NEG)) r = 0;
		obligations.push_back({w, r == 1 ? "ok" : r == 0 ? "violated" : "unknown", r == 1 ? "" : r == 0 ? "the condition is false" : "the condition is not determined"});
		return;
		}
	if (n == "verif_i_thread")			// (what, which): 3 preempt at that atomic operation, 4 atomic operations order the threads too, 0 made by the current one, 1 runs from here on, 2 joined by the current one
		{
		uint64_t what = num(0); unsigned which = num(1);
		threaded = true;
		if (clock_of.empty()) clock_of[0][0] = 1;
		if (what == 4) ordered_by_atomics = true;
		else if (what == 3) { preempt_at = which; atomics_seen = 0; }
		else if (what == 0) { clock_of[which] = clock_of[current_thread]; clock_of[which][which] = 1; clock_of[current_thread][current_thread]++; }
		else if (what == 1) current_thread = which;
		else { for (auto &kv : clock_of[which]) { auto &x = clock_of[current_thread][kv.first]; x = std::max(x, kv.second); } }
		return;
		}
	if (n == "verif_i_unwritten")		// (what, address, bytes, value): 1 when every bit is known or symbolic, i.e. has been written
		{
		std::string w = text_at(s, num(0));
		bool ok = true;
		for (uint64_t k = 0; k < num(2); k++) { Bits x = load(s, num(1) + k, 8); for (unsigned i = 0; i < 8; i++) if (x.get(i) == UNDEF) ok = false; }
		obligations.push_back({w, ok ? "ok" : "violated", ok ? "" : "holds bytes that were never written"});
		return;
		}
	fail("undecided", "unknown harness call " + n.str());
	}

// evaluates one call instruction; returns false when the callee threw
/*
	the exception in flight: its type, or nullptr when it comes out of the standard library
*/
static const Value *thrown_type = nullptr;
static uint64_t thrown_object = 0;
static std::map<const Value *, unsigned> typeids;
static unsigned typeid_of(const Value *g) { return typeids.emplace(g->stripPointerCasts(), typeids.size() + 1).first->second; }
static bool is_a(const Value *type, const Value *base)
	{
	if (type == base) return true;
	auto *g = dyn_cast<GlobalVariable>(type);
	if (!g || !g->hasInitializer()) return false;
	auto *st = dyn_cast<ConstantStruct>(g->getInitializer());
	if (!st) return false;
	for (unsigned k = 2; k < st->getNumOperands(); k++)
		if (st->getOperand(k)->getType()->isPointerTy() && !isa<ConstantPointerNull>(st->getOperand(k)) && is_a(st->getOperand(k)->stripPointerCasts(), base)) return true;
	return false;
	}
static Bits landing(const LandingPadInst *l)
	{
	unsigned selector = 0;
	for (unsigned k = 0; k < l->getNumClauses() && !selector; k++)
		{
		if (!l->isCatch(k)) fail("undecided", "exception specification");
		const Value *g = l->getClause(k)->stripPointerCasts();
		if (isa<ConstantPointerNull>(g)) { selector = typeid_of(g); break; }
		if (!thrown_type) fail("undecided", "which standard exception this is");
		if (is_a(thrown_type, g)) selector = typeid_of(g);
		}
	Bits r(96, 0); r = Bits::top(bitsize(l->getType())); r.expand();
	for (unsigned q = 0; q < r.n; q++) r.b[q] = 0;
	for (unsigned q = 0; q < 64; q++) r.b[q] = thrown_object >> q & 1;
	Type *t; uint64_t off = agg_off(l->getType(), {1}, &t);
	for (unsigned q = 0; q < 32; q++) r.b[off + q] = selector >> q & 1;
	r.norm();
	return r;
	}

static bool do_call(State &s, Frame &fr, CallBase *c, int depth)
	{
	Function *f = dyn_cast<Function>(c->getCalledOperand()->stripPointerCastsAndAliases());
	if (isa<InlineAsm>(c->getCalledOperand())) fail("undecided", "inline assembly");
	if (!f)
		{
		Bits p = value(fr, c->getCalledOperand());
		if (!p.known) fail("undecided", "indirect call target is not determined");
		auto it = faddr.find(p.v);
		if (it == faddr.end()) fail("bad-pointer", "call through an invalid function pointer");
		f = it->second;
		}
	std::vector<Bits> a;
	if (!isa<DbgInfoIntrinsic>(c))
		for (auto &x : c->args())
			{
			Bits b = value(fr, x.get());
			if (c->isByValArgument(&x - c->arg_begin()))
				{
				Type *t = c->getParamByValType(&x - c->arg_begin());
				uint64_t sz = DL->getTypeAllocSize(t).getFixedValue();
				uint64_t o = new_object(s, sz, "byval argument");
				store(s, o, load(s, known_addr(b, "byval"), sz * 8));
				b = Bits(64, o);
				}
			a.push_back(b);
			}
	unsigned N = c->getType()->isVoidTy() ? 0 : bitsize(c->getType());
	if (f->isIntrinsic())
		{
		switch (f->getIntrinsicID())
			{
			case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::prefetch: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl:
				return true;
			case Intrinsic::is_constant: fr.v[c] = Bits(1, 0); return true;
			case Intrinsic::eh_typeid_for: fr.v[c] = Bits(32, typeid_of(c->getArgOperand(0))); return true;
			case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
				{
				if (!a[2].known) fail("undecided", "memcpy length is not determined");
				if (a[2].v) { Bits t = load(s, known_addr(a[1], "memcpy"), a[2].v * 8); if (t.known && t.n < a[2].v * 8) t.expand(); store(s, known_addr(a[0], "memcpy"), t); }
				return true;
				}
			case Intrinsic::memset: case Intrinsic::memset_inline:
				{
				if (!a[2].known) fail("undecided", "memset length is not determined");
				uint64_t d = known_addr(a[0], "memset");
				if (a[2].v > (1u << 20) && object_at(s, d, a[2].v, true)->lazy)
					{
					// a large fill: drop the pages it covers wholly when it equals the default
					Obj *o = object_at(s, d, a[2].v, true);
					if (a[1].known && a[1].v == 0 && o->page.empty()) { o->fill = 0; return true; }
					}
				if (a[2].v) { object_at(s, d, a[2].v, true); for (uint64_t k = 0; k < a[2].v; k++) store(s, d + k, a[1]); }
				return true;
				}
			case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
				fr.v[c] = a[0]; return true;
			case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax:
				{
				auto id = f->getIntrinsicID();
				auto p = id == Intrinsic::umin ? CmpInst::ICMP_ULT : id == Intrinsic::umax ? CmpInst::ICMP_UGT : id == Intrinsic::smin ? CmpInst::ICMP_SLT : CmpInst::ICMP_SGT;
				unsigned k = elems(c->getType()), w = N / k;
				std::vector<id_t32> r;
				for (unsigned e = 0; e < k; e++) { Bits x = slice(a[0], e * w, w), y = slice(a[1], e * w, w); Bits z = bounded(id, selectb(scalar_cmp(p, x, y), x, y), x, y); for (unsigned i = 0; i < w; i++) r.push_back(z.get(i)); }
				fr.v[c] = from(r); return true;
				}
			case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: case Intrinsic::bswap: case Intrinsic::abs: case Intrinsic::bitreverse:
				{
				unsigned k = elems(c->getType()), w = N / k;
				std::vector<id_t32> r;
				auto id = f->getIntrinsicID();
				for (unsigned e = 0; e < k; e++)
					{
					Bits x = slice(a[0], e * w, w), y = Bits::top(w);
					if (id == Intrinsic::ctlz) { unsigned z = 0; bool ok = true; for (int i = w - 1; i >= 0; i--) { if (x.get(i) == 0) { z++; continue; } if (x.get(i) != 1) ok = false; break; } if (ok) y = Bits(w, z); }
					if (id == Intrinsic::cttz) { unsigned z = 0; bool ok = true; for (unsigned i = 0; i < w; i++) { if (x.get(i) == 0) { z++; continue; } if (x.get(i) != 1) ok = false; break; } if (ok) y = Bits(w, z); }
					if (id == Intrinsic::ctpop && x.allconst()) { unsigned z = 0; for (unsigned i = 0; i < w; i++) z += x.get(i); y = Bits(w, z); }
					if (id == Intrinsic::bswap) { std::vector<id_t32> q(w); for (unsigned i = 0; i < w; i++) q[i] = x.get((w / 8 - 1 - i / 8) * 8 + i % 8); y = from(q); }
					if (id == Intrinsic::bitreverse) { std::vector<id_t32> q(w); for (unsigned i = 0; i < w; i++) q[i] = x.get(w - 1 - i); y = from(q); }
					if (id == Intrinsic::abs && x.get(w - 1) == 0) y = x;
					for (unsigned i = 0; i < w; i++) r.push_back(y.get(i));
					}
				fr.v[c] = from(r); return true;
				}
			case Intrinsic::fshl: case Intrinsic::fshr:
				{
				unsigned k = elems(c->getType()), w = N / k;
				std::vector<id_t32> r;
				for (unsigned e = 0; e < k; e++)
					{
					Bits hi = slice(a[0], e * w, w), lo = slice(a[1], e * w, w), sh = slice(a[2], e * w, w);
					if (!sh.known) { for (unsigned i = 0; i < w; i++) r.push_back(TOP); continue; }
					unsigned q = sh.v % w;
					for (unsigned i = 0; i < w; i++)
						{
						unsigned pos = f->getIntrinsicID() == Intrinsic::fshl ? (i + w - q) : (i + q);	// position in concat(hi:lo)
						if (f->getIntrinsicID() == Intrinsic::fshl) r.push_back(pos < w ? lo.get(pos) : hi.get(pos - w)); else r.push_back(pos < w ? lo.get(pos) : hi.get(pos - w));
						}
					}
				fr.v[c] = from(r); return true;
				}
			case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow:
				{
				Type *t; agg_off(c->getType(), {1}, &t);
				uint64_t o1 = agg_off(c->getType(), {1}, &t);
				Bits r = Bits::top(N);
				if (a[0].known && a[1].known && a[0].n <= 64)
					{
					auto id = f->getIntrinsicID();
					unsigned __int128 x = a[0].v, y = a[1].v, z = id == Intrinsic::uadd_with_overflow ? x + y : id == Intrinsic::umul_with_overflow ? x * y : x - y;
					bool ov = id == Intrinsic::usub_with_overflow ? x < y : (z >> a[0].n) != 0;
					Bits q(a[0].n, (uint64_t)z);
					for (unsigned i = 0; i < q.n; i++) r.b[i] = q.get(i);
					r.b[o1] = ov;
					for (unsigned i = 1; i < 8; i++) r.b[o1 + i] = 0;
					}
				fr.v[c] = r;
				return true;
				}
			case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_xor:
				{
				unsigned k = elems(c->getArgOperand(0)->getType()), w = a[0].n / k;
				Bits r = slice(a[0], 0, w);
				auto id = f->getIntrinsicID();
				for (unsigned e = 1; e < k; e++) r = scalar_binop(id == Intrinsic::vector_reduce_or ? Instruction::Or : id == Intrinsic::vector_reduce_and ? Instruction::And : id == Intrinsic::vector_reduce_xor ? Instruction::Xor : Instruction::Add, r, slice(a[0], e * w, w));
				fr.v[c] = r; return true;
				}
			case Intrinsic::masked_load:
				{
				unsigned k = elems(c->getType()), w = N / k;
				uint64_t p = known_addr(a[0], "masked load");
				std::vector<id_t32> r(N);
				if (!a[2].allconst()) fail("undecided", "mask");
				for (unsigned e = 0; e < k; e++) { Bits x = a[2].get(e) ? load(s, p + e * w / 8, w) : slice(a[3], e * w, w); for (unsigned i = 0; i < w; i++) r[e * w + i] = x.get(i); }
				fr.v[c] = from(r); return true;
				}
			case Intrinsic::masked_store:
				{
				unsigned k = elems(c->getArgOperand(0)->getType()), w = a[0].n / k;
				uint64_t p = known_addr(a[1], "masked store");
				if (!a[3].allconst()) fail("undecided", "mask");
				for (unsigned e = 0; e < k; e++) if (a[3].get(e)) store(s, p + e * w / 8, slice(a[0], e * w, w));
				return true;
				}
			case Intrinsic::trap: case Intrinsic::ubsantrap: fail("trap", "trap");
			default: break;
			}
		if (f->getName().starts_with("llvm.x86.avx.ldu.") || f->getName().starts_with("llvm.x86.sse3.ldu.")) { fr.v[c] = load(s, known_addr(a[0], "lddqu"), N); return true; }
		if (f->getName().contains(".gather") && f->getName().starts_with("llvm.x86.avx"))
			{
			// (source, base, indexes, mask, scale)
			unsigned k = elems(c->getType()), w = N / k, ik = elems(c->getArgOperand(2)->getType()), iw = a[2].n / ik, mw = a[3].n / elems(c->getArgOperand(3)->getType());
			uint64_t base = known_addr(a[1], "gather");
			std::vector<id_t32> r(N);
			for (unsigned e = 0; e < k; e++)
				{
				Bits on = slice(a[3], e * mw + mw - 1, 1);
				if (!on.known) fail("undecided", "mask");
				Bits x = slice(a[0], e * w, w);
				if (on.v)
					{
					Bits at = slice(a[2], e * iw, iw);
					if (!at.known) fail("undecided", "gather index is not determined");
					int64_t d = iw == 32 ? (int64_t)(int32_t)at.v : (int64_t)at.v;
					x = load(s, base + d * (int64_t)a[4].v, w);
					}
				for (unsigned i = 0; i < w; i++) r[e * w + i] = x.get(i);
				}
			fr.v[c] = from(r); return true;
			}
		if (f->getName().contains("scatter") && f->getName().starts_with("llvm.x86.avx"))
			{
			// (base, mask, indexes, data, scale): in order, the last one wins
			unsigned k = elems(c->getArgOperand(3)->getType()), w = a[3].n / k, iw = a[2].n / elems(c->getArgOperand(2)->getType()), mw = a[1].n / elems(c->getArgOperand(1)->getType());
			uint64_t base = known_addr(a[0], "scatter");
			for (unsigned e = 0; e < k; e++)
				{
				Bits on = slice(a[1], e * mw + mw - 1, 1), at = slice(a[2], e * iw, iw);
				if (!on.known) fail("undecided", "mask");
				if (!on.v) continue;
				if (!at.known) fail("undecided", "scatter index is not determined");
				int64_t d = iw == 32 ? (int64_t)(int32_t)at.v : (int64_t)at.v;
				store(s, base + d * (int64_t)a[4].v, slice(a[3], e * w, w));
				}
			return true;
			}
		if (f->getName().starts_with("llvm.x86."))
			{
			bool ok;
			Bits r = x86_call(f, c, a, ok);
			if (ok) { fr.v[c] = r; return true; }
			}
		if (c->getType()->isFloatTy() || c->getType()->isDoubleTy()) { fr.v[c] = folded(fr, c, N); return true; }
		fail("undecided", "intrinsic " + f->getName().str());
		}
	if (f->getName().starts_with("verif_i_")) { harness_call(s, f, a); return true; }
	if (!replacements.empty())
		{
		auto it = replacement_cache.find(f);
		if (it == replacement_cache.end())
			{
			std::string d = demangle(f->getName().str());
			Function *g = nullptr;
			for (auto &r : replacements) if (StringRef(d).starts_with(r.first) && f->getName() != r.second) { g = M->getFunction(r.second); if (!g) fail("undecided", "no replacement " + r.second); }
			it = replacement_cache.emplace(f, g).first;
			}
		if (it->second)
			{
			const Instruction *save = where_now;
			unwatched++;
			Ret r = call(s, it->second, a, depth + 1);
			unwatched--;
			where_now = save;
			if (r.threw) return false;
			if (N) fr.v[c] = r.value;
			return true;
			}
		}
	if (stubbed(f)) { if (N) fr.v[c] = Bits::top(N); return true; }
	if (f->isDeclaration() || f->getName() == "_Znwm" || f->getName() == "_Znam")
		{
		StringRef n = f->getName();
		if (n == "_Znwm" || n == "_Znam" || n == "malloc" || n == "_ZnwmSt11align_val_t" || n == "_ZnamSt11align_val_t")
			{
			if (!a[0].known) fail("undecided", "allocation size is not determined");
			fr.v[c] = Bits(64, new_object(s, a[0].v, "heap block")); return true;
			}
		if (n == "aligned_alloc" || n == "_mm_malloc") { fr.v[c] = Bits(64, new_object(s, a[n == "aligned_alloc" ? 1 : 0].v, "heap block")); return true; }
		if (n == "calloc") { fr.v[c] = Bits(64, new_object(s, a[0].v * a[1].v, "heap block", 0)); return true; }
		if (n.starts_with("_ZdlPv") || n.starts_with("_ZdaPv") || n == "free")
			{
			if (a[0].known && a[0].v) { auto k = a[0].v >> 32; if (k && k <= s.mem.size()) { auto o = std::make_shared<Obj>(*s.mem[k - 1]); o->dead = true; s.mem[k - 1] = o; } }
			return true;
			}
		if (n == "__cxa_guard_acquire") { unwatched++; fr.v[c] = Bits(32, 1); return true; }
		if (n == "__cxa_guard_release") { store(s, known_addr(a[0], "guard"), Bits(8, 1)); unwatched--; return true; }
		if (n == "pthread_mutex_lock") { if (!held_by[current_thread].insert(known_addr(a[0], "mutex")).second) fail("deadlock", "a thread locks a mutex it already holds"); fr.v[c] = Bits(32, 0); return true; }
		if (n == "pthread_mutex_unlock") { held_by[current_thread].erase(known_addr(a[0], "mutex")); fr.v[c] = Bits(32, 0); return true; }
		if (n == "__cxa_guard_abort" || n == "__cxa_atexit" || n == "_ZNSt8ios_base4InitC1Ev") { if (N) fr.v[c] = Bits(N, 0); return true; }
		if (n == "memcpy" || n == "memmove")
			{
			if (a[2].v) { Bits t = load(s, known_addr(a[1], "memcpy"), a[2].v * 8); store(s, known_addr(a[0], "memcpy"), t); }
			fr.v[c] = a[0]; return true;
			}
		if (n == "strlen") { uint64_t p = known_addr(a[0], "strlen"), k = 0; for (;; k++) { Bits x = load(s, p + k, 8); bool nonzero = false; for (unsigned i = 0; i < 8; i++) if (x.get(i) == 1) nonzero = true; if (nonzero) continue; if (x.known) break; fail("undecided", "strlen of undetermined text"); } fr.v[c] = Bits(64, k); return true; }
		if (n == "memcmp" || n == "bcmp" || n == "strcmp" || n == "strncmp")
			{
			uint64_t p = known_addr(a[0], "memcmp"), q = known_addr(a[1], "memcmp"), len = n == "strcmp" ? ~0ULL : a[2].v;
			for (uint64_t k = 0; k < len; k++)
				{
				Bits x = load(s, p + k, 8), y = load(s, q + k, 8);
				if (x == y) { if (n.starts_with("str") && x.known && x.v == 0) break; if (n.starts_with("str") && !x.known) fail("undecided", "strcmp of undetermined text"); continue; }
				if (x.known && y.known) { fr.v[c] = Bits(32, x.v < y.v ? ~0u : 1); return true; }
				if (x.hi() < y.lo()) { fr.v[c] = Bits(32, ~0u); return true; }
				if (x.lo() > y.hi()) { fr.v[c] = Bits(32, 1); return true; }
				fr.v[c] = Bits::top(32); return true;
				}
			fr.v[c] = Bits(32, 0); return true;
			}
		if (c->getType()->isFloatTy() || c->getType()->isDoubleTy()) { fr.v[c] = folded(fr, c, N); if (!fr.v[c].known) fail("undecided", "floating point call " + n.str()); return true; }
		if (n == "exit" || n == "abort" || n == "_exit" || n == "__assert_fail") fail("exits", "the program ends: " + n.str());
		if (n == "puts" || n == "printf" || n == "fflush") { fr.v[c] = Bits(32, 0); return true; }
		if (n == "memset") { if (!a[2].known) fail("undecided", "memset length is not determined"); uint64_t d = known_addr(a[0], "memset"); for (uint64_t k = 0; k < a[2].v; k++) store(s, d + k, slice(a[1], 0, 8)); fr.v[c] = a[0]; return true; }
		if (n == "__cxa_allocate_exception") { fr.v[c] = Bits(64, new_object(s, std::max<uint64_t>(a[0].v, 1), "exception")); return true; }
		if (n == "__cxa_throw") { thrown_object = a[0].v; thrown_type = c->getArgOperand(1)->stripPointerCasts(); return false; }
		if (n == "__cxa_begin_catch" || n == "__cxa_get_exception_ptr") { fr.v[c] = a[0]; return true; }
		if (n == "__cxa_end_catch" || n == "__cxa_free_exception") return true;
		if (n == "__cxa_rethrow") return false;
		if (n.starts_with("__cxa_") || n.starts_with("_ZSt") && n.contains("throw")) { thrown_type = nullptr; thrown_object = 0; return false; }
		fail("undecided", "call to external " + demangle(n.str()));
		}
	const Instruction *save = where_now;
	Ret r = call(s, f, a, depth + 1);
	where_now = save;
	if (r.threw) return false;
	if (N) fr.v[c] = r.value;
	return true;
	}

struct Flow { enum K { fall, ret, thrown } k = fall; const BasicBlock *at = nullptr, *from = nullptr; Bits value; };

// run from block b (entered from prev) until the block `stop` is about to be entered, or the function ends
static const bool profiling = getenv("ABSINT_PROFILE") != nullptr;		// a development aid: instructions interpreted, by function
static std::map<const Function *, uint64_t> profile;
static Flow run(State &s, Frame &fr, const BasicBlock *b, const BasicBlock *prev, const BasicBlock *stop, int depth, int forks);

static void enter_phis(Frame &fr, const BasicBlock *b, const BasicBlock *prev)
	{
	std::vector<std::pair<const PHINode *, Bits>> p;
	for (auto &i : *b)
		{
		auto *phi = dyn_cast<PHINode>(&i);
		if (!phi) break;
		p.push_back({phi, value(fr, phi->getIncomingValueForBlock(prev))});
		}
	for (auto &x : p) fr.v[x.first] = x.second;
	}

static Flow fork(State &s, Frame &fr, const BasicBlock *b, std::vector<const BasicBlock *> targets, const BasicBlock *stop, int depth, int forks, bool &ended, id_t32 cond = TOP)
	{
	// an undecided branch: evaluate every arm up to the join point, then join
	if (forks > 24) fail("undecided", "too many undecided branches");
	const BasicBlock *j = ipdom(b);
	Flow out; bool any_ret = false, any_fall = false; bool first_ret = true;
	State acc; Frame accf; bool first = true;
	State racc;
	std::vector<const BasicBlock *> uniq;
	for (auto *t : targets) if (std::find(uniq.begin(), uniq.end(), t) == uniq.end()) uniq.push_back(t);
	if (uniq.size() != 2) cond = TOP;
	std::vector<std::pair<const PHINode *, Bits>> phis;
	for (auto *t : uniq)
		{
		State s2 = s; Frame f2 = fr;
		Flow r;
		if (t == j) { r.k = Flow::fall; r.at = j; r.from = b; }
		else
			{
			enter_phis(f2, t, b);
			size_t stated = obligations.size();
			try { r = run(s2, f2, t, b, j, depth, forks + 1); }
			catch (Fail &f)
				{
				if (f.kind != "undecided") fail("undecided", "in one arm of an undecided branch: " + f.kind + ": " + f.why);
				throw;
				}
			for (; stated < obligations.size(); stated++)
				if (obligations[stated].status == "violated") { obligations[stated].status = "unknown"; obligations[stated].why += " (in one arm of an undecided branch)"; }
			}
		if (r.k == Flow::thrown) continue;
		if (r.k == Flow::ret)
			{
			any_ret = true;
			if (first_ret) { racc = s2; out.value = r.value; first_ret = false; }
			else { join_state(racc, s2, cond); if (out.value.n) out.value = cjoinb(cond, out.value, r.value); }
			continue;
			}
		any_fall = true;
		std::vector<std::pair<const PHINode *, Bits>> mine;
		for (auto &i : *j) { auto *phi = dyn_cast<PHINode>(&i); if (!phi) break; mine.push_back({phi, r.from ? value(f2, phi->getIncomingValueForBlock(r.from)) : f2.v.at(phi)}); }
		if (first) { acc = s2; accf = f2; phis = mine; first = false; }
		else
			{
			join_state(acc, s2, cond);
			for (size_t k = 0; k < phis.size(); k++) phis[k].second = cjoinb(cond, phis[k].second, mine[k].second);
			for (auto &kv : accf.v) { auto it = f2.v.find(kv.first); if (it == f2.v.end()) continue; if (it->second.n == kv.second.n) kv.second = cjoinb(cond, kv.second, it->second); }
			}
		}
	if (any_ret && any_fall) fail("undecided", "an undecided branch mixes return and fall through");
	if (any_ret) { s = racc; out.k = Flow::ret; ended = true; return out; }
	if (!any_fall) { out.k = Flow::thrown; ended = true; return out; }
	s = acc; fr = accf;
	for (auto &p : phis) fr.v[p.first] = p.second;
	out.k = Flow::fall; out.at = j; ended = false;
	return out;
	}

/*
	the harness may ask for another thread to run before the n-th atomic operation
*/
static void maybe_preempt(State &s, int depth)
	{
	if (!preempt_at || !current_thread || unwatched || ++atomics_seen != preempt_at) return;
	Function *f = M->getFunction("verif_preempted");
	if (!f) return;
	const Instruction *save = where_now;
	atomic_now = false;
	call(s, f, {}, depth + 1);
	where_now = save;
	}

static Flow run(State &s, Frame &fr, const BasicBlock *b, const BasicBlock *prev, const BasicBlock *stop, int depth, int forks)
	{
	for (;;)
		{
		const BasicBlock *next = nullptr;
		covered_blocks[b->getParent()].insert(b);
		if (profiling) profile[b->getParent()] += b->size();
		for (auto &ci : *b)
			{
			Instruction *i = const_cast<Instruction *>(&ci);
			if (isa<PHINode>(i)) continue;
			if (isa<DbgInfoIntrinsic>(i)) continue;
			where_now = i;
			if (++steps > step_limit) fail("endless", "it does not end: interpretation took more than " + std::to_string(step_limit) + " steps");
			if (auto *c = dyn_cast<CallInst>(i)) { if (!do_call(s, fr, c, depth)) { Flow r; r.k = Flow::thrown; return r; } continue; }
			if (auto *c = dyn_cast<InvokeInst>(i)) { if (!do_call(s, fr, c, depth)) next = c->getUnwindDest(); else next = c->getNormalDest(); continue; }
			if (auto *x = dyn_cast<BinaryOperator>(i))
				{
				if (x->getType()->isFPOrFPVectorTy()) { fr.v[i] = folded(fr, i, bitsize(x->getType())); continue; }
				fr.v[i] = binop(x->getOpcode(), x->getType(), value(fr, x->getOperand(0)), value(fr, x->getOperand(1)));
				continue;
				}
			if (auto *x = dyn_cast<ICmpInst>(i))
				{
				Bits a = value(fr, x->getOperand(0)), c = value(fr, x->getOperand(1));
				unsigned k = elems(x->getType()), w = a.n / k;
				std::vector<id_t32> r(k);
				for (unsigned e = 0; e < k; e++) r[e] = k == 1 ? scalar_cmp(x->getPredicate(), a, c) : scalar_cmp(x->getPredicate(), slice(a, e * w, w), slice(c, e * w, w));
				fr.v[i] = from(r);
				continue;
				}
			if (isa<FCmpInst>(i) || isa<UnaryOperator>(i)) { fr.v[i] = folded(fr, i, bitsize(i->getType())); continue; }
			if (auto *x = dyn_cast<SelectInst>(i))
				{
				Bits c = value(fr, x->getCondition()), a = value(fr, x->getTrueValue()), d = value(fr, x->getFalseValue());
				if (c.n == 1) fr.v[i] = selectb(c.get(0), a, d);
				else
					{
					unsigned w = a.n / c.n; std::vector<id_t32> r;
					for (unsigned e = 0; e < c.n; e++) { Bits t = selectb(c.get(e), slice(a, e * w, w), slice(d, e * w, w)); for (unsigned k = 0; k < w; k++) r.push_back(t.get(k)); }
					fr.v[i] = from(r);
					}
				continue;
				}
			if (auto *x = dyn_cast<CastInst>(i))
				{
				Bits a = value(fr, x->getOperand(0));
				unsigned N = bitsize(x->getType());
				switch (x->getOpcode())
					{
					case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc:
						{
						unsigned k = elems(x->getType()), wi = a.n / k, wo = N / k;
						bool sx = x->getOpcode() == Instruction::SExt;
						if (k == 1 && a.known && N <= 64) { uint64_t v = a.v; if (sx && wi < 64 && (v >> (wi - 1) & 1)) v |= ~0ULL << wi; fr.v[i] = Bits(N, v); break; }
						std::vector<id_t32> r; r.reserve(N);
						for (unsigned e = 0; e < k; e++)
							for (unsigned q = 0; q < wo; q++) r.push_back(q < wi ? a.get(e * wi + q) : sx ? a.get(e * wi + wi - 1) : 0);
						fr.v[i] = from(r);
						if (k == 1 && x->getOpcode() == Instruction::Trunc) fr.v[i] = narrowed(a, fr.v[i]);
						break;
						}
					case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
						if (a.n == N) fr.v[i] = a; else if (a.n > N) fr.v[i] = slice(a, 0, N); else { std::vector<id_t32> r(N, 0); for (unsigned q = 0; q < a.n; q++) r[q] = a.get(q); fr.v[i] = from(r); }
						break;
					default:
						fr.v[i] = folded(fr, i, N);
					}
				continue;
				}
			if (auto *x = dyn_cast<GetElementPtrInst>(i))
				{
				if (x->getType()->isVectorTy()) fail("undecided", "vector of pointers");
				MapVector<Value *, APInt> var; APInt off(64, 0);
				if (!cast<GEPOperator>(x)->collectOffset(*DL, 64, var, off)) fail("undecided", "address computation");
				Bits p = scalar_binop(Instruction::Add, value(fr, x->getPointerOperand()), Bits(64, off.getZExtValue()));
				for (auto &kv : var)
					{
					Bits ix = value(fr, kv.first);
					if (ix.n < 64) { std::vector<id_t32> r(64); for (unsigned q = 0; q < 64; q++) r[q] = q < ix.n ? ix.get(q) : ix.get(ix.n - 1); ix = from(r); }
					p = scalar_binop(Instruction::Add, p, scalar_binop(Instruction::Mul, ix, Bits(64, kv.second.getZExtValue())));
					}
				fr.v[i] = p;
				continue;
				}
			if (auto *x = dyn_cast<AllocaInst>(i))
				{
				uint64_t n = DL->getTypeAllocSize(x->getAllocatedType()).getFixedValue();
				Bits c = value(fr, x->getArraySize());
				if (!c.known) fail("undecided", "alloca size");
				fr.v[i] = Bits(64, new_object(s, n * c.v, "local " + x->getName().str()));
				continue;
				}
			if (isa<LoadInst>(i) || isa<StoreInst>(i))
				{
				// SIMD accesses that are only allowed at aligned addresses (objects are taken to be aligned)
				auto align = isa<LoadInst>(i) ? cast<LoadInst>(i)->getAlign().value() : cast<StoreInst>(i)->getAlign().value();
				auto *type = getLoadStoreType(i);
				if (align >= 16 && check_alignment && type->isVectorTy())
					{
					Bits p = value(fr, getLoadStorePointerOperand(i));
					if (p.known && p.v % 16 != 0) { where_now = i; fail("misaligned", "a SIMD access that needs an aligned address, at one that is not"); }
					}
				}
			if (auto *x = dyn_cast<LoadInst>(i)) { if (x->isAtomic()) maybe_preempt(s, depth); atomic_now = x->isAtomic(); acquires = isAcquireOrStronger(x->getOrdering()); fr.v[i] = load_any(s, value(fr, x->getPointerOperand()), bitsize(x->getType())); atomic_now = false; continue; }
			if (auto *x = dyn_cast<StoreInst>(i))
				{
				Bits v = value(fr, x->getValueOperand());
				if (x->isAtomic()) maybe_preempt(s, depth);
				atomic_now = x->isAtomic();
				releases = isReleaseOrStronger(x->getOrdering());
				store(s, known_addr(value(fr, x->getPointerOperand()), "store"), v);
				atomic_now = false;
				continue;
				}
			if (auto *x = dyn_cast<ExtractElementInst>(i))
				{
				Bits v = value(fr, x->getVectorOperand()), k = value(fr, x->getIndexOperand());
				unsigned w = bitsize(x->getType());
				fr.v[i] = k.known ? slice(v, k.v * w, w) : Bits::top(w);
				continue;
				}
			if (auto *x = dyn_cast<InsertElementInst>(i))
				{
				Bits v = value(fr, x->getOperand(0)), e = value(fr, x->getOperand(1)), k = value(fr, x->getOperand(2));
				if (!k.known) fail("undecided", "insertelement index");
				v.expand();
				for (unsigned q = 0; q < e.n; q++) v.b[k.v * e.n + q] = e.get(q);
				v.norm();
				fr.v[i] = v;
				continue;
				}
			if (auto *x = dyn_cast<ShuffleVectorInst>(i))
				{
				Bits a = value(fr, x->getOperand(0)), c = value(fr, x->getOperand(1));
				unsigned k = elems(x->getOperand(0)->getType()), w = a.n / k;
				std::vector<id_t32> r;
				for (int m : x->getShuffleMask())
					for (unsigned q = 0; q < w; q++) r.push_back(m < 0 ? TOP : (unsigned)m < k ? a.get(m * w + q) : c.get((m - k) * w + q));
				fr.v[i] = from(r);
				continue;
				}
			if (auto *x = dyn_cast<ExtractValueInst>(i))
				{
				Type *t; uint64_t off = agg_off(x->getAggregateOperand()->getType(), x->getIndices(), &t);
				fr.v[i] = slice(value(fr, x->getAggregateOperand()), off, bitsize(t));
				continue;
				}
			if (auto *x = dyn_cast<InsertValueInst>(i))
				{
				Type *t; uint64_t off = agg_off(x->getType(), x->getIndices(), &t);
				Bits a = value(fr, x->getAggregateOperand()), e = value(fr, x->getInsertedValueOperand());
				a.expand();
				for (unsigned q = 0; q < e.n; q++) a.b[off + q] = e.get(q);
				a.norm();
				fr.v[i] = a;
				continue;
				}
			if (auto *x = dyn_cast<FreezeInst>(i)) { fr.v[i] = value(fr, x->getOperand(0)); continue; }
			if (auto *x = dyn_cast<AtomicRMWInst>(i))
				{
				uint64_t p = known_addr(value(fr, x->getPointerOperand()), "atomic");
				maybe_preempt(s, depth);
				atomic_now = true;
				acquires = isAcquireOrStronger(x->getOrdering()); releases = isReleaseOrStronger(x->getOrdering());
				Bits o = load(s, p, bitsize(x->getType())), v = value(fr, x->getValOperand()), nv;
				switch (x->getOperation()) { case AtomicRMWInst::Add: nv = scalar_binop(Instruction::Add, o, v); break; case AtomicRMWInst::Sub: nv = scalar_binop(Instruction::Sub, o, v); break; case AtomicRMWInst::Xchg: nv = v; break; default: nv = Bits::top(o.n); }
				store(s, p, nv); fr.v[i] = o; atomic_now = false;
				continue;
				}
			if (auto *x = dyn_cast<AtomicCmpXchgInst>(i))
				{
				/*
					one thread: the exchange happens exactly when the value is the expected one
				*/
				uint64_t p = known_addr(value(fr, x->getPointerOperand()), "atomic");
				maybe_preempt(s, depth);
				atomic_now = true;
				acquires = isAcquireOrStronger(x->getSuccessOrdering()); releases = isReleaseOrStronger(x->getSuccessOrdering());
				unsigned n = bitsize(x->getCompareOperand()->getType());
				Bits o = load(s, p, n), e = value(fr, x->getCompareOperand()), w = value(fr, x->getNewValOperand());
				if (!o.allconst() || !e.allconst()) fail("undecided", "compare and exchange of an undetermined value");
				bool equal = o == e;
				if (equal) store(s, p, w);
				atomic_now = false;
				Bits r(bitsize(x->getType()), 0); r.expand();
				for (unsigned q = 0; q < n; q++) r.b[q] = o.get(q);
				Type *t; r.b[agg_off(x->getType(), {1}, &t)] = equal ? 1 : 0;
				r.norm();
				fr.v[i] = r;
				continue;
				}
			if (auto *x = dyn_cast<LandingPadInst>(i)) { fr.v[i] = landing(x); continue; }
			if (auto *x = dyn_cast<BranchInst>(i))
				{
				if (!x->isConditional()) { next = x->getSuccessor(0); continue; }
				Bits c = value(fr, x->getCondition());
				id_t32 k = c.get(0);
				if (isconst(k)) { next = x->getSuccessor(k ? 0 : 1); continue; }
				if (k == UNDEF) fail("uninitialised", "a decision depends on memory that was never written");
				bool ended;
				Flow r = fork(s, fr, b, {x->getSuccessor(0), x->getSuccessor(1)}, stop, depth, forks, ended, k);
				if (ended) return r;
				if (r.at == stop) { Flow q; q.k = Flow::fall; q.at = stop; q.from = nullptr; return r; }
				prev = nullptr; b = r.at; next = b; goto joined;
				}
			if (auto *x = dyn_cast<SwitchInst>(i))
				{
				Bits c = value(fr, x->getCondition());
				if (c.known) { auto it = x->findCaseValue(ConstantInt::get(cast<IntegerType>(x->getCondition()->getType()), c.v)); next = it->getCaseSuccessor(); continue; }
				std::vector<const BasicBlock *> t;
				t.push_back(x->getDefaultDest());
				for (auto &cs : x->cases()) { id_t32 e = scalar_cmp(CmpInst::ICMP_EQ, c, Bits(c.n, cs.getCaseValue()->getZExtValue())); if (e != 0) t.push_back(cs.getCaseSuccessor()); }
				bool ended;
				Flow r = fork(s, fr, b, t, stop, depth, forks, ended);
				if (ended) return r;
				if (r.at == stop) return r;
				prev = nullptr; b = r.at; next = b; goto joined;
				}
			if (auto *x = dyn_cast<ReturnInst>(i))
				{
				Flow r; r.k = Flow::ret;
				if (x->getReturnValue()) r.value = value(fr, x->getReturnValue());
				return r;
				}
			if (isa<ResumeInst>(i)) { Flow r; r.k = Flow::thrown; return r; }
			if (isa<UnreachableInst>(i)) { Flow r; r.k = Flow::thrown; return r; }
			if (isa<FenceInst>(i)) continue;
			fail("undecided", std::string("instruction ") + i->getOpcodeName());
			}
		if (!next) fail("undecided", "no successor");
		if (next == stop) { Flow r; r.k = Flow::fall; r.at = stop; r.from = b; return r; }
		enter_phis(fr, next, b);
		prev = b; b = next;
		joined: ;
		}
	}

static const bool tracing = getenv("ABSINT_TRACE") != nullptr;		// a development aid: where it stopped
static Ret call(State &s, Function *f, std::vector<Bits> args, int depth)
	{
	if (depth > 200) fail("undecided", "recursion depth");
	covered[f->getName().str()]++;
	Frame fr; fr.f = f;
	unsigned k = 0;
	for (auto &a : f->args()) { if (k < args.size()) fr.v[&a] = args[k]; k++; }
	size_t mark = s.mem.size();
	(void)mark;
	Flow r;
	try { r = run(s, fr, &f->getEntryBlock(), nullptr, nullptr, depth, 0); }
	catch (Fail &) { if (tracing) fprintf(stderr, "in %s\n", demangle(f->getName().str()).c_str()); throw; }
	Ret out;
	if (r.k == Flow::thrown) { out.threw = true; return out; }
	out.returned = true; out.value = r.value;
	return out;
	}

static std::string describe(id_t32 x, const std::vector<int> &widths)
	{
	if (x < 2) return std::to_string(x);
	if (x == TOP) return "?";
	if (x == MIX) return "a mixture of several input bits";
	if (x == UNDEF) return "never written";
	id_t32 y = (x & ~NEG) - SYM;
	return std::string(x & NEG ? "!" : "") + "in[" + std::to_string(y / 64) + "]." + std::to_string(y % 64);
	}

static json::Object job(const json::Object &j)
	{
	json::Object out;
	out["id"] = j.getString("id")->str();
	if (auto h = j.getString("harness"))
		{
		pin = j.getInteger("pin").value_or(0); pinned = 0; check_alignment = !j.getInteger("unaligned").value_or(0);
		steps = 0; threaded = atomic_now = ordered_by_atomics = false; released_at.clear(); preempt_at = atomics_seen = 0; current_thread = unwatched = 0; clock_of.clear(); held_by.clear(); accesses.clear(); affine_on = true; next_symbol = SYM; atom_of.clear(); atoms.clear(); form_of.clear(); word_of.clear(); derived_symbols.clear(); obligations.clear(); ranked_by_top.clear(); ranked_word.clear();
		replacements.clear(); replacement_cache.clear();
		if (auto *r = j.getObject("replace")) for (auto &kv : *r) replacements.push_back({kv.first.str(), kv.second.getAsString()->str()});
		out["status"] = "done";
		try
			{
			State s = base_state;
			Function *f = M->getFunction(*h);
			if (!f || f->isDeclaration()) throw Fail{"undecided", "no harness " + h->str()};
			std::vector<Bits> args;
			unsigned k = 0;
			if (auto *a = j.getArray("args")) for (auto &v : *a) { args.push_back(Bits(bitsize(f->getArg(k)->getType()), (uint64_t)*v.getAsInteger())); k++; }
			if (auto *inits = j.getArray("init")) for (auto &v : *inits)
				for (auto &g : *M) if (demangle(g.getName().str()).find(v.getAsString()->str()) != std::string::npos && !g.isDeclaration()) call(s, &g, {}, 0);
			Ret r = call(s, f, args, 0);
			if (r.threw) throw Fail{"threw", "an exception leaves the harness"};
			}
		catch (Fail &x) { out["status"] = x.kind; out["why"] = x.why; }
		int64_t ok = 0; json::Array bad; std::map<std::string, int64_t> per;
		for (auto &o : obligations) { if (o.status == "ok") { ok++; per[o.what]++; } else if (bad.size() < 60) { json::Object b; b["what"] = o.what; b["status"] = o.status; b["why"] = o.why; bad.push_back(std::move(b)); } }
		json::Object pw; for (auto &kv : per) pw[kv.first] = kv.second;
		out["ok"] = ok; out["bad"] = std::move(bad); out["steps"] = (int64_t)steps; out["per"] = std::move(pw);
		affine_on = false;
		return out;
		}
	std::vector<int> widths;
	for (auto &w : *j.getArray("widths")) widths.push_back(*w.getAsInteger());
	size_t n = widths.size();
	int64_t cap = *j.getInteger("capacity"), slack = j.getInteger("slack").value_or(4096), dslack = j.getInteger("dslack").value_or(4096), src_slack = j.getInteger("src_slack").value_or(0);
	steps = 0;
	pin = j.getInteger("pin").value_or(0); pinned = 0; check_alignment = !j.getInteger("unaligned").value_or(0);
	try
		{
		State s = base_state;
		auto *gs = M->getGlobalVariable(*j.getString("size_of"), true);
		if (!gs || !gs->hasInitializer()) throw Fail{"undecided", "no size of the codec object"};
		int64_t object_size = cast<ConstantInt>(gs->getInitializer())->getSExtValue();
		uint64_t self = new_object(s, object_size, "codec object");
		auto ctor = j.getString("ctor").value_or("");
		if (!ctor.empty())
			{
			Function *f = M->getFunction(ctor);
			if (!f) throw Fail{"undecided", "no constructor " + ctor.str()};
			call(s, f, {Bits(64, self)}, 0);
			}
		if (j.getInteger("decode_only").value_or(0))
			{
			}
		uint64_t src = new_object(s, n * 4 + src_slack, "source array");
		std::vector<Bits> in;
		for (size_t k = 0; k < n; k++)
			{
			std::vector<id_t32> b(32, 0);
			// a width w: highest set bit at w-1, all lower bits free; w+100: exactly 2^(w-1); w+200: exactly 2^w - 1
			int w = widths[k] % 100, exact = widths[k] / 100;
			for (int q = 0; q < w; q++) b[q] = q == w - 1 || exact == 2 ? 1 : exact == 1 ? 0 : pin ? fresh_bit() : SYM + k * 64 + q;
			Bits x = from(b);
			in.push_back(x);
			store(s, src + k * 4, x);
			}
		uint64_t dst = new_object(s, cap, "destination buffer");
		Function *enc = M->getFunction(*j.getString("encode")), *dec = M->getFunction(*j.getString("decode"));
		if (!enc || !dec || enc->isDeclaration() || dec->isDeclaration()) throw Fail{"undecided", "encode/decode not found"};
		out["phase"] = "encode";
		Ret r = call(s, enc, {Bits(64, self), Bits(64, dst), Bits(64, cap), Bits(64, src), Bits(64, n)}, 0);
		if (r.threw) throw Fail{"threw", "encode throws"};
		if (!r.value.known) throw Fail{"undecided", "encoded length is not determined"};
		uint64_t used = r.value.v;
		out["used"] = (int64_t)used;
		if (used == 0) { out["status"] = "refused"; out["steps"] = (int64_t)steps; return out; }
		if (used > (uint64_t)cap) throw Fail{"overlong", "encode reports " + std::to_string(used) + " bytes for a buffer of " + std::to_string(cap)};
		// exactly the reported bytes are kept
		uint64_t enc2 = new_object(s, used + slack, "encoded sequence");
		for (uint64_t k = 0; k < used; k++) store(s, enc2 + k, load(s, dst + k, 8));
		uint64_t res = new_object(s, n * 4 + dslack, "decoded array");
		uint64_t self2 = new_object(s, object_size, "codec object");
		if (!ctor.empty()) call(s, M->getFunction(ctor), {Bits(64, self2)}, 0);
		out["phase"] = "decode";
		r = call(s, dec, {Bits(64, self2), Bits(64, res), Bits(64, n), Bits(64, enc2), Bits(64, used)}, 0);
		if (r.threw) throw Fail{"threw", "decode throws"};
		std::string bits;
		for (size_t k = 0; k < n; k++)
			{
			Bits x = load(s, res + k * 4, 32);
			for (int q = 0; q < 32; q++)
				if (x.get(q) != in[k].get(q) )
					{
					out["status"] = x.get(q) == TOP ? "unknown" : "mismatch";
					out["why"] = "decoded[" + std::to_string(k) + "] bit " + std::to_string(q) + " is " + describe(x.get(q), widths) + " but the encoded integer has " + describe(in[k].get(q), widths);
					out["steps"] = (int64_t)steps;
					return out;
					}
			}
		out["status"] = "ok";
		}
	catch (Fail &f)
		{
		out["status"] = f.kind;
		out["why"] = f.why;
		}
	out["steps"] = (int64_t)steps;
	return out;
	}

int main(int argc, char **argv)
	{
	if (argc < 4) return 2;
	LLVMContext ctx;
	SMDiagnostic err;
	auto m = parseIRFile(argv[1], err, ctx);
	if (!m) { err.print(argv[0], errs()); return 2; }
	M = m.get();
	DL = &M->getDataLayout();
	{
	LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam;
	PassBuilder pb;
	pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam);
	pb.crossRegisterProxies(lam, fam, cam, mam);
	ModulePassManager mpm;
	if (auto e = pb.parsePassPipeline(mpm, "function(sroa,instsimplify,simplifycfg)")) return 2;
	mpm.run(*M, mam);
	}
	auto buf = MemoryBuffer::getFile(argv[2]);
	if (!buf) return 2;
	auto jobs = json::parse((*buf)->getBuffer());
	if (!jobs) { errs() << "bad jobs\n"; return 2; }
	where_now = nullptr;
	setup_globals();
	json::Array results;
	if (argc > 4) { SmallVector<StringRef, 8> q; StringRef(argv[4]).split(q, '|'); for (auto x : q) if (!x.empty()) stubs.push_back(x.str()); }
	// the jobs are shared out between PAR processes (each writes OUT.k)
	int par = argc > 5 ? atoi(argv[5]) : 1;
	auto *next = (std::atomic<uint64_t> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::string out_name = argv[3];
	bool child = par <= 1;
	std::vector<pid_t> kids;
	for (int k = 0; k < par && !child; k++)
		{
		pid_t p = fork();
		if (p < 0) return 2;
		if (p == 0) { child = true; out_name += "." + std::to_string(k); }
		else kids.push_back(p);
		}
	if (!child)
		{
		int bad = 0;
		for (auto p : kids) { int st = 0; waitpid(p, &st, 0); if (st) { bad = 1; errs() << "worker ended with status " << st << "\n"; } }
		return bad ? 3 : 0;
		}
	auto &todo = *jobs->getAsArray();
	for (uint64_t k; (k = next->fetch_add(1)) < todo.size();) 
		{
		// next[1] is the most steps a job took, next[2] how many did not end: after a few of those the rest are given up sooner
		where_now = nullptr;
		step_limit = todo[k].getAsObject()->getInteger("limit").value_or(30000000);
		if (next[2] >= 2) step_limit = std::min<uint64_t>(step_limit, next[1] * 4 + 200000);
		results.push_back(job(*todo[k].getAsObject()));
		if (steps > step_limit) next[2]++;
		else for (uint64_t most = next[1]; steps > most && !next[1].compare_exchange_weak(most, steps); ) ;
		}
	if (profiling)
		for (auto &kv : profile) if (kv.second > 50000) errs() << kv.second << " " << StringRef(demangle(kv.first->getName().str())).take_front(120) << "\n";
	json::Object o;
	o["results"] = std::move(results);
	json::Object cv;
	for (auto &kv : covered) cv[demangle(kv.first)] = (int64_t)kv.second;
	o["functions"] = std::move(cv);
	json::Object cb;
	for (auto &kv : covered_blocks)
		{
		std::string d = demangle(kv.first->getName().str());
		if (!StringRef(d).starts_with("JASS::") && !StringRef(d).starts_with("streamvbyte")) continue;
		json::Array miss;
		for (auto &bb : *kv.first)
			if (!kv.second.count(&bb))
				{
				int64_t line = 0;
				for (auto &i : bb) if (auto &dl = i.getDebugLoc()) if (dl.getLine()) { line = dl.getLine(); break; }
				miss.push_back(line);
				}
		json::Object e;
		e["blocks"] = (int64_t)kv.first->size();
		e["covered"] = (int64_t)kv.second.size();
		e["uncovered_lines"] = std::move(miss);
		cb[d] = std::move(e);
		}
	o["blocks"] = std::move(cb);
	std::error_code ec;
	raw_fd_ostream out(out_name, ec);
	out << json::Value(std::move(o));
	return 0;
	}
