// Runs one program inside of the simulator and records its history (harness, not instrumented).
#include "exec.hpp"

#include <algorithm>
#include <climits>
#include <cstring>
#include <exception>
#include <utility>

namespace sim
{
	// places for the base expectations of a mock (noexcept ones must accept every call)
	constexpr int kBaseSlots = 16;

	World* g_world = nullptr;

	std::source_location make_loc(const LocImpl* impl)
	{
		std::source_location loc;
		static_assert(sizeof(loc) == sizeof(impl));
		std::memcpy(static_cast<void*>(&loc), &impl, sizeof impl);
		return loc;
	}

	int match_value(int form, int a, int b, int v)
	{
		switch (form)
		{
		case M_ANY: return 1;
		case M_EQ: return v == a;
		case M_LT: return v < a;
		case M_NE: return v != a;
		default:
			if (v < 0 || v > 7)
				return 0;
			if (b >> v & 1)
				return 2;
			return a >> v & 1;
		}
	}

	// ------------------------------------------------------------------ port registry
	template <int part>
	struct Tag
	{
	};
	struct PortInt;
	PortOps ops_int();
	PortOps ops_void();
	PortOps ops_refstr();
	PortOps ops_move();
	PortOps ops_prn();
	PortOps ops_const();
	PortOps ops_refret();
	PortOps ops_refq();
	PortOps ops_ovl();
	PortOps ops_iface();
	PortOps ops_wide();
	PortOps ops_iface2();
	PortOps ops_noex();
	std::vector<LeafInfo> leaves_int();
	std::vector<LeafInfo> leaves_void();
	std::vector<LeafInfo> leaves_refstr();
	std::vector<LeafInfo> leaves_move();
	std::vector<LeafInfo> leaves_prn();
	std::vector<LeafInfo> leaves_const();
	std::vector<LeafInfo> leaves_refret();
	std::vector<LeafInfo> leaves_refq();
	std::vector<LeafInfo> leaves_ovl();
	std::vector<LeafInfo> leaves_iface();
	std::vector<LeafInfo> leaves_wide();
	std::vector<LeafInfo> leaves_iface2();
	std::vector<LeafInfo> leaves_noex();
	std::vector<LeafInfo> leaves_destruct();
	std::vector<LeafInfo> leaves_reloc();

	const PortOps& port_ops(int port)
	{
		static const PortOps t[] = {ops_int(), ops_void(), ops_refq(), ops_ovl(), ops_refstr(), ops_iface(), ops_move(), ops_prn(), ops_const(), ops_refret(), ops_wide(), ops_iface2(), ops_noex()};
		return t[port];
	}
	const std::vector<LeafInfo>& leaves(int port)
	{
		static const std::vector<LeafInfo> t[] = {leaves_int(), leaves_void(), leaves_refq(), leaves_ovl(), leaves_refstr(), leaves_iface(), leaves_move(), leaves_prn(), leaves_const(), leaves_refret(), leaves_wide(), leaves_iface2(), leaves_noex(), leaves_destruct(), leaves_reloc()};
		return t[port];
	}
	const std::vector<EpInfo>& eps(int port)
	{
		constexpr ArgInfo I{AT_INT}, IR{AT_INT, true}, IC{AT_INT, true, true}, T{AT_TEXT}, TR{AT_TEXT, true}, TC{AT_TEXT, true, true}, P{AT_PTR}, F{AT_FRAGILE}, YR{AT_PAYLOAD, true}, YC{AT_PAYLOAD, true, true};
		//                  name coll n cat const from noexcept args
		static const std::vector<EpInfo> t[] = {
			{{"int(int)", 0, 1, 3, 1, true, false, {I}}},
			{EpInfo{"void()", 0, 0, 3, 1, true, false, {}, false, AT_VOID}},
			{{"int(int)&", 0, 1, 1, 1, true, false, {I}},
			 {"int(int)const&", 0, 1, 1, 2, true, false, {I}},
			 {"int(int)&&", 0, 1, 2, 1, true, false, {I}},
			 {"int(int)const&&", 0, 1, 2, 2, true, false, {I}}},
			{{"int(int)", 0, 1, 3, 1, true, false, {I}},
			 {"int(int)const", 0, 1, 3, 2, true, false, {I}},
			 {"int(const string&)", 1, 1, 3, 1, true, false, {TC}},
			 {"void(int&,int)", 2, 2, 3, 1, true, false, {IR, I}, false, AT_VOID}},
			{{"void(int&,string)", 0, 2, 3, 1, true, false, {IR, T}, false, AT_VOID}},
			{{"foo(int)", 0, 1, 3, 1, false, false, {I}},
			 {"foo(int)const", 0, 1, 3, 2, false, false, {I}},
			 {"foo(const string&)", 1, 1, 3, 1, false, false, {TC}},
			 {"bar(int&)", 2, 1, 3, 1, false, false, {IR}, false, AT_VOID},
			 {"baz(int,int)const", 3, 2, 3, 2, false, false, {I, I}}},
			{{"int(unique_ptr)", 0, 1, 3, 1, true, false, {P}}},
			{{"int(Fragile)", 0, 1, 3, 1, true, false, {F}}},
			{{"int(int,const int&)const", 0, 2, 3, 2, true, false, {I, IC}}},
			{{"int&(int&)", 0, 1, 3, 1, true, false, {IR}, true}},
			{{"Payload(int,string&,const Payload&)", 0, 3, 3, 1, true, false, {I, TR, YC}, false, AT_PAYLOAD},
			 {"Payload&(Payload&,int,Payload&&)const", 1, 3, 3, 2, true, false, {YR, I, YR}, true, AT_PAYLOAD},
			 {"unique_ptr(unique_ptr,const string&)", 2, 2, 3, 1, true, false, {P, TC}, false, AT_PTR}},
			{{"q(int)&", 0, 1, 1, 1, false, false, {I}},
			 {"q(int)const&", 0, 1, 1, 2, false, false, {I}},
			 {"q(int)&&", 0, 1, 2, 1, false, false, {I}},
			 {"q(int)const&&", 0, 1, 2, 2, false, false, {I}},
			 {"none()", 1, 0, 3, 1, false, false, {}, false, AT_VOID},
			 {"tri(int,string&,const Payload&)const", 2, 3, 3, 2, false, false, {I, TR, YC}, false, AT_PAYLOAD},
			 {"tri(int,int)", 3, 2, 3, 1, false, false, {I, I}},
			 {"take(unique_ptr,Payload&&)", 4, 2, 3, 1, false, false, {P, YR}}},
			{{"int(int)& noexcept", 0, 1, 1, 1, true, true, {I}},
			 {"int(int)const& noexcept", 0, 1, 1, 2, true, true, {I}},
			 {"int(int)&& noexcept", 0, 1, 2, 1, true, true, {I}},
			 {"int(int)const&& noexcept", 0, 1, 2, 2, true, true, {I}},
			 {"int(int) noexcept", 1, 1, 3, 1, true, true, {I}},
			 {"int(int)const noexcept", 1, 1, 3, 2, true, true, {I}},
			 {"iq(int)& noexcept", 2, 1, 1, 1, false, true, {I}},
			 {"iq(int)const& noexcept", 2, 1, 1, 2, false, true, {I}},
			 {"iq(int)&& noexcept", 2, 1, 2, 1, false, true, {I}},
			 {"iq(int)const&& noexcept", 2, 1, 2, 2, false, true, {I}},
			 {"in(int) noexcept", 3, 1, 3, 1, false, true, {I}},
			 {"in(int)const noexcept", 3, 1, 3, 2, false, true, {I}}},
			{EpInfo{"destruct", 0, 0, 3, 1, false, false, {}, false, AT_VOID}},
			{EpInfo{"relocate", 0, 0, 3, 1, false, false, {}, false, AT_VOID}}};
		return t[port];
	}

	int effect_count(int f)
	{
		return f == E_0 ? 0 : f == E_AI || f == E_P ? 2 : f == E_IAL || f == E_R ? 3 : 1;
	}
	std::vector<int> effect_args(int f, int k, int n)
	{
		std::vector<int> all;
		for (int i = 0; i < n; ++i)
			all.push_back(i);
		if (n == 0)
			return {};
		switch (f)
		{
		case E_A: return {0};
		case E_AI: return k == 0 ? std::vector<int>{0} : std::vector<int>{};
		case E_IAL: return k == 1 ? all : k == 2 ? std::vector<int>{0} : std::vector<int>{};
		case E_P: return k == 0 ? std::vector<int>{n - 1, 0} : std::vector<int>{1};
		case E_R:
			if (k == 0)
				return {1, 1};
			if (k == 1)
				return all;
			std::reverse(all.begin(), all.end());
			return all;
		default: return {};
		}
	}
	std::vector<int> finalizer_args(int f, int n)
	{
		std::vector<int> all;
		for (int i = 0; i < n; ++i)
			all.push_back(i);
		switch (f)
		{
		case F_APPLY: return {0};
		case F_ALL: return all;
		case F_PERM: return {n - 1, 0};
		default: return {};
		}
	}
	const char* seq_kinds(int f)
	{
		switch (f)
		{
		case S_L: return "L";
		case S_G: return "G";
		case S_LL:
		case S_L_L: return "LL";
		case S_LG:
		case S_L_G: return "LG";
		case S_GG: return "GG";
		case S_LLL: return "LLL";
		case S_L_LG: return "LLG";
		default: return "";
		}
	}
	int seq_count(int f) { return static_cast<int>(std::strlen(seq_kinds(f))); }

	// ------------------------------------------------------------------ executor
	namespace
	{
		struct MockState
		{
			void* p = nullptr;
			int port = 0;
			int coll = -1;		// identity of the first collection
			bool shell = false;
			int pins = 0;
			bool booting = false;	// the base expectations are not complete yet
		};
		struct SeqState
		{
			void* p = nullptr;
			char kind = 'L';
			int ident = -1;
			int pins = 0;
			bool used = false;	// has got a member
		};
		struct ObjState
		{
			void* p = nullptr;
			int type = 0;
			int dcoll = -1;		// identity of the destruction collection; -1: none
			bool flagged = false;	// a destruct expectation has been created
			int rcoll = -1;
			int pins = 0;
		};
		struct Slot
		{
			::mimicpp::ScopedExpectation* h = nullptr;
			int inst = -1;
			int busy = 0;		// a query is running
		};

		constexpr uint64_t kMaxSteps = 3000;

		bool has_l(int type) { return type == 0 || type == 2 || type == 3 || type == 4; }
		bool has_r(int type) { return type == 1 || type == 2 || type == 5; }

		struct Exec
		{
			const Program& prog;
			World& w;
			std::vector<MockState> mocks;
			std::vector<SeqState> seqs;
			std::vector<ObjState> objs;
			std::vector<Slot> slots;
			std::vector<int> stack[rt::kMaxTasks];
			int depth[rt::kMaxTasks] = {};
			bool inMatcher[rt::kMaxTasks] = {};	// the next record is one of a matcher
			int actions[rt::kMaxTasks] = {};	// running actions per task
			int calls = 0;
			int reporterId = 0;
			bool quiet = false;	// (a series of calls is running)
			int quietFull = 0, quietOther = 0, quietInst = -1;
			int phase = 0;
			uint64_t steps = 0;

			Exec(const Program& p, World& world) : prog{p}, w{world} {}

			// -------------------------------------------------------------- records
			int push(int kind, const Op& op)
			{
				const int me = rt::self();
				const int idx = static_cast<int>(w.recs.size());
				Rec& r = w.recs.emplace_back();
				r.kind = kind;
				r.task = me;
				r.opId = op.id;
				r.op = op.kind;
				r.parent = stack[me].empty() ? -1 : stack[me].back();
				r.inMatcher = std::exchange(inMatcher[me], false);
				r.reporterKind = prog.reporter;
				r.uncaught = std::uncaught_exceptions();
				r.t0 = rt::now();
				if (rt::take_alloc_fault() && r.parent >= 0)
					w.recs[static_cast<std::size_t>(r.parent)].fault = true;
				stack[me].push_back(idx);
				w.current = idx;
				return idx;
			}
			Rec& pop(int idx)
			{
				Rec& r = w.recs[static_cast<std::size_t>(idx)];
				r.t1 = rt::now();
				r.fault |= rt::take_alloc_fault();
				stack[rt::self()].pop_back();
				return r;
			}

			// what referred to an object on the stack of a finished operation reads garbage from now on
			[[gnu::noinline]] static void scrub_stack()
			{
				char garbage[4096];
				std::memset(garbage, 0x5b, sizeof garbage);
				asm volatile("" : : "r"(garbage) : "memory");
			}

			template <typename F>
			Rec& guarded(int idx, const Op& op, F&& f)
			{
				rt::point(rt::P_OP);
				rt::arm_alloc_fault(op.fault);
				try
				{
					rt::Sut sut;
					f();
				}
				catch (...)
				{
					rt::arm_alloc_fault(0);
					classify(w.recs[static_cast<std::size_t>(idx)]);
				}
				rt::arm_alloc_fault(0);
				scrub_stack();
				return pop(idx);
			}

			// -------------------------------------------------------------- helpers
			MockState* mock(int i)
			{
				if (i < 0 || i >= static_cast<int>(mocks.size()) || !mocks[static_cast<std::size_t>(i)].p)
					return nullptr;
				return &mocks[static_cast<std::size_t>(i)];
			}
			ObjState* obj(int i)
			{
				if (i < 0 || i >= static_cast<int>(objs.size()) || !objs[static_cast<std::size_t>(i)].p)
					return nullptr;
				return &objs[static_cast<std::size_t>(i)];
			}
			SeqState* seq(int i)
			{
				if (i < 0 || i >= static_cast<int>(seqs.size()) || !seqs[static_cast<std::size_t>(i)].p)
					return nullptr;
				return &seqs[static_cast<std::size_t>(i)];
			}
			Slot* slot(int i)
			{
				if (i < 0 || i >= static_cast<int>(slots.size()))
					return nullptr;
				return &slots[static_cast<std::size_t>(i)];
			}
			std::source_location loc(const char* file, int line)
			{
				// (like real ones they live for ever)
				static std::deque<LocImpl> pools[2][2];
				const bool column = prog.sites < 0;
				const int n = w.site(line);
				auto& pool = pools[file[0] == 'e'][column];
				while (static_cast<int>(pool.size()) <= n)
				{
					const unsigned k = static_cast<unsigned>(pool.size());
					pool.push_back(column ? LocImpl{file, "fn", 7, k} : LocImpl{file, "fn", k, 1});
				}
				return make_loc(&pool[static_cast<std::size_t>(n)]);
			}

			void make_mock(int i, int port)
			{
				MockState& m = mocks[static_cast<std::size_t>(i)];
				void* p;
				{
					rt::Sut sut;
					p = port_ops(port).make();
				}
				m.p = p;
				m.port = port;
				m.coll = w.colls;
				m.shell = false;
				w.colls += port_ops(port).nColl;
				if (port == PT_NOEX)
				{
					m.booting = true;
					++m.pins;
					for (int ep = 0; ep < static_cast<int>(eps(port).size()); ++ep)
					{
						Op op;
						op.kind = OP_CREATE;
						op.id = 100000 + i * 100 + ep;
						op.mock = i;
						op.leaf = ep;
						op.slot = prog.slots + i * kBaseSlots + ep;
						op.tmin = 0;
						create(op);
					}
					--m.pins;
					m.booting = false;
				}
			}
			bool base_slots_free(int i) const
			{
				for (int k = 0; k < kBaseSlots; ++k)
					if (slots[static_cast<std::size_t>(prog.slots + i * kBaseSlots + k)].h)
						return false;
				return true;
			}
			void make_seq(int i, char kind)
			{
				SeqState& s = seqs[static_cast<std::size_t>(i)];
				s.kind = kind;
				s.ident = static_cast<int>(w.seqs.size());
				w.seqs.push_back({kind});
				rt::Sut sut;
				for (int k = prog.seqs[static_cast<std::size_t>(i)].before; k > 0; --k)
					seq_destroy(kind, seq_make(kind));
				s.p = seq_make(kind);
			}
			void new_identity(ObjState& o)
			{
				o.dcoll = has_l(o.type) ? w.colls++ : -1;
				o.flagged = false;
			}

			// -------------------------------------------------------------- operations
			void create(const Op& op)
			{
				Slot* s = slot(op.slot);
				if (!s || s->h || s->busy)
					return;
				int port, coll;
				void* target;
				ObjRef ref{};
				int* pin;
				if (op.ep == PT_DESTRUCT || op.ep == PT_RELOC)
				{
					ObjState* o = obj(op.mock);
					if (!o || o->pins)
						return;
					port = op.ep;
					coll = port == PT_DESTRUCT ? o->dcoll : o->rcoll;
					if (coll < 0)
						return;
					ref = {o->type, o->p};
					target = &ref;
					pin = &o->pins;
				}
				else
				{
					MockState* m = mock(op.mock);
					if (!m || m->shell)
						return;
					port = m->port;
					coll = m->coll;
					target = m->p;
					pin = &m->pins;
				}
				const auto& table = leaves(port);
				const int leaf = op.leaf % static_cast<int>(table.size());
				const LeafInfo& L = table[static_cast<std::size_t>(leaf)];
				if (port < PT_DESTRUCT)
					coll += eps(port)[L.ep].coll;

				CreateCtx ctx{};
				const char* kinds = seq_kinds(L.s);
				const int n = seq_count(L.s);
				SeqState* ss[3] = {};
				for (int i = 0; i < n; ++i)
				{
					ss[i] = seq(op.seq[i]);
					if (!ss[i] || ss[i]->kind != kinds[i])
						return;
					for (int j = 0; j < i; ++j)
						if (ss[j] == ss[i])
							return;
					ctx.seq[i] = ss[i]->p;
				}

				const int id = static_cast<int>(w.insts.size());
				Inst& inst = w.insts.emplace_back();
				w.refCells.push_back(400000 + id);
				inst.id = id;
				inst.port = port;
				inst.coll = coll;
				inst.ep = L.ep;
				inst.leaf = L;
				inst.op = op;
				inst.category = eps(port)[L.ep].category;
				inst.constness = eps(port)[L.ep].constness;
				switch (L.t)
				{
				case T_RANGE: inst.lo = op.tmin, inst.hi = op.tmax; break;
				case T_EXACT: inst.lo = inst.hi = op.tmin; break;
				case T_ATLEAST: inst.lo = op.tmin, inst.hi = INT_MAX; break;
				case T_ATMOST: inst.lo = 0, inst.hi = op.tmax; break;
				case T_TWICE: inst.lo = inst.hi = 2; break;
				default: inst.lo = inst.hi = 1; break;
				}
				inst.nSeq = n;
				for (int i = 0; i < n; ++i)
				{
					inst.seq[i] = ss[i]->ident;
					inst.seqKind[i] = ss[i]->kind;
					++ss[i]->pins;
					ss[i]->used = true;
				}
				++*pin;
				const int idx = push(R_CREATE, op);
				inst.createRec = idx;
				w.recs.back().id = id;
				w.recs.back().coll = coll;
				bool refused = false;
				if (port == PT_DESTRUCT)
				{
					ObjState* o = obj(op.mock);
					refused = o->flagged;
					o->flagged = true;
				}
				w.recs.back().variant = refused ? 1 : 0;
				ctx.op = &inst.op;
				ctx.inst = id;
				ctx.loc = loc("exp", id);
				const CreateFn fn = port == PT_DESTRUCT ? destruct_leaves[leaf] : port == PT_RELOC ? reloc_leaves[leaf] : port_ops(port).create[leaf];
				::mimicpp::ScopedExpectation* h = nullptr;
				++s->busy;
				guarded(idx, op, [&] { h = fn(target, ctx); });
				--s->busy;
				--*pin;
				for (int i = 0; i < n; ++i)
					--ss[i]->pins;
				if (h)
				{
					s->h = h;
					s->inst = id;
					rt::sync_release(s);
				}
			}

			void end_handle(const Op& op, Slot& s)
			{
				const int idx = push(R_DESTROY, op);
				w.recs.back().id = s.inst;
				auto* h = s.h;
				s = {};
				guarded(idx, op, [&] { handle_destroy(h, op.ctx); });
			}

			void call(const Op& op)
			{
				MockState* m = mock(op.mock);
				if (!m || m->shell || m->booting)
					return;
				const auto& table = eps(m->port);
				const int ep = op.ep % static_cast<int>(table.size());
				const EpInfo& e = table[static_cast<std::size_t>(ep)];
				++m->pins;
				const int idx = push(R_CALL, op);
				const int id = ++calls;
				{
					Rec& r = w.recs.back();
					r.id = e.from ? id : -1;
					r.port = m->port;
					r.ep = ep;
					r.coll = m->coll + e.coll;
					r.in[0] = op.a;
					r.in[1] = op.b;
					r.in[2] = op.c;
					r.printFails = m->port == PT_PRN && op.a >= 900;
				}
				CallCtx c;
				c.v[0] = op.a;
				c.v[1] = op.b;
				c.v[2] = op.c;
				c.loc = loc("call", id);
				const int port = m->port;
				void* const p = m->p;
				++depth[rt::self()];
				Rec& r = guarded(idx, op, [&] { port_ops(port).call(p, ep, c); });
				--depth[rt::self()];
				--m->pins;
				for (int k = 0; k < kArgs; ++k)
				{
					r.out[k] = c.v[k];
					r.argAddr[k] = c.argAddr[k];
				}
				r.result = c.result;
				r.resultAddr = c.resultAddr;
			}

			// many equal calls; only the accepting expectations are recorded
			void series(const Op& op)
			{
				MockState* m = mock(op.mock);
				if (!m || m->shell || m->booting || prog.mode != 0 || depth[rt::self()] || prog.reporter > RK_SIMTHROW)
					return;
				const auto& table = eps(m->port);
				const int ep = op.ep % static_cast<int>(table.size());
				const EpInfo& e = table[static_cast<std::size_t>(ep)];
				const int idx = push(R_SERIES, op);
				std::vector<std::pair<int, int>> result;
				{
					Rec& r = w.recs.back();
					r.port = m->port;
					r.ep = ep;
					r.coll = m->coll + e.coll;
					r.in[0] = op.a;
					r.in[1] = op.b;
					r.in[2] = op.c;
				}
				++depth[rt::self()];
				quiet = true;
				bool more = true;
				for (int i = 0; i < op.d && more; ++i)
				{
					CallCtx c;
					c.v[0] = op.a;
					c.v[1] = op.b;
					c.v[2] = op.c;
					c.loc = loc("call", 1);
					quietFull = quietOther = 0;
					quietInst = -1;
					try
					{
						port_ops(m->port).call(m->p, ep, c);
						more = quietFull == 1 && quietOther == 0;
					}
					catch (...)
					{
						more = false;
					}
					const int x = quietFull == 1 ? quietInst : -1;
					if (result.empty() || result.back().first != x)
						result.emplace_back(x, 0);
					++result.back().second;
				}
				quiet = false;
				--depth[rt::self()];
				Rec& r = pop(idx);
				r.series = std::move(result);
				r.variant = !more;
			}

			// a sequence gets many members, which are fulfilled and destroyed one after another; all of them are recorded as the same expectation
			void churn(const Op& op)
			{
				MockState* m = mock(op.mock);
				if (!m || m->shell || m->booting || prog.mode != 0 || depth[rt::self()] || prog.reporter > RK_SIMTHROW)
					return;
				const auto& table = leaves(m->port);
				const int leaf = op.leaf % static_cast<int>(table.size());
				const LeafInfo& L = table[static_cast<std::size_t>(leaf)];
				if (seq_count(L.s) > 1 || (L.t != T_DEF && L.t != T_ONCE) || (L.m != M_ANY && L.m != M_EQ) || L.f == F_THROW || m->port >= PT_DESTRUCT || m->port == PT_PRN)
					return;
				const bool sequenced = seq_count(L.s) == 1;
				SeqState* q = sequenced ? seq(op.seq[0]) : nullptr;
				if (sequenced && (!q || q->used || seq_kinds(L.s)[0] != q->kind))
					return;
				for (const Slot& s : slots)
					if (s.h)
					{
						// it has to be the preferred one
						const Inst& i = w.insts[static_cast<std::size_t>(s.inst)];
						if (sequenced || (i.coll == m->coll + eps(m->port)[L.ep].coll && (i.nSeq || i.op.b || i.op.d || i.op.f)))
							return;
					}
				if (q)
					q->used = true;
				const int id = static_cast<int>(w.insts.size());
				Inst& inst = w.insts.emplace_back();
				w.refCells.push_back(400000 + id);
				inst.id = id;
				inst.port = m->port;
				inst.ep = L.ep;
				inst.coll = m->coll + eps(m->port)[L.ep].coll;
				inst.leaf = L;
				inst.op = op;
				CreateCtx ctx{};
				if (q)
				{
					inst.nSeq = 1;
					inst.seq[0] = q->ident;
					inst.seqKind[0] = q->kind;
					ctx.seq[0] = q->p;
				}
				ctx.op = &inst.op;
				ctx.inst = id;
				ctx.loc = loc("exp", id);
				const int idx = push(R_CHURN, op);
				w.recs.back().id = id;
				inst.createRec = idx;
				++depth[rt::self()];
				quiet = true;
				int n = 0, seen = 0;
				const auto callLoc = loc("call", 1);
				const CreateFn fn = port_ops(m->port).create[leaf];
				for (; n < op.d; ++n)
				{
					std::fill(std::begin(inst.fxCalls), std::end(inst.fxCalls), 0);
					inst.finCalls = 0;
					quietFull = quietOther = 0;
					quietInst = -1;
					::mimicpp::ScopedExpectation* h = nullptr;
					try
					{
						h = fn(m->p, ctx);
						CallCtx c;
						c.v[0] = op.a;
						c.v[1] = op.c;
						c.v[2] = op.e;
						c.loc = callLoc;
						port_ops(m->port).call(m->p, L.ep, c);
						seen = quietInst;
					}
					catch (...)
					{
						seen = -1;
					}
					if (h)
						try
						{
							handle_destroy(h, 0);
						}
						catch (...)
						{
							seen = -1;
						}
					if (seen != w.site(id) || quietFull != 1 || quietOther)
						break;
				}
				quiet = false;
				--depth[rt::self()];
				Rec& r = pop(idx);
				r.value = n;
			}

			// a watcher operation, which is expected to report a call to the given collection (-1: no call)
			template <typename F>
			Rec& watcher_op(const Op& op, int port, int coll, F&& f)
			{
				const int idx = push(R_CALL, op);
				Rec& r = w.recs.back();
				r.id = -1;
				r.port = port;
				r.coll = coll;
				r.noCall = coll < 0;
				++depth[rt::self()];
				Rec& rr = guarded(idx, op, f);
				--depth[rt::self()];
				return rr;
			}

			static bool accepted(const Rec& r) { return r.outcome == O_OK || r.outcome == O_ACTION; }

			void obj_op(const Op& op)
			{
				const int n = static_cast<int>(objs.size());
				const auto pos = [&](int i) { return i >= 0 && i < n ? &objs[static_cast<std::size_t>(i)] : nullptr; };
				ObjState* a = pos(op.mock);
				ObjState* b = pos(op.mock2);
				if (!a || a->pins || (b && b->pins))
					return;
				switch (op.kind)
				{
				case OP_OBJNEW:
					if (a->p)
						return;
					{
						a->type = prog.objs[static_cast<std::size_t>(op.mock)].type;
						++a->pins;
						watcher_op(op, PT_DESTRUCT, -1, [&] { a->p = obj_make(a->type); });
						--a->pins;
						if (a->p)
						{
							new_identity(*a);
							a->rcoll = has_r(a->type) ? w.colls++ : -1;
						}
					}
					break;
				case OP_OBJDEL:
					if (!a->p)
						return;
					{
						void* p = a->p;
						const int type = a->type, coll = a->dcoll;
						*a = {};
						a->type = type;
						watcher_op(op, PT_DESTRUCT, coll, [&] { obj_destroy(type, p); });
					}
					break;
				case OP_OBJMOVE:	// a -> new b
					if (!a->p || !b || b->p || a == b || prog.objs[static_cast<std::size_t>(op.mock)].type != prog.objs[static_cast<std::size_t>(op.mock2)].type)
						return;
					if (has_r(a->type) && a->rcoll < 0)
						return;
					{
						void* q = nullptr;
						++a->pins, ++b->pins;
						const Rec& r = watcher_op(op, PT_RELOC, a->rcoll, [&] { q = obj_move(a->type, a->p); });
						--a->pins, --b->pins;
						(void)r;
						if (q)
						{
							if (a->dcoll >= 0 || a->rcoll >= 0)
								w.feature(FT_IDENTITY_MOVED);
							for (const Slot& s : slots)
								if (s.h && a->rcoll >= 0 && w.insts[static_cast<std::size_t>(s.inst)].coll == a->rcoll)
									w.feature(FT_RELOC_CARRIED);
							const int type = a->type;
							*b = {q, type, a->dcoll, a->flagged, a->rcoll, 0};
							a->dcoll = -1;
							a->rcoll = -1;
						}
					}
					break;
				case OP_OBJASSIGN:	// a -> existing b
					if (!a->p || !b || !b->p || a->type != b->type)
						return;
					if (has_r(a->type) && a->rcoll < 0)
						return;
					if (a != b && has_l(b->type) && b->dcoll >= 0)	// unspecified: the previous identity would be lost
						return;
					{
						bool done = false;
						++a->pins, ++b->pins;
						watcher_op(op, PT_RELOC, a->rcoll, [&] { obj_assign(a->type, b->p, a->p); done = true; });
						--a->pins, --b->pins;
						if (done && a != b)
						{
							w.feature(FT_IDENTITY_MOVED);
							b->dcoll = a->dcoll;
							b->flagged = a->flagged;
							b->rcoll = a->rcoll;
							a->dcoll = -1;
							a->rcoll = -1;
						}
					}
					break;
				case OP_OBJCOPY:	// a -> new b
					if (!a->p || !b || b->p || a == b || prog.objs[static_cast<std::size_t>(op.mock)].type != prog.objs[static_cast<std::size_t>(op.mock2)].type)
						return;
					{
						void* q = nullptr;
						++a->pins, ++b->pins;
						watcher_op(op, PT_DESTRUCT, -1, [&] { q = obj_copy(a->type, a->p); });
						--a->pins, --b->pins;
						if (q)
						{
							*b = {q, a->type, -1, false, -1, 0};
							new_identity(*b);
							b->rcoll = has_r(b->type) ? w.colls++ : -1;
						}
					}
					break;
				default:	// OP_OBJCOPYASSIGN: a -> existing b
					if (!a->p || !b || !b->p || a->type != b->type)
						return;
					{
						bool done = false;
						const int old = b->dcoll;
						++a->pins, ++b->pins;
						watcher_op(op, PT_DESTRUCT, old, [&] { obj_copy_assign(b->type, b->p, a->p); done = true; });
						--a->pins, --b->pins;
						if (has_r(b->type))
							b->rcoll = done || has_l(b->type) ? w.colls++ : b->rcoll;
						if (done)
							new_identity(*b);
						else if (has_l(b->type))
						{
							b->dcoll = -1;	// ended, but not replaced
							b->rcoll = -1;
						}
					}
					break;
				}
			}

			// deleting, moving and so on
			template <typename F>
			bool plain(const Op& op, F&& f)
			{
				const int idx = push(R_OTHER, op);
				return guarded(idx, op, f).outcome == O_OK;
			}

			void unwind(const Op& op)
			{
				struct Guard
				{
					Exec& e;
					int block;
					~Guard()
					{
						e.run_block(block);
					}
				};
				const bool saved = rt::tls_in_sut;
				++w.unwinds;
				try
				{
					const Guard g{*this, op.block};
					throw UnwindError{1};
				}
				catch (const UnwindError&)
				{
				}
				rt::tls_in_sut = saved;
			}

			// no new operation is started after that (keeps the runs finite)
			bool exhausted()
			{
				const bool yes = steps >= kMaxSteps || (prog.mode == 0 && rt::total_events() > 1500000);
				w.limited |= yes;
				return yes;
			}

			// runs an operation several times (on consecutive slots)
			template <typename F>
			void repeat(const Op& op, F&& f)
			{
				f(op);
				for (int i = 1; i < op.rep && !exhausted(); ++i)
				{
					++steps;
					rt::point(rt::P_OP);
					Op o = op;
					if (op.kind != OP_CALL)
					{
						o.slot += i;
						if (o.slot >= prog.slots)
							break;
					}
					if (op.ev)
						o.a = (op.a + i * op.ev) % 8;
					f(o);
				}
			}

			void run_op(const Op& op)
			{
				++steps;
				++w.opsRun;
				rt::point(rt::P_OP);
				switch (op.kind)
				{
				case OP_CREATE:
					repeat(op, [&](const Op& o) { create(o); });
					break;
				case OP_DESTROY:
					repeat(op, [&](const Op& o) {
						Slot* s = slot(o.slot);
						if (!s || !s->h || s->busy)
							return;
						rt::sync_acquire(s);
						Slot tmp = *s;
						*s = {};
						end_handle(o, tmp);
					});
					break;
				case OP_MOVE:
				{
					Slot* s = slot(op.slot);
					Slot* d = slot(op.slot2);
					if (!s || !d || s == d || !s->h || d->h || s->busy || d->busy)
						return;
					rt::sync_acquire(s);
					rt::sync_acquire(d);
					Slot tmp = *s;
					*s = {};
					::mimicpp::ScopedExpectation* n = nullptr;
					w.feature(FT_HANDLE_MOVED);
					++d->busy;
					plain(op, [&] { n = handle_move(tmp.h); });
					--d->busy;
					if (n)
						tmp.h = n;
					*d = tmp;
					rt::sync_release(d);
					break;
				}
				case OP_ASSIGN:
				{
					Slot* d = slot(op.slot);
					Slot* s = slot(op.slot2);
					if (!s || !d || !s->h || !d->h || s->busy || d->busy)
						return;
					if (s == d)	// from itself: nothing happens
					{
						rt::sync_acquire(s);
						++s->busy;
						plain(op, [&] { handle_assign(s->h, s->h); });
						--s->busy;
						rt::sync_release(s);
						return;
					}
					rt::sync_acquire(s);
					rt::sync_acquire(d);
					Slot src = *s, dst = *d;
					*s = {};
					*d = {};
					++d->busy;
					w.feature(FT_HANDLE_ASSIGNED);
					const int idx = push(R_DESTROY, op);
					w.recs.back().id = dst.inst;
					guarded(idx, op, [&] { handle_assign(dst.h, src.h); });
					dst.inst = src.inst;
					plain(op, [&] { handle_destroy(src.h, 0); });
					*d = dst;
					rt::sync_release(d);
					break;
				}
				case OP_SWAP:
				{
					Slot* d = slot(op.slot);
					Slot* s = slot(op.slot2);
					if (!s || !d || !s->h || !d->h || s->busy || d->busy)
						return;
					rt::sync_acquire(s);
					rt::sync_acquire(d);
					w.feature(FT_HANDLE_MOVED);
					++d->busy, ++s->busy;
					plain(op, [&] { handle_swap(d->h, s->h); });
					--d->busy, --s->busy;
					std::swap(d->inst, s->inst);
					rt::sync_release(d);
					rt::sync_release(s);
					break;
				}
				case OP_QUERY:
				{
					Slot* s = slot(op.slot);
					if (!s || !s->h)
						return;
					rt::sync_acquire(s);
					const int idx = push(R_QUERY, op);
					const int inst = s->inst;
					w.recs.back().id = inst;
					auto* h = s->h;
					bool v = false;
					unsigned line = 0;
					++s->busy;
					Rec& r = guarded(idx, op, [&] { v = handle_satisfied(h); line = handle_line(h); });
					--s->busy;
					r.queried = v;
					if (line != static_cast<unsigned>(w.site(inst)))
						rt::violation("history", "op %d: the source location of an expectation changed (expected %d, but got %u)", op.id, inst, line);
					break;
				}
				case OP_SERIES: series(op); break;
				case OP_CHURN: churn(op); break;
				case OP_CALL:
					repeat(op, [&](const Op& o) { call(o); });
					break;
				case OP_NEWMOCK:
					if (op.mock >= 0 && op.mock < static_cast<int>(mocks.size()) && !mocks[static_cast<std::size_t>(op.mock)].p && base_slots_free(op.mock))
						make_mock(op.mock, prog.mocks[static_cast<std::size_t>(op.mock)].port);
					break;
				case OP_DELMOCK:
				{
					MockState* m = mock(op.mock);
					if (!m || m->pins)
						return;
					const MockState tmp = *m;
					*m = {};
					for (const Slot& s : slots)
						if (s.h && w.insts[static_cast<std::size_t>(s.inst)].coll >= tmp.coll && w.insts[static_cast<std::size_t>(s.inst)].coll < tmp.coll + port_ops(tmp.port).nColl)
							w.feature(FT_MOCK_DEAD_FIRST);
					plain(op, [&] { port_ops(tmp.port).destroy(tmp.p); });
					break;
				}
				case OP_MOVEMOCK:
				{
					MockState* s = mock(op.mock);
					if (!s || s->shell || s->pins || op.mock2 < 0 || op.mock2 >= static_cast<int>(mocks.size()) || op.mock2 == op.mock)
						return;
					MockState& d = mocks[static_cast<std::size_t>(op.mock2)];
					if (d.p || prog.mocks[static_cast<std::size_t>(op.mock2)].port != s->port)
						return;
					void* q = nullptr;
					plain(op, [&] { q = port_ops(s->port).moveConstruct(s->p); });
					if (q)
					{
						w.feature(FT_MOCK_MOVED);
						d = *s;
						d.p = q;
						s->shell = true;
					}
					break;
				}
				case OP_ASSIGNMOCK:
				{
					MockState* s = mock(op.mock);
					MockState* d = mock(op.mock2);
					if (!s || !d || s == d || s->shell || s->pins || d->pins || s->port != d->port)
						return;
					if (plain(op, [&] { port_ops(s->port).moveAssign(d->p, s->p); }))
					{
						w.feature(FT_MOCK_MOVED);
						d->coll = s->coll;
						d->shell = false;
						s->shell = true;
					}
					break;
				}
				case OP_NEWSEQ:
					if (op.seq[0] >= 0 && op.seq[0] < static_cast<int>(seqs.size()) && !seqs[static_cast<std::size_t>(op.seq[0])].p)
						make_seq(op.seq[0], prog.seqs[static_cast<std::size_t>(op.seq[0])].kind);
					break;
				case OP_DELSEQ:
				{
					SeqState* s = seq(op.seq[0]);
					if (!s || s->pins)
						return;
					const SeqState tmp = *s;
					*s = {};
					const int idx = push(R_SEQDEL, op);
					w.recs.back().id = tmp.ident;
					w.seqs[static_cast<std::size_t>(tmp.ident)].delRec = idx;
					guarded(idx, op, [&] { seq_destroy(tmp.kind, tmp.p); });
					break;
				}
				case OP_REPORTER:
					if (depth[rt::self()] == 0)
					{
						w.feature(FT_REPORTER_CHANGED);
						install(prog.reporter, ++reporterId, stream_visible());
					}
					break;
				case OP_BAD:
				{
					MockState* m = mock(op.mock);
					if (!m || m->shell || m->port != PT_INT)
						return;
					CreateCtx ctx{};
					const int variant = op.leaf % 22;
					// needs two different lazy sequences
					SeqState* s0 = seq(op.seq[0]);
					SeqState* s1 = seq(op.seq[1]);
					const bool need = variant >= 4 && variant != 11 && variant != 12 && (variant < 14 || variant > 18);
					if (need && (!s0 || !s1 || s0 == s1 || s0->kind != 'L' || s1->kind != 'L'))
						return;
					if (need)
					{
						ctx.seq[0] = s0->p;
						ctx.seq[1] = s1->p;
						++s0->pins, ++s1->pins;
					}
					ctx.op = &op;
					ctx.inst = static_cast<int>(w.insts.size());
					Inst& inst = w.insts.emplace_back();	// never alive
					w.refCells.push_back(0);
					inst.id = ctx.inst;
					inst.op = op;
					inst.coll = -1;
					ctx.loc = loc("exp", ctx.inst);
					++m->pins;
					const int idx = push(R_BAD, op);
					switch (variant)
					{
					case 9: case 10: case 11: w.recs.back().variant = 1; break;
					case 14: w.recs.back().variant = 0 <= op.tmin && op.tmin <= op.tmax; break;
					case 15: case 16: w.recs.back().variant = 0 <= op.tmin; break;
					case 17: w.recs.back().variant = 0 <= op.tmax; break;
					}
					guarded(idx, op, [&] { bad_build(variant, m->p, ctx); });
					--m->pins;
					if (need)
						--s0->pins, --s1->pins;
					w.feature(FT_BAD_BUILD);
					break;
				}
				case OP_WAIT:
					if (phase == 1)
						rt::wait_event(op.ev);
					break;
				case OP_SIGNAL: rt::signal_event(op.ev); break;
				case OP_YIELD:
					for (int i = 0; i < op.a; ++i)
						rt::point(rt::P_CB);
					break;
				case OP_UNWIND: unwind(op); break;
				case OP_OBJNEW:
				case OP_OBJDEL:
				case OP_OBJMOVE:
				case OP_OBJASSIGN:
				case OP_OBJCOPY:
				case OP_OBJCOPYASSIGN: obj_op(op); break;
				default: break;
				}
			}

			void run_block(int b)
			{
				if (b < 0 || b >= static_cast<int>(prog.blocks.size()))
					return;
				const bool saved = rt::tls_in_sut;
				rt::tls_in_sut = false;
				for (const Op& op : prog.blocks[static_cast<std::size_t>(b)])
				{
					if (exhausted())
						break;
					run_op(op);
				}
				rt::tls_in_sut = saved;
			}

			// a matcher calls other mock functions; these must not be locked by a running call of this task (what would be a
			// dead lock caused by the user) and the locks are taken in one fixed order
			void matcher_calls(int b, int coll)
			{
				if (b < 0 || b >= static_cast<int>(prog.blocks.size()))
					return;
				for (const Op& op : prog.blocks[static_cast<std::size_t>(b)])
				{
					MockState* const m = op.kind == OP_CALL ? mock(op.mock) : nullptr;
					if (!m || m->shell || m->booting || exhausted())
						continue;
					const auto& table = eps(m->port);
					if (m->coll + table[static_cast<std::size_t>(op.ep) % table.size()].coll <= coll)
						continue;
					++g_world->matcherCalls;
					const bool saved = rt::tls_in_sut;
					rt::tls_in_sut = false;
					inMatcher[rt::self()] = true;
					run_op(op);
					inMatcher[rt::self()] = false;
					rt::tls_in_sut = saved;
				}
			}

			bool stream_visible() const { return prog.mode <= 1; }

			// -------------------------------------------------------------- phases
			void cleanup()
			{
				Op op;
				op.id = -1;
				for (auto& s : slots)
					if (s.h)
					{
						op.kind = OP_DESTROY;
						rt::sync_acquire(&s);
						Slot tmp = s;
						s = {};
						end_handle(op, tmp);
					}
				for (int i = 0; i < static_cast<int>(objs.size()); ++i)
				{
					op.kind = OP_OBJDEL;
					op.mock = i;
					op.mock2 = -1;
					obj_op(op);
				}
				for (int i = 0; i < static_cast<int>(mocks.size()); ++i)
				{
					op.kind = OP_DELMOCK;
					op.mock = i;
					run_op(op);
				}
				for (int i = 0; i < static_cast<int>(seqs.size()); ++i)
				{
					op.kind = OP_DELSEQ;
					op.seq[0] = i;
					run_op(op);
				}
			}

			void body(int task)
			{
				if (phase == 0)
				{
					for (int i = 0; i < static_cast<int>(prog.seqs.size()); ++i)
						if (prog.seqs[static_cast<std::size_t>(i)].initial)
							make_seq(i, prog.seqs[static_cast<std::size_t>(i)].kind);
					for (int i = 0; i < static_cast<int>(prog.mocks.size()); ++i)
						if (prog.mocks[static_cast<std::size_t>(i)].initial)
							make_mock(i, prog.mocks[static_cast<std::size_t>(i)].port);
					run_block(prog.setup);
				}
				else if (phase == 1)
					run_block(prog.tasks[static_cast<std::size_t>(task)]);
				else if (prog.unwindTeardown)
				{
					struct Guard
					{
						Exec& e;
						~Guard()
						{
							e.run_block(e.prog.teardown);
							e.cleanup();
						}
					};
					try
					{
						const Guard g{*this};
						throw UnwindError{2};
					}
					catch (const UnwindError&)
					{
					}
				}
				else
				{
					run_block(prog.teardown);
					cleanup();
				}
			}
		};

		Exec* g_exec = nullptr;
	}

	Program const* running_program() { return g_exec ? &g_exec->prog : nullptr; }

	bool alloc_fault_active()
	{
		const int me = rt::self();
		if (rt::alloc_fault_fired())
			return true;
		if (g_exec && me >= 0)
			for (const int i : g_exec->stack[me])
				if (g_world->recs[static_cast<std::size_t>(i)].fault)
					return true;
		return false;
	}

	// ------------------------------------------------------------------ callbacks
	static Rec& top_call(const char* what, int inst)
	{
		const auto& st = g_exec->stack[rt::self()];
		if (st.empty() || (g_world->recs[static_cast<std::size_t>(st.back())].kind != R_CALL && !g_exec->quiet))
			rt::violation("history", "%s of expectation %d was invoked outside of a call", what, inst);
		return g_world->recs[static_cast<std::size_t>(st.back())];
	}

	static const Inst& inst_of(const char* what, int inst)
	{
		if (inst < 0 || inst >= static_cast<int>(g_world->insts.size()))
			rt::violation("history", "%s of an unknown expectation (%d) was invoked", what, inst);
		return g_world->insts[static_cast<std::size_t>(inst)];
	}

	void cb_operand_changed(int id)
	{
		rt::Harness h;
		rt::violation("history", "the definition of expectation %d modified one of its (named) operands", id);
	}

	bool cb_match(int id, int index, int form, int value)
	{
		rt::Harness h;
		const Inst& i = inst_of("a matcher", id);
		const auto& st = g_exec->stack[rt::self()];
		if (st.empty())
			rt::violation("history", "a matcher of expectation %d was invoked outside of an operation", id);
		if (g_exec->prog.predYield)
			rt::point(rt::P_CB);
		if (index == 0 && i.op.kind == OP_CREATE && i.op.block >= 0 && !g_exec->quiet && g_exec->depth[rt::self()] <= 3)
			if (const Rec& r = g_world->recs[static_cast<std::size_t>(st.back())]; r.kind == R_CALL && !r.fault)
				g_exec->matcher_calls(i.op.block, r.coll);
		const int v = match_value(form, match_a(i.op, index), match_b(i.op, index), value);
		if (v == 2)
		{
			++g_world->matcherThrows;
			if (MatcherCode::used_by(id))
				throw MatcherCode{id};
			throw MatcherError{id};
		}
		return v == 1;
	}

	bool cb_stateful()
	{
		rt::Harness h;
		return g_exec->prog.mode == 0;
	}

	int cb_duty(int id)
	{
		rt::Harness h;
		Inst& i = g_world->insts[static_cast<std::size_t>(id)];
		i.duty = i.op.ctx == 4 ? 1 : i.op.ctx == 5 && g_exec->prog.mode == 0 ? 2 : 0;
		return i.duty;
	}

	void cb_effect(int id, int k, ArgView& view)
	{
		rt::Harness h;
		rt::arm_alloc_fault(0);
		const Inst& i = inst_of("a side effect", id);
		top_call("a side effect", id);
		Exec& e = *g_exec;
		if (view.nth && k < 3 && view.nth != ++g_world->insts[static_cast<std::size_t>(id)].fxCalls[k])
			rt::violation("history", "side effect %d of expectation %d lost its state (%d instead of %d invocations)", k, id, view.nth, g_world->insts[static_cast<std::size_t>(id)].fxCalls[k]);
		if (e.quiet)
			return;
		const int me = rt::self();
		const int idx = e.stack[me].back();
		const std::size_t fxi = g_world->recs[static_cast<std::size_t>(idx)].fx.size();
		{
			Rec& r = g_world->recs[static_cast<std::size_t>(idx)];
			FxRec f{};
			f.inst = id;
			f.k = k;
			f.n = view.n;
			f.t = rt::now();
			for (int j = 0; j < view.n && j < kArgs; ++j)
			{
				f.in[j] = view.val[j];
				f.addr[j] = view.addr[j];
			}
			if (!r.tUser)
				r.tUser = f.t;
			r.tLastUser = f.t;
			r.fx.push_back(f);
		}
		++e.actions[me];
		rt::point(rt::P_CB);
		if (k < 3 && i.op.fx[k] >= 0 && e.depth[me] <= 3)
			e.run_block(i.op.fx[k]);
		rt::point(rt::P_CB);
		--e.actions[me];
		for (int j = 0; j < view.n && j < kArgs; ++j)
			if ((i.op.mod >> k & 1) && !view.isConst[j])
			{
				view.val[j] = (view.val[j] * 3 + k + 1) % 1000;
				view.dirty[j] = true;
			}
		Rec& r = g_world->recs[static_cast<std::size_t>(idx)];
		for (int j = 0; j < view.n && j < kArgs; ++j)
			r.fx[fxi].out[j] = view.val[j];
		r.tLastUser = rt::now();
	}

	int cb_finalize(int id, int form, ArgView& view)
	{
		rt::Harness h;
		rt::arm_alloc_fault(0);
		const Inst& i = inst_of("a finalizer", id);
		top_call("a finalizer", id);
		Exec& e = *g_exec;
		if (view.nth && view.nth != ++g_world->insts[static_cast<std::size_t>(id)].finCalls)
			rt::violation("history", "the finalizer of expectation %d lost its state (%d instead of %d invocations)", id, view.nth, g_world->insts[static_cast<std::size_t>(id)].finCalls);
		if (e.quiet)
			return 0;
		const int me = rt::self();
		const int idx = e.stack[me].back();
		const std::size_t fi = g_world->recs[static_cast<std::size_t>(idx)].fin.size();
		int value;
		switch (form)
		{
		case F_APPLY: value = 1000000 + id * 1000 + view.val[0]; break;
		case F_ALL: value = 2000000 + id * 1000 + (view.val[0] + view.val[1] + view.val[2]) % 1000; break;
		case F_PERM: value = 3000000 + id * 1000 + (view.val[0] * 7 + view.val[1]) % 1000; break;
		default: value = 110000 + id; break;
		}
		{
			Rec& r = g_world->recs[static_cast<std::size_t>(idx)];
			FinRec f{};
			f.inst = id;
			f.form = form;
			f.n = view.n;
			f.t = rt::now();
			for (int j = 0; j < view.n && j < kArgs; ++j)
			{
				f.in[j] = view.val[j];
				f.addr[j] = view.addr[j];
			}
			f.value = value;
			f.threw = i.op.finThrow != 0;
			if (!r.tUser)
				r.tUser = f.t;
			r.tLastUser = f.t;
			r.fin.push_back(f);
		}
		(void)fi;
		++e.actions[me];
		rt::point(rt::P_CB);
		if (i.op.fin >= 0 && e.depth[me] <= 3)
			e.run_block(i.op.fin);
		rt::point(rt::P_CB);
		--e.actions[me];
		g_world->recs[static_cast<std::size_t>(idx)].tLastUser = rt::now();
		if (i.op.finThrow)
		{
			++g_world->actionThrows;
			throw_action(i.op.finThrow, 200000 + id);
		}
		return value;
	}

	int* cb_ref(int id)
	{
		rt::Harness h;
		inst_of("a reference", id);
		return &g_world->refCells[static_cast<std::size_t>(id)];
	}

	void cb_print(int value)
	{
		rt::Harness h;
		if (value >= 900)
		{
			++g_world->printerThrows;
			throw PrinterError{value};
		}
	}

	int rep_begin(Rep&& rep, int reporter)
	{
		// (already in harness mode)
		Exec* e = g_exec;
		const int me = rt::self();
		if (!e || me < 0 || e->stack[me].empty())
			rt::violation("history", "a report was emitted outside of any operation");
		if (e->quiet)
		{
			++(rep.kind == RP_FULL ? e->quietFull : e->quietOther);
			e->quietInst = rep.exps.empty() ? -1 : rep.exps[0].inst;
			return 0;
		}
		Rec& r = e->w.recs[static_cast<std::size_t>(e->stack[me].back())];
		rep.t = rt::now();
		rep.reporter = reporter;
		rep.current = reporter == e->reporterId;
		rep.uncaught = uncaught_now();
		r.reps.push_back(std::move(rep));
		return static_cast<int>(r.reps.size()) - 1;
	}

	// ------------------------------------------------------------------ a whole run
	void execute(const Program& p, World& w)
	{
		w.prog = &p;
		g_world = &w;
		Exec e{p, w};
		g_exec = &e;
		e.mocks.resize(p.mocks.size());
		e.seqs.resize(p.seqs.size());
		e.objs.resize(p.objs.size());
		e.slots.resize(static_cast<std::size_t>(p.slots) + p.mocks.size() * kBaseSlots);
		e.reporterId = 1;
		install(p.reporter, 1, e.stream_visible());

		rt::SchedCfg cfg;
		cfg.seed = p.schedSeed;
		for (int i = 0; i < rt::P_KINDS; ++i)
			cfg.p[i] = p.p[i];
		cfg.pctPoints = p.pctPoints;
		cfg.pctRange = p.pctRange;
		cfg.replay = p.replay;
		cfg.entries = p.entries.data();
		cfg.nEntries = static_cast<int>(p.entries.size());
		cfg.raceDetect = p.mode >= 2;
		rt::begin_run(cfg);
		const auto body = [](void* ctx, int task) { static_cast<Exec*>(ctx)->body(task); };
		e.phase = 0;
		rt::run_phase(body, &e, 1);
		e.phase = 1;
		if (!p.tasks.empty())
			rt::run_phase(body, &e, static_cast<int>(p.tasks.size()));
		e.phase = 2;
		rt::run_phase(body, &e, 1);
		w.stats = rt::stats();
		int n = 0;
		const rt::SchedEntry* s = rt::schedule(n);
		w.schedule.assign(s, s + n);
		w.schedHash = rt::schedule_hash();
		install(p.reporter, 0, false);
		g_exec = nullptr;
		w.heapClean = rt::end_run();
	}
}
