// Program generation: one integer decides the whole program, its schedule and its faults.
#include "prog.hpp"

#include <climits>
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <sstream>

namespace sim
{
	namespace
	{
		struct Rng
		{
			uint64_t s;
			uint64_t next()
			{
				uint64_t z = (s += 0x9e3779b97f4a7c15ull);
				z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
				z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
				return z ^ (z >> 31);
			}
			int below(int n) { return n <= 1 ? 0 : static_cast<int>(next() % static_cast<uint64_t>(n)); }
			int range(int lo, int hi) { return lo + below(hi - lo + 1); }
			bool chance(int percent) { return below(100) < percent; }
			double unit() { return static_cast<double>(next() >> 11) / 9007199254740992.0; }
			int pick(const int* w, int n)
			{
				int total = 0;
				for (int i = 0; i < n; ++i)
					total += w[i];
				if (total <= 0)
					return -1;
				int x = below(total);
				for (int i = 0; i < n; ++i)
					if ((x -= w[i]) < 0)
						return i;
				return n - 1;
			}
		};

		struct Profile
		{
			const char* name;
			int mode[5] = {1, 0, 0, 0, 0};
			int port[PT_COUNT] = {10};
			int mocks[2] = {1, 2};
			int seqs[2] = {0, 0};
			int seqPercent = 0;		// programs with sequences
			int seqBias = 60;		// creations with sequences in these programs
			int confined = 0;		// sequences in parallel modes (percentage)
			int objs[2] = {0, 0};
			int tasks[2] = {2, 3};
			int setup[2] = {1, 5};
			int ops[2] = {4, 12};
			int teardown[2] = {0, 4};
			int slots[2] = {4, 8};
			int w[OP_COUNT] = {};		// weights on task level
			int nested[OP_COUNT] = {};	// weights inside of user actions
			int nestPercent = 0;		// programs with blocks inside of actions
			int fxPercent = 50;			// ... actions of these programs
			int depth = 2;
			int throwMatch = 0;			// programs with throwing matchers
			int throwBits = 35;
			int throwFin = 0;			// programs with throwing finalizers
			int finBits = 50;
			int faultPercent = 0;		// programs with allocation faults
			int faultOps = 30;
			int printPercent = 0;		// programs with failing printers
			int reporter[4] = {10, 2, 2, 1};
			int unwindPercent = 10;		// programs with an unwinding teardown
			int predYield = 30;
			int modPercent = 40;
			int domain[2] = {1, 4};
			int denseMatch = 70;
			int wideLimits = 40;
			int selfDestroy = 0;
			int churn = 25;				// ... of these with a long-lived sequence
			int bulk = 0;				// programs with long histories (per mille)
			int matchNest = 0;			// programs with matchers, which call other mocks
		};

		void set(int* w, std::initializer_list<std::pair<int, int>> l)
		{
			for (const auto& [k, v] : l)
				w[k] = v;
		}

		std::vector<Profile> make_profiles()
		{
			std::vector<Profile> all;
			const auto add = [&](const char* name) -> Profile& {
				Profile& p = all.emplace_back();
				p.name = name;
				set(p.w, {{OP_CREATE, 30}, {OP_DESTROY, 10}, {OP_CALL, 50}, {OP_QUERY, 8}, {OP_MOVE, 1}, {OP_SWAP, 1}, {OP_UNWIND, 1}});
				set(p.nested, {{OP_CREATE, 15}, {OP_DESTROY, 10}, {OP_CALL, 40}, {OP_QUERY, 5}});
				return p;
			};
			const auto ports = [](Profile& p, std::initializer_list<std::pair<int, int>> l) {
				std::fill(std::begin(p.port), std::end(p.port), 0);
				for (const auto& [k, v] : l)
					p.port[k] = v;
			};
			const auto modes = [](Profile& p, int a, int b, int c, int d, int e) {
				const int m[] = {a, b, c, d, e};
				std::copy(m, m + 5, p.mode);
			};
			const auto reps = [](Profile& p, int a, int b, int c, int d) {
				const int m[] = {a, b, c, d};
				std::copy(m, m + 4, p.reporter);
			};
			const auto pair = [](int (&x)[2], int a, int b) { x[0] = a, x[1] = b; };

			{
				Profile& p = add("C01");
				p.matchNest = 5;
				modes(p, 0, 4, 35, 30, 31);
				ports(p, {{PT_INT, 60}, {PT_VOID, 8}, {PT_REFQ, 6}, {PT_OVL, 6}, {PT_IFACE, 4}, {PT_REFSTR, 4}, {PT_CONST, 4}, {PT_MOVE, 2}, {PT_NOEX, 3}, {PT_REFRET, 3}, {PT_WIDE, 4}, {PT_IFACE2, 4}});
				pair(p.mocks, 1, 2);
				pair(p.tasks, 2, 4);
				pair(p.setup, 1, 4);
				pair(p.ops, 2, 5);
				pair(p.slots, 2, 5);
				p.seqPercent = 15;
				pair(p.seqs, 1, 2);
				p.confined = 100;
				p.nestPercent = 25;
				p.throwMatch = 12;
				p.throwFin = 15;
				p.faultPercent = 4;
				set(p.w, {{OP_CALL, 60}, {OP_CREATE, 20}, {OP_DESTROY, 14}});
				reps(p, 10, 2, 2, 1);
			}
			{
				Profile& p = add("C02");
				p.matchNest = 3;
				modes(p, 20, 20, 25, 20, 15);
				ports(p, {{PT_INT, 60}, {PT_VOID, 10}, {PT_REFSTR, 10}, {PT_CONST, 5}, {PT_REFRET, 8}, {PT_OVL, 5}, {PT_MOVE, 3}, {PT_IFACE, 4}, {PT_WIDE, 6}, {PT_IFACE2, 4}});
				pair(p.mocks, 1, 2);
				pair(p.tasks, 2, 3);
				pair(p.setup, 2, 5);
				pair(p.ops, 2, 6);
				pair(p.slots, 2, 4);
				pair(p.seqs, 1, 2);
				p.seqPercent = 25;
				p.nestPercent = 90;
				p.fxPercent = 75;
				p.selfDestroy = 50;
				p.throwFin = 30;
				p.wideLimits = 60;
				set(p.w, {{OP_CALL, 50}, {OP_CREATE, 15}, {OP_DESTROY, 30}, {OP_SIGNAL, 6}});
				set(p.nested, {{OP_DESTROY, 40}, {OP_CALL, 15}, {OP_CREATE, 12}, {OP_WAIT, 12}, {OP_SIGNAL, 5}, {OP_YIELD, 10}});
			}
			{
				Profile& p = add("C03");
				p.matchNest = 8;
				modes(p, 20, 25, 25, 18, 12);
				ports(p, {{PT_INT, 50}, {PT_VOID, 10}, {PT_OVL, 10}, {PT_IFACE, 10}, {PT_REFQ, 8}, {PT_CONST, 5}, {PT_REFSTR, 5}, {PT_NOEX, 4}});
				pair(p.mocks, 1, 2);
				pair(p.tasks, 2, 4);
				pair(p.setup, 2, 5);
				pair(p.ops, 2, 6);
				pair(p.seqs, 1, 2);
				p.seqPercent = 25;
				p.nestPercent = 100;
				p.fxPercent = 70;
				p.wideLimits = 60;
				p.throwFin = 15;
				set(p.w, {{OP_CALL, 60}, {OP_CREATE, 15}, {OP_DESTROY, 8}, {OP_SIGNAL, 14}});
				set(p.nested, {{OP_CALL, 35}, {OP_CREATE, 20}, {OP_DESTROY, 12}, {OP_QUERY, 8}, {OP_WAIT, 18}, {OP_SIGNAL, 8}, {OP_YIELD, 8}});
			}
			{
				Profile& p = add("C04");
				p.matchNest = 12;
				p.bulk = 10;
				modes(p, 55, 20, 15, 5, 5);
				ports(p, {{PT_INT, 60}, {PT_REFSTR, 10}, {PT_CONST, 15}, {PT_OVL, 6}, {PT_REFQ, 6}, {PT_MOVE, 5}, {PT_WIDE, 10}, {PT_IFACE2, 4}});
				pair(p.setup, 2, 6);
				pair(p.seqs, 1, 2);
				p.seqPercent = 40;
				p.confined = 50;
				p.throwMatch = 100;
				p.nestPercent = 25;
				p.throwFin = 20;
				p.denseMatch = 80;
				reps(p, 10, 3, 3, 2);
			}
			{
				Profile& p = add("C05");
				p.matchNest = 8;
				p.bulk = 20;
				modes(p, 65, 20, 10, 5, 0);
				ports(p, {{PT_INT, 40}, {PT_PRN, 30}, {PT_VOID, 5}, {PT_REFSTR, 10}, {PT_CONST, 6}, {PT_OVL, 6}, {PT_IFACE, 5}, {PT_WIDE, 8}, {PT_IFACE2, 4}});
				pair(p.ops, 6, 16);
				pair(p.seqs, 1, 3);
				p.seqPercent = 55;
				p.printPercent = 90;
				p.throwMatch = 20;
				p.throwFin = 20;
				p.nestPercent = 40;
				p.denseMatch = 45;
				reps(p, 10, 3, 4, 3);
			}
			{
				Profile& p = add("C06");
				p.matchNest = 4;
				p.bulk = 20;
				modes(p, 60, 25, 10, 5, 0);
				ports(p, {{PT_INT, 50}, {PT_VOID, 12}, {PT_REFSTR, 8}, {PT_REFRET, 12}, {PT_CONST, 8}, {PT_MOVE, 5}, {PT_PRN, 5}, {PT_IFACE, 5}, {PT_WIDE, 25}, {PT_IFACE2, 4}});
				pair(p.ops, 6, 16);
				pair(p.seqs, 1, 3);
				p.seqPercent = 50;
				p.throwFin = 100;
				p.nestPercent = 45;
				p.wideLimits = 60;
			}
			{
				Profile& p = add("C07");
				p.bulk = 30;
				modes(p, 60, 20, 12, 4, 4);
				ports(p, {{PT_INT, 50}, {PT_VOID, 10}, {PT_REFSTR, 5}, {PT_OVL, 8}, {PT_CONST, 5}, {PT_IFACE, 5}, {PT_WIDE, 4}, {PT_IFACE2, 4}});
				pair(p.ops, 6, 16);
				pair(p.slots, 4, 8);
				pair(p.teardown, 0, 8);
				pair(p.seqs, 1, 2);
				p.seqPercent = 25;
				p.nestPercent = 30;
				p.throwFin = 20;
				p.wideLimits = 60;
				p.unwindPercent = 35;
				reps(p, 6, 8, 6, 5);
				set(p.w, {{OP_CALL, 25}, {OP_CREATE, 30}, {OP_DESTROY, 14}, {OP_MOVE, 7}, {OP_ASSIGN, 9}, {OP_SWAP, 7}, {OP_UNWIND, 9}, {OP_QUERY, 8}});
			}
			{
				Profile& p = add("C08");
				p.bulk = 35;
				modes(p, 75, 15, 7, 3, 0);
				ports(p, {{PT_INT, 70}, {PT_VOID, 12}, {PT_OVL, 6}, {PT_CONST, 6}, {PT_REFRET, 4}, {PT_RELOC, 0}});
				pair(p.ops, 8, 22);
				pair(p.setup, 1, 5);
				pair(p.domain, 1, 2);
				pair(p.seqs, 1, 2);
				p.seqPercent = 20;
				p.seqBias = 35;
				p.nestPercent = 20;
				p.throwFin = 15;
				p.wideLimits = 80;
				p.denseMatch = 85;
				set(p.w, {{OP_CALL, 60}, {OP_CREATE, 14}, {OP_DESTROY, 4}, {OP_QUERY, 20}, {OP_MOVE, 1}, {OP_SWAP, 1}, {OP_UNWIND, 0}});
			}
			const auto seqProfile = [&](const char* name) -> Profile& {
				Profile& p = add(name);
				modes(p, 80, 15, 5, 0, 0);
				ports(p, {{PT_INT, 80}, {PT_VOID, 10}, {PT_REFSTR, 3}, {PT_OVL, 3}, {PT_REFQ, 3}, {PT_CONST, 3}, {PT_PRN, 2}, {PT_IFACE, 2}});
				pair(p.mocks, 1, 3);
				pair(p.setup, 2, 7);
				pair(p.ops, 6, 18);
				pair(p.slots, 6, 10);
				pair(p.domain, 1, 3);
				p.seqPercent = 100;
				p.seqBias = 90;
				p.confined = 100;
				p.denseMatch = 85;
				set(p.w, {{OP_CALL, 60}, {OP_CREATE, 22}, {OP_DESTROY, 6}, {OP_QUERY, 5}, {OP_NEWSEQ, 1}, {OP_DELSEQ, 1}});
				reps(p, 12, 2, 1, 1);
				return p;
			};
			{
				Profile& p = seqProfile("C09");
				p.bulk = 40;
				pair(p.seqs, 1, 3);
				p.throwFin = 30;
				p.throwMatch = 20;
				p.printPercent = 20;
				p.nestPercent = 25;
			}
			{
				Profile& p = seqProfile("C10");
				p.bulk = 50;
				pair(p.mocks, 1, 1);
				pair(p.seqs, 1, 2);
				pair(p.domain, 1, 1);
				pair(p.setup, 3, 7);
				p.denseMatch = 95;
				p.wideLimits = 85;
				p.nestPercent = 10;
				p.seqBias = 100;
				p.throwFin = 15;
			}
			{
				Profile& p = add("C11");
				p.matchNest = 6;
				p.bulk = 40;
				modes(p, 60, 20, 10, 5, 5);
				ports(p, {{PT_INT, 50}, {PT_VOID, 8}, {PT_OVL, 10}, {PT_IFACE, 8}, {PT_REFQ, 8}, {PT_REFSTR, 5}, {PT_CONST, 8}, {PT_NOEX, 6}, {PT_REFRET, 4}, {PT_WIDE, 8}, {PT_IFACE2, 4}});
				pair(p.mocks, 1, 3);
				pair(p.setup, 2, 6);
				pair(p.ops, 6, 16);
				pair(p.domain, 1, 2);
				pair(p.slots, 5, 9);
				p.denseMatch = 90;
				p.wideLimits = 60;
				p.nestPercent = 25;
				set(p.w, {{OP_CALL, 50}, {OP_CREATE, 28}, {OP_DESTROY, 16}, {OP_MOVE, 4}, {OP_SWAP, 4}, {OP_ASSIGN, 2}, {OP_QUERY, 4}});
			}
			{
				Profile& p = add("C12");
				p.matchNest = 4;
				p.bulk = 10;
				modes(p, 65, 20, 8, 4, 3);
				ports(p, {{PT_REFQ, 25}, {PT_OVL, 25}, {PT_IFACE, 25}, {PT_NOEX, 20}, {PT_WIDE, 12}, {PT_IFACE2, 25}});
				pair(p.mocks, 1, 2);
				pair(p.setup, 3, 8);
				pair(p.ops, 6, 18);
				pair(p.slots, 6, 10);
				pair(p.domain, 1, 2);
				pair(p.seqs, 1, 1);
				p.seqPercent = 20;
				p.seqBias = 30;
				p.denseMatch = 90;
				p.wideLimits = 70;
				p.nestPercent = 30;
			}
			{
				Profile& p = add("C13");
				p.bulk = 25;
				modes(p, 80, 20, 0, 0, 0);
				ports(p, {{PT_INT, 45}, {PT_VOID, 10}, {PT_OVL, 10}, {PT_REFQ, 8}, {PT_REFSTR, 5}, {PT_CONST, 8}, {PT_NOEX, 4}, {PT_REFRET, 4}, {PT_PRN, 3}, {PT_WIDE, 6}, {PT_IFACE2, 4}});
				pair(p.mocks, 2, 4);
				pair(p.seqs, 1, 3);
				p.seqPercent = 60;
				pair(p.setup, 2, 6);
				pair(p.ops, 6, 16);
				pair(p.teardown, 2, 10);
				p.nestPercent = 40;
				p.wideLimits = 60;
				p.unwindPercent = 20;
				set(p.w, {{OP_CALL, 30}, {OP_CREATE, 22}, {OP_DESTROY, 12}, {OP_MOVE, 4}, {OP_ASSIGN, 3}, {OP_SWAP, 3}, {OP_NEWMOCK, 5}, {OP_DELMOCK, 6}, {OP_MOVEMOCK, 8}, {OP_ASSIGNMOCK, 5}, {OP_NEWSEQ, 3}, {OP_DELSEQ, 7}, {OP_QUERY, 6}});
				set(p.nested, {{OP_CALL, 20}, {OP_CREATE, 15}, {OP_DESTROY, 12}, {OP_NEWMOCK, 4}, {OP_DELMOCK, 5}, {OP_MOVEMOCK, 6}, {OP_ASSIGNMOCK, 3}, {OP_NEWSEQ, 2}, {OP_DELSEQ, 7}});
			}
			{
				Profile& p = add("C14");
				p.matchNest = 8;
				p.bulk = 25;
				modes(p, 60, 20, 12, 4, 4);
				ports(p, {{PT_INT, 30}, {PT_VOID, 6}, {PT_REFSTR, 12}, {PT_OVL, 12}, {PT_CONST, 12}, {PT_IFACE, 6}, {PT_PRN, 8}, {PT_REFQ, 6}, {PT_MOVE, 4}, {PT_REFRET, 4}, {PT_NOEX, 4}, {PT_WIDE, 12}, {PT_IFACE2, 4}});
				pair(p.mocks, 1, 3);
				pair(p.setup, 2, 6);
				pair(p.ops, 6, 16);
				pair(p.seqs, 1, 2);
				p.seqPercent = 35;
				p.throwMatch = 25;
				p.throwFin = 20;
				p.nestPercent = 35;
				p.denseMatch = 60;
				p.wideLimits = 60;
				reps(p, 8, 4, 5, 5);
				set(p.w, {{OP_REPORTER, 6}});
			}
			{
				Profile& p = add("C15");
				modes(p, 85, 15, 0, 0, 0);
				ports(p, {{PT_INT, 60}, {PT_VOID, 20}});
				pair(p.mocks, 0, 2);
				pair(p.objs, 2, 5);
				pair(p.seqs, 1, 2);
				p.seqPercent = 40;
				pair(p.setup, 1, 4);
				pair(p.ops, 8, 22);
				p.nestPercent = 30;
				p.throwFin = 20;
				p.unwindPercent = 12;
				reps(p, 10, 5, 3, 2);
				set(p.w, {{OP_CREATE, 24}, {OP_DESTROY, 8}, {OP_CALL, 6}, {OP_QUERY, 4}, {OP_OBJNEW, 12}, {OP_OBJDEL, 16}, {OP_OBJMOVE, 14}, {OP_OBJASSIGN, 8}, {OP_OBJCOPY, 8}, {OP_OBJCOPYASSIGN, 10}, {OP_UNWIND, 7}});
				set(p.nested, {{OP_CREATE, 12}, {OP_DESTROY, 8}, {OP_CALL, 10}, {OP_QUERY, 4}, {OP_OBJNEW, 5}, {OP_OBJDEL, 6}, {OP_OBJMOVE, 5}, {OP_OBJCOPY, 4}, {OP_OBJCOPYASSIGN, 4}});
				Profile q = p;
				q.name = "C16";
				all.push_back(q);
			}
			{
				Profile& p = add("C17");
				p.matchNest = 6;
				p.bulk = 10;
				modes(p, 55, 25, 10, 6, 4);
				ports(p, {{PT_INT, 40}, {PT_REFSTR, 30}, {PT_MOVE, 10}, {PT_CONST, 10}, {PT_REFRET, 12}, {PT_OVL, 10}, {PT_IFACE, 6}, {PT_PRN, 5}, {PT_VOID, 4}, {PT_WIDE, 35}, {PT_IFACE2, 4}});
				pair(p.setup, 2, 5);
				pair(p.ops, 5, 14);
				pair(p.seqs, 1, 1);
				p.seqPercent = 15;
				p.nestPercent = 50;
				p.throwFin = 25;
				p.modPercent = 85;
				p.wideLimits = 70;
				p.denseMatch = 85;
			}
			{
				Profile& p = seqProfile("C18");
				p.bulk = 60;
				modes(p, 85, 15, 0, 0, 0);
				pair(p.seqs, 1, 3);
				pair(p.setup, 1, 5);
				pair(p.teardown, 2, 8);
				p.nestPercent = 30;
				p.wideLimits = 70;
				p.throwFin = 15;
				p.unwindPercent = 20;
				reps(p, 10, 4, 3, 3);
				set(p.w, {{OP_CALL, 35}, {OP_CREATE, 28}, {OP_DESTROY, 20}, {OP_DELSEQ, 12}, {OP_NEWSEQ, 8}, {OP_MOVE, 2}, {OP_ASSIGN, 4}, {OP_DELMOCK, 2}, {OP_NEWMOCK, 2}, {OP_QUERY, 2}});
				set(p.nested, {{OP_CALL, 15}, {OP_CREATE, 15}, {OP_DESTROY, 20}, {OP_DELSEQ, 15}, {OP_NEWSEQ, 4}});
			}
			{
				Profile& p = add("C19");
				modes(p, 70, 20, 5, 3, 2);
				ports(p, {{PT_INT, 90}, {PT_VOID, 4}});
				pair(p.mocks, 1, 2);
				pair(p.seqs, 2, 3);
				p.seqPercent = 80;
				pair(p.setup, 1, 4);
				pair(p.ops, 8, 18);
				p.nestPercent = 35;
				p.wideLimits = 60;
				set(p.w, {{OP_CALL, 35}, {OP_CREATE, 22}, {OP_BAD, 22}, {OP_DESTROY, 8}, {OP_QUERY, 4}, {OP_DELSEQ, 2}, {OP_NEWSEQ, 2}});
				set(p.nested, {{OP_BAD, 20}});
			}
			{
				Profile& p = add("C20");
				modes(p, 70, 12, 12, 4, 2);
				ports(p, {{PT_INT, 50}, {PT_VOID, 8}, {PT_REFSTR, 10}, {PT_OVL, 8}, {PT_CONST, 6}, {PT_REFQ, 6}, {PT_MOVE, 4}, {PT_PRN, 4}, {PT_REFRET, 4}, {PT_WIDE, 6}, {PT_IFACE2, 4}});
				pair(p.setup, 1, 5);
				pair(p.ops, 6, 14);
				pair(p.seqs, 1, 3);
				p.seqPercent = 55;
				p.faultPercent = 100;
				p.faultOps = 35;
				p.throwMatch = 15;
				p.throwFin = 15;
				p.nestPercent = 25;
				p.wideLimits = 60;
				reps(p, 1, 0, 0, 0);
			}
			{
				Profile& p = add("C21");
				p.bulk = 15;
				p.matchNest = 3;
				modes(p, 75, 12, 5, 5, 3);
				ports(p, {{PT_INT, 35}, {PT_VOID, 4}, {PT_REFSTR, 12}, {PT_OVL, 6}, {PT_CONST, 6}, {PT_REFQ, 4}, {PT_MOVE, 6}, {PT_PRN, 4}, {PT_REFRET, 6}, {PT_WIDE, 35}, {PT_IFACE2, 12}, {PT_NOEX, 4}});
				pair(p.mocks, 1, 2);
				pair(p.setup, 1, 5);
				pair(p.ops, 6, 16);
				pair(p.domain, 1, 3);
				pair(p.seqs, 1, 2);
				p.seqPercent = 15;
				p.throwFin = 20;
				p.throwMatch = 5;
				p.nestPercent = 25;
				p.wideLimits = 80;
				p.denseMatch = 70;
				p.faultPercent = 10;
				p.faultOps = 15;
				set(p.w, {{OP_CALL, 60}, {OP_CREATE, 22}, {OP_DESTROY, 6}, {OP_MOVE, 4}, {OP_MOVEMOCK, 2}, {OP_QUERY, 3}});
			}
			return all;
		}

		const std::vector<Profile>& profiles()
		{
			static const std::vector<Profile> p = make_profiles();
			return p;
		}

		// ------------------------------------------------------------------ generator
		struct Gen
		{
			Rng rng;
			const Profile& pf;
			Program& p;
			bool multi = false, parallel = false;
			bool useSeq = false, useNest = false, useThrow = false, useFin = false, useFault = false, usePrint = false;
			bool builtin = false;
			bool objects = false;
			int opIds = 0;
			int domain = 3;
			int shared = 0;		// slots used by all tasks
			int frozen = 0;		// slots, which are only filled during setup
			int priv = 0;		// slots of each task
			int totalOps = 0;
			int confinedMock = -1, confinedEp = -1;
			int bulk = 0;		// 1: many expectations, 2: many calls
			bool crowd = false;	// more than 256 of them at once
			bool nestMatch = false;
			bool skippable = false;	// most sequence members are optional

			enum Where { Setup, Task, Nested, Teardown };
			struct Ctx
			{
				Where where;
				int task = 0;
				int depth = 0;
				int ownSlot = -1;
				bool unwind = false;
			};

			int new_block(Block&& b)
			{
				p.blocks.push_back(std::move(b));
				return static_cast<int>(p.blocks.size()) - 1;
			}

			int any_slot(const Ctx& c, bool exclusive)
			{
				if (!multi || c.where == Setup || c.where == Teardown)
				{
					const int limit = c.where == Setup && frozen ? shared : p.slots;
					return rng.below(limit);
				}
				if (c.where == Task && priv && (exclusive || rng.chance(35)))
					return shared + frozen + c.task * priv + rng.below(priv);
				return rng.below(shared);
			}

			int value()
			{
				return rng.chance(92) ? rng.below(domain) : rng.below(8);
			}
			int mask()
			{
				int m = 0;
				for (int i = 0; i < 8; ++i)
					if (rng.chance(pf.denseMatch))
						m |= 1 << i;
				return m;
			}
			int throw_mask()
			{
				int m = 0;
				for (int i = 0; i < 8; ++i)
					if (rng.chance(pf.throwBits))
						m |= 1 << i;
				return m;
			}
			bool throwing_port(int port) const { return port != PT_PRN && port != PT_NOEX; }

			bool seq_usable(const LeafInfo& L, Op& op)
			{
				const char* kinds = seq_kinds(L.s);
				const int n = seq_count(L.s);
				for (int i = 0; i < n; ++i)
				{
					int cand[8], k = 0;
					for (int s = 0; s < static_cast<int>(p.seqs.size()) && s < 8; ++s)
					{
						bool used = p.seqs[static_cast<std::size_t>(s)].kind != kinds[i];
						for (int j = 0; j < i; ++j)
							used |= op.seq[j] == s;
						if (!used)
							cand[k++] = s;
					}
					if (!k)
						return false;
					op.seq[i] = cand[rng.below(k)];
				}
				return true;
			}

			bool create(Op& op, const Ctx& c)
			{
				op.kind = OP_CREATE;
				int port;
				const bool onObj = objects && (p.mocks.empty() || rng.chance(75));
				bool wantSeq = useSeq && rng.chance(pf.seqBias);
				bool frozenSlot = false;
				if (parallel && wantSeq)
				{
					if (c.where != Setup || confinedMock < 0)
						wantSeq = false;
					else
						frozenSlot = true;
				}
				if (onObj)
				{
					op.mock = rng.below(static_cast<int>(p.objs.size()));
					const int type = p.objs[static_cast<std::size_t>(op.mock)].type;
					const bool l = type == 0 || type >= 2, r = type == 1 || type == 2 || type == 5;
					const bool isL = type == 5 ? false : l;
					port = isL && r ? (rng.chance(pf.name[2] == '6' ? 25 : 60) ? PT_DESTRUCT : PT_RELOC) : r ? PT_RELOC : PT_DESTRUCT;
					op.ep = port;
				}
				else
				{
					if (p.mocks.empty())
						return false;
					op.mock = frozenSlot ? confinedMock : rng.below(static_cast<int>(p.mocks.size()));
					port = p.mocks[static_cast<std::size_t>(op.mock)].port;
					op.ep = 0;
				}
				const auto& table = leaves(port);
				int leaf = -1;
				for (int attempt = 0; attempt < 60; ++attempt)
				{
					const int l = rng.below(static_cast<int>(table.size()));
					const LeafInfo& L = table[static_cast<std::size_t>(l)];
					if (port == PT_NOEX && l < static_cast<int>(eps(port).size()))
						continue;
					if ((L.s != S_NONE) != wantSeq && attempt < 40)
						continue;
					if (L.s != S_NONE && (!wantSeq || !seq_usable(L, op)))
						continue;
					if (frozenSlot && (L.s == S_NONE || L.ep != confinedEp))
						continue;
					if (!useFin && (L.f == F_THROW) && attempt < 40)
						continue;
					if (skippable && attempt < 40 && L.t != T_RANGE && L.t != T_ATMOST && L.t != T_ATLEAST)
						continue;
					leaf = l;
					break;
				}
				if (leaf < 0)
					return false;
				const LeafInfo& L = table[static_cast<std::size_t>(leaf)];
				if (L.s == S_NONE)
					frozenSlot = false;
				op.leaf = leaf;
				if (rng.chance(5))
					op.ctx = rng.chance(50) ? 4 : 5;	// (only for policies of the user)
				op.slot = frozenSlot && frozen ? shared + rng.below(frozen) : any_slot(c, false);
				// matchers
				const bool throwing = useThrow && throwing_port(port) && (port < PT_DESTRUCT && static_cast<int>(eps(port).size()) > 1 ? rng.chance(30) : rng.chance(60));
				if (L.m == M_PRED)
				{
					op.a = mask();
					if (throwing)
						op.b = throw_mask();
				}
				else if (L.m == M_LT)
					op.a = rng.chance(pf.denseMatch) ? rng.range(1, domain) : rng.range(0, 3);
				else if (L.m == M_EQ)
					op.a = rng.below(domain);
				else
					op.a = rng.chance(pf.denseMatch) ? domain + rng.below(2) : rng.below(4);
				if (L.m == M_EQ)
					op.c = rng.below(domain);
				else
				{
					op.c = mask();
					if (throwing && L.m == M_PRED && rng.chance(40))
						op.d = throw_mask();
				}
				if (port == PT_WIDE || port == PT_IFACE2)
				{
					op.e = L.m == M_EQ ? rng.below(domain) : mask();
					if (throwing && L.m == M_PRED && rng.chance(30))
						op.f = throw_mask();
				}
				// limits
				if (rng.chance(pf.wideLimits))
				{
					op.tmin = rng.below(4);
					op.tmax = op.tmin + rng.below(4);
				}
				else
				{
					op.tmin = rng.below(2);
					op.tmax = op.tmin + rng.below(2);
				}
				if (L.t == T_EXACT && op.tmin == 0 && rng.chance(80))
					op.tmin = 1;
				if (op.tmax == 0 && rng.chance(85))
					op.tmax = 1;
				if (L.t == T_RANGE && op.tmin > op.tmax)
					op.tmax = op.tmin;
				if (bulk)
				{
					if (bulk == 1 && c.where != Nested && rng.chance(75))
					{
						op.rep = rng.range(2, std::max(3, p.slots / 3));
						if (rng.chance(20))
							op.ev = 1;
					}
					if (rng.chance(bulk == 1 ? 40 : 85))
					{
						static const int sizes[] = {0, 1, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 32767, 65535, 65536, 2147483646, 2147483647};
						op.tmin = bulk == 1 ? rng.below(3) : rng.chance(50) ? rng.below(20) : sizes[rng.below(16)];
						op.tmax = rng.chance(50) ? sizes[rng.below(22)] : op.tmin + rng.below(300);
						if (op.tmax < op.tmin)
							op.tmax = op.tmin;
					}
					if (skippable && rng.chance(85))
					{
						op.tmin = 0;
						op.tmax = std::max(op.tmax, 1);
					}
				}
				if (nestMatch && L.m != M_ANY && !onObj && rng.chance(60))
				{
					Op in;
					in.id = ++opIds;
					if (call(in, {Nested}))
						op.block = new_block({in});
				}
				if (rng.chance(pf.modPercent))
					op.mod = rng.range(1, 7);
				if (useFin && (L.f == F_CB || L.f == F_APPLY || L.f == F_ALL || L.f == F_PERM) && port != PT_NOEX && rng.chance(pf.finBits))
					op.finThrow = rng.range(1, 3);
				// blocks of the actions
				if (useNest && c.depth < pf.depth)
				{
					Ctx n = c;
					n.where = Nested;
					n.depth = c.depth + 1;
					n.ownSlot = op.slot;
					n.unwind = false;
					for (int k = 0; k < effect_count(L.e); ++k)
						if (rng.chance(pf.fxPercent))
							op.fx[k] = block(n, rng.range(1, 3));
					if ((L.f == F_CB || L.f == F_APPLY || L.f == F_ALL || L.f == F_PERM) && rng.chance(pf.fxPercent))
						op.fin = block(n, rng.range(1, 2));
				}
				return true;
			}

			bool call(Op& op, const Ctx& c)
			{
				op.kind = OP_CALL;
				if (p.mocks.empty())
					return false;
				op.mock = rng.below(static_cast<int>(p.mocks.size()));
				if (bulk && c.where != Nested)
				{
					op.rep = rng.chance(30) ? 1 : bulk == 1 ? rng.range(1, p.slots > 80 ? 12 : 50) : rng.range(20, 260);
					if (rng.chance(20))
						op.ev = 1;
				}
				const int port = p.mocks[static_cast<std::size_t>(op.mock)].port;
				op.ep = rng.below(static_cast<int>(eps(port).size()));
				op.a = value();
				op.b = value();
				if (eps(port)[static_cast<std::size_t>(op.ep)].nArgs > 2)
					op.c = value();
				if (port == PT_PRN && usePrint && rng.chance(25))
					op.a = 900 + rng.below(4);
				return true;
			}

			// sequence owners may die in this operation
			bool wrap_needed(int kind) const
			{
				return builtin && useSeq && (kind == OP_DESTROY || kind == OP_ASSIGN || kind == OP_DELSEQ);
			}

			bool op(Op& op, const Ctx& c)
			{
				int w[OP_COUNT];
				std::copy(std::begin(c.where == Nested ? pf.nested : pf.w), std::end(c.where == Nested ? pf.nested : pf.w), w);
				if (c.where == Setup)
				{
					for (int k = 0; k < OP_COUNT; ++k)
						if (k != OP_CREATE && k != OP_CALL && k != OP_OBJNEW && k != OP_OBJMOVE && k != OP_MOVEMOCK)
							w[k] = 0;
					w[OP_CREATE] *= 8;
				}
				if (c.where == Teardown)
				{
					w[OP_DESTROY] += 25;
					w[OP_CREATE] /= 3;
					w[OP_WAIT] = w[OP_SIGNAL] = 0;
				}
				if (multi && c.where != Setup && c.where != Teardown)
				{
					w[OP_REPORTER] = 0;
					if (parallel)
					{
						for (const int k : {OP_QUERY, OP_NEWMOCK, OP_DELMOCK, OP_MOVEMOCK, OP_ASSIGNMOCK, OP_NEWSEQ, OP_DELSEQ})
							w[k] = 0;
					}
					else
						for (const int k : {OP_MOVEMOCK, OP_ASSIGNMOCK})
							w[k] = 0;
					if (!priv || c.where == Nested)
						w[OP_MOVE] = w[OP_ASSIGN] = w[OP_SWAP] = 0;
				}
				else if (!multi)
					w[OP_WAIT] = w[OP_SIGNAL] = 0;
				if (c.where == Nested)
					w[OP_UNWIND] = w[OP_REPORTER] = 0;
				if (c.unwind)
				{
					w[OP_UNWIND] = 0;
					w[OP_DESTROY] += objects ? 8 : 30;
				}
				if (builtin && useSeq)
				{
					w[OP_ASSIGN] += 0;
					if (c.where == Nested)
						w[OP_DESTROY] = w[OP_ASSIGN] = w[OP_DELSEQ] = 0;
				}
				if (!useSeq)
					w[OP_NEWSEQ] = w[OP_DELSEQ] = 0;
				if (!objects)
					for (int k = OP_OBJNEW; k <= OP_OBJCOPYASSIGN; ++k)
						w[k] = 0;
				const int kind = rng.pick(w, OP_COUNT);
				if (kind < 0)
					return false;
				if (wrap_needed(kind) && !c.unwind)
				{
					op.kind = OP_UNWIND;
					Ctx u = c;
					u.unwind = true;
					Block b;
					Op in;
					in.id = ++opIds;
					fill(in, kind, u);
					b.push_back(in);
					op.block = new_block(std::move(b));
					return true;
				}
				return fill(op, kind, c);
			}

			bool fill(Op& op, int kind, const Ctx& c)
			{
				op.kind = kind;
				bool ok = true;
				switch (kind)
				{
				case OP_CREATE: ok = create(op, c); break;
				case OP_CALL: ok = call(op, c); break;
				case OP_DESTROY:
					if (bulk && c.where != Nested && rng.chance(50))
						op.rep = rng.range(1, std::max(2, p.slots / 4));
					op.slot = c.ownSlot >= 0 && rng.chance(pf.selfDestroy) ? c.ownSlot : any_slot(c, false);
					op.ctx = rng.chance(25);
					if (parallel && frozen && op.slot >= shared && op.slot < shared + frozen && c.where != Teardown && c.where != Setup)
						op.slot = rng.below(shared);
					break;
				case OP_QUERY: op.slot = any_slot(c, false); break;
				case OP_MOVE:
				case OP_ASSIGN:
				case OP_SWAP:
					op.slot = any_slot(c, true);
					op.slot2 = any_slot(c, true);
					if (op.slot2 == op.slot)
						op.slot2 = any_slot(c, true);
					if (kind != OP_MOVE && rng.chance(4))
						op.slot2 = op.slot;
					break;
				case OP_NEWMOCK:
				case OP_DELMOCK:
					ok = !p.mocks.empty();
					op.mock = rng.below(static_cast<int>(p.mocks.size()));
					break;
				case OP_MOVEMOCK:
				case OP_ASSIGNMOCK:
					ok = p.mocks.size() > 1;
					op.mock = rng.below(static_cast<int>(p.mocks.size()));
					op.mock2 = rng.below(static_cast<int>(p.mocks.size()));
					break;
				case OP_NEWSEQ:
				case OP_DELSEQ: op.seq[0] = rng.below(static_cast<int>(p.seqs.size())); break;
				case OP_BAD:
				{
					ok = !p.mocks.empty();
					op.mock = rng.below(static_cast<int>(p.mocks.size()));
					static const int plainVariants[] = {0, 1, 2, 3, 11, 12, 14, 15, 16, 17, 18};
					const int sequenced = useSeq && !parallel && rng.chance(70) ? rng.below(17) : -1;
					op.leaf = sequenced < 0 ? plainVariants[rng.below(11)] : sequenced < 14 ? sequenced : sequenced + 5;
					if (14 <= op.leaf && op.leaf <= 17)
					{
						static const int limits[] = {INT_MIN, INT_MIN + 1, -2147483647 / 2, -65536, -32769, -32768, -256, -128, -2, -1, 0, 0, 1, 2, 3, 127, 255, 32767, 65536, INT_MAX / 2, INT_MAX - 1, INT_MAX};
						op.tmin = limits[rng.below(22)];
						op.tmax = rng.chance(25) ? op.tmin + (op.tmin > 0 ? -1 : 1) : limits[rng.below(22)];
					}
					op.a = rng.below(domain);
					if (useSeq)
					{
						op.seq[0] = rng.below(static_cast<int>(p.seqs.size()));
						op.seq[1] = rng.below(static_cast<int>(p.seqs.size()));
					}
					break;
				}
				case OP_WAIT:
				case OP_SIGNAL: op.ev = rng.below(3); break;
				case OP_YIELD: op.a = rng.range(1, 4); break;
				case OP_UNWIND:
				{
					Ctx u = c;
					u.unwind = true;
					op.block = block(u, rng.range(1, 4));
					break;
				}
				case OP_OBJNEW:
				case OP_OBJDEL:
				case OP_OBJMOVE:
				case OP_OBJASSIGN:
				case OP_OBJCOPY:
				case OP_OBJCOPYASSIGN:
					op.mock = rng.below(static_cast<int>(p.objs.size()));
					op.mock2 = rng.below(static_cast<int>(p.objs.size()));
					break;
				default: break;
				}
				if (ok && useFault && rng.chance(pf.faultOps) && (kind == OP_CREATE || kind == OP_CALL || kind == OP_DESTROY || kind == OP_QUERY || kind == OP_BAD))
				{
					const bool noex = (kind == OP_CALL || kind == OP_CREATE) && op.ep < PT_DESTRUCT && !p.mocks.empty() && p.mocks[static_cast<std::size_t>(op.mock)].port == PT_NOEX;
					if (!(kind == OP_CREATE && op.ep >= PT_DESTRUCT) && !noex)
						op.fault = rng.chance(60) ? rng.range(1, 10) : rng.range(1, 40);
				}
				if (!ok)
					op.kind = OP_NONE;
				return ok;
			}

			int block(const Ctx& c, int n)
			{
				Block b;
				for (int i = 0; i < n && totalOps < 160; ++i)
				{
					Op o;
					o.id = ++opIds;
					++totalOps;
					if (op(o, c) && o.kind != OP_NONE)
						b.push_back(o);
				}
				return new_block(std::move(b));
			}

			// thousands of calls to few expectations, with limits around the borders of narrow counters
			void huge()
			{
				static const int limits[] = {127, 128, 255, 256, 1000, 4095, 4096, 8191, 16384, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000};
				p.mode = 0;
				p.reporter = rng.chance(70) ? RK_SIM : RK_SIMTHROW;
				useSeq = rng.chance(30);
				domain = 2;
				shared = p.slots = 3;
				p.mocks.push_back({rng.chance(70) ? PT_INT : PT_VOID, true});
				if (useSeq)
					p.seqs.assign(1, {rng.chance(50) ? 'L' : 'G', true});
				Block setup, task, down;
				const auto add = [&](Block& b, int kind) -> Op& {
					Op& o = b.emplace_back();
					o.id = ++opIds;
					o.kind = kind;
					o.rep = 1;
					return o;
				};
				const int n = rng.range(1, 3);
				int budget = 0;
				for (int i = 0; i < n; ++i)
				{
					Op o;
					for (int k = 0; k < 50; ++k)
						if (o = {}, create(o, {Setup}))
						{
							const LeafInfo& L = leaves(p.mocks[0].port)[static_cast<std::size_t>(o.leaf)];
							if (L.f != F_THROW && L.t != T_DEF && L.t != T_ONCE && L.t != T_TWICE)
								break;
						}
					if (o.kind != OP_CREATE)
						continue;
					o.id = ++opIds;
					o.slot = i;
					o.rep = 1;
					o.finThrow = 0;
					o.a = leaves(p.mocks[0].port)[static_cast<std::size_t>(o.leaf)].m == M_PRED ? 255 : rng.chance(80) ? 8 : 1;
					o.c = 255;
					o.tmin = rng.chance(60) ? limits[rng.below(17)] : rng.below(3);
					o.tmax = rng.chance(30) ? o.tmin : rng.chance(70) ? limits[rng.below(17)] : 2147483647;
					if (o.tmax < o.tmin)
						o.tmax = o.tmin;
					budget = std::min(140000, budget + std::max(o.tmin, o.tmax > 100000 ? 0 : o.tmax));
					setup.push_back(o);
				}
				const int parts = rng.range(1, 3);
				for (int i = 0; i < parts; ++i)
				{
					Op& o = add(task, OP_SERIES);
					o.a = rng.below(domain);
					o.d = budget / parts + rng.below(3) + (i + 1 == parts ? rng.below(4) : 0);
					for (int k = rng.below(4); k > 0; --k)
					{
						Op& q = add(task, rng.chance(50) ? OP_QUERY : OP_CALL);
						q.a = rng.below(domain);
						q.slot = rng.below(3);
					}
				}
				for (int i = 0; i < 3; ++i)
					add(down, rng.chance(50) ? OP_QUERY : OP_DESTROY).slot = i;
				p.setup = new_block(std::move(setup));
				p.tasks.push_back(new_block(std::move(task)));
				p.teardown = new_block(std::move(down));
			}

			// a sequence, which has been used for a long time
			void churn(Block& b, bool sequenced)
			{
				if (p.seqs.empty() && sequenced)
					return;
				const int mock = rng.below(static_cast<int>(p.mocks.size()));
				const int seq = sequenced ? rng.below(static_cast<int>(p.seqs.size())) : 0;
				if (sequenced && (!p.mocks[static_cast<std::size_t>(mock)].initial || !p.seqs[static_cast<std::size_t>(seq)].initial))
					return;
				const auto& table = leaves(p.mocks[static_cast<std::size_t>(mock)].port);
				std::vector<int> fit;
				for (std::size_t i = 0; i < table.size(); ++i)
				{
					const LeafInfo& L = table[i];
					if ((sequenced ? seq_count(L.s) == 1 && seq_kinds(L.s)[0] == p.seqs[static_cast<std::size_t>(seq)].kind : seq_count(L.s) == 0) && (L.t == T_DEF || L.t == T_ONCE) && (L.m == M_ANY || L.m == M_EQ) && L.f != F_THROW)
						fit.push_back(static_cast<int>(i));
				}
				if (fit.empty())
					return;
				Op& o = *b.emplace(sequenced ? b.end() : b.begin() + rng.below(static_cast<int>(b.size()) + 1));
				o.id = ++opIds;
				o.kind = OP_CHURN;
				o.mock = mock;
				o.seq[0] = seq;
				o.leaf = fit[static_cast<std::size_t>(rng.below(static_cast<int>(fit.size())))];
				o.a = rng.below(4);
				o.c = rng.below(4);
				o.e = rng.below(4);
				const int size = rng.below(1000);
				const int base = size < 300 ? 250 : size < 500 ? 120 : size < 996 || (bulk && !sequenced) ? 1 : size < 999 ? 32740 : 65510;
				o.d = base + rng.below(base > 1 ? 40 : 500);
			}

			void run()
			{
				if (pf.name[1] == '0' && pf.name[2] == '8' && p.seed % 30000 == 1711)
					return huge();
				if (pf.bulk && rng.below(1000) < pf.bulk)
					bulk = rng.chance(65) ? 1 : 2;
				crowd = bulk == 1 && rng.chance(12);
				p.mode = bulk ? 0 : rng.pick(pf.mode, 5);
				multi = p.mode >= 1;
				parallel = p.mode >= 2;
				objects = pf.objs[1] > 0;
				useNest = rng.chance(bulk ? pf.nestPercent / 4 : pf.nestPercent);
				useThrow = rng.chance(pf.throwMatch);
				useFin = rng.chance(pf.throwFin);
				usePrint = rng.chance(pf.printPercent);
				useFault = rng.chance(pf.faultPercent);
				useSeq = rng.chance(pf.seqPercent);
				if (parallel && useSeq)
					useSeq = rng.chance(pf.confined);
				nestMatch = pf.matchNest && !bulk && rng.chance(pf.matchNest);
				if (nestMatch)
					useNest = useFault = useSeq = false;
				domain = rng.range(pf.domain[0], pf.domain[1]);
				skippable = bulk == 1 && useSeq && rng.chance(60);
				if (skippable)
					domain = rng.range(2, 4);
				p.reporter = rng.pick(pf.reporter, 4);
				if (useFault)
					p.reporter = RK_SIM;
				if (p.reporter == RK_BASIC && rng.chance(50))
					p.reporter = rng.range(RK_CATCH2, RK_DOCTEST);
				builtin = is_builtin(p.reporter);
				if (builtin && useSeq && (multi || objects))
				{
					p.reporter = rng.chance(50) ? RK_SIM : RK_SIMTHROW;
					builtin = false;
				}
				p.unwindTeardown = rng.chance(pf.unwindPercent);
				if (builtin && useSeq)
					p.unwindTeardown = 1;

				const int nMocks = skippable ? rng.range(1, 3) : nestMatch ? rng.range(2, 3) : rng.range(pf.mocks[0], pf.mocks[1]);
				const int basePort = rng.pick(pf.port, PT_DESTRUCT);
				for (int i = 0; i < nMocks; ++i)
				{
					int port = i == 0 || rng.chance(60) ? basePort : rng.pick(pf.port, PT_DESTRUCT);
					if (useFault && port == PT_NOEX)
						port = PT_INT;
					p.mocks.push_back({port, i == 0 || rng.chance(80) || parallel});
				}
				if (useSeq)
				{
					const int n = skippable && rng.chance(60) ? 1 : rng.range(pf.seqs[0], pf.seqs[1]);
					const int flavour = rng.below(4);	// mostly lazy, mostly greedy, mixed
					for (int i = 0; i < n; ++i)
						p.seqs.push_back({flavour == 0 ? 'L' : flavour == 1 ? 'G' : rng.chance(55) ? 'L' : 'G', i == 0 || rng.chance(85) || parallel});
				}
				if (objects)
				{
					const int n = rng.range(pf.objs[0], pf.objs[1]);
					const bool reloc = pf.name[2] == '6';
					static const int lt[] = {0, 0, 2, 3, 4}, rt_[] = {1, 1, 2, 2, 5};
					const int base = (reloc ? rt_ : lt)[rng.below(5)];
					for (int i = 0; i < n; ++i)
						p.objs.push_back({rng.chance(80) ? base : (reloc ? rt_ : lt)[rng.below(5)]});
				}
				if (parallel && useSeq)
				{
					confinedMock = rng.below(nMocks);
					const auto& e = eps(p.mocks[static_cast<std::size_t>(confinedMock)].port);
					confinedEp = rng.below(static_cast<int>(e.size()));
					if (p.mocks[static_cast<std::size_t>(confinedMock)].port == PT_NOEX)
						confinedMock = -1;
				}
				const int nTasks = multi ? rng.range(pf.tasks[0], pf.tasks[1]) : 1;
				shared = rng.range(pf.slots[0], pf.slots[1]);
				frozen = parallel && useSeq ? 4 : 0;
				if (bulk == 1)
					shared = crowd ? (rng.chance(6) ? rng.range(1030, 1100) : rng.range(262, 330)) : rng.chance(15) ? rng.range(100, 300) : rng.range(18, 70);
				priv = multi ? 2 : 0;
				p.slots = shared + frozen + priv * nTasks;
				p.predYield = multi && !useSeq && rng.chance(pf.predYield);

				Block early;
				if (bulk && useSeq && rng.chance(pf.churn))
					churn(early, true);
				if (crowd)
				{
					Op o;
					o.id = ++opIds;
					if (create(o, {Setup}))
					{
						o.slot = 0;
						o.rep = shared - rng.below(4);
						early.push_back(o);
					}
				}
				if (objects)
				{
					Block pre;
					for (int i = 0; i < static_cast<int>(p.objs.size()); ++i)
						if (i == 0 || rng.chance(60))
						{
							Op o;
							o.id = ++opIds;
							o.kind = OP_OBJNEW;
							o.mock = i;
							pre.push_back(o);
						}
					const int b = block({Setup}, rng.range(pf.setup[0], pf.setup[1]));
					Block all = std::move(pre);
					all.insert(all.end(), p.blocks[static_cast<std::size_t>(b)].begin(), p.blocks[static_cast<std::size_t>(b)].end());
					p.blocks[static_cast<std::size_t>(b)] = std::move(all);
					p.setup = b;
				}
				else
				{
					p.setup = block({Setup}, rng.range(pf.setup[0], pf.setup[1]));
					Block& b = p.blocks[static_cast<std::size_t>(p.setup)];
					b.insert(b.begin(), early.begin(), early.end());
				}
				for (int t = 0; t < nTasks; ++t)
				{
					int n = rng.range(pf.ops[0], pf.ops[1]);
					if (multi)
						n = std::max(2, n * 2 / (nTasks + 1));
					if (parallel)
						n = std::min(n, 5);
					p.tasks.push_back(block({Task, t}, n));
					if (p.mode == 0 && p.reporter <= RK_SIMTHROW && !p.mocks.empty() && rng.below(1000) < (bulk ? 150 : 6))
						churn(p.blocks[static_cast<std::size_t>(p.tasks.back())], false);
				}
				if (p.seqs.size() > 1 && rng.below(1000) < 6)
					for (std::size_t i = 1; i < p.seqs.size(); ++i)
						p.seqs[i].before = rng.chance(1) ? 65534 - rng.below(2) : rng.chance(25) ? 127 - rng.below(2) : 255 - rng.below(3);
				p.teardown = block({Teardown}, rng.range(pf.teardown[0], pf.teardown[1]));

				if ((p.reporter == RK_SIM || p.reporter == RK_SIMTHROW) && !useFault && rng.chance(20))
					p.sites = rng.chance(25) ? -1 : rng.range(1, 3);

				// schedule
				p.schedSeed = rng.next();
				const auto prob = [&](double lo, double hi) {
					// log uniform
					double x = lo;
					const double u = rng.unit();
					// hi/lo raised to u by repeated multiplication would be slow; exp2 is exact enough and deterministic here
					x = lo * __builtin_exp2(u * __builtin_log2(hi / lo));
					return static_cast<uint32_t>(x * 4294967295.0);
				};
				if (p.mode >= 1)
				{
					p.p[rt::P_OP] = prob(0.1, 0.7);
					p.p[rt::P_CB] = prob(0.1, 0.8);
				}
				if (p.mode == 2 || p.mode == 3)
					p.p[rt::P_SYNC] = prob(0.02, 0.4);
				if (p.mode == 3)
					p.p[rt::P_MEM] = prob(0.001, 0.06);
				if (p.mode == 4)
				{
					p.pctPoints = rng.range(1, 6);
					p.pctRange = static_cast<uint32_t>(200.0 * __builtin_exp2(rng.unit() * 7.0));
				}
			}
		};
	}

	bool generate(const std::string& profile, uint64_t seed, Program& out)
	{
		for (const Profile& pf : profiles())
			if (profile == pf.name)
			{
				out = {};
				out.profile = profile;
				out.seed = seed;
				uint64_t h = seed * 0x9e3779b97f4a7c15ull + 0x632be59bd9b4e019ull;
				for (const char c : profile)
					h = (h ^ static_cast<unsigned char>(c)) * 0x100000001b3ull;
				Gen g{Rng{h}, pf, out};
				for (int i = 0; i < 4; ++i)
					g.rng.next();
				g.run();
				return true;
			}
		return false;
	}
	std::vector<std::string> profile_names()
	{
		std::vector<std::string> out;
		for (const Profile& p : profiles())
			out.push_back(p.name);
		return out;
	}

	// ------------------------------------------------------------------ text
	static const char* const kOpNames[OP_COUNT] = {
		"none", "create", "destroy", "move", "assign", "swap", "query", "call", "new_mock", "delete_mock", "move_mock", "assign_mock", "new_sequence", "delete_sequence", "reporter", "bad_build", "wait",
		"signal", "yield", "unwind", "series", "churn", "object_new", "object_delete", "object_move", "object_assign", "object_copy", "object_copy_assign"};
	static const char* const kPortNames[PT_COUNT] = {"int", "void", "refq", "overloads", "refstr", "interface", "move", "fragile", "const", "refret", "wide", "interface2", "noexcept", "destruct", "relocate"};

	const char* op_name(int kind) { return kind >= 0 && kind < OP_COUNT ? kOpNames[kind] : "?"; }
	const char* port_name(int port) { return port >= 0 && port < PT_COUNT ? kPortNames[port] : "?"; }

	struct Field
	{
		const char* name;
		int Op::*m;
		int def;
	};
	static const Field kFields[] = {
		{"id", &Op::id, 0}, {"slot", &Op::slot, 0}, {"slot2", &Op::slot2, 0}, {"mock", &Op::mock, 0}, {"mock2", &Op::mock2, 0}, {"ep", &Op::ep, 0}, {"leaf", &Op::leaf, 0},
		{"a", &Op::a, 0}, {"b", &Op::b, 0}, {"c", &Op::c, 0}, {"d", &Op::d, 0}, {"e", &Op::e, 0}, {"f", &Op::f, 0}, {"rep", &Op::rep, 1}, {"tmin", &Op::tmin, 1}, {"tmax", &Op::tmax, 1}, {"mod", &Op::mod, 0}, {"fin", &Op::fin, -1},
		{"finthrow", &Op::finThrow, 0}, {"ctx", &Op::ctx, 0}, {"ev", &Op::ev, 0}, {"block", &Op::block, -1}, {"fault", &Op::fault, 0}};

	std::string to_text(const Program& p)
	{
		std::ostringstream s;
		s << "program " << p.profile << " seed " << p.seed << " reporter " << p.reporter << " mode " << p.mode << " predyield " << p.predYield << " slots " << p.slots << " unwind " << p.unwindTeardown << " warm " << p.warm << " sites " << p.sites << "\n";
		if (!p.before.empty())
		{
			s << "before";
			for (const uint64_t x : p.before)
				s << " " << x;
			s << "\n";
		}
		for (const auto& m : p.mocks)
			s << "mock " << port_name(m.port) << " " << m.initial << "\n";
		for (const auto& q : p.seqs)
			s << "sequence " << q.kind << " " << q.initial << " " << q.before << "\n";
		for (const auto& o : p.objs)
			s << "object " << o.type << "\n";
		for (std::size_t i = 0; i < p.blocks.size(); ++i)
		{
			s << "block " << i << "\n";
			for (const Op& o : p.blocks[i])
			{
				s << "  " << op_name(o.kind);
				for (const Field& f : kFields)
					if (o.*f.m != f.def)
						s << " " << f.name << "=" << o.*f.m;
				for (int k = 0; k < 3; ++k)
					if (o.seq[k])
						s << " seq" << k << "=" << o.seq[k];
				for (int k = 0; k < 3; ++k)
					if (o.fx[k] != -1)
						s << " fx" << k << "=" << o.fx[k];
				s << "\n";
			}
		}
		s << "setup " << p.setup << "\nteardown " << p.teardown << "\n";
		for (const int t : p.tasks)
			s << "task " << t << "\n";
		s << "schedule " << p.schedSeed << " " << p.p[0] << " " << p.p[1] << " " << p.p[2] << " " << p.p[3] << " " << p.pctPoints << " " << p.pctRange << " " << p.replay << "\n";
		for (const auto& e : p.entries)
			s << "switch " << e.task << " " << e.at << " " << e.to << "\n";
		s << "end\n";
		return s.str();
	}

	bool from_text(const std::string& text, Program& p, std::string& error)
	{
		p = {};
		std::istringstream in{text};
		std::string line;
		Block* block = nullptr;
		while (std::getline(in, line))
		{
			std::istringstream s{line};
			std::string w;
			if (!(s >> w) || w[0] == '#')
				continue;
			if (w == "end")
				return true;
			std::string x;
			if (w == "program")
				s >> p.profile >> x >> p.seed >> x >> p.reporter >> x >> p.mode >> x >> p.predYield >> x >> p.slots >> x >> p.unwindTeardown >> x >> p.warm >> x >> p.sites;
			else if (w == "before")
			{
				uint64_t v;
				while (s >> v)
					p.before.push_back(v);
				s.clear();
			}
			else if (w == "mock")
			{
				bool init;
				s >> x >> init;
				int port = -1;
				for (int i = 0; i < PT_COUNT; ++i)
					if (x == kPortNames[i])
						port = i;
				if (port < 0)
				{
					error = "unknown port " + x;
					return false;
				}
				p.mocks.push_back({port, init});
			}
			else if (w == "sequence")
			{
				char k;
				bool init;
				int before = 0;
				s >> k >> init >> before;
				p.seqs.push_back({k, init, before});
			}
			else if (w == "object")
			{
				int t;
				s >> t;
				p.objs.push_back({t});
			}
			else if (w == "block")
			{
				p.blocks.emplace_back();
				block = &p.blocks.back();
			}
			else if (w == "setup")
				s >> p.setup;
			else if (w == "teardown")
				s >> p.teardown;
			else if (w == "task")
			{
				int t;
				s >> t;
				p.tasks.push_back(t);
			}
			else if (w == "schedule")
				s >> p.schedSeed >> p.p[0] >> p.p[1] >> p.p[2] >> p.p[3] >> p.pctPoints >> p.pctRange >> p.replay;
			else if (w == "switch")
			{
				rt::SchedEntry e{};
				s >> e.task >> e.at >> e.to;
				p.entries.push_back(e);
			}
			else
			{
				Op o;
				o.kind = -1;
				for (int i = 0; i < OP_COUNT; ++i)
					if (w == kOpNames[i])
						o.kind = i;
				if (o.kind < 0 || !block)
				{
					error = "unexpected line: " + line;
					return false;
				}
				while (s >> x)
				{
					const auto eq = x.find('=');
					if (eq == x.npos)
					{
						error = "unexpected token: " + x;
						return false;
					}
					const std::string k = x.substr(0, eq);
					const int v = std::atoi(x.c_str() + eq + 1);
					bool found = false;
					for (const Field& f : kFields)
						if (k == f.name)
							o.*f.m = v, found = true;
					for (int i = 0; i < 3; ++i)
					{
						if (k == "seq" + std::to_string(i))
							o.seq[i] = v, found = true;
						if (k == "fx" + std::to_string(i))
							o.fx[i] = v, found = true;
					}
					if (!found)
					{
						error = "unknown field: " + k;
						return false;
					}
				}
				block->push_back(o);
			}
		}
		error = "missing end";
		return false;
	}
}
