// The reference model: decides, whether a recorded history is one the specification allows.
// The history is accepted, if some sequential order of all operations, which is consistent with real time,
// explains all results and reports (Wing & Gong style search with memoization).
#include "exec.hpp"

#include <algorithm>
#include <array>
#include <climits>
#include <cstdarg>
#include <cstdio>
#include <map>
#include <set>
#include <unordered_set>

namespace sim
{
	namespace
	{
		std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
		std::string fmt(const char* f, ...)
		{
			char buf[1024];
			va_list ap;
			va_start(ap, f);
			vsnprintf(buf, sizeof buf, f, ap);
			va_end(ap);
			return buf;
		}

		const char* const kRepNames[] = {"full match", "inapplicable match", "no match", "unfulfilled expectation", "error", "unhandled exception"};
		const char* const kOutNames[] = {"normal return", "failed verdict", "unfulfilled expectation", "error", "exception of the action", "exception of a printer", "exception of a matcher", "std::bad_alloc", "std::invalid_argument", "std::logic_error", "other exception"};

		struct SeqSt
		{
			std::vector<int> members;
			int cursor = 0;
		};

		enum Phase : uint8_t { NotYet, Live, Dead, Never };

		struct St
		{
			std::vector<int> order;		// live expectations in order of their creation
			std::vector<int> cnt;
			std::vector<uint8_t> phase;
			std::vector<SeqSt> seqs;

			uint64_t hash() const
			{
				uint64_t h = 0xcbf29ce484222325ull;
				const auto add = [&](uint64_t v) { h = (h ^ v) * 0x100000001b3ull; h ^= h >> 29; };
				for (const int i : order)
					add(static_cast<uint64_t>(i) + 1);
				add(0xfefe);
				for (const int c : cnt)
					add(static_cast<uint64_t>(c));
				for (const uint8_t p : phase)
					add(p);
				for (const SeqSt& s : seqs)
				{
					add(static_cast<uint64_t>(s.cursor) + 77);
					for (const int m : s.members)
						add(static_cast<uint64_t>(m) + 1);
				}
				return h;
			}
		};

		struct Next
		{
			St st;
			int accepted = -1;
			int candidates = 0;		// number of applicable candidates
			bool sameSeqChoice = false, multiSeqChoice = false;
			bool blocked = false;	// a matching expectation was not its sequence's turn
			bool exhausted = false;	// a matching expectation was exhausted
			bool siblings = false;
			bool threw = false;
		};

		struct Checker
		{
			World& w;
			std::string err;
			int errProgress = -1;
			std::vector<std::vector<int>> tasks;
			std::unordered_set<uint64_t> seen;
			std::vector<std::pair<int, Next>> path;
			uint64_t visited = 0;
			bool exhausted = false;

			explicit Checker(World& world) : w{world} {}

			static bool unmet(const Inst& i, int n) { return i.duty == 1 || (i.duty == 2 && n % 2); }
			const Inst& inst(int i) const { return w.insts[static_cast<std::size_t>(i)]; }

			// -------------------------------------------------------------- state helpers
			static int index_of(const SeqSt& s, int id)
			{
				for (std::size_t i = 0; i < s.members.size(); ++i)
					if (s.members[i] == id)
						return static_cast<int>(i);
				return -1;
			}
			bool consumable(const St& s, int seq, int id) const
			{
				const SeqSt& q = s.seqs[static_cast<std::size_t>(seq)];
				const int idx = index_of(q, id);
				if (idx < q.cursor)
					return false;
				for (int i = q.cursor; i < idx; ++i)
				{
					const int m = q.members[static_cast<std::size_t>(i)];
					if (s.cnt[static_cast<std::size_t>(m)] < inst(m).lo)
						return false;
				}
				return true;
			}
			bool turn(const St& s, const Inst& i) const
			{
				for (int k = 0; k < i.nSeq; ++k)
					if (!consumable(s, i.seq[k], i.id))
						return false;
				return true;
			}
			bool turn(const St& s, const Inst& i, int k) const { return consumable(s, i.seq[k], i.id); }
			int count(const St& s, int id) const { return s.cnt[static_cast<std::size_t>(id)]; }
			int control(const St& s, const Inst& i) const
			{
				if (count(s, i.id) == i.hi)
					return ES_SATURATED;
				return turn(s, i) ? ES_APPLICABLE : ES_INAPPLICABLE;
			}

			// is y never to be chosen, because x is preferred?
			bool dominates(const Inst& x, const std::array<int, 3>& ax, const Inst& y, const std::array<int, 3>& ay) const
			{
				if (x.nSeq != y.nSeq)
					return false;
				for (int k = 0; k < x.nSeq; ++k)
				{
					int j = 0;
					while (j < y.nSeq && x.seq[k] != y.seq[j])
						++j;
					if (j == y.nSeq)
						return false;
					const int ix = ax[static_cast<std::size_t>(k)], iy = ay[static_cast<std::size_t>(j)];
					if (x.seqKind[k] == 'L' ? ix > iy : ix < iy)
						return false;
				}
				return true;
			}

			// -------------------------------------------------------------- calls
			// 0 no, 1 yes, 2 throws, 3 may throw (otherwise no)
			int matches(const Inst& i, const Rec& r) const
			{
				const int n = eps(i.port)[static_cast<std::size_t>(i.ep)].nArgs;
				int res = 1;
				bool thr = false;
				for (int k = 0; k < n; ++k)
				{
					const int form = form_of(i, k);
					const int v = match_value(form, match_a(i.op, k), match_b(i.op, k), r.in[k]);
					if (v == 2)
						thr = true;
					else if (v == 0)
						res = 0;
				}
				if (i.ep != r.ep)
					return thr ? 3 : 0;
				if (thr)
					return res ? 2 : 3;
				return res;
			}

			bool fail(std::string& why, const Rec& r, const std::string& msg) const
			{
				why = fmt("op %d (%s, task %d%s): ", r.opId, op_name(r.op), r.task, r.id >= 0 && r.kind != R_CALL ? fmt(", expectation %d", r.id).c_str() : "") + msg;
				return false;
			}

			std::string arg_text(int port, int ep, int k, int v) const
			{
				const EpInfo& e = eps(port)[static_cast<std::size_t>(ep)];
				switch (e.arg[k].type)
				{
				case AT_PTR: return {};
				case AT_FRAGILE: return fmt("f%d", v);
				case AT_PAYLOAD: return fmt("p%d", v);
				case AT_TEXT: return fmt("\"s%d%s\"", v, text_end(v).data());
				default: return fmt("%d", v);
				}
			}

			bool check_call_report(const Rec& r, const Rep& p, std::string& why) const
			{
				if (r.id >= 0 && p.line != w.site(r.id) && (p.details || p.line >= 0))
					return fail(why, r, fmt("the %s report names the origin of another call (%d instead of %d)", kRepNames[p.kind], p.line, r.id));
				if (!p.details)
					return true;
				const EpInfo& e = eps(r.port)[static_cast<std::size_t>(r.ep)];
				if (p.category != e.category || p.constness != e.constness)
					return fail(why, r, fmt("the %s report states value category %d and constness %d instead of %d and %d", kRepNames[p.kind], p.category, p.constness, e.category, e.constness));
				if (p.ret != type_name(e.ret))
					return fail(why, r, fmt("the %s report states the return type %.60s instead of %.60s", kRepNames[p.kind], p.ret.c_str(), type_name(e.ret)));
				if (p.announced >= 0 && p.announced != static_cast<int>(p.exps.size()))
					return fail(why, r, fmt("the %s report announces %d expectations but names %d", kRepNames[p.kind], p.announced, static_cast<int>(p.exps.size())));
				if (p.nArgs != e.nArgs)
					return fail(why, r, fmt("the %s report contains %d arguments instead of %d", kRepNames[p.kind], p.nArgs, e.nArgs));
				for (int k = 0; k < p.nArgs && k < kArgs; ++k)
				{
					const std::string t = arg_text(r.port, r.ep, k, r.in[k]);
					if (p.types[k] != type_name(e.arg[k].type))
						return fail(why, r, fmt("the %s report states the type of argument %d as %.60s instead of %.60s", kRepNames[p.kind], k, p.types[k].c_str(), type_name(e.arg[k].type)));
					if (!t.empty() && t != p.args[k])
						return fail(why, r, fmt("the %s report states argument %d as %.60s instead of %.60s", kRepNames[p.kind], k, p.args[k].c_str(), t.c_str()));
				}
				return true;
			}

			static int form_of(const Inst& i, int k) { return k == 0 || i.leaf.m == M_ANY || i.leaf.m == M_EQ ? i.leaf.m : M_PRED; }

			// the number of sequences, in which it is not the expectation's turn
			int inapplicable(const St& s, const Inst& i) const
			{
				int n = 0;
				for (int k = 0; k < i.nSeq; ++k)
					n += !turn(s, i, k);
				return n;
			}

			// the requirements and the state an expectation is described with
			// call: the call it has been tested with (or null)
			bool check_description(const Rec& r, const St& s, const ExpRep& e, const Inst& i, const Rec* call, std::string& why) const
			{
				if (e.hasReqs)
				{
					const EpInfo& ep = eps(i.port)[static_cast<std::size_t>(i.ep)];
					for (int k = 0; k < ep.nArgs; ++k)
					{
						const int form = form_of(i, k);
						const int a = match_a(i.op, k);
						int n = 0, named = 0;
						bool all = true, known = true;
						std::string value, upper;
						if (ep.arg[k].type == AT_INT && (form == M_EQ || form == M_NE || form == M_LT))
							value = fmt("%d", a);
						else if (ep.arg[k].type == AT_TEXT && (form == M_EQ || form == M_NE))
							value = fmt("s%d%s", a, text_end(a).data()), upper = "S" + value.substr(1);
						else if ((ep.arg[k].type == AT_PAYLOAD || ep.arg[k].type == AT_FRAGILE) && form == M_EQ)
							value = fmt("%c%d", ep.arg[k].type == AT_PAYLOAD ? 'p' : 'f', a);
						for (const ReqRep& q : e.reqs)
							if (q.arg == k)
							{
								++n;
								known = known && q.match >= 0;
								all = all && q.match != 0;
								named += value.empty() || q.text.find(value) != q.text.npos || (!upper.empty() && q.text.find(upper) != q.text.npos);
							}
						if (!n)
							return fail(why, r, fmt("the report doesn't contain the requirement on argument %d of expectation %d", k, i.id));
						if (!named)
							return fail(why, r, fmt("the report doesn't contain the value %s required for argument %d of expectation %d", value.c_str(), k, i.id));
						if (call && known)
						{
							const int v = match_value(form, a, match_b(i.op, k), call->in[k]);
							if (v != 2 && all != (v == 1))
								return fail(why, r, fmt("the report states that argument %d %s the requirement of expectation %d", k, all ? "meets" : "does not meet", i.id));
						}
					}
					for (const ReqRep& q : e.reqs)
						if (q.match == 0 && (q.arg < 0 ? call && call->ep == i.ep : q.arg >= ep.nArgs))
							return fail(why, r, fmt("the report states a failed requirement, which expectation %d doesn't have", i.id));
				}
				if (e.hasTimes)
				{
					const int c = count(s, i.id);
					std::vector<int> want;
					if (c == i.hi)
						want = {c};
					else if (c >= i.lo)
						want = {c, i.hi};
					else if (i.lo < i.hi)
						want = {c, i.lo, i.hi};
					else
						want = {c, i.hi};
					const int n = inapplicable(s, i);
					if (c != i.hi && n)
						want.push_back(n);
					if (i.nSeq)
						want.push_back(i.nSeq);
					if (want != e.times)
					{
						std::string x, y;
						for (const int v : want)
							x += fmt(" %d", v);
						for (const int v : e.times)
							y += fmt(" %d", v);
						return fail(why, r, fmt("the report describes the state of expectation %d with the numbers%s instead of%s", i.id, y.c_str(), x.c_str()));
					}
				}
				return true;
			}

			bool check_exp_report(const Rec& r, const St& s, const ExpRep& e, const Inst& i, int expectMatch, std::string& why) const
			{
				if (e.state != ES_UNKNOWN)
				{
					if (e.min != i.lo || e.max != i.hi)
						return fail(why, r, fmt("the report states limits [%d,%d] instead of [%d,%d] for expectation %d", e.min, e.max, i.lo, i.hi, i.id));
					if (e.count != count(s, i.id))
						return fail(why, r, fmt("the report states a count of %d instead of %d for expectation %d", e.count, count(s, i.id), i.id));
					if (e.state != control(s, i))
						return fail(why, r, fmt("the report states control state %d instead of %d for expectation %d", e.state, control(s, i), i.id));
					if (e.seqs != i.nSeq)
						return fail(why, r, fmt("the report mentions %d instead of %d sequences for expectation %d", e.seqs, i.nSeq, i.id));
					if (e.inapplicable >= 0 && e.inapplicable != inapplicable(s, i))
						return fail(why, r, fmt("the report states that it is not the turn of expectation %d in %d instead of %d sequences", i.id, e.inapplicable, inapplicable(s, i)));
				}
				if ((e.state != ES_UNKNOWN || e.hasReqs) && expectMatch >= 0 && e.allMatch != (expectMatch == 1))
					return fail(why, r, fmt("the report states a wrong match result for expectation %d", i.id));
				return check_description(r, s, e, i, r.kind == R_CALL ? &r : nullptr, why);
			}

			// within one report the same tag always denotes the same sequence
			bool check_tags(const Rec& r, const St& s, const Rep& p, std::string& why) const
			{
				std::map<unsigned long long, int> known;
				if (w.prog->sites > 0)
					return true;
				for (const ExpRep& e : p.exps)
					if (e.inst >= 0 && e.state == ES_INAPPLICABLE && e.tags.size() == 1)
					{
						const Inst& i = inst(e.inst);
						for (int k = 0; k < i.nSeq; ++k)
							if (!turn(s, i, k))
							{
								const auto [it, added] = known.emplace(e.tags[0], i.seq[k]);
								if (!added && it->second != i.seq[k])
									return fail(why, r, fmt("the report attributes expectation %d to another sequence", i.id));
							}
					}
				for (const ExpRep& e : p.exps)
					for (const unsigned long long t : e.tags)
						if (const auto it = known.find(t); it != known.end())
						{
							const Inst& i = inst(e.inst);
							bool found = false;
							for (int k = 0; k < i.nSeq; ++k)
								found = found || (i.seq[k] == it->second && !turn(s, i, k));
							if (!found)
								return fail(why, r, fmt("the report names a sequence, in which it is the turn of expectation %d", i.id));
						}
				return true;
			}

			// assigns each element to an own target; returns the first element which is left (or -1)
			static int unassigned(const std::vector<std::vector<int>>& edges, std::size_t targets)
			{
				std::vector<int> owner(targets, -1);
				std::vector<char> seen;
				const auto place = [&](const auto& self, int e) -> bool {
					for (const int t : edges[static_cast<std::size_t>(e)])
					{
						if (seen[static_cast<std::size_t>(t)])
							continue;
						seen[static_cast<std::size_t>(t)] = 1;
						if (owner[static_cast<std::size_t>(t)] < 0 || self(self, owner[static_cast<std::size_t>(t)]))
						{
							owner[static_cast<std::size_t>(t)] = e;
							return true;
						}
					}
					return false;
				};
				for (std::size_t e = 0; e < edges.size(); ++e)
				{
					seen.assign(targets, 0);
					if (!place(place, static_cast<int>(e)))
						return static_cast<int>(e);
				}
				return -1;
			}

			bool untouched(const Rec& r, std::string& why) const
			{
				if (!r.fx.empty())
					return fail(why, r, fmt("a side effect of expectation %d ran, although the call was not accepted", r.fx[0].inst));
				if (!r.fin.empty())
					return fail(why, r, fmt("the finalizer of expectation %d ran, although the call was not accepted", r.fin[0].inst));
				if (!std::equal(r.in, r.in + kArgs, r.out))
					return fail(why, r, "an argument was modified, although the call was not accepted");
				return true;
			}

			bool effects(const Rec& r, const Inst& x, int val[kArgs], bool complete, std::string& why) const
			{
				const EpInfo& e = eps(r.port)[static_cast<std::size_t>(r.ep)];
				const int n = effect_count(x.leaf.e);
				const void* addr[kArgs];
				std::copy(r.argAddr, r.argAddr + kArgs, addr);
				uint64_t last = 0;
				const auto addresses = [&](const std::vector<int>& args, const void* const* a, const char* what) {
					for (std::size_t j = 0; j < args.size(); ++j)
					{
						const void*& known = addr[args[j]];
						if (!known)
							known = a[j];
						if (known != a[j])
							return fail(why, r, fmt("%s of expectation %d does not operate on the argument object of the call (argument %d)", what, x.id, args[j]));
					}
					return true;
				};
				for (std::size_t k = 0; k < r.fx.size(); ++k)
				{
					const FxRec& f = r.fx[k];
					if (f.inst != x.id)
						return fail(why, r, fmt("a side effect of expectation %d ran, but the call was accepted by expectation %d", f.inst, x.id));
					if (static_cast<int>(k) >= n || f.k != static_cast<int>(k))
						return fail(why, r, fmt("side effect %d of expectation %d ran at position %zu (of %d)", f.k, x.id, k, n));
					const std::vector<int> args = effect_args(x.leaf.e, static_cast<int>(k), e.nArgs);
					if (f.n != static_cast<int>(args.size()))
						return fail(why, r, fmt("side effect %d of expectation %d got %d arguments instead of %zu", f.k, x.id, f.n, args.size()));
					for (std::size_t j = 0; j < args.size(); ++j)
						if (f.in[j] != val[args[j]])
							return fail(why, r, fmt("side effect %d of expectation %d saw argument %d as %d instead of %d", f.k, x.id, args[j], f.in[j], val[args[j]]));
					if (!addresses(args, f.addr, "a side effect"))
						return false;
					if (f.t < last)
						return fail(why, r, "the side effects ran in the wrong order");
					last = f.t;
					if (x.op.mod >> k & 1)
						for (std::size_t j = 0; j < args.size(); ++j)
							if (!e.arg[args[j]].cst)
								val[args[j]] = (f.in[j] * 3 + static_cast<int>(k) + 1) % 1000;
				}
				if (complete && static_cast<int>(r.fx.size()) != n)
					return fail(why, r, fmt("%zu instead of %d side effects of expectation %d ran", r.fx.size(), n, x.id));
				for (const FinRec& f : r.fin)
				{
					if (f.inst != x.id)
						return fail(why, r, fmt("the finalizer of expectation %d ran, but the call was accepted by expectation %d", f.inst, x.id));
					if (static_cast<int>(r.fx.size()) != n || f.t < last)
						return fail(why, r, fmt("the finalizer of expectation %d ran before its side effects", x.id));
					const std::vector<int> args = finalizer_args(x.leaf.f, e.nArgs);
					if (f.n != static_cast<int>(args.size()))
						return fail(why, r, fmt("the finalizer of expectation %d got %d arguments instead of %zu", x.id, f.n, args.size()));
					for (std::size_t j = 0; j < args.size(); ++j)
						if (f.in[j] != val[args[j]])
							return fail(why, r, fmt("the finalizer of expectation %d saw argument %d as %d instead of %d", x.id, args[j], f.in[j], val[args[j]]));
					if (!addresses(args, f.addr, "the finalizer"))
						return false;
				}
				return true;
			}

			bool accept(const Rec& r, const St& s, const Inst& x, const Rep* full, std::string& why) const
			{
				if (full)
				{
					if (!check_call_report(r, *full, why))
						return false;
					if (full->exps.size() != 1)
						return fail(why, r, "the full match report does not name exactly one expectation");
					if (!check_exp_report(r, s, full->exps[0], x, 1, why))
						return false;
					if (r.tUser && full->t > r.tUser)
						return fail(why, r, "the full match was reported after a user action had been started");
				}
				int val[kArgs];
				std::copy(r.in, r.in + kArgs, val);
				const EpInfo& ep = eps(r.port)[static_cast<std::size_t>(r.ep)];
				if (!effects(r, x, val, true, why))
					return false;
				const int f = x.leaf.f;
				const std::size_t nFin = f == F_CB || f == F_APPLY || f == F_ALL || f == F_PERM ? 1 : 0;
				if (r.fin.size() != nFin)
					return fail(why, r, fmt("the finalizer of expectation %d ran %zu times instead of %zu", x.id, r.fin.size(), nFin));
				const bool throws = f == F_THROW || (nFin && r.fin[0].threw);
				const int thrown = f == F_THROW ? 300000 + x.id : 200000 + x.id;
				if (throws)
				{
					if (r.outcome != O_ACTION || r.value != thrown)
						return fail(why, r, fmt("the call accepted by expectation %d ended with %s (%d, %.80s) instead of the exception %d of its action", x.id, kOutNames[r.outcome], r.value, r.text.c_str(), thrown));
				}
				else
				{
					if (r.outcome != O_OK)
						return fail(why, r, fmt("the call was accepted by expectation %d, but ended with %s (%.80s)", x.id, kOutNames[r.outcome], r.text.c_str()));
					int want = r.result;
					const void* const cell = &w.refCells[static_cast<std::size_t>(x.id)];
					if (r.port == PT_REFRET)
					{
						if (r.resultAddr != cell)
							return fail(why, r, fmt("the returned reference does not refer to the object of expectation %d", x.id));
						want = 400000 + x.id;
					}
					else if (f == F_VAL)
						want = 100000 + x.id;
					else if (nFin)
						want = r.fin[0].value;
					else if (f == F_ARG || f == F_ARG2)
					{
						const int k = f == F_ARG ? 0 : 2;
						want = val[k];
						if (ep.refRet && r.resultAddr != r.argAddr[k])
							return fail(why, r, fmt("the call accepted by expectation %d did not return a reference to its argument", x.id));
					}
					if (r.result != want)
						return fail(why, r, fmt("the call accepted by expectation %d returned %d instead of %d", x.id, r.result, want));
				}
				for (int k = 0; k < ep.nArgs; ++k)
				{
					const int wantOut = ep.arg[k].ref && !ep.arg[k].cst ? val[k] : r.in[k];
					if (r.out[k] != wantOut)
						return fail(why, r, fmt("the caller's argument %d has the value %d instead of %d after the call", k, r.out[k], wantOut));
				}
				return true;
			}

			void advance(St& s, const Inst& x) const
			{
				++s.cnt[static_cast<std::size_t>(x.id)];
				for (int k = 0; k < x.nSeq; ++k)
				{
					SeqSt& q = s.seqs[static_cast<std::size_t>(x.seq[k])];
					q.cursor = index_of(q, x.id);
				}
			}

			bool call(const St& s, const Rec& r, std::vector<Next>& out, std::string& why) const
			{
				if (r.noCall)
				{
					if (!r.reps.empty())
						return fail(why, r, fmt("unexpected %s report", kRepNames[r.reps[0].kind]));
					if (r.outcome != O_OK && !(r.fault && r.outcome == O_BADALLOC))
						return fail(why, r, fmt("ended with %s (%.80s)", kOutNames[r.outcome], r.text.c_str()));
					if (!r.fx.empty() || !r.fin.empty())
						return fail(why, r, "unexpected side effect");
					out.push_back({s});
					return true;
				}
				// (gtest has no warnings)
				const bool visible = r.reporterKind != RK_GTEST && (r.reporterKind != RK_DEFAULT || w.prog->mode <= 1);
				// reports
				const Rep* verdict = nullptr;
				int verdicts = 0;
				std::map<int, int> unhandled;
				std::set<int> absent;
				for (const Rep& p : r.reps)
					switch (p.kind)
					{
					case RP_FULL:
					case RP_INAPP:
					case RP_NONE:
						verdict = &p;
						++verdicts;
						break;
					case RP_UNHANDLED:
					{
						if (p.exps.empty() || p.exps[0].inst < 0)
							return fail(why, r, "an unhandled exception was reported without naming its expectation");
						// (several expectations may have the same source location)
						const int x = w.prog->sites > 0 && p.excInst >= 0 ? p.excInst : p.exps[0].inst;
						++unhandled[x];
						if (p.excBadAlloc && r.fault)
							absent.insert(x);
						else if (r.reporterKind == RK_SIM || r.reporterKind == RK_SIMTHROW || !MatcherCode::used_by(x))
							if (p.excInst < 0 || w.site(p.excInst) != p.exps[0].inst)
								return fail(why, r, fmt("the unhandled exception reported for expectation %d is not the one it has thrown", p.exps[0].inst));
						if (!check_call_report(r, p, why) || !check_description(r, s, p.exps[0], inst(x), &r, why))
							return false;
						break;
					}
					case RP_ERROR: break;	// checked together with the sequences
					default: return fail(why, r, fmt("unexpected %s report", kRepNames[p.kind]));
					}
				if (verdicts > 1)
					return fail(why, r, fmt("%d verdicts were reported for one call", verdicts));


				// expectations
				std::vector<int> matching, cands, others, optional;
				Next next;
				for (const int id : s.order)
				{
					const Inst& i = inst(id);
					if (i.coll != r.coll)
						continue;
					const int m = matches(i, r);
					const int u = unhandled.count(id) ? unhandled[id] : 0;
					unhandled.erase(id);
					next.siblings |= i.ep != r.ep;
					if (absent.count(id))
					{
						if (u != 1)
							return fail(why, r, fmt("the failure of expectation %d was reported %d times", id, u));
						continue;
					}
					if (m == 2)
					{
						next.threw = true;
						if (visible && u != 1 && !(r.fault && r.outcome == O_BADALLOC))
							return fail(why, r, fmt("the matcher of expectation %d has thrown, but this was reported %d times", id, u));
						continue;
					}
					if (m == 3)
					{
						if (u > 1)
							return fail(why, r, fmt("the failure of expectation %d was reported %d times", id, u));
						if (u == 0)
							optional.push_back(id);
						continue;
					}
					if (u)
						return fail(why, r, fmt("an unhandled exception was reported for expectation %d, which has not thrown", id));
					if (i.ep != r.ep)
					{
						optional.push_back(id);
						continue;
					}
					if (m == 1)
					{
						matching.push_back(id);
						const int c = control(s, i);
						if (c == ES_APPLICABLE)
							cands.push_back(id);
						next.blocked |= c == ES_INAPPLICABLE;
						next.exhausted |= c == ES_SATURATED;
					}
					else
						others.push_back(id);
				}
				if (!unhandled.empty())
					return fail(why, r, fmt("an unhandled exception was reported for expectation %d, which does not take part in this call", unhandled.begin()->first));
				next.candidates = static_cast<int>(cands.size());

				if (r.printFails && !(r.fault && r.outcome == O_BADALLOC))
				{
					if (r.outcome != O_PRINTER || r.value != r.in[0])
						return fail(why, r, fmt("the call whose argument can't be printed ended with %s (%.80s)", kOutNames[r.outcome], r.text.c_str()));
					if (verdicts)
						return fail(why, r, fmt("a %s was reported for a call, which failed while printing its arguments", kRepNames[verdict->kind]));
					if (!untouched(r, why))
						return false;
					next.st = s;
					out.push_back(std::move(next));
					return true;
				}

				std::vector<int> choice;
				// (the positions of the candidates in their sequences)
				std::vector<std::array<int, 3>> at(cands.size());
				for (std::size_t c = 0; c < cands.size(); ++c)
					for (int k = 0; k < inst(cands[c]).nSeq; ++k)
						at[c][static_cast<std::size_t>(k)] = index_of(s.seqs[static_cast<std::size_t>(inst(cands[c]).seq[k])], cands[c]);
				int latest = -1;	// (the candidates are ordered by their creation)
				for (const int c : cands)
					if (inst(c).nSeq == 0)
						latest = c;
				for (std::size_t c = 0; c < cands.size(); ++c)
				{
					const Inst& y = inst(cands[c]);
					bool ok = y.nSeq > 0 || cands[c] == latest;
					for (std::size_t d = 0; d < cands.size() && ok && y.nSeq > 0; ++d)
						if (d != c && dominates(inst(cands[d]), at[d], y, at[c]))
						{
							ok = false;
							if (y.nSeq == 1)
								next.sameSeqChoice = true;
							else
								next.multiSeqChoice = true;
						}
					if (ok)
						choice.push_back(cands[c]);
				}

				if (r.fault && r.outcome == O_BADALLOC)
				{
					const Inst* x = nullptr;
					if (verdict && verdict->kind == RP_FULL)
					{
						// (failing allocations are never combined with shared source locations)
						if (verdict->exps.size() != 1 || std::find(choice.begin(), choice.end(), verdict->exps[0].inst) == choice.end())
							return fail(why, r, "a full match was reported for an expectation, which must not accept the call");
						x = &inst(verdict->exps[0].inst);
					}
					if (r.fx.empty() && r.fin.empty())
					{
						Next n = next;
						n.st = s;
						out.push_back(std::move(n));
					}
					if (x)
					{
						int val[kArgs];
						std::copy(r.in, r.in + kArgs, val);
						if (!effects(r, *x, val, true, why))
							return !out.empty();
						Next n = next;
						n.st = s;
						n.accepted = x->id;
						advance(n.st, *x);
						out.push_back(std::move(n));
					}
					else if (!r.fx.empty())
						return fail(why, r, "a side effect ran without a reported match");
					return true;
				}

				if (!cands.empty())
				{
					if (verdict && verdict->kind != RP_FULL)
						return fail(why, r, fmt("a %s was reported, but the call must be accepted by expectation %d", kRepNames[verdict->kind], choice[0]));
					if (!verdict && r.reporterKind != RK_DEFAULT)
						return fail(why, r, fmt("no verdict was reported (%s, %.80s), but the call must be accepted by expectation %d", kOutNames[r.outcome], r.text.c_str(), choice[0]));
					if (verdict)
					{
						const int x = verdict->exps.size() == 1 ? verdict->exps[0].inst : -1;
						std::vector<int> named;
						for (const int i : choice)
							if (w.site(i) == x)
								named.push_back(i);
						if (named.empty())
						{
							std::string c;
							for (const int i : choice)
								c += fmt(" %d", i);
							return fail(why, r, fmt("the call was accepted by expectation %d, but must be accepted by one of:%s", x, c.c_str()));
						}
						choice = named;
					}
					for (const int x : choice)
					{
						if (!accept(r, s, inst(x), verdict, why))
							continue;
						Next n = next;
						n.st = s;
						n.accepted = x;
						advance(n.st, inst(x));
						out.push_back(std::move(n));
					}
					return !out.empty();
				}

				// not accepted
				const int kind = matching.empty() ? RP_NONE : RP_INAPP;
				if (!verdict)
					return fail(why, r, fmt("a %s must be reported, but no verdict was reported (%s, %.80s)", kRepNames[kind], kOutNames[r.outcome], r.text.c_str()));
				if (verdict->kind != kind)
					return fail(
						why,
						r,
						fmt(
							"a %s was reported (expectation %d) instead of a %s",
							kRepNames[verdict->kind],
							verdict->exps.empty() ? -1 : verdict->exps[0].inst,
							kRepNames[kind]));
				if (r.outcome != O_FAILURE || &r.reps[static_cast<std::size_t>(r.value)] != verdict)
					return fail(why, r, fmt("the verdict was a failure (%s), but the call ended with %s (%.80s)", kRepNames[kind], kOutNames[r.outcome], r.text.c_str()));
				if (!untouched(r, why) || !check_call_report(r, *verdict, why) || !check_tags(r, s, *verdict, why))
					return false;
				// (several expectations may have the same source location)
				std::vector<int> relevant = kind == RP_INAPP ? matching : others;
				const std::size_t required = relevant.size();
				if (kind == RP_NONE)
					relevant.insert(relevant.end(), optional.begin(), optional.end());
				std::vector<std::vector<int>> edges;
				for (const ExpRep& e : verdict->exps)
				{
					auto& to = edges.emplace_back();
					bool found = false;
					for (std::size_t i = 0; i < relevant.size(); ++i)
						if (w.site(relevant[i]) == e.inst)
						{
							found = true;
							if (check_exp_report(r, s, e, inst(relevant[i]), kind == RP_INAPP ? 1 : 0, why))
								to.push_back(static_cast<int>(i));
						}
					if (!found)
						return fail(why, r, fmt("the %s report names expectation %d, which is not relevant", kRepNames[kind], e.inst));
					if (to.empty())
						return false;
				}
				std::vector<std::vector<int>> back(required);
				for (std::size_t e = 0; e < edges.size(); ++e)
					for (const int i : edges[e])
						if (i < static_cast<int>(required))
							back[static_cast<std::size_t>(i)].push_back(static_cast<int>(e));
				if (const int e = unassigned(edges, relevant.size()); e >= 0)
					return fail(why, r, fmt("the %s report names expectation %d twice", kRepNames[kind], verdict->exps[static_cast<std::size_t>(e)].inst));
				if (const int i = unassigned(back, edges.size()); i >= 0)
					return fail(why, r, fmt("the %s report does not name expectation %d", kRepNames[kind], relevant[static_cast<std::size_t>(i)]));
				next.st = s;
				out.push_back(std::move(next));
				return true;
			}

			// -------------------------------------------------------------- other operations
			bool no_reports(const Rec& r, bool errorsAllowed, std::string& why) const
			{
				for (const Rep& p : r.reps)
					if (!(errorsAllowed && p.kind == RP_ERROR))
						return fail(why, r, fmt("unexpected %s report (%.100s)", kRepNames[p.kind], p.text.c_str()));
				return true;
			}
			bool outcome(const Rec& r, int want, std::string& why) const
			{
				if (r.outcome != want && !(r.fault && r.outcome == O_BADALLOC))
					return fail(why, r, fmt("ended with %s (%.100s) instead of %s", kOutNames[r.outcome], r.text.c_str(), kOutNames[want]));
				return true;
			}

			// returns false (with a reason), if the record isn't possible in this state
			bool step(const St& s, const Rec& r, std::vector<Next>& out, std::string& why) const
			{
				const std::size_t id = static_cast<std::size_t>(r.id);
				switch (r.kind)
				{
				case R_CALL: return call(s, r, out, why);
				case R_CREATE:
				{
					if (!no_reports(r, false, why))
						return false;
					if (!outcome(r, r.variant ? O_LOGIC : O_OK, why))
						return false;
					Next n{s};
					if (r.outcome == O_OK)
					{
						n.st.phase[id] = Live;
						n.st.order.push_back(r.id);
						const Inst& i = inst(r.id);
						for (int k = 0; k < i.nSeq; ++k)
							n.st.seqs[static_cast<std::size_t>(i.seq[k])].members.push_back(r.id);
					}
					else
						n.st.phase[id] = Never;
					out.push_back(std::move(n));
					return true;
				}
				case R_DESTROY:
				{
					if (s.phase[id] != Live)
						return fail(why, r, "the expectation does not exist");
					const Inst& i = inst(r.id);
					const bool unful = count(s, r.id) < i.lo || unmet(i, count(s, r.id));
					const bool builtin = is_builtin(r.reporterKind);
					const bool throwing = builtin || r.reporterKind == RK_SIMTHROW;
					const int want = unful && !(builtin && r.uncaught > 0) ? 1 : 0;
					const int wantOut = unful && throwing && r.uncaught == 0 ? O_UNFUL : O_OK;
					const bool faulted = r.fault && r.outcome == O_BADALLOC;
					int n = 0;
					for (const Rep& p : r.reps)
					{
						if (p.kind == RP_ERROR)
							continue;
						if (p.kind != RP_UNFUL)
							return fail(why, r, fmt("unexpected %s report", kRepNames[p.kind]));
						if (p.exps.size() != 1 || p.exps[0].inst != w.site(r.id))
							return fail(why, r, fmt("the unfulfilled report names expectation %d instead of %d", p.exps.empty() ? -1 : p.exps[0].inst, r.id));
						if (!check_description(r, s, p.exps[0], inst(r.id), nullptr, why))
							return false;
						++n;
					}
					if (n != want && !(faulted && n == 0))
						return fail(why, r, fmt("%d instead of %d unfulfilled reports (count %d, limits [%d,%d]%s)", n, want, count(s, r.id), i.lo, i.hi, unmet(i, count(s, r.id)) ? ", policy not satisfied" : ""));
					if (!outcome(r, wantOut, why))
						return false;
					Next d{s};
					d.st.phase[id] = Dead;
					d.st.order.erase(std::find(d.st.order.begin(), d.st.order.end(), r.id));
					out.push_back(std::move(d));
					return true;
				}
				case R_QUERY:
				{
					if (s.phase[id] != Live)
						return fail(why, r, "the expectation does not exist");
					if (!no_reports(r, false, why) || !outcome(r, O_OK, why))
						return false;
					const bool sat = count(s, r.id) >= inst(r.id).lo && !unmet(inst(r.id), count(s, r.id));
					if (r.outcome == O_OK && r.queried != sat)
						return fail(why, r, fmt("is_satisfied is %d, but the count is %d and the limits are [%d,%d]", r.queried, count(s, r.id), inst(r.id).lo, inst(r.id).hi));
					out.push_back({s});
					return true;
				}
				case R_SEQDEL:
					if (!no_reports(r, true, why) || !outcome(r, O_OK, why))
						return false;
					out.push_back({s});
					return true;
				case R_SERIES:
				{
					if (!no_reports(r, false, why) || !outcome(r, O_OK, why))
						return false;
					Next n{s};
					int call = 0;
					for (const auto& [x, times] : r.series)
						for (int k = 0; k < times; ++k, ++call)
						{
							int want = -1;
							for (const int j : s.order)
								if (inst(j).coll == r.coll && matches(inst(j), r) == 1 && control(n.st, inst(j)) == ES_APPLICABLE)
									want = j;
							if (x != (want < 0 ? -1 : w.site(want)))
								return fail(why, r, fmt("call %d of a series was %s (expectation %d) instead of expectation %d", call, x < 0 ? "rejected" : "accepted", x, want));
							if (want >= 0)
								advance(n.st, inst(want));
						}
					if (r.variant && (r.series.empty() || r.series.back().first >= 0))
						return fail(why, r, fmt("call %d of a series was reported as accepted, but did not return", call));
					out.push_back(std::move(n));
					return true;
				}
				case R_CHURN:
				{
					if (r.value != inst(r.id).op.d)
						return fail(why, r, fmt("expectation number %d of a long series was not matched by its call", r.value));
					Next n{s};
					n.st.phase[id] = Dead;
					// (fulfilled members at the beginning of a sequence don't make any difference)
					out.push_back(std::move(n));
					return true;
				}
				case R_BAD:
					if (!no_reports(r, false, why) || !outcome(r, r.variant ? O_OK : O_INVALID, why))
						return false;
					out.push_back({s});
					return true;
				default:
					if (!no_reports(r, false, why) || !outcome(r, O_OK, why))
						return false;
					out.push_back({s});
					return true;
				}
			}

			// -------------------------------------------------------------- search
			bool search(const St& s, std::vector<std::size_t>& pos, int progress)
			{
				if (++visited > 200000)
				{
					exhausted = true;
					return true;
				}
				bool done = true;
				uint64_t minEnd = UINT64_MAX;
				for (std::size_t t = 0; t < tasks.size(); ++t)
					if (pos[t] < tasks[t].size())
					{
						done = false;
						minEnd = std::min(minEnd, w.recs[static_cast<std::size_t>(tasks[t][pos[t]])].end());
					}
				if (done)
					return true;
				uint64_t key = s.hash();
				for (const std::size_t p : pos)
					key = (key ^ p) * 0x9e3779b97f4a7c15ull + 1;
				if (!seen.insert(key).second)
					return false;
				for (std::size_t t = 0; t < tasks.size(); ++t)
				{
					if (pos[t] >= tasks[t].size())
						continue;
					const int idx = tasks[t][pos[t]];
					const Rec& r = w.recs[static_cast<std::size_t>(idx)];
					if (r.t0 > minEnd)
						continue;
					std::vector<Next> out;
					std::string why;
					if (!step(s, r, out, why))
					{
						if (progress > errProgress)
						{
							errProgress = progress;
							err = why;
						}
						continue;
					}
					++pos[t];
					for (Next& n : out)
					{
						path.emplace_back(idx, std::move(n));
						const St st = path.back().second.st;
						if (search(st, pos, progress + 1))
							return true;
						path.pop_back();
					}
					--pos[t];
				}
				return false;
			}

			// -------------------------------------------------------------- sequences
			bool sequences(const St& s, const std::vector<int>& accepted)
			{
				struct Window
				{
					uint64_t lo, hi;
					int seq;
				};
				std::vector<Window> expected;
				std::vector<std::pair<uint64_t, const Rec*>> errors;
				for (const Rec& r : w.recs)
					for (const Rep& p : r.reps)
						if (p.kind == RP_ERROR)
							errors.emplace_back(p.t, &r);
				std::vector<const Rec*> destroyed(w.insts.size(), nullptr);
				for (const Rec& r : w.recs)
					if (r.kind == R_DESTROY)
						destroyed[static_cast<std::size_t>(r.id)] = &r;
				for (std::size_t q = 0; q < w.seqs.size(); ++q)
				{
					const SeqIdent& ident = w.seqs[q];
					if (ident.delRec < 0)
						continue;
					const Rec& d = w.recs[static_cast<std::size_t>(ident.delRec)];
					Window win{d.t0, d.t1, static_cast<int>(q)};
					int unwinding = d.uncaught;
					bool alive = false, handleLast = true;
					bool bad = false;
					const SeqSt& st = s.seqs[q];
					for (std::size_t k = 0; k < st.members.size(); ++k)
					{
						const int m = st.members[k];
						if (static_cast<int>(k) >= st.cursor && count(s, m) < inst(m).lo)
							bad = true;
						const Rec* x = destroyed[static_cast<std::size_t>(m)];
						if (!x || s.phase[static_cast<std::size_t>(m)] != Dead)
						{
							alive = true;
							continue;
						}
						uint64_t lo = x->t0, hi = x->t1;
						int u = x->uncaught;
						for (std::size_t c = 0; c < w.recs.size(); ++c)
						{
							const Rec& r = w.recs[c];
							if (r.kind != R_CALL || r.coll != inst(m).coll || r.t0 > x->t1 || r.t1 < x->t0)
								continue;
							if (r.t1 > hi)
							{
								hi = r.t1;
								u = r.uncaught;
							}
							if (accepted[c] == m && r.t1 > x->t1 && r.tLastUser > lo)
								lo = r.tLastUser;
						}
						if (lo > win.lo)
							handleLast = false;
						if (hi > win.hi)
							unwinding = u;
						win.lo = std::max(win.lo, lo);
						win.hi = std::max(win.hi, hi);
					}
					if (alive)
						continue;
					if (!handleLast)
						w.feature(FT_SEQ_HANDLE_FIRST);
					if (!st.members.empty())
						w.feature(bad ? FT_SEQ_DEATH_BAD : FT_SEQ_DEATH_GOOD);
					const bool builtin = is_builtin(w.prog->reporter);
					if (bad && !(builtin && unwinding > 0))
						expected.push_back(win);
				}
				// one-to-one assignment
				std::vector<int> used(errors.size(), -1);
				std::vector<char> visitedErr;
				const auto assign = [&](auto&& self, std::size_t e) -> bool {
					for (std::size_t i = 0; i < errors.size(); ++i)
					{
						if (visitedErr[i] || errors[i].first < expected[e].lo || errors[i].first > expected[e].hi)
							continue;
						visitedErr[i] = 1;
						if (used[i] < 0 || self(self, static_cast<std::size_t>(used[i])))
						{
							used[i] = static_cast<int>(e);
							return true;
						}
					}
					return false;
				};
				for (std::size_t e = 0; e < expected.size(); ++e)
				{
					visitedErr.assign(errors.size(), 0);
					if (!assign(assign, e))
					{
						err = fmt("sequence %d ended with an unsatisfied member, but no error was reported at that moment (between %llu and %llu)", expected[e].seq, static_cast<unsigned long long>(expected[e].lo), static_cast<unsigned long long>(expected[e].hi));
						return false;
					}
				}
				for (std::size_t i = 0; i < errors.size(); ++i)
					if (used[i] < 0)
					{
						err = fmt("op %d (%s, task %d): unexpected error report, because no unfinished sequence ended at that moment (time %llu)", errors[i].second->opId, op_name(errors[i].second->op), errors[i].second->task, static_cast<unsigned long long>(errors[i].first));
						return false;
					}
				return true;
			}

			// -------------------------------------------------------------- what happened
			void features(const std::vector<int>& accepted)
			{
				const auto& recs = w.recs;
				bool rejected = false, faulted = false, bad = false;
				std::vector<const Rec*> destroyed(w.insts.size(), nullptr);
				for (const Rec& r : recs)
					if (r.kind == R_DESTROY)
						destroyed[static_cast<std::size_t>(r.id)] = &r;
				for (const auto& [idx, n] : path)
				{
					const Rec& r = recs[static_cast<std::size_t>(idx)];
					if (r.fault)
					{
						faulted = true;
						w.feature(FT_FAULT);
						if (r.outcome == O_BADALLOC)
							w.feature(FT_FAULT_BADALLOC);
						for (const Rep& p : r.reps)
							if (p.excBadAlloc)
								w.feature(FT_FAULT_UNAVAILABLE);
					}
					else if (faulted && r.kind == R_CALL)
						w.feature(FT_CALLS_AFTER_FAULT);
					if (r.kind == R_BAD)
						bad = true;
					if (r.kind == R_CREATE && r.variant)
						w.feature(FT_DESTRUCT_REFUSED);
					if (r.kind == R_DESTROY)
					{
						const bool un = count(n.st, r.id) < inst(r.id).lo || unmet(inst(r.id), count(n.st, r.id));
						w.feature(un ? FT_UNFULFILLED : FT_FULFILLED_END);
						if (un && r.uncaught)
							w.feature(FT_UNFULFILLED_UNWIND);
					}
					if (r.parent >= 0)
					{
						w.feature(FT_NESTED);
						const Rec& p = recs[static_cast<std::size_t>(r.parent)];
						if (p.kind == R_CALL && r.kind == R_CALL && p.coll == r.coll)
							w.feature(FT_REENTRANT_CALL);
						if (p.kind == R_CALL && (r.kind == R_CREATE || r.kind == R_DESTROY) && inst(r.id).coll == p.coll)
							w.feature(FT_REENTRANT_OP);
					}
					if (r.kind != R_CALL || r.noCall)
						continue;
					if (r.printFails)
						w.feature(FT_PRINT_FAILED);
					if (n.threw)
						w.feature(FT_MATCHER_THREW);
					if (n.siblings)
						w.feature(FT_SIBLINGS);
					if (n.blocked)
						w.feature(FT_SEQ_BLOCKED);
					if (n.exhausted)
						w.feature(FT_LIMIT_REACHED);
					if (n.accepted >= 0)
					{
						++w.callsAccepted;
						const Inst& x = inst(n.accepted);
						w.feature(FT_VERDICT_FULL);
						if (n.threw)
							w.feature(FT_MATCHER_THREW_ACCEPTED);
						if (rejected)
							w.feature(FT_REJECTED_THEN_ACCEPTED);
						if (r.outcome == O_ACTION)
							w.feature(FT_ACTION_THREW);
						if (x.nSeq)
							w.feature(FT_SEQ_ACCEPT);
						if (n.sameSeqChoice)
							w.feature(FT_SEQ_CHOICE);
						if (n.multiSeqChoice)
							w.feature(FT_SEQ_CHOICE_MULTI);
						if (x.nSeq == 0 && n.candidates > 1)
							w.feature(FT_SHADOWED);
						if (r.fx.size() > 1)
							w.feature(FT_MULTI_FX);
						for (const FxRec& f : r.fx)
							if (f.n && f.in[0] != f.out[0])
								w.feature(FT_ARG_MODIFIED);
						if (r.port == PT_DESTRUCT)
							w.feature(FT_DESTRUCT_ACCEPTED);
						if (r.port == PT_RELOC)
							w.feature(FT_RELOC_ACCEPTED);
						if (count(n.st, n.accepted) > 1)
							w.feature(FT_REPEATED);
						if (bad)
							w.feature(FT_BAD_BUILD_USED_AFTER);
						const Rec* d = destroyed[static_cast<std::size_t>(n.accepted)];
						if (d && r.tUser && d->t0 > r.tUser && d->t1 < r.t1)
						{
							w.feature(FT_OVERLAP_DESTROY);
							if (d->task == r.task)
								w.feature(FT_SELF_DESTROY);
						}
						for (int k = 0; k < x.nSeq; ++k)
							for (const int m : n.st.seqs[static_cast<std::size_t>(x.seq[k])].members)
								if (inst(m).coll != x.coll)
									w.feature(FT_SEQ_CROSS_MOCK);
					}
					else
					{
						++w.callsRejected;
						rejected = true;
						w.feature(FT_VERDICT_FAIL);
						w.feature(FT_REJECTED);
						if (!r.reps.empty() && r.reps.back().kind == RP_INAPP)
							w.feature(FT_INAPPLICABLE);
						if (r.port == PT_DESTRUCT)
							w.feature(FT_DESTRUCT_UNMATCHED);
						if (r.port == PT_RELOC)
							w.feature(FT_RELOC_UNMATCHED);
					}
				}
				for (std::size_t i = 0; i < recs.size(); ++i)
				{
					const Rec& a = recs[i];
					if (a.kind != R_CALL)
						continue;
					for (std::size_t j = i + 1; j < recs.size(); ++j)
					{
						const Rec& b = recs[j];
						if (b.t0 > a.t1)
							break;
						if (b.task == a.task)
							continue;
						const int coll = b.kind == R_CALL ? b.coll : b.kind == R_CREATE || b.kind == R_DESTROY ? inst(b.id).coll : -1;
						if (coll != a.coll)
							continue;
						if (b.kind == R_CALL)
							w.feature(FT_OVERLAP_CALLS);
						if (a.tUser && b.t0 > a.tUser && b.t1 < a.t1)
							w.feature(FT_OP_DURING_ACTION);
					}
				}
				if (w.stats.blockedOnEvent)
					w.feature(FT_BLOCKED_ACTION);
				(void)accepted;
			}
		};
	}

	bool check(World& w, std::string& error)
	{
		Checker c{w};
		{
			int n = 0;
			for (const Rec& r : w.recs)
			{
				for (const Rep& p : r.reps)
					if (!p.current)
					{
						c.fail(error, r, fmt("a %s was reported to a reporter, which is not the installed one", kRepNames[p.kind]));
						return false;
					}
				const std::size_t t = static_cast<std::size_t>(r.task);
				if (c.tasks.size() <= t)
					c.tasks.resize(t + 1);
				// what a matcher does happens before its call is decided, what an action does happens afterwards
				std::vector<int>& order = c.tasks[t];
				const Rec* x = &r;
				while (!x->inMatcher && x->parent >= 0)
					x = &w.recs[static_cast<std::size_t>(x->parent)];
				order.insert(x->inMatcher ? std::find(order.begin(), order.end(), x->parent) : order.end(), n++);
			}
		}
		St s;
		s.cnt.resize(w.insts.size());
		s.phase.resize(w.insts.size());
		s.seqs.resize(w.seqs.size());
		std::vector<std::size_t> pos(c.tasks.size(), 0);
		if (!c.search(s, pos, 0))
		{
			error = c.err.empty() ? "no sequential order explains the history" : c.err;
			return false;
		}
		if (c.exhausted)
		{
			w.undecided = true;
			return true;
		}
		std::vector<int> accepted(w.recs.size(), -1);
		for (const auto& [idx, n] : c.path)
			accepted[static_cast<std::size_t>(idx)] = n.accepted;
		const St& last = c.path.empty() ? s : c.path.back().second.st;
		if (!c.sequences(last, accepted))
		{
			error = c.err;
			return false;
		}
		c.features(accepted);

		// everything observable
		uint64_t h = 0xcbf29ce484222325ull;
		const auto add = [&](uint64_t v) { h = (h ^ v) * 0x100000001b3ull; h ^= h >> 31; };
		for (const Rec& r : w.recs)
		{
			add(static_cast<uint64_t>(r.kind));
			add(static_cast<uint64_t>(r.task));
			add(static_cast<uint64_t>(r.op));
			add(static_cast<uint64_t>(r.id + 5));
			add(static_cast<uint64_t>(r.in[0]) * 1000 + static_cast<uint64_t>(r.in[1]));
			add(r.t0);
			add(r.t1);
			add(static_cast<uint64_t>(r.outcome) * 7 + r.fault + r.queried * 2);
			add(static_cast<uint64_t>(r.result));
			for (const Rep& p : r.reps)
			{
				add(static_cast<uint64_t>(p.kind));
				add(p.t);
				for (const ExpRep& e : p.exps)
					add(static_cast<uint64_t>(e.inst) * 31 + static_cast<uint64_t>(e.count));
			}
			for (const FxRec& f : r.fx)
				add(static_cast<uint64_t>(f.inst) * 64 + static_cast<uint64_t>(f.k) + f.t * 1024);
		}
		w.histHash = h;
		return true;
	}

	// ------------------------------------------------------------------ text
	const char* const kFeatureNames[FT_COUNT] = {
		"overlapping_calls", "destroyed_during_call", "destroyed_by_own_action", "reentrant_call", "reentrant_create_or_destroy", "action_waited", "operation_during_action",
		"matcher_threw", "matcher_threw_but_accepted", "rejected_call", "accepted_after_rejected", "printing_failed", "action_threw", "unfulfilled", "unfulfilled_while_unwinding",
		"fulfilled_end", "limit_reached", "inapplicable", "sequence_accept", "sequence_blocked", "sequence_choice", "sequence_choice_multiple", "sequence_cross_mock", "shadowed",
		"sibling_overloads", "mock_moved", "expectation_outlives_mock", "handle_moved", "handle_assigned", "reporter_changed", "accepted_call", "failed_call", "destruct_accepted",
		"destruct_unmatched", "identity_moved", "destruct_refused", "relocation_accepted", "relocation_unmatched", "relocation_carried", "several_side_effects", "argument_modified",
		"nested_operation", "unfinished_sequence_died", "finished_sequence_died", "sequence_handle_died_first", "bad_build", "accepted_after_bad_build", "repeated_accept", "allocation_failed",
		"allocation_failure_surfaced", "allocation_failure_reported", "calls_after_allocation_failure"};

	std::string describe(const World& w)
	{
		std::string out;
		static const char* const kinds[] = {"call", "create", "destroy", "query", "delete sequence", "other", "bad build", "series", "churn"};
		for (const Rec& r : w.recs)
		{
			out += fmt("[%llu..%llu] task %d op %d %s/%s id %d", static_cast<unsigned long long>(r.t0), static_cast<unsigned long long>(r.t1), r.task, r.opId, kinds[r.kind], op_name(r.op), r.id);
			if (r.parent >= 0)
				out += fmt(" (inside of op %d)", w.recs[static_cast<std::size_t>(r.parent)].opId);
			if (r.kind == R_CALL)
				out += fmt(" %s:%s collection %d args %d,%d,%d", port_name(r.port), eps(r.port)[static_cast<std::size_t>(r.ep)].name, r.coll, r.in[0], r.in[1], r.in[2]);
			if (r.kind == R_CREATE)
			{
				const Inst& i = w.insts[static_cast<std::size_t>(r.id)];
				out += fmt(" %s:%s collection %d limits [%d,%d] matcher %d(%d,%d;%d,%d)", port_name(i.port), eps(i.port)[static_cast<std::size_t>(i.ep)].name, i.coll, i.lo, i.hi, i.leaf.m, i.op.a, i.op.b, i.op.c, i.op.d);
				for (int k = 0; k < i.nSeq; ++k)
					out += fmt(" seq %d(%c)", i.seq[k], i.seqKind[k]);
			}
			if (r.t1)
				out += fmt(" -> %s value %d result %d%s%s", kOutNames[r.outcome], r.value, r.result, r.fault ? " (allocation failed)" : "", r.kind == R_QUERY ? (r.queried ? " satisfied" : " not satisfied") : "");
			else
				out += " -> not finished";
			if (!r.text.empty())
				out += " \"" + r.text.substr(0, 100) + "\"";
			out += "\n";
			for (const Rep& p : r.reps)
			{
				out += fmt("    [%llu] reports %s:", static_cast<unsigned long long>(p.t), kRepNames[p.kind]);
				for (const ExpRep& e : p.exps)
					out += fmt(" exp %d", e.inst);
				if (p.kind == RP_ERROR)
					out += " " + p.text;
				out += "\n";
			}
			for (const FxRec& f : r.fx)
				out += fmt("    [%llu] side effect %d of %d\n", static_cast<unsigned long long>(f.t), f.k, f.inst);
			for (const FinRec& f : r.fin)
				out += fmt("    [%llu] finalizer of %d\n", static_cast<unsigned long long>(f.t), f.inst);
		}
		return out;
	}
}
