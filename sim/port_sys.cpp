// Handles, sequences, incomplete builds, watched objects and reporters (instrumented).
#include "exec.hpp"
#include "ports.hpp"

#include <ostream>
#include <streambuf>

namespace sim
{
	// ------------------------------------------------------------------ sequences
	void* seq_make(char kind)
	{
		if (kind == 'L')
			return new mimicpp::LazySequence{};
		return new mimicpp::GreedySequence{};
	}
	void seq_destroy(char kind, void* p)
	{
		if (kind == 'L')
			delete static_cast<mimicpp::LazySequence*>(p);
		else
			delete static_cast<mimicpp::GreedySequence*>(p);
	}

	// ------------------------------------------------------------------ handles
	using Handle = mimicpp::ScopedExpectation;
	void handle_destroy(Handle* e, int ctx)
	{
		if (ctx == 1)
		{
			const Handle local{std::move(*e)};
			delete e;
		}
		else
			delete e;
	}
	Handle* handle_move(Handle* e)
	{
		auto* n = new Handle{std::move(*e)};
		delete e;
		return n;
	}
	void handle_assign(Handle* dst, Handle* src)
	{
		*dst = std::move(*src);
	}
	void handle_swap(Handle* a, Handle* b)
	{
		using std::swap;
		swap(*a, *b);
	}
	bool handle_satisfied(Handle* e) { return e->is_satisfied(); }
	static int number_of(const std::source_location& loc) { return static_cast<int>(running_program() && running_program()->sites < 0 ? loc.column() : loc.line()); }
	unsigned handle_line(Handle* e) { return static_cast<unsigned>(number_of(e->from())); }

	// ------------------------------------------------------------------ incomplete builds
	// a part of an expectation which can't be moved and whose copy constructor fails, when it's its turn
	template <typename Fn>
	struct Bomb
	{
		Fn fn;
		int* countdown;
		Bomb(Fn f, int* c) : fn(std::move(f)), countdown(c) {}
		Bomb(const Bomb& o) : fn(o.fn), countdown(o.countdown)
		{
			if (*countdown > 0 && --*countdown == 0)
				throw std::invalid_argument{"a part of the expectation can't be copied"};
		}
		template <typename... T>
		decltype(auto) operator()(T&&... v) const { return fn(std::forward<T>(v)...); }
		template <typename... T>
		decltype(auto) operator()(T&&... v) { return fn(std::forward<T>(v)...); }
	};
	struct BombFinalizer
	{
		Bomb<FinCb> fn;
		int finalize_call(const auto&) { return fn(); }
	};

	int bad_build(int variant, void* intMock, const CreateCtx& c)
	{
		auto& m = *static_cast<mimicpp::Mock<int(int)>*>(intMock);
		namespace e = mimicpp::expect;
		namespace f = mimicpp::finally;
		const auto s0 = [&]() -> mimicpp::LazySequence& { return lazy(c.seq[0]); };
		const auto s1 = [&]() -> mimicpp::LazySequence& { return lazy(c.seq[1]); };
		const auto& any = mimicpp::matches::_;
		const auto keep = [&](auto&& builder) { const Handle h{std::move(builder), c.loc}; };
		// limits of every size, valid ones too
		const auto limited = [&](auto limits) { [[maybe_unused]] auto b = m.expect_call(any) && std::move(limits) && f::returns(1); };
		switch (variant)
		{
		case 0: keep(m.expect_call(any) && f::returns(1) && e::times(-1)); break;
		case 1: keep(m.expect_call(any) && e::times(3, 1) && f::returns(1)); break;
		case 2: keep(m.expect_call(c.op->a) && e::at_least(-1) && f::returns(1)); break;
		case 3: keep(m.expect_call(any) && f::returns(1) && e::at_most(-2)); break;
		case 4: keep(m.expect_call(any) && e::in_sequences(s0(), s0()) && f::returns(1)); break;
		case 5: keep(m.expect_call(any) && e::in_sequence(s0()) && e::in_sequence(s0()) && f::returns(1)); break;
		case 6: keep(m.expect_call(any) && e::in_sequences(s0(), s1()) && e::in_sequence(s0()) && f::returns(1)); break;
		case 7: keep(m.expect_call(any) && e::in_sequence(s0()) && f::returns(1) && e::times(2, 1)); break;
		case 8: keep(m.expect_call(any) && e::in_sequences(s0(), s1(), s0()) && f::returns(1)); break;
		case 9:
		{
			[[maybe_unused]] auto b = m.expect_call(any) && e::in_sequence(s0());
			break;
		}
		case 10:
		{
			[[maybe_unused]] auto b = m.expect_call(c.op->a) && e::times(1, 2) && e::in_sequences(s0(), s1()) && f::returns(2);
			break;
		}
		case 11:
		{
			[[maybe_unused]] auto b = m.expect_call(mimicpp::matches::predicate(PredFn{c.inst, 0, M_PRED})) && mimicpp::then::invoke(PlainFx{c.inst, 0}) && f::returns_result_of(FinCb{c.inst});
			[[maybe_unused]] auto b2 = std::move(b);
			break;
		}
		case 12: keep(m.expect_call(any) && f::returns(1) && e::times(0, -1)); break;
		case 14: limited(e::times(c.op->tmin, c.op->tmax)); break;
		case 15: limited(e::times(c.op->tmin)); break;
		case 16: limited(e::at_least(c.op->tmin)); break;
		case 17: limited(e::at_most(c.op->tmax)); break;
		case 18: case 19: case 20: case 21:
		{
			int countdown = 0;
			const auto bombs = [&](auto builder) {
				auto b = std::move(builder) && BombFinalizer{{FinCb{c.inst}, &countdown}}
						&& mimicpp::then::invoke(Bomb<PlainFx>{PlainFx{c.inst, 0}, &countdown});
				countdown = 1 + (c.op->a & 0x7FFF) % 3;
				keep(std::move(b));
			};
			auto first = m.expect_call(mimicpp::matches::predicate(Bomb<PredFn>{PredFn{c.inst, 0, M_PRED}, &countdown}));
			if (variant == 18)
				bombs(std::move(first));
			else if (variant == 19)
				bombs(std::move(first) && e::in_sequence(s0()));
			else if (variant == 20)
				bombs(std::move(first) && e::times(0, 2) && e::in_sequences(s0(), s1()));
			else
				bombs(std::move(first) && e::in_sequence(s0()) && e::in_sequence(s1()) && e::twice());
			break;
		}
		default: keep(m.expect_call(any) && e::in_sequence(s0()) && e::in_sequences(s1(), s0()) && e::times(0, 2) && f::returns(1)); break;
		}
		return 0;
	}

	// ------------------------------------------------------------------ watched objects
	struct Base
	{
		int value{};
		Base() = default;
		~Base() noexcept(false) {}
		Base(const Base& o) noexcept(false) : value{o.value} {}
		Base& operator=(const Base& o) noexcept(false)
		{
			value = o.value;
			return *this;
		}
		Base(Base&& o) noexcept(false) : value{o.value} {}
		Base& operator=(Base&& o) noexcept(false)
		{
			value = o.value;
			return *this;
		}
	};
	struct VBase
	{
		int value{};
		VBase() = default;
		virtual ~VBase() noexcept(false) {}
		VBase(const VBase& o) noexcept(false) : value{o.value} {}
		VBase& operator=(const VBase& o) noexcept(false)
		{
			value = o.value;
			return *this;
		}
		VBase(VBase&& o) noexcept(false) : value{o.value} {}
		VBase& operator=(VBase&& o) noexcept(false)
		{
			value = o.value;
			return *this;
		}
	};
	using ObjL = mimicpp::Watched<Base, mimicpp::LifetimeWatcher>;
	using ObjR = mimicpp::Watched<Base, mimicpp::RelocationWatcher>;
	using ObjRL = mimicpp::Watched<Base, mimicpp::RelocationWatcher, mimicpp::LifetimeWatcher>;
	using ObjV = mimicpp::Watched<VBase, mimicpp::LifetimeWatcher>;
	using BareL = mimicpp::LifetimeWatcher;
	using BareR = mimicpp::RelocationWatcher;

	template <typename F>
	static auto with_obj(int type, F&& f)
	{
		switch (type)
		{
		case 0: return f.template operator()<ObjL>();
		case 1: return f.template operator()<ObjR>();
		case 2: return f.template operator()<ObjRL>();
		case 3: return f.template operator()<ObjV>();
		case 4: return f.template operator()<BareL>();
		default: return f.template operator()<BareR>();
		}
	}

	void* obj_make(int type)
	{
		return with_obj(type, []<typename T>() -> void* { return new T{}; });
	}
	void obj_destroy(int type, void* p)
	{
		if (type == 3)
		{
			VBase* b = static_cast<ObjV*>(p);
			delete b;
			return;
		}
		with_obj(type, [p]<typename T>() { delete static_cast<T*>(p); });
	}
	void* obj_move(int type, void* src)
	{
		return with_obj(type, [src]<typename T>() -> void* { return new T{std::move(*static_cast<T*>(src))}; });
	}
	void obj_assign(int type, void* dst, void* src)
	{
		with_obj(type, [=]<typename T>() { *static_cast<T*>(dst) = std::move(*static_cast<T*>(src)); });
	}
	void* obj_copy(int type, const void* src)
	{
		return with_obj(type, [src]<typename T>() -> void* { return new T{*static_cast<const T*>(src)}; });
	}
	void obj_copy_assign(int type, void* dst, const void* src)
	{
		with_obj(type, [=]<typename T>() { *static_cast<T*>(dst) = *static_cast<const T*>(src); });
	}

	static mimicpp::LifetimeWatcher& lifetime(const ObjRef& r)
	{
		switch (r.type)
		{
		case 0: return *static_cast<ObjL*>(r.p);
		case 2: return *static_cast<ObjRL*>(r.p);
		case 3: return *static_cast<ObjV*>(r.p);
		default: return *static_cast<BareL*>(r.p);
		}
	}
	static mimicpp::RelocationWatcher& relocation(const ObjRef& r)
	{
		switch (r.type)
		{
		case 1: return *static_cast<ObjR*>(r.p);
		case 2: return *static_cast<ObjRL*>(r.p);
		default: return *static_cast<BareR*>(r.p);
		}
	}

	template <LeafInfo L>
	static mimicpp::ScopedExpectation* create_destruct(void* ref, const CreateCtx& ctx)
	{
		return with_keeper(ctx, [=](const CreateCtx& c) { return finish<L, 0>(lifetime(*static_cast<ObjRef*>(ref)).expect_destruct(), c); });
	}
	template <LeafInfo L>
	static mimicpp::ScopedExpectation* create_reloc(void* ref, const CreateCtx& ctx)
	{
		return with_keeper(ctx, [=](const CreateCtx& c) { return finish<L, 0>(relocation(*static_cast<ObjRef*>(ref)).expect_relocate(), c); });
	}

	static constexpr LeafInfo kDestructLeaves[] = {
		{M_ANY, T_DEF, S_NONE, E_0, F_VOID, 0, 0},
		{M_ANY, T_DEF, S_NONE, E_I, F_VOID, 1, 0},
		{M_ANY, T_DEF, S_NONE, E_AI, F_THROW, 2, 0},
		{M_ANY, T_DEF, S_L, E_0, F_VOID, 0, 0},
		{M_ANY, T_DEF, S_G, E_I, F_VOID, 0, 0},
		{M_ANY, T_DEF, S_LG, E_0, F_VOID, 0, 0},
		{M_ANY, T_DEF, S_LL, E_I, F_VOID, 1, 0},
	};
	static constexpr LeafInfo kRelocLeaves[] = {
		{M_ANY, T_DEF, S_NONE, E_0, F_VOID, 0, 0},
		{M_ANY, T_RANGE, S_NONE, E_I, F_VOID, 1, 0},
		{M_ANY, T_ATLEAST, S_NONE, E_AI, F_VOID, 0, 0},
		{M_ANY, T_RANGE, S_NONE, E_I, F_THROW, 2, 0},
		{M_ANY, T_DEF, S_L, E_0, F_VOID, 0, 0},
		{M_ANY, T_RANGE, S_G, E_I, F_VOID, 0, 0},
		{M_ANY, T_RANGE, S_LG, E_0, F_VOID, 1, 0},
	};
	template <const auto& table, bool destruct>
	static const CreateFn* obj_table()
	{
		static CreateFn t[std::size(table)];
		[&]<std::size_t... i>(std::index_sequence<i...>) {
			if constexpr (destruct)
				((t[i] = &create_destruct<table[i]>), ...);
			else
				((t[i] = &create_reloc<table[i]>), ...);
		}(std::make_index_sequence<std::size(table)>{});
		return t;
	}
	const CreateFn* const destruct_leaves = obj_table<kDestructLeaves, true>();
	const CreateFn* const reloc_leaves = obj_table<kRelocLeaves, false>();
	std::vector<LeafInfo> leaves_destruct() { return {std::begin(kDestructLeaves), std::end(kDestructLeaves)}; }
	std::vector<LeafInfo> leaves_reloc() { return {std::begin(kRelocLeaves), std::end(kRelocLeaves)}; }

	// ------------------------------------------------------------------ reporters
	static int inst_of(const std::optional<std::source_location>& loc)
	{
		if (!loc || std::string_view{loc->file_name()} != "exp")
			return -1;
		return number_of(*loc);
	}

	const char* type_name(int type)
	{
		switch (type)
		{
		case AT_TEXT: return typeid(std::string).name();
		case AT_PTR: return typeid(std::unique_ptr<int>).name();
		case AT_FRAGILE: return typeid(Fragile).name();
		case AT_PAYLOAD: return typeid(Payload).name();
		case AT_VOID: return typeid(void).name();
		default: return typeid(int).name();
		}
	}

	static unsigned long long tag_value(mimicpp::sequence::Tag t)
	{
		return static_cast<unsigned long long>(t);
	}

	static int number_at(std::string_view s, std::size_t pos)
	{
		int v = 0;
		bool any = false;
		while (pos < s.size() && s[pos] >= '0' && s[pos] <= '9')
		{
			v = v * 10 + (s[pos++] - '0');
			any = true;
		}
		return any ? v : -1;
	}

	// all counts of a textual description
	static std::vector<int> numbers(std::string_view s)
	{
		std::vector<int> out;
		for (std::size_t i = 0; i < s.size();)
		{
			const auto letter = [&](std::size_t k) { return k < s.size() && ((s[k] >= 'a' && s[k] <= 'z') || (s[k] >= 'A' && s[k] <= 'Z')); };
			if (s[i] >= '0' && s[i] <= '9')
			{
				out.push_back(number_at(s, i));
				while (i < s.size() && s[i] >= '0' && s[i] <= '9')
					++i;
			}
			else if (letter(i))
			{
				const std::size_t b = i;
				while (letter(i))
					++i;
				const std::string_view word = s.substr(b, i - b);
				if (word == "never")
					out.push_back(0);
				else if (word == "once")
					out.push_back(1);
				else if (word == "twice")
					out.push_back(2);
			}
			else
				++i;
		}
		return out;
	}

	static ReqRep requirement(std::string_view text, int match)
	{
		ReqRep r;
		r.match = match;
		r.text = std::string{text};
		if (const auto pos = text.find("arg["); pos != text.npos)
			r.arg = number_at(text, pos + 4);
		return r;
	}

	static void convert(Rep& r, const mimicpp::CallReport& c)
	{
		if (std::string_view{c.fromLoc.file_name()} == "call")
			r.line = number_of(c.fromLoc);
		r.category = c.fromCategory == mimicpp::ValueCategory::any ? 3 : c.fromCategory == mimicpp::ValueCategory::rvalue ? 2 : 1;
		r.constness = c.fromConstness == mimicpp::Constness::any ? 3 : c.fromConstness == mimicpp::Constness::as_const ? 2 : 1;
		r.nArgs = static_cast<int>(c.argDetails.size());
		for (int i = 0; i < r.nArgs && i < kArgs; ++i)
		{
			r.args[i] = c.argDetails[static_cast<std::size_t>(i)].stateString.c_str();
			r.types[i] = c.argDetails[static_cast<std::size_t>(i)].typeIndex.name();
		}
		r.ret = c.returnTypeIndex.name();
	}
	static ExpRep convert(const mimicpp::MatchReport& m)
	{
		ExpRep e;
		e.inst = inst_of(m.sourceLocation);
		e.allMatch = true;
		for (const auto& x : m.expectationReports)
		{
			e.allMatch = e.allMatch && x.isMatching;
			e.reqs.push_back(requirement(x.description ? std::string_view{x.description->c_str()} : std::string_view{}, x.isMatching));
		}
		e.hasReqs = true;
		if (const auto* a = std::get_if<mimicpp::state_applicable>(&m.controlReport))
		{
			e.state = ES_APPLICABLE;
			e.min = a->min, e.max = a->max, e.count = a->count;
			e.seqs = static_cast<int>(a->sequenceRatings.size());
			e.inapplicable = 0;
		}
		else if (const auto* b = std::get_if<mimicpp::state_inapplicable>(&m.controlReport))
		{
			e.state = ES_INAPPLICABLE;
			e.min = b->min, e.max = b->max, e.count = b->count;
			e.seqs = static_cast<int>(b->sequenceRatings.size() + b->inapplicableSequences.size());
			e.inapplicable = static_cast<int>(b->inapplicableSequences.size());
			for (const auto t : b->inapplicableSequences)
				e.tags.push_back(tag_value(t));
		}
		else
		{
			const auto& s = std::get<mimicpp::state_saturated>(m.controlReport);
			e.state = ES_SATURATED;
			e.min = s.min, e.max = s.max, e.count = s.count;
			e.seqs = static_cast<int>(s.sequences.size());
		}
		return e;
	}
	static ExpRep convert(const mimicpp::ExpectationReport& m)
	{
		ExpRep e;
		e.inst = inst_of(m.sourceLocation);
		if (m.timesDescription)
		{
			e.hasTimes = true;
			e.times = numbers(m.timesDescription->c_str());
		}
		e.hasReqs = true;
		for (const auto& x : m.expectationDescriptions)
			if (x)
				e.reqs.push_back(requirement(x->c_str(), -1));
		return e;
	}
	static std::vector<ExpRep> convert(const std::vector<mimicpp::MatchReport>& v)
	{
		std::vector<ExpRep> out;
		for (const auto& m : v)
			out.push_back(convert(m));
		return out;
	}

	struct ReporterFailure
	{
		int kind;	// RepKind
		int rep;	// index of the report
	};

	class SimReporter final : public mimicpp::IReporter
	{
		int m_Id;
		bool m_Throwing;

	public:
		SimReporter(int id, bool throwing) : m_Id{id}, m_Throwing{throwing} {}

		[[noreturn]] void report_no_matches(mimicpp::CallReport call, std::vector<mimicpp::MatchReport> reports) override
		{
			fail(RP_NONE, call, reports);
		}
		[[noreturn]] void report_inapplicable_matches(mimicpp::CallReport call, std::vector<mimicpp::MatchReport> reports) override
		{
			fail(RP_INAPP, call, reports);
		}
		void report_full_match(mimicpp::CallReport call, mimicpp::MatchReport report) noexcept override
		{
			rt::Harness h;
			Rep r;
			r.kind = RP_FULL;
			r.details = true;
			convert(r, call);
			r.exps.push_back(convert(report));
			rep_begin(std::move(r), m_Id);
		}
		void report_unfulfilled_expectation(mimicpp::ExpectationReport report) override
		{
			rt::Harness h;
			Rep r;
			r.kind = RP_UNFUL;
			r.exps.push_back(convert(report));
			r.threw = m_Throwing && uncaught_now() == 0;
			const bool doThrow = r.threw;
			const int idx = rep_begin(std::move(r), m_Id);
			if (doThrow)
				throw ReporterFailure{RP_UNFUL, idx};
		}
		void report_error(mimicpp::StringT message) override
		{
			rt::Harness h;
			Rep r;
			r.kind = RP_ERROR;
			r.text = message.c_str();
			rep_begin(std::move(r), m_Id);
		}
		void report_unhandled_exception(mimicpp::CallReport call, mimicpp::ExpectationReport report, std::exception_ptr exception) override
		{
			rt::Harness h;
			Rep r;
			r.kind = RP_UNHANDLED;
			r.details = true;
			convert(r, call);
			r.exps.push_back(convert(report));
			try
			{
				if (exception)
					std::rethrow_exception(exception);
			}
			catch (const MatcherError& e)
			{
				if (!MatcherCode::used_by(e.inst))
					r.excInst = e.inst;
			}
			catch (const MatcherCode& e)
			{
				r.excInst = e.inst;
			}
			catch (const std::bad_alloc&)
			{
				r.excBadAlloc = true;
			}
			catch (...)
			{
			}
			rep_begin(std::move(r), m_Id);
		}

	private:
		[[noreturn]] void fail(int kind, const mimicpp::CallReport& call, const std::vector<mimicpp::MatchReport>& reports)
		{
			rt::Harness h;
			Rep r;
			r.kind = kind;
			r.details = true;
			r.threw = true;
			convert(r, call);
			r.exps = convert(reports);
			const int idx = rep_begin(std::move(r), m_Id);
			throw ReporterFailure{kind, idx};
		}
	};

	// --- text
	static void parse_text(Rep& r, std::string_view s)
	{
		r.text = std::string{s.substr(0, 400)};
		if (s.starts_with("Found match for"))
			r.kind = RP_FULL;
		else if (s.starts_with("No applicable match for"))
			r.kind = RP_INAPP;
		else if (s.starts_with("No match for"))
			r.kind = RP_NONE;
		else if (s.starts_with("Unfulfilled expectation"))
			r.kind = RP_UNFUL;
		else if (s.starts_with("Unhandled exception"))
		{
			r.kind = RP_UNHANDLED;
			constexpr std::string_view key{"matcher error "};
			if (const auto pos = s.find(key); pos != s.npos)
				r.excInst = number_at(s, pos + key.size());
		}
		else
			r.kind = RP_ERROR;
		if (const auto pos = s.find("call["); pos != s.npos)
			r.line = number_at(s, pos + 5);
		ExpRep* e = nullptr;
		int list = -2;	// the requirements which are being listed: failed, passed or unknown
		int arg = -1;
		bool times = false;
		std::string collected;
		const auto end_times = [&] {
			if (times && e)
			{
				e->hasTimes = true;
				e->times = numbers(collected);
			}
			times = false;
			collected.clear();
		};
		for (std::size_t b = 0; b < s.size();)
		{
			const std::size_t nl = std::min(s.find('\n', b), s.size());
			const std::string_view line = s.substr(b, nl - b);
			b = nl + 1;
			const auto value = [&](std::string_view key, std::string_view& v) {
				if (!line.starts_with(key))
					return false;
				v = line.substr(key.size());
				if (v.ends_with(','))
					v.remove_suffix(1);
				return true;
			};
			std::string_view v;
			if (times && line.starts_with("\t"))
			{
				collected += line;
				continue;
			}
			end_times();
			const bool matched = line.starts_with("Matched expectation"), inapp = line.starts_with("Inapplicable, but"), unmatched = line.starts_with("Unmatched expectation");
			if (matched || inapp || unmatched || line.starts_with("Expectation report"))
			{
				r.exps.emplace_back();
				e = &r.exps.back();
				e->hasReqs = true;
				e->allMatch = !unmatched;
				list = -2;
			}
			else if (value("constness: ", v))
			{
				r.details = true;
				r.constness = v == "any" ? 3 : v == "const" ? 2 : 1;
			}
			else if (value("value category: ", v))
				r.category = v == "any" ? 3 : v == "rvalue" ? 2 : 1;
			else if (value("return type: ", v))
				r.ret = std::string{v};
			else if (value("\targ[", v))
			{
				arg = number_at(v, 0);
				++r.nArgs;
			}
			else if (value("\t\ttype: ", v) && arg >= 0 && arg < kArgs)
				r.types[arg] = std::string{v};
			else if (value("\t\tvalue: ", v) && arg >= 0 && arg < kArgs)
				r.args[arg] = std::string{v};
			else if (line.ends_with("available expectation(s):"))
				r.announced = number_at(line, 0);
			else if (line == "No expectations available.")
				r.announced = 0;
			else if (e && (value("reason: ", v) || value("times: ", v)))
			{
				times = true;
				collected = std::string{v};
			}
			else if (e && value("from: exp[", v))
				e->inst = number_at(v, 0);
			else if (line == "failed:")
				list = 0;
			else if (line == "passed:")
				list = 1;
			else if (line == "expects:")
				list = -1;
			else if (e && list > -2 && value("\t", v))
				e->reqs.push_back(requirement(v, list));
		}
		end_times();
	}

	static int g_basicId[2];
	template <int v>
	struct TextReporter
	{
		static int add(const mimicpp::StringT& s, bool fail)
		{
			Rep r;
			parse_text(r, s.c_str());
			r.threw = fail;
			return rep_begin(std::move(r), g_basicId[v]);
		}
		static void ok(const mimicpp::StringT& s)
		{
			rt::Harness h;
			add(s, false);
		}
		static void fail(const mimicpp::StringT& s)
		{
			rt::Harness h;
			Rep r;
			parse_text(r, s.c_str());
			r.threw = true;
			const int kind = r.kind;
			const int idx = rep_begin(std::move(r), g_basicId[v]);
			throw ReporterFailure{kind, idx};
		}
	};
	template <int v>
	using Basic = mimicpp::BasicReporter<&TextReporter<v>::ok, &TextReporter<v>::ok, &TextReporter<v>::fail>;

	// the adapters
	bool install_adapter0();
	bool install_adapter1();
	bool install_adapter2();
	bool install_adapter3();
	bool install_adapter4();
	static int g_adapterId;
	static std::vector<ReporterFailure> g_pending[rt::kMaxTasks];	// failures which have been announced to a test framework without exceptions
	static ReporterFailure adapter_report(const char* text, std::size_t size, bool fail)
	{
		const std::string_view s{text, size};
		Rep r;
		parse_text(r, s.starts_with("warning: ") ? s.substr(9) : s);
		r.threw = fail;
		const int kind = r.kind;
		return {kind, rep_begin(std::move(r), g_adapterId)};
	}

	// the stream of the default reporter
	static int g_defaultId;
	class Sink final : public std::streambuf
	{
		std::string m_Text;
		int_type overflow(int_type c) override
		{
			rt::Harness h;
			if (c != traits_type::eof())
				add(static_cast<char>(c));
			return c;
		}
		std::streamsize xsputn(const char* s, std::streamsize n) override
		{
			rt::Harness h;
			for (std::streamsize i = 0; i < n; ++i)
				m_Text.push_back(s[i]);
			return n;
		}
		void add(char c)
		{
			// each message is followed by a single character write
			if (c == '\n')
			{
				Rep r;
				parse_text(r, m_Text.c_str());
				if (r.kind == RP_UNHANDLED)
					rep_begin(std::move(r), g_defaultId);
				m_Text.clear();
			}
			else
				m_Text.push_back(c);
		}

	public:
		void reset() { m_Text.clear(); }
	};
	static Sink g_sink;
	static std::ostream g_stream{&g_sink};

	void install(int kind, int id, bool withStream)
	{
		switch (kind)
		{
		case RK_SIM: mimicpp::install_reporter<SimReporter>(id, false); break;
		case RK_SIMTHROW: mimicpp::install_reporter<SimReporter>(id, true); break;
		case RK_BASIC:
			g_basicId[id % 2] = id;
			if (id % 2)
				mimicpp::install_reporter<Basic<1>>();
			else
				mimicpp::install_reporter<Basic<0>>();
			break;
		case RK_CATCH2:
		case RK_GTEST:
		case RK_BOOST:
		case RK_DOCTEST:
			for (auto& p : g_pending)
				p.clear();
			g_adapterId = id;
			if (!(kind == RK_CATCH2 ? ((static_cast<int>(g_world->prog->seed) + id) % 2 ? install_adapter4() : install_adapter0()) : kind == RK_GTEST ? install_adapter1() : kind == RK_BOOST ? install_adapter2() : install_adapter3()))
				install(RK_BASIC, id, withStream);
			break;
		default:
			g_defaultId = id;
			g_sink.reset();
			mimicpp::install_reporter<mimicpp::DefaultReporter>(withStream ? &g_stream : nullptr);
			break;
		}
	}

	int uncaught_now() { return std::uncaught_exceptions(); }

	static void reporter_failure(Rec& rec, const ReporterFailure& f)
	{
		rec.outcome = f.kind == RP_NONE || f.kind == RP_INAPP ? O_FAILURE : f.kind == RP_UNFUL ? O_UNFUL : O_ERROR;
		rec.value = f.rep;
	}

	void classify(Rec& rec)
	{
		try
		{
			throw;
		}
		catch (const ReporterFailure& f)
		{
			reporter_failure(rec, f);
		}
		catch (const mimicpp::UnmatchedCallT& e)
		{
			rec.outcome = O_FAILURE;
			Rep r;
			parse_text(r, e.what());
			const int announced = r.announced;
			r = Rep{.kind = r.kind, .announced = announced, .text = r.text};
			r.exps = convert(std::get<1>(e.data()));
			r.details = true;
			r.threw = true;
			r.line = -1;
			convert(r, std::get<0>(e.data()));
			rec.value = rep_begin(std::move(r), g_defaultId);
		}
		catch (const mimicpp::UnfulfilledExpectationT& e)
		{
			rec.outcome = O_UNFUL;
			Rep r;
			r.kind = RP_UNFUL;
			r.exps.push_back(convert(e.data()));
			r.threw = true;
			rec.value = rep_begin(std::move(r), g_defaultId);
		}
		catch (const mimicpp::Error<>& e)
		{
			rec.outcome = O_ERROR;
			Rep r;
			r.kind = RP_ERROR;
			r.text = e.what();
			r.threw = true;
			rec.value = rep_begin(std::move(r), g_defaultId);
		}
		// (a caller may modify the exception it has caught)
		catch (ActionError& e)
		{
			rec.outcome = O_ACTION;
			rec.value = e.value.v;
			e.value.v = -555;
		}
		catch (StdActionError& e)
		{
			rec.outcome = O_ACTION;
			rec.value = e.value.v;
			e.value.v = -555;
		}
		catch (ActionCode& e)
		{
			rec.outcome = O_ACTION;
			rec.value = static_cast<int>(e);
			e = ActionCode{-555};
		}
		catch (const PrinterError& e)
		{
			rec.outcome = O_PRINTER;
			rec.value = e.value;
		}
		catch (const MatcherCode& e)
		{
			rec.outcome = O_MATCHER;
			rec.value = e.inst;
		}
		catch (const MatcherError& e)
		{
			rec.outcome = O_MATCHER;
			rec.value = e.inst;
		}
		catch (const std::bad_alloc&)
		{
			rec.outcome = O_BADALLOC;
		}
		catch (const std::invalid_argument& e)
		{
			rec.outcome = O_INVALID;
			rec.text = e.what();
		}
		catch (const std::logic_error& e)
		{
			rec.outcome = O_LOGIC;
			rec.text = e.what();
		}
		catch (const std::exception& e)
		{
			rec.outcome = O_OTHER;
			rec.text = e.what();
		}
		catch (...)
		{
			const int me = rt::self();
			if (me >= 0 && !g_pending[me].empty())
			{
				// the exception an adapter has chosen by itself
				reporter_failure(rec, g_pending[me].back());
				g_pending[me].pop_back();
				return;
			}
			rec.outcome = O_OTHER;
			rec.text = "unknown exception";
		}
	}

	// ------------------------------------------------------------------ tables
	PortOps ops_void();
	PortOps ops_refstr();
	PortOps ops_move();
	PortOps ops_prn();
	PortOps ops_const();
	PortOps ops_refret();
	PortOps ops_refq();
	PortOps ops_ovl();
	PortOps ops_iface();
	PortOps ops_wide();
	PortOps ops_noex();
}

namespace sim_stub
{
	void message(const char* text, unsigned long size)
	{
		rt::Harness h;
		sim::adapter_report(text, size, false);
	}

	void fail(const char* text, unsigned long size)
	{
		rt::Harness h;
		throw sim::adapter_report(text, size, true);
	}

	void fail_and_continue(const char* text, unsigned long size)
	{
		rt::Harness h;
		sim::g_pending[rt::self()].push_back(sim::adapter_report(text, size, true));
	}
}
