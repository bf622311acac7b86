// Building blocks for the ports: user code (matchers, side effects, finalizers) and the policy chains.
// Everything in here is instrumented and runs as code under test, except the bodies of the callbacks.
#pragma once
#include "mimic++/mimic++.hpp"
#include "world.hpp"

#include <array>
#include <memory>
#include <string>
#include <utility>

namespace sim
{
	// an argument type, whose printer may fail
	struct Fragile
	{
		int value{};
		friend bool operator==(const Fragile&, const Fragile&) = default;
	};

	inline std::string text_of(int v);

	// a value with a heap allocated part, which notices if it has been moved from or damaged
	struct Payload
	{
		int value{};
		std::string text{};
		Payload() = default;
		Payload(int v) : value{v}, text{make(v)} {}
		Payload(const Payload&) = default;
		Payload& operator=(const Payload&) = default;
		Payload(Payload&& o) noexcept : value{o.value}, text{std::move(o.text)}
		{
			o.value = -777;
			o.text.clear();
		}
		Payload& operator=(Payload&& o) noexcept
		{
			value = o.value;
			text = std::move(o.text);
			if (this != &o)
			{
				o.value = -777;
				o.text.clear();
			}
			return *this;
		}
		friend bool operator==(const Payload&, const Payload&) = default;
		static std::string make(int v);
		int get() const { return text == make(value) ? value : -888; }
	};

	// ------------------------------------------------------------------ conversions
	inline int to_int(const int& v) { return v; }
	inline int to_int(const std::string& s)
	{
		int v = 0;
		std::size_t i = 1;
		for (; i < s.size() && s[i] != '.'; ++i)
			v = v * 10 + (s[i] - '0');
		return std::string_view{s}.substr(std::min(i, s.size())) == text_end(v) ? v : -888;
	}
	inline int to_int(const std::unique_ptr<int>& p) { return p ? *p : -1; }
	inline int to_int(const Fragile& f) { return f.value; }
	inline int to_int(const Payload& p) { return p.get(); }

	inline std::string text_of(int v)
	{
		std::string s{"s"};
		char buf[16];
		int n = 0;
		unsigned u = v < 0 ? 0u : static_cast<unsigned>(v);
		do
		{
			buf[n++] = static_cast<char>('0' + u % 10);
			u /= 10;
		} while (u);
		while (n)
			s.push_back(buf[--n]);
		s += text_end(v);
		return s;
	}

	inline std::string Payload::make(int v)
	{
		return text_of(v) + " (a text which does not fit into the object itself)";
	}

	inline void store(int& d, int v) { d = v; }
	inline void store(Payload& d, int v) { d = Payload{v}; }
	inline void store(std::string& d, int v) { d = text_of(v); }
	inline void store(std::unique_ptr<int>& d, int v) { if (d) *d = v; }
	inline void store(Fragile& d, int v) { d.value = v; }

	template <typename A>
	void view_add(ArgView& v, A& arg)
	{
		v.val[v.n] = to_int(arg);
		v.addr[v.n] = static_cast<const void*>(std::addressof(arg));
		v.isConst[v.n] = std::is_const_v<A>;
		++v.n;
	}
	template <typename A>
	void view_store(ArgView& v, int i, A& arg)
	{
		if constexpr (!std::is_const_v<A>)
			if (v.dirty[i])
				store(arg, v.val[i]);
	}

	// ------------------------------------------------------------------ user actions
	struct Ident	// of an expectation; notices to be moved from
	{
		int v;
		Ident(int x) : v{x} {}
		Ident(const Ident&) = default;
		Ident& operator=(const Ident&) = default;
		Ident(Ident&& o) noexcept : v{o.v} { o.v = -777; }
		Ident& operator=(Ident&& o) noexcept
		{
			const int x = o.v;
			o.v = -777;
			v = x;
			return *this;
		}
		operator int() const { return v; }
	};

	struct PredFn
	{
		Ident inst;
		int index;
		int form;
		template <typename T>
		bool operator()(const T& v) const { return cb_match(inst, index, form, to_int(v)); }
	};

	// a function object with a constant part (as of a lambda, which captures a constant string): moving it copies, i.e. allocates, and may fail
	inline const char* cargo_text() { return "(a text which does not fit into the object itself)"; }
	template <typename Fn>
	struct Cargo : Fn
	{
		const std::string cargo = cargo_text();
		template <typename... T>
		decltype(auto) operator()(T&... v) const
			requires std::invocable<const Fn&, T&...>
		{
			check();
			return static_cast<const Fn&>(*this)(v...);
		}
		template <typename... T>
		decltype(auto) operator()(T&... v)
		{
			check();
			return static_cast<Fn&>(*this)(v...);
		}
		void check() const
		{
			if (cargo != cargo_text())
				cb_operand_changed(this->inst);
		}
	};

	struct ArgFx
	{
		Ident inst;
		int k;
		template <typename... A>
		void operator()(A&... args) const
		{
			ArgView v;
			(view_add(v, args), ...);
			cb_effect(inst, k, v);
			int i = 0;
			(view_store(v, i++, args), ...);
		}
	};
	struct PlainFx
	{
		Ident inst;
		int k;
		int calls = 0;	// the state of this function object
		void operator()()
		{
			ArgView v;
			if (cb_stateful())
				v.nth = ++calls;
			cb_effect(inst, k, v);
		}
	};

	struct FinCb
	{
		Ident inst;
		int calls = 0;
		int operator()()
		{
			ArgView v;
			if (cb_stateful())
				v.nth = ++calls;
			return cb_finalize(inst, F_CB, v);
		}
	};
	template <int form>
	struct FinArgs
	{
		Ident inst;
		template <typename... A>
		int operator()(A&... args) const
		{
			ArgView v;
			(view_add(v, args), ...);
			return cb_finalize(inst, form, v);
		}
	};
	struct FinRef
	{
		Ident inst;
		int& operator()() const
		{
			ArgView v;
			cb_finalize(inst, F_CB, v);
			return *cb_ref(inst);
		}
	};

	// ------------------------------------------------------------------ policies written by the user
	struct OwnPolicy
	{
		static bool is_satisfied() noexcept { return true; }
		static bool matches(const auto&) noexcept { return true; }
		static void consume(const auto&) noexcept {}
		static std::nullopt_t describe() noexcept { return std::nullopt; }
	};
	struct OwnEffect : OwnPolicy
	{
		PlainFx fx;
		int duty;
		bool odd = false;
		OwnEffect(PlainFx f, int d) : fx(std::move(f)), duty(d) {}
		bool is_satisfied() const noexcept { return !duty || (duty == 2 && !odd); }
		void consume(const auto&)
		{
			if (duty == 2)
				odd = !odd;
			fx();
		}
	};
	struct OwnArgEffect : OwnPolicy
	{
		ArgFx fx;
		explicit OwnArgEffect(ArgFx f) : fx(std::move(f)) {}
		void consume(const auto& info)
		{
			std::apply([this](auto&... args) { fx(args.get()...); }, info.args);
		}
	};
	struct OwnRequirement : OwnPolicy
	{
		PredFn fn;
		std::string text;
		OwnRequirement(PredFn f, std::string t) : fn(std::move(f)), text(std::move(t)) {}
		bool matches(const auto& info) const { return fn(std::get<0>(info.args).get()); }
		mimicpp::StringT describe() const { return text; }
	};
	struct OwnFinalizer
	{
		FinCb fn;
		explicit OwnFinalizer(FinCb f) : fn(std::move(f)) {}
		int finalize_call(const auto&) { return fn(); }
	};
	constexpr bool own_policy(const LeafInfo& L) { return (L.m + L.t * 2 + L.s + L.e * 3 + L.f + L.o * 2 + L.ep) % 4 == 1; }

	// ------------------------------------------------------------------ operands
	// The operands of an expectation (values, matchers, functions) are passed as temporaries, as named objects or as constant named objects. The named
	// ones die (in the simulated heap) as soon as the expectation is complete, and have to be unchanged until then.
	template <typename T>
	bool same(const T& a, const T& b)
	{
		if constexpr (requires { a.inst == b.inst; })
			return a.inst == b.inst;
		else if constexpr (requires { a.fn.inst == b.fn.inst; })
			return a.fn.inst == b.fn.inst;
		else if constexpr (requires { a.value.v == b.value.v; })
			return a.value.v == b.value.v;
		else if constexpr (requires { { a == b } -> std::convertible_to<bool>; })
			return a == b;
		else
			return true;
	}
	struct KeptBase
	{
		KeptBase* next = nullptr;
		virtual bool intact() const = 0;
		virtual ~KeptBase() = default;
	};
	template <typename T>
	struct Kept final : KeptBase
	{
		T value;
		const T pristine;
		explicit Kept(const T& v) : value(v), pristine(v) {}
		bool intact() const override { return same<T>(value, pristine); }
	};
	struct Keeper
	{
		KeptBase* head = nullptr;
		Keeper() = default;
		Keeper(const Keeper&) = delete;
		Keeper& operator=(const Keeper&) = delete;
		~Keeper()
		{
			while (KeptBase* k = head)
			{
				head = k->next;
				delete k;
			}
		}
		void check(int inst) const
		{
			for (const KeptBase* k = head; k; k = k->next)
				if (!k->intact())
					cb_operand_changed(inst);
		}
	};
	template <typename T>
	T& keep(const CreateCtx& c, const T& v)
	{
		auto* k = new Kept<T>(v);
		k->next = c.keeper->head;
		c.keeper->head = k;
		return k->value;
	}
	constexpr int operand_kind(const LeafInfo& L, int k = 0) { return (L.m + L.t + L.s + L.e + L.f + L.o + L.ep + k) % 3; }
	template <LeafInfo L, int k = 0, typename T>
	decltype(auto) operand(const CreateCtx& c, T v)
	{
		constexpr int kind = operand_kind(L, k);
		if constexpr (kind == 0)
			return T(std::move(v));
		else if constexpr (kind == 1)
			return (keep<T>(c, v));
		else
			return std::as_const(keep<T>(c, v));
	}
	// for functions which can't be called as constants
	template <LeafInfo L, int k = 0, typename T>
	decltype(auto) mutable_operand(const CreateCtx& c, T v)
	{
		if constexpr (operand_kind(L, k) == 0)
			return T(std::move(v));
		else
			return (keep<T>(c, v));
	}

	// ------------------------------------------------------------------ matchers
	// a matcher type of the user (member functions instead of the built-in predicate matcher)
	struct OwnMatcher
	{
		PredFn fn;
		template <typename T>
		bool matches(const T& v) const { return fn(v); }
		[[nodiscard]] std::string_view describe() const noexcept { return "own matcher"; }
	};

	// parts of composed matchers, which notice if they have been moved from
	struct ElementMatcher
	{
		std::string secret = "an element matcher with state of its own";
		bool yes = true;
		[[nodiscard]] bool matches(char) const { return secret.empty() != yes; }
		[[nodiscard]] std::string_view describe() const noexcept { return "element matcher"; }
		friend bool operator==(const ElementMatcher&, const ElementMatcher&) = default;
	};
	struct ElementRelation
	{
		std::string secret = "a relation with state of its own";
		bool operator()(char, char) const { return secret.empty(); }
		friend bool operator==(const ElementRelation&, const ElementRelation&) = default;
	};

	template <LeafInfo L, int form, typename T, int index>
	auto matcher(const CreateCtx& c)
	{
		namespace m = mimicpp::matches;
		constexpr auto variant = [](int n) { return (L.t * 3 + L.s + L.e + L.f * 2 + L.o + L.ep + L.x + index) % n; };	// of equivalent spellings
		const int& a = keep(c, match_a(*c.op, index));
		if constexpr (form == M_ANY && std::same_as<T, std::string>)
		{
			if constexpr (variant(5) == 0)
				return m::range::each_element(keep(c, ElementMatcher{}));
			else if constexpr (variant(5) == 1)
				return !m::range::any_element(keep(c, ElementMatcher{.yes = false}));
			else if constexpr (variant(5) == 2)
			{
				// the same named object for two matchers
				ElementMatcher& element = keep(c, ElementMatcher{.yes = false});
				const auto other = m::range::any_element(element);
				(void)other;
				return !m::range::any_element(element);
			}
			else if constexpr (variant(5) == 3)
				return m::range::is_sorted(keep(c, ElementRelation{}));
			else
				return m::_;
		}
		else if constexpr (form == M_ANY)
			return m::_;
		else if constexpr (form == M_PRED && index == 0)
		{
			if constexpr (variant(3) == 0)
				return !!m::predicate(PredFn{c.inst, index, M_PRED});
			else if constexpr (variant(3) == 1)
				return m::predicate(Cargo<PredFn>{{c.inst, index, M_PRED}});
			else
				return m::predicate(PredFn{c.inst, index, M_PRED});
		}
		else if constexpr (form == M_PRED)
			return OwnMatcher{{c.inst, index, M_PRED}};
		else if constexpr (std::same_as<T, int>)
		{
			if constexpr (form == M_EQ && variant(3) == 0)
				return int{a};
			else if constexpr (form == M_EQ && variant(3) == 1)
				return m::eq(a);
			else if constexpr (form == M_EQ)
				return !m::ne(a);
			else if constexpr (form == M_LT && variant(3) == 0)
				return m::lt(a);
			else if constexpr (form == M_LT)
				return !m::ge(a);
			else if constexpr (variant(2) == 0)
				return m::ne(a);
			else
				return !m::eq(a);
		}
		else if constexpr (std::same_as<T, std::string> && (form == M_EQ || form == M_NE))
		{
			std::string text = text_of(a);
			if constexpr (variant(6) >= 4)
				text[0] = 'S';
			if constexpr (form == M_EQ && variant(6) == 0)
				return text;
			else
			{
				const auto kept = [&] {
					if constexpr (variant(6) == 1)
						return m::str::starts_with(keep(c, text));
					else if constexpr (variant(6) == 2)
						return m::str::ends_with(std::as_const(keep(c, text)));
					else if constexpr (variant(6) == 3)
						return m::str::contains(std::move(text));
					else if constexpr (variant(6) == 4)
						return m::str::eq(keep(c, text), mimicpp::case_insensitive);
					else if constexpr (variant(6) == 5)
						return m::str::contains(std::as_const(keep(c, text)), mimicpp::case_insensitive);
					else
						return m::str::eq(text);
				}();
				if constexpr (form == M_EQ)
					return kept;
				else
					return !kept;
			}
		}
		else if constexpr (std::same_as<T, Payload> && form == M_EQ)
			return m::eq(Payload{a});
		else if constexpr (std::same_as<T, Fragile> && form == M_EQ)
			return m::eq(Fragile{a});
		else
			return OwnMatcher{{c.inst, index, form}};
	}

	template <LeafInfo L, int form, typename T, int index>
	decltype(auto) om(const CreateCtx& c) { return operand<L>(c, matcher<L, form, T, index>(c)); }

	// ------------------------------------------------------------------ policies
	template <LeafInfo L, typename B>
	auto with_times(B&& b, const CreateCtx& c)
	{
		namespace e = mimicpp::expect;
		const int lo = c.op->tmin, hi = c.op->tmax;
		if constexpr (L.t == T_DEF)
			return std::forward<B>(b);
		else if constexpr (L.t == T_RANGE)
			return std::forward<B>(b) && e::times(lo, hi);
		else if constexpr (L.t == T_EXACT)
			return std::forward<B>(b) && e::times(lo);
		else if constexpr (L.t == T_ATLEAST)
			return std::forward<B>(b) && e::at_least(lo);
		else if constexpr (L.t == T_ATMOST)
			return std::forward<B>(b) && e::at_most(hi);
		else if constexpr (L.t == T_ONCE)
			return std::forward<B>(b) && e::once();
		else
			return std::forward<B>(b) && e::twice();
	}

	inline mimicpp::LazySequence& lazy(void* p) { return *static_cast<mimicpp::LazySequence*>(p); }
	inline mimicpp::GreedySequence& greedy(void* p) { return *static_cast<mimicpp::GreedySequence*>(p); }

	template <LeafInfo L, typename B>
	auto with_seq(B&& b, const CreateCtx& c)
	{
		namespace e = mimicpp::expect;
		void* const* s = c.seq;
		if constexpr (L.s == S_NONE)
			return std::forward<B>(b);
		else if constexpr (L.s == S_L)
			return std::forward<B>(b) && e::in_sequence(lazy(s[0]));
		else if constexpr (L.s == S_G)
			return std::forward<B>(b) && e::in_sequence(greedy(s[0]));
		else if constexpr (L.s == S_LL)
			return std::forward<B>(b) && e::in_sequences(lazy(s[0]), lazy(s[1]));
		else if constexpr (L.s == S_LG)
			return std::forward<B>(b) && e::in_sequences(lazy(s[0]), greedy(s[1]));
		else if constexpr (L.s == S_GG)
			return std::forward<B>(b) && e::in_sequences(greedy(s[0]), greedy(s[1]));
		else if constexpr (L.s == S_L_L)
			return std::forward<B>(b) && e::in_sequence(lazy(s[0])) && e::in_sequence(lazy(s[1]));
		else if constexpr (L.s == S_L_G)
			return std::forward<B>(b) && e::in_sequence(lazy(s[0])) && e::in_sequence(greedy(s[1]));
		else if constexpr (L.s == S_LLL)
			return std::forward<B>(b) && e::in_sequences(lazy(s[0]), lazy(s[1]), lazy(s[2]));
		else
			return std::forward<B>(b) && e::in_sequence(lazy(s[0])) && e::in_sequences(lazy(s[1]), greedy(s[2]));
	}

	template <LeafInfo L, int n, typename B>
	auto with_fx(B&& b, const CreateCtx& c)
	{
		namespace t = mimicpp::then;
		const int i = c.inst;
		if constexpr (L.e == E_0)
			return std::forward<B>(b);
		else if constexpr (n == 0)
		{
			if constexpr ((L.e == E_A || L.e == E_I) && own_policy(L))
				return std::forward<B>(b) && OwnEffect{{i, 0}, cb_duty(i)};
			else if constexpr (L.e == E_A || L.e == E_I)
				return std::forward<B>(b) && t::invoke(mutable_operand<L, 0>(c, PlainFx{i, 0}));
			else if constexpr (L.e == E_AI)
				return std::forward<B>(b) && t::invoke(mutable_operand<L, 0>(c, PlainFx{i, 0})) && t::invoke(mutable_operand<L, 1>(c, PlainFx{i, 1}));
			else
				return std::forward<B>(b) && t::invoke(mutable_operand<L, 0>(c, PlainFx{i, 0})) && t::apply_all(operand<L, 1>(c, ArgFx{i, 1})) && t::invoke(mutable_operand<L, 2>(c, PlainFx{i, 2}));
		}
		else if constexpr (L.e == E_A)
			return std::forward<B>(b) && t::apply_arg<0>(operand<L, 0>(c, ArgFx{i, 0}));
		else if constexpr (L.e == E_I && own_policy(L))
			return std::forward<B>(b) && OwnEffect{{i, 0}, cb_duty(i)};
		else if constexpr (L.e == E_I)
			return std::forward<B>(b) && t::invoke(mutable_operand<L, 0>(c, PlainFx{i, 0}));
		else if constexpr (L.e == E_AI)
			return std::forward<B>(b) && t::apply_args<0>(operand<L, 0>(c, Cargo<ArgFx>{{i, 0}})) && t::invoke(mutable_operand<L, 1>(c, Cargo<PlainFx>{{i, 1}}));
		else if constexpr (L.e == E_IAL && own_policy(L))
			return std::forward<B>(b) && OwnEffect{{i, 0}, cb_duty(i)} && OwnArgEffect{{i, 1}} && t::apply_arg<0>(operand<L, 2>(c, ArgFx{i, 2}));
		else if constexpr (L.e == E_P)
			return std::forward<B>(b) && t::apply_args<n - 1, 0>(operand<L, 0>(c, ArgFx{i, 0})) && t::apply_arg<1>(operand<L, 1>(c, ArgFx{i, 1}));
		else if constexpr (L.e == E_R && n == 3)
			return std::forward<B>(b) && t::apply_args<1, 1>(operand<L, 0>(c, ArgFx{i, 0})) && t::apply_all(operand<L, 1>(c, ArgFx{i, 1})) && t::apply_args<2, 1, 0>(operand<L, 2>(c, ArgFx{i, 2}));
		else if constexpr (L.e == E_R)
			return std::forward<B>(b) && t::apply_args<1, 1>(operand<L, 0>(c, ArgFx{i, 0})) && t::apply_all(operand<L, 1>(c, ArgFx{i, 1})) && t::apply_args<1, 0>(operand<L, 2>(c, ArgFx{i, 2}));
		else
			return std::forward<B>(b) && t::invoke(mutable_operand<L, 0>(c, PlainFx{i, 0})) && t::apply_all(operand<L, 1>(c, ArgFx{i, 1})) && t::apply_arg<0>(operand<L, 2>(c, ArgFx{i, 2}));
	}

	inline int plain_value(int inst) { return 100000 + inst; }

	template <LeafInfo L, int n, typename R, typename B>
	auto with_fin(B&& b, const CreateCtx& c)
	{
		namespace f = mimicpp::finally;
		const int i = c.inst;
		if constexpr (L.f == F_VOID)
			return std::forward<B>(b);
		else if constexpr (L.f == F_VAL)
			return std::forward<B>(b) && f::returns(operand<L>(c, R(plain_value(i))));
		else if constexpr (L.f == F_CB)
		{
			if constexpr (own_policy(L) || L.o == 2)
				return std::forward<B>(b) && OwnFinalizer{FinCb{i}};
			else if constexpr (operand_kind(L) == 1)
				return std::forward<B>(b) && f::returns_result_of(mutable_operand<L>(c, Cargo<FinCb>{{i}}));
			else
				return std::forward<B>(b) && f::returns_result_of(mutable_operand<L>(c, FinCb{i}));
		}
		else if constexpr (L.f == F_ARG)
			return std::forward<B>(b) && f::returns_arg<0>();
		else if constexpr (L.f == F_THROW)
		{
			if constexpr (L.o == 1)
				return std::forward<B>(b) && f::throws(operand<L>(c, StdActionError{Token{300000 + i}}));
			else if constexpr (L.m == M_ANY)
				return std::forward<B>(b) && f::throws(operand<L>(c, ActionCode{300000 + i}));
			else
				return std::forward<B>(b) && f::throws(operand<L>(c, ActionError{Token{300000 + i}}));
		}
		else if constexpr (L.f == F_APPLY)
			return std::forward<B>(b) && f::returns_apply_result_of<0>(operand<L>(c, FinArgs<F_APPLY>{i}));
		else if constexpr (L.f == F_ALL)
			return std::forward<B>(b) && f::returns_apply_all_result_of(operand<L>(c, FinArgs<F_ALL>{i}));
		else if constexpr (L.f == F_ARG2)
			return std::forward<B>(b) && f::returns_arg<2>();
		else if constexpr (L.f == F_PERM)
			return std::forward<B>(b) && f::returns_apply_result_of<n - 1, 0>(operand<L>(c, FinArgs<F_PERM>{i}));
		else
			return std::forward<B>(b) && f::returns(std::ref(*cb_ref(i)));
	}

	template <LeafInfo L, int n, typename R = int, typename B>
	mimicpp::ScopedExpectation* finish(B&& b, const CreateCtx& c)
	{
		if constexpr (L.o == 0)
			return new mimicpp::ScopedExpectation(with_fin<L, n, R>(with_fx<L, n>(with_seq<L>(with_times<L>(std::forward<B>(b), c), c), c), c), c.loc);
		else if constexpr (L.o == 1)
			return new mimicpp::ScopedExpectation(with_times<L>(with_seq<L>(with_fx<L, n>(with_fin<L, n, R>(std::forward<B>(b), c), c), c), c), c.loc);
		else
			return new mimicpp::ScopedExpectation(with_fin<L, n, R>(with_times<L>(with_fx<L, n>(with_seq<L>(std::forward<B>(b), c), c), c), c).finalize(c.loc));
	}

	template <typename P, LeafInfo L>
	mimicpp::ScopedExpectation* create_with(void* mock, const CreateCtx& c)
	{
		if constexpr (requires { typename P::template RetOf<L>; })
			return finish<L, P::template nArgs<L>, typename P::template RetOf<L>>(P::template expect<L>(*static_cast<typename P::MockT*>(mock), c), c);
		else if constexpr (requires { P::template nArgs<L>; })
			return finish<L, P::template nArgs<L>, typename P::Ret>(P::template expect<L>(*static_cast<typename P::MockT*>(mock), c), c);
		else
			return finish<L, P::hasArgs ? 1 : 0>(P::template expect<L>(*static_cast<typename P::MockT*>(mock), c), c);
	}

	template <typename F>
	mimicpp::ScopedExpectation* with_keeper(const CreateCtx& ctx, F&& f)
	{
		Keeper keeper;
		CreateCtx c = ctx;
		c.keeper = &keeper;
		mimicpp::ScopedExpectation* e = f(c);
		keeper.check(c.inst);
		return e;
	}
	template <typename P, LeafInfo L>
	mimicpp::ScopedExpectation* create_leaf(void* mock, const CreateCtx& ctx)
	{
		return with_keeper(ctx, [=](const CreateCtx& c) { return create_with<P, L>(mock, c); });
	}

	template <typename P, const auto& table, std::size_t offset, std::size_t n>
	void fill(CreateFn* out)
	{
		[&]<std::size_t... i>(std::index_sequence<i...>) {
			((out[offset + i] = &create_leaf<P, table[offset + i]>), ...);
		}(std::make_index_sequence<n>{});
	}

	template <typename P, const auto& table>
	const CreateFn* make_table()
	{
		static CreateFn t[std::size(table)];
		fill<P, table, 0, std::size(table)>(t);
		return t;
	}

	template <typename P>
	struct MockOps
	{
		using M = typename P::MockT;
		static void* make() { return new M{}; }
		static void destroy(void* p) { delete static_cast<M*>(p); }
		static void* move_construct(void* p) { return new M{std::move(*static_cast<M*>(p))}; }
		static void move_assign(void* d, void* s) { *static_cast<M*>(d) = std::move(*static_cast<M*>(s)); }
	};

	template <typename P>
	PortOps make_ops(const CreateFn* create, int nColl)
	{
		using O = MockOps<P>;
		return {&O::make, &O::destroy, &O::move_construct, &O::move_assign, &P::call, nColl, create};
	}
}

template <>
struct mimicpp::custom::Printer<sim::Fragile>
{
	template <mimicpp::print_iterator OutIter>
	static OutIter print(OutIter out, const sim::Fragile& f)
	{
		out = mimicpp::format::format_to(std::move(out), "f");
		sim::cb_print(f.value);		// a part of the output has already been written
		return mimicpp::format::format_to(std::move(out), "{}", f.value);
	}
};

template <>
struct mimicpp::custom::Printer<sim::Payload>
{
	template <mimicpp::print_iterator OutIter>
	static OutIter print(OutIter out, const sim::Payload& p)
	{
		return mimicpp::format::format_to(std::move(out), "p{}", p.get());
	}
};
