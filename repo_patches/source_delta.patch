From 457065a54d52057a0bcbc900c2d465b065fe7726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:49 +0000
Subject: [PATCH 1/7] fix: keep a matched expectation alive until its call is
 finished

An expectation which is destroyed while it handles a call (by another thread
or by one of its own side effects) was accessed after its destruction.
---
 include/mimic++/Expectation.hpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/mimic++/Expectation.hpp b/include/mimic++/Expectation.hpp
index 8e40c75..bbf8466 100644
--- a/include/mimic++/Expectation.hpp
+++ b/include/mimic++/Expectation.hpp
@@ -46,7 +46,7 @@ namespace mimicpp::detail
 	}
 
 	template <typename Signature>
-	constexpr auto pick_best_match(std::vector<std::tuple<Expectation<Signature>&, MatchReport>>& matches)
+	constexpr auto pick_best_match(std::vector<std::tuple<std::shared_ptr<Expectation<Signature>>, MatchReport>>& matches)
 	{
 		constexpr auto ratings = [](const auto& el) noexcept -> const auto& {
 			return std::get<state_applicable>(
@@ -300,7 +300,7 @@ namespace mimicpp
 		[[nodiscard]]
 		ReturnT handle_call(const CallInfoT& call)
 		{
-			std::vector<std::tuple<ExpectationT&, MatchReport>> matches{};
+			std::vector<std::tuple<std::shared_ptr<ExpectationT>, MatchReport>> matches{};
 			std::vector<MatchReport> noMatches{};
 			std::vector<MatchReport> inapplicableMatches{};
 
@@ -319,7 +319,7 @@ namespace mimicpp
 						inapplicableMatches.emplace_back(*std::move(matchReport));
 						break;
 					case full:
-						matches.emplace_back(*exp, *std::move(matchReport));
+						matches.emplace_back(exp, *std::move(matchReport));
 						break;
 					// GCOVR_EXCL_START
 					default:
@@ -331,12 +331,15 @@ namespace mimicpp
 
 			if (!std::ranges::empty(matches))
 			{
-				auto&& [exp, report] = *detail::pick_best_match(matches);
+				// The expectation may be destroyed while the call is still in progress (e.g. by another thread or
+				// by one of its own side effects), thus the call must share the ownership of the selected expectation.
+				auto [exp, report] = std::move(*detail::pick_best_match(matches));
+				matches.clear();
 				detail::report_full_match(
 					make_call_report(call),
 					std::move(report));
-				exp.consume(call);
-				return exp.finalize_call(call);
+				exp->consume(call);
+				return exp->finalize_call(call);
 			}
 
 			if (!std::ranges::empty(inapplicableMatches))
-- 
2.43.0


From 2724f29d137570d2fd49bc929c9674ad360c987d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:17 +0000
Subject: [PATCH 2/7] fix: select and count a matching expectation atomically

Two concurrent calls could both be matched by the same expectation, although it
accepts only one of them, or could lose a count, as the selection was protected
by the mutex, but counting wasn't. Side effects and finalizers are still invoked
without holding the lock.
---
 include/mimic++/Expectation.hpp | 49 +++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/include/mimic++/Expectation.hpp b/include/mimic++/Expectation.hpp
index bbf8466..a53e273 100644
--- a/include/mimic++/Expectation.hpp
+++ b/include/mimic++/Expectation.hpp
@@ -176,6 +176,20 @@ namespace mimicpp
 		 */
 		virtual void consume(const CallInfoT& call) = 0;
 
+		/**
+		 * \brief Informs all policies, that the given call has been accepted.
+		 * \param call The call to be consumed.
+		 * \param lock The lock, which guards the selection of the expectation.
+		 * \details This function is called, when a match has been made. The lock must be kept until the call has been counted
+		 * (so that no other call can be matched based on an outdated state), but must be released before any user-provided
+		 * action is invoked.
+		 */
+		virtual void consume(const CallInfoT& call, std::unique_lock<std::mutex>& lock)
+		{
+			lock.unlock();
+			consume(call);
+		}
+
 		/**
 		 * \brief Requests the given call to be finalized.
 		 * \param call The call to be finalized.
@@ -304,8 +318,8 @@ namespace mimicpp
 			std::vector<MatchReport> noMatches{};
 			std::vector<MatchReport> inapplicableMatches{};
 
-			for (const std::scoped_lock lock{m_ExpectationsMx};
-				auto& exp : m_Expectations | std::views::reverse)
+			std::unique_lock lock{m_ExpectationsMx};
+			for (auto& exp : m_Expectations | std::views::reverse)
 			{
 				if (std::optional matchReport = detail::make_match_report(call, *exp))
 				{
@@ -338,10 +352,12 @@ namespace mimicpp
 				detail::report_full_match(
 					make_call_report(call),
 					std::move(report));
-				exp->consume(call);
+				exp->consume(call, lock);
 				return exp->finalize_call(call);
 			}
 
+			lock.unlock();
+
 			if (!std::ranges::empty(inapplicableMatches))
 			{
 				detail::report_inapplicable_matches(
@@ -529,12 +545,17 @@ namespace mimicpp
 		constexpr void consume(const CallInfoT& call) override
 		{
 			m_ControlPolicy.consume();
-			std::apply(
-				[&](auto&... policies) noexcept
-				{
-					(..., policies.consume(call));
-				},
-				m_Policies);
+			consume_policies(call);
+		}
+
+		/**
+		 * \copydoc Expectation::consume
+		 */
+		void consume(const CallInfoT& call, std::unique_lock<std::mutex>& lock) override
+		{
+			m_ControlPolicy.consume();
+			lock.unlock();
+			consume_policies(call);
 		}
 
 		/**
@@ -560,6 +581,16 @@ namespace mimicpp
 		ControlPolicyT m_ControlPolicy;
 		PolicyListT m_Policies;
 		[[no_unique_address]] FinalizerT m_Finalizer{};
+
+		constexpr void consume_policies(const CallInfoT& call)
+		{
+			std::apply(
+				[&](auto&... policies) noexcept
+				{
+					(..., policies.consume(call));
+				},
+				m_Policies);
+		}
 	};
 
 	/**
-- 
2.43.0


From 133c1f756d4bf04837539e41bf675f1a608f65dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:53 +0000
Subject: [PATCH 3/7] fix: let ScopedExpectation's move-assignment report an
 unfulfilled expectation

The defaulted operator destroyed the previously owned expectation inside of
std::unique_ptr's noexcept assignment, thus a throwing reporter terminated the
program instead of reporting the failure.
---
 include/mimic++/Expectation.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/Expectation.hpp b/include/mimic++/Expectation.hpp
index a53e273..4e9eed1 100644
--- a/include/mimic++/Expectation.hpp
+++ b/include/mimic++/Expectation.hpp
@@ -732,9 +732,21 @@ namespace mimicpp
 		ScopedExpectation(ScopedExpectation&&) = default;
 
 		/**
-		 * \brief Defaulted move-assignment-operator.
+		 * \brief Move-assignment-operator, which removes the previously owned expectation from its ExpectationCollection and
+		 * checks, whether it's satisfied.
+		 * \throws In cases of an unsatisfied expectation, the operator is expected to throw or terminate otherwise.
 		 */
-		ScopedExpectation& operator =(ScopedExpectation&&) = default;
+		ScopedExpectation& operator =(ScopedExpectation&& other) noexcept(false)
+		{
+			if (this != std::addressof(other))
+			{
+				// we must call the dtor manually here, because std::unique_ptr's assignment mustn't throw.
+				std::unique_ptr previous = std::exchange(m_Inner, std::move(other.m_Inner));
+				delete previous.release();
+			}
+
+			return *this;
+		}
 
 		/**
 		 * \brief Queries the stored expectation, whether it's satisfied.
-- 
2.43.0


From 67249f38086163a677cf72f886c2c7dc33dd4956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:56 +0000
Subject: [PATCH 4/7] fix: do not register an expectation at its sequences
 before its storage is acquired

---
 include/mimic++/ExpectationBuilder.hpp | 30 +++++++++++++++++++-------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/mimic++/ExpectationBuilder.hpp b/include/mimic++/ExpectationBuilder.hpp
index aa7bcaa..fb04a32 100644
--- a/include/mimic++/ExpectationBuilder.hpp
+++ b/include/mimic++/ExpectationBuilder.hpp
@@ -163,20 +163,34 @@ namespace mimicpp
 				std::apply(
 					[&](auto&... policies)
 					{
-						ControlPolicy controlPolicy{
-							std::move(m_TimesConfig),
-							std::move(m_SequenceConfig)
-						};
-
+						using ControlPolicyT = decltype(
+							ControlPolicy{
+								std::declval<const detail::TimesConfig&>(),
+								std::declval<const SequenceConfig&>()
+							});
 						using ExpectationT = BasicExpectation<
 							Signature,
-							decltype(controlPolicy),
+							ControlPolicyT,
 							FinalizePolicy,
 							Policies...>;
 
-						return std::make_unique<ExpectationT>(
+						// Constructing the control-policy registers the expectation at its sequences, which can not be reverted.
+						// Thus, that must not happen before all necessary storage has been acquired.
+						struct LazyControlPolicy
+						{
+							const detail::TimesConfig& times;
+							const SequenceConfig& sequences;
+
+							[[nodiscard]]
+							operator ControlPolicyT() const noexcept
+							{
+								return ControlPolicyT{times, sequences};
+							}
+						};
+
+						return std::make_shared<ExpectationT>(
 							sourceLocation,
-							std::move(controlPolicy),
+							LazyControlPolicy{m_TimesConfig, m_SequenceConfig},
 							std::move(m_FinalizePolicy),
 							std::move(policies)...);
 					},
-- 
2.43.0


From b29b6476954c13167a1872a6686f74f3eec50cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:21 +0000
Subject: [PATCH 5/7] fix: route rvalue-qualified interface methods to their
 own overload

The methods generated by the mocking macros always called the mock as an lvalue.
A call of a && qualified method was thus matched against the expectations of the
& qualified overload (or did not compile, if there was none).
---
 include/mimic++/InterfaceMock.hpp | 36 ++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/include/mimic++/InterfaceMock.hpp b/include/mimic++/InterfaceMock.hpp
index ea80a55..5f7e499 100644
--- a/include/mimic++/InterfaceMock.hpp
+++ b/include/mimic++/InterfaceMock.hpp
@@ -352,6 +352,39 @@ namespace mimicpp
 	 */
 }
 
+namespace mimicpp::detail
+{
+	template <typename Signature>
+	inline constexpr bool is_rvalue_method_v{false};
+
+	template <>
+	inline constexpr bool is_rvalue_method_v<void() &&>{true};
+
+	template <>
+	inline constexpr bool is_rvalue_method_v<void() const &&>{true};
+
+	template <>
+	inline constexpr bool is_rvalue_method_v<void() && noexcept>{true};
+
+	template <>
+	inline constexpr bool is_rvalue_method_v<void() const && noexcept>{true};
+
+	// within a method ``*this`` is always an lvalue; this restores the value-category, the method has been called with
+	template <typename Signature, typename Mock>
+	[[nodiscard]]
+	constexpr decltype(auto) forward_mock(Mock& mock) noexcept
+	{
+		if constexpr (is_rvalue_method_v<Signature>)
+		{
+			return static_cast<Mock&&>(mock);
+		}
+		else
+		{
+			return static_cast<Mock&>(mock);
+		}
+	}
+}
+
 /**
  * \brief Create a single overload for the given information.
  * \ingroup MOCK_INTERFACES_DETAIL_MAKE_METHOD_OVERRIDES
@@ -367,7 +400,8 @@ namespace mimicpp
 #define MIMICPP_DETAIL_MAKE_METHOD_OVERRIDE(ignore, mock_name, fn_name, ret, param_type_list, specs, param_list, forward_list, ...)	\
 	inline MIMICPP_DETAIL_STRIP_PARENS(ret) fn_name param_list MIMICPP_DETAIL_STRIP_PARENS(specs) override 							\
 	{																																\
-		return mock_name (MIMICPP_DETAIL_STRIP_PARENS(forward_list));																\
+		return ::mimicpp::detail::forward_mock<void() MIMICPP_DETAIL_STRIP_PARENS(specs)>(mock_name)								\
+			(MIMICPP_DETAIL_STRIP_PARENS(forward_list));																			\
 	}
 
 /**
-- 
2.43.0


From de316f326d55efb97f5fed6997b4ba5b057efb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:27 +0000
Subject: [PATCH 6/7] fix: an expectation whose parts can't be constructed must
 not stay registered at its sequences

The control-policy registers the expectation at its sequences, which can not be reverted. It was constructed before the
other policies and the finalizer, thus an exception from one of their constructors (e.g. a std::bad_alloc, when a lambda
with a const capture has to be copied) left an orphaned, never satisfiable entry in the sequences.
---
 include/mimic++/Expectation.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/mimic++/Expectation.hpp b/include/mimic++/Expectation.hpp
index 4e9eed1..8b6fc6b 100644
--- a/include/mimic++/Expectation.hpp
+++ b/include/mimic++/Expectation.hpp
@@ -463,9 +463,9 @@ namespace mimicpp
 			&& std::is_nothrow_constructible_v<FinalizerT, FinalizerArg>
 			&& (std::is_nothrow_constructible_v<Policies, PolicyArgs> && ...))
 			: m_SourceLocation{sourceLocation},
-			m_ControlPolicy{std::forward<ControlPolicyArg>(controlArg)},
 			m_Policies{std::forward<PolicyArgs>(args)...},
-			m_Finalizer{std::forward<FinalizerArg>(finalizerArg)}
+			m_Finalizer{std::forward<FinalizerArg>(finalizerArg)},
+			m_ControlPolicy{std::forward<ControlPolicyArg>(controlArg)}
 		{
 		}
 
@@ -578,9 +578,11 @@ namespace mimicpp
 
 	private:
 		std::source_location m_SourceLocation;
-		ControlPolicyT m_ControlPolicy;
 		PolicyListT m_Policies;
 		[[no_unique_address]] FinalizerT m_Finalizer{};
+		// Must be constructed last: it registers the expectation at its sequences, which can not be reverted, if any of the
+		// other members can not be constructed.
+		ControlPolicyT m_ControlPolicy;
 
 		constexpr void consume_policies(const CallInfoT& call)
 		{
-- 
2.43.0


From 773d339b3191e942ea6f510da3d99d8a84874003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:44 +0000
Subject: [PATCH 7/7] fix: each_element and any_element must not move from a
 named matcher

The element matcher was forwarded with its decayed type, thus a named (non-const)
matcher was always moved from, and later definitions used an empty one.
---
 include/mimic++/Matcher.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/Matcher.hpp b/include/mimic++/Matcher.hpp
index db176c8..58459ed 100644
--- a/include/mimic++/Matcher.hpp
+++ b/include/mimic++/Matcher.hpp
@@ -954,7 +954,7 @@ namespace mimicpp::matches::range
 					MatcherT,
 					std::identity,
 					decltype([](const auto& m) { return mimicpp::detail::describe_hook::describe(m); })>{
-					std::forward<MatcherT>(matcher)
+					std::forward<Matcher>(matcher)
 				}
 			}
 		};
@@ -983,7 +983,7 @@ namespace mimicpp::matches::range
 					MatcherT,
 					std::identity,
 					decltype([](const auto& m) { return mimicpp::detail::describe_hook::describe(m); })>{
-					std::forward<MatcherT>(matcher)
+					std::forward<Matcher>(matcher)
 				}
 			}
 		};
-- 
2.43.0

