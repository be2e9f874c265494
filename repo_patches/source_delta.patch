From 3a16bffdb2429b4039d956c2de819b93dcfe155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 1/7] fix: overwriting an unsatisfied ScopedExpectation no
 longer terminates

The defaulted move-assignment destroyed the previous expectation inside
std::unique_ptr, so a reporter that throws on unfulfilled expectations (as the
default reporter does) ended in std::terminate instead of an exception.
---
 include/mimic++/Expectation.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/Expectation.hpp b/include/mimic++/Expectation.hpp
index 8e40c75..f002ffb 100644
--- a/include/mimic++/Expectation.hpp
+++ b/include/mimic++/Expectation.hpp
@@ -698,9 +698,21 @@ namespace mimicpp
 		ScopedExpectation(ScopedExpectation&&) = default;
 
 		/**
-		 * \brief Defaulted move-assignment-operator.
+		 * \brief Move-assignment-operator.
+		 * \details The previously owned expectation is removed and, if it is not satisfied, reported as unfulfilled.
+		 * \note Like the destructor, this function may throw, because the installed reporter may throw.
 		 */
-		ScopedExpectation& operator =(ScopedExpectation&&) = default;
+		ScopedExpectation& operator =(ScopedExpectation&& other) noexcept(false)
+		{
+			if (this != std::addressof(other))
+			{
+				// we must call the dtor manually here, because std::unique_ptr's assignment mustn't throw.
+				std::unique_ptr<Concept> previous{std::exchange(m_Inner, std::move(other.m_Inner))};
+				delete previous.release();
+			}
+
+			return *this;
+		}
 
 		/**
 		 * \brief Queries the stored expectation, whether it's satisfied.
-- 
2.43.0


From 19908cc93ab6117930a95736827fc8ef422d2d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:07 +0000
Subject: [PATCH 2/7] fix: printing a null character pointer no longer
 dereferences it

---
 include/mimic++/Printer.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/mimic++/Printer.hpp b/include/mimic++/Printer.hpp
index fb21304..27d0ca4 100644
--- a/include/mimic++/Printer.hpp
+++ b/include/mimic++/Printer.hpp
@@ -478,6 +478,16 @@ namespace mimicpp::detail
 		template <std::common_reference_with<String> T, print_iterator OutIter>
 		static OutIter print(OutIter out, T&& str)
 		{
+			// a null-pointer doesn't refer to any string
+			if constexpr (std::is_pointer_v<String>)
+			{
+				if (str == nullptr)
+				{
+					constexpr PrintFn print{};
+					return print(std::move(out), nullptr);
+				}
+			}
+
 			if constexpr (constexpr auto prefix = string_literal_prefix<string_char_t<String>>;
 				!std::ranges::empty(prefix))
 			{
-- 
2.43.0


From 58e6e6b8870bdffec199725bfd8fcbde7d17d507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:15 +0000
Subject: [PATCH 3/7] fix: printing a range of itself no longer recurses
 endlessly

---
 include/mimic++/Printer.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/Printer.hpp b/include/mimic++/Printer.hpp
index 27d0ca4..a20ab43 100644
--- a/include/mimic++/Printer.hpp
+++ b/include/mimic++/Printer.hpp
@@ -266,7 +266,14 @@ namespace mimicpp::detail
 			std::forward<T>(value));
 	}
 
-	template <print_iterator OutIter, std::ranges::forward_range Range>
+	// Ranges, which yield themselves as elements (e.g. ``std::filesystem::path``), can not be printed element-wise.
+	template <typename Range>
+	concept printable_range = std::ranges::forward_range<Range>
+							&& !std::same_as<
+								std::remove_cvref_t<Range>,
+								std::remove_cvref_t<std::ranges::range_reference_t<Range>>>;
+
+	template <print_iterator OutIter, printable_range Range>
 	OutIter print(
 		OutIter out,
 		Range&& range,
@@ -332,7 +339,7 @@ namespace mimicpp::detail
 		}
 	};
 
-	template <print_iterator OutIter, std::ranges::forward_range Range>
+	template <print_iterator OutIter, printable_range Range>
 	OutIter print(
 		OutIter out,
 		Range&& range,  // NOLINT(cppcoreguidelines-missing-std-forward)
-- 
2.43.0


From 8b5606a1ab243fe37d9337cd72d7eae781d015cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:49 +0000
Subject: [PATCH 4/7] fix: arrays of non-character types can be printed

---
 include/mimic++/String.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mimic++/String.hpp b/include/mimic++/String.hpp
index 2656fdc..a43a008 100644
--- a/include/mimic++/String.hpp
+++ b/include/mimic++/String.hpp
@@ -284,6 +284,7 @@ namespace mimicpp
 	 */
 	template <typename T>
 		requires std::is_array_v<T>
+				&& is_character_v<std::remove_cv_t<std::remove_extent_t<T>>>
 	struct string_traits<T>
 		: public string_traits<std::remove_extent_t<T>*>
 	{
-- 
2.43.0


From 9b3008e36ddd1b6b2fa7941037a5013907a495d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:21 +0000
Subject: [PATCH 5/7] fix: interface mocks accept types with enclosing
 parentheses

---
 include/mimic++/InterfaceMock.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/mimic++/InterfaceMock.hpp b/include/mimic++/InterfaceMock.hpp
index ea80a55..28f37b1 100644
--- a/include/mimic++/InterfaceMock.hpp
+++ b/include/mimic++/InterfaceMock.hpp
@@ -197,6 +197,12 @@ namespace mimicpp
 	 */
 }
 
+/**
+ * \brief Selects the parameter-list, which has no enclosing parentheses around its types, if it's already known, or the parameter types otherwise.
+ * \ingroup MOCK_INTERFACES_DETAIL_MAKE_SIGNATURE_LIST
+ */
+#define MIMICPP_DETAIL_SELECT_SIGNATURE_PARAMS(params, ...) params
+
 /**
  * \brief Converts the given information to a single signature.
  * \ingroup MOCK_INTERFACES_DETAIL_MAKE_SIGNATURE_LIST
@@ -206,7 +212,8 @@ namespace mimicpp
  * \param param_type_list The parameter types.
  * \param specs Additional specs (e.g. ``const``, ``noexcept``).
  */
-#define MIMICPP_DETAIL_MAKE_SIGNATURE(sequence, bound_data, ret, param_type_list, specs, ...) ret param_type_list specs
+#define MIMICPP_DETAIL_MAKE_SIGNATURE(sequence, bound_data, ret, param_type_list, specs, ...) \
+	MIMICPP_DETAIL_STRIP_PARENS(ret) MIMICPP_DETAIL_SELECT_SIGNATURE_PARAMS(__VA_ARGS__ __VA_OPT__(,) param_type_list, ) specs
 
 /**
  * \brief Converts all given arguments to a signature list (not enclosed by parentheses).
-- 
2.43.0


From 7db1944eb97299ca903ca7edb4847e144c5201d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:22 +0000
Subject: [PATCH 6/7] fix: a throwing action of returns_result_of no longer
 terminates

---
 include/mimic++/ExpectationPolicies.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mimic++/ExpectationPolicies.hpp b/include/mimic++/ExpectationPolicies.hpp
index de5e020..0c20fce 100644
--- a/include/mimic++/ExpectationPolicies.hpp
+++ b/include/mimic++/ExpectationPolicies.hpp
@@ -473,7 +473,7 @@ namespace mimicpp::finally
 		return expectation_policies::ReturnsResultOf{
 			[
 				fn = std::forward<Fun>(fun)
-			]([[maybe_unused]] const auto& call) mutable noexcept(std::is_nothrow_invocable_v<decltype(fun)>) -> decltype(auto)
+			]([[maybe_unused]] const auto& call) mutable noexcept(std::is_nothrow_invocable_v<std::remove_cvref_t<Fun>&>) -> decltype(auto)
 			{
 				return std::invoke(fn);
 			}
-- 
2.43.0


From 98b721f895dd9787d9dc2d4b22fb4629a9be917f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:22 +0000
Subject: [PATCH 7/7] fix: range element matchers accept every kind of matcher

---
 include/mimic++/Matcher.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mimic++/Matcher.hpp b/include/mimic++/Matcher.hpp
index db176c8..82a9633 100644
--- a/include/mimic++/Matcher.hpp
+++ b/include/mimic++/Matcher.hpp
@@ -945,7 +945,7 @@ namespace mimicpp::matches::range
 			{
 				return std::ranges::all_of(
 					target,
-					[&](const auto& element) { return m.matches(element); });
+					[&](const auto& element) { return mimicpp::detail::matches_hook::matches(m, element); });
 			},
 			"each el in range: el {}",
 			"not each el in range: el {}",
@@ -974,7 +974,7 @@ namespace mimicpp::matches::range
 			{
 				return std::ranges::any_of(
 					target,
-					[&](const auto& element) { return m.matches(element); });
+					[&](const auto& element) { return mimicpp::detail::matches_hook::matches(m, element); });
 			},
 			"any el in range: el {}",
 			"none el in range: el {}",
-- 
2.43.0

