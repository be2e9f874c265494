// Function signatures and their traits; the items are generated by lib/signature.py.
#pragma once

#include "mimic++/mimic++.hpp"

#include <concepts>
#include <functional>
#include <memory>
#include <ostream>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace sg
{
	struct T
	{
		int v{};
	};
	struct M // may throw when it is moved
	{
		std::string v{};
		M() = default;
		M(const M& other) : v{other.v} {}
		M& operator=(const M& other) { v = other.v; return *this; }
		~M() {}
	};
	using Ptr = std::unique_ptr<T>;
	using Arr = int[3];
	using CArr = const T[2];
	using Fn = int(int);

	template <typename X> struct name { static std::string get() { return "?"; } };
#define SG_NAME(t, n) \
	template <> struct name<t> { static std::string get() { return n; } };
	SG_NAME(void, "void")
	SG_NAME(int, "int")
	SG_NAME(bool, "bool")
	SG_NAME(const int, "const int")
	SG_NAME(T, "T")
	SG_NAME(T&, "T&")
	SG_NAME(const T&, "const T&")
	SG_NAME(T&&, "T&&")
	SG_NAME(const T&&, "const T&&")
	SG_NAME(const T, "const T")
	SG_NAME(T*, "T*")
	SG_NAME(const T*, "const T*")
	SG_NAME(T* const&, "T* const&")
	SG_NAME(M, "M")
	SG_NAME(M&, "M&")
	SG_NAME(M&&, "M&&")
	SG_NAME(const M&, "const M&")
	SG_NAME(Ptr, "Ptr")
	SG_NAME(int*, "int*")
	SG_NAME(int* const, "int* const")
	SG_NAME(Fn*, "int(*)(int)")
	SG_NAME(Arr&, "int(&)[3]")
	SG_NAME(volatile int&, "volatile int&")

	inline std::string quoted(const std::string& s) { return "\"" + s + "\""; }
	template <typename... X>
	std::string names()
	{
		std::string s{};
		((s += (s.empty() ? "" : ",") + quoted(name<X>::get())), ...);
		return "[" + s + "]";
	}
	template <typename L> struct list { static std::string get() { return quoted("?"); } };
	template <typename... X> struct list<std::tuple<X...>> { static std::string get() { return names<X...>(); } };
	template <typename R, typename... X> struct list<mimicpp::call::Info<R, X...>> { static std::string get() { return names<R, X...>(); } };

	template <typename S> struct sig { static std::string get() { return quoted("?"); } };
	template <typename R, typename... P>
	std::string sigText(bool va, bool c, int ref, bool nx)
	{
		const auto b = [](bool x) { return x ? std::string{"true"} : std::string{"false"}; };
		return "{\"r\":" + quoted(name<R>::get()) + ",\"ps\":" + names<P...>() + ",\"va\":" + b(va) + ",\"c\":" + b(c)
			+ ",\"ref\":" + std::to_string(ref) + ",\"nx\":" + b(nx) + "}";
	}
#define SG_SIG(quals, c, ref, nx) \
	template <typename R, typename... P> struct sig<R(P...) quals> { static std::string get() { return sigText<R, P...>(false, c, ref, nx); } }; \
	template <typename R, typename... P> struct sig<R(P..., ...) quals> { static std::string get() { return sigText<R, P...>(true, c, ref, nx); } };
#define SG_SIG2(quals, c, ref) \
	SG_SIG(quals, c, ref, false) \
	SG_SIG(quals noexcept, c, ref, true)
	SG_SIG2(, false, 0)
	SG_SIG2(&, false, 1)
	SG_SIG2(&&, false, 2)
	SG_SIG2(const, true, 0)
	SG_SIG2(const&, true, 1)
	SG_SIG2(const&&, true, 2)

	using namespace mimicpp;

	template <typename S, std::size_t... i>
	std::string params(std::index_sequence<i...>)
	{
		return names<signature_param_type_t<i, S>...>();
	}

	// the traits of one signature; n: number of parameters, or -1 if it is C-variadic
	template <typename S, int n>
	std::string one(const char* text)
	{
		static_assert(std::same_as<signature_add_noexcept_t<S>, typename signature_add_noexcept<S>::type>);
		std::string s = "{\"op\":\"one\",\"s\":" + std::string{text} + ",\"type\":" + sig<S>::get() + ",\"add\":" + sig<signature_add_noexcept_t<S>>::get()
			+ ",\"rem\":" + sig<signature_remove_noexcept_t<S>>::get() + ",\"dec\":" + sig<signature_decay_t<S>>::get()
			+ ",\"ret\":" + quoted(name<signature_return_type_t<S>>::get());
		if constexpr (n >= 0)
			s += ",\"ps\":" + params<S>(std::make_index_sequence<n>{}) + ",\"list\":" + list<signature_param_list_t<S>>::get()
				+ ",\"info\":" + list<call::info_for_signature_t<S>>::get();
		return s + "}";
	}

	template <typename F, typename... S>
	std::string row()
	{
		std::string s{};
		((s += (s.empty() ? "" : ",") + std::string{is_overloadable_with_v<F, S> ? "true" : "false"}), ...);
		return "[" + s + "]";
	}
	template <typename... S>
	std::string matrix()
	{
		std::string s{};
		((s += (s.empty() ? "" : ",") + row<S, S...>()), ...);
		return "[" + s + "]";
	}

	template <typename... S>
	constexpr bool mockable() { return requires { typename Mock<S...>; }; }

	// a parameter list and whether expect_call with anything for each of them is not ambiguous with another list
	template <bool only, typename... P> struct Args {};

	template <typename O, typename... P>
	std::string result()
	{
		if constexpr (std::is_invocable_v<O, P...>)
			return quoted(name<std::invoke_result_t<O, P...>>::get());
		else
			return quoted("-");
	}
	template <typename O, typename... A>
	concept expecting = requires(A... a) { std::declval<O>().expect_call(a...); };
	template <typename P> using AnyT = std::remove_const_t<decltype(matches::_)>;
	inline std::string text(bool b) { return b ? "true" : "false"; }

	template <typename Mck, bool only, typename... P>
	std::string call(Args<only, P...>, const char* ps)
	{
		using L = Mck&;
		using CL = const Mck&;
		using R = Mck;
		using CR = const Mck;
		const auto exp = []<typename O>(std::type_identity<O>) {
			// what cannot be asked without ambiguity is answered by the call itself
			if constexpr (only)
				return text(expecting<O, AnyT<P>...>);
			else
				return text(std::is_invocable_v<O, P...>);
		};
		return std::string{"{\"ps\":"} + ps + ",\"res\":[" + result<L, P...>() + "," + result<CL, P...>() + "," + result<R, P...>() + "," + result<CR, P...>() + "]"
			+ ",\"nx\":[" + text(std::is_nothrow_invocable_v<L, P...>) + "," + text(std::is_nothrow_invocable_v<CL, P...>) + ","
			+ text(std::is_nothrow_invocable_v<R, P...>) + "," + text(std::is_nothrow_invocable_v<CR, P...>) + "]"
			+ ",\"exp\":[" + exp(std::type_identity<L>{}) + "," + exp(std::type_identity<CL>{}) + "," + exp(std::type_identity<R&&>{}) + ","
			+ exp(std::type_identity<CR&&>{}) + "]}";
	}

	template <typename... S>
	std::string set(const char* text, auto calls)
	{
		std::string c{};
		if constexpr (mockable<S...>())
			c = calls(std::type_identity<Mock<S...>>{});
		return "{\"op\":\"set\",\"ss\":" + std::string{text} + ",\"over\":" + matrix<S...>() + ",\"set\":" + (is_overload_set_v<S...> ? "true" : "false")
			+ ",\"mock\":" + (mockable<S...>() ? "true" : "false") + ",\"calls\":[" + c + "]}";
	}

	using Item = std::function<std::string()>;
	inline std::vector<Item>& items()
	{
		static std::vector<Item> v{};
		return v;
	}
	inline void put(std::size_t k, Item f)
	{
		if (items().size() <= k)
			items().resize(k + 1);
		items()[k] = std::move(f);
	}
}
