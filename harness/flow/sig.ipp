#include "flow.hpp"

namespace fx
{
#if FLOW_SIG == 1
	using Sig = T(T, const T&, T&&);
#elif FLOW_SIG == 2
	using Sig = T&(T&, T&, const T&);
#elif FLOW_SIG == 3
	using Sig = const T&(const T&, const T&, T&);
#elif FLOW_SIG == 4
	using Sig = T&&(T&&, T&, T);
#elif FLOW_SIG == 5
	using Sig = std::unique_ptr<T>(std::unique_ptr<T>, T*, const T&);
#elif FLOW_SIG == 6
	using Sig = void(T&, T&&, const T&);
#elif FLOW_SIG == 7
	using Sig = int(T&, const T&&, T);
#endif

	static std::unique_ptr<Mock<Sig>> mock{};

	template <>
	void fresh<FLOW_SIG>()
	{
		mock = std::make_unique<Mock<Sig>>();
	}

	using R = signature_return_type_t<Sig>;

	// finalizers, see Fin in Flow.tla
	template <int chain>
	static ScopedExpectation with_fin(const Spec& s)
	{
		const auto done = [](auto&& b) -> ScopedExpectation { return ScopedExpectation{std::move(b)}; };
		const auto base = [&](auto&& k) -> ScopedExpectation {
			return with_chain<chain>(
				mock->expect_call(ObsMatcher{"m", 0}, ObsMatcher{"m", 1}, ObsMatcher{"m", 2}) and expect::times(0, 1000), s,
				[&](auto&& b) -> ScopedExpectation { return k(std::move(b)); });
		};
		const int val = s.val;
		const auto all = [runs = Runs{}](auto& x, auto& y, auto& z) -> R {
			++fnCalls;
			observe("f", ++runs.n, x, y, z);
#if FLOW_SIG == 1
			return T{deref(x).v * 100 + deref(y).v * 10 + deref(z).v};
#elif FLOW_SIG == 5
			return std::make_unique<T>(deref(x).v * 100 + deref(y).v * 10 + deref(z).v);
#elif FLOW_SIG == 7
			return deref(x).v * 100 + deref(y).v * 10 + deref(z).v;
#elif FLOW_SIG == 4
			return std::move(y);
#elif FLOW_SIG == 6
			return;
#else
			return x;
#endif
		};

		if constexpr (chain == 0 || chain == 3)
		{
			switch (s.fin)
			{
#if FLOW_SIG != 6
			case 10:
				if (val % 2 == 0)
				{
					const ThrowsUnlessConst<R> fn{val};
					return base([&](auto&& b) { return done(std::move(b) and finally::returns_result_of(fn)); });
				}
				return base([&](auto&& b) { return done(std::move(b) and finally::returns_result_of(ThrowsUnlessRvalue<R>{val})); });
			case 12:
				return base(
					[&](auto&& b) {
						return done(
							std::move(b)
							and finally::returns_result_of(
								[val]() noexcept {
									++fnCalls;
									return Conv<R>{val};
								}));
					});
#endif
			case 11:
				return base(
					[&](auto&& b) {
						return done(
							std::move(b)
							and finally::returns_apply_result_of<1, 0>(
								[val, runs = Runs{}](auto& x, auto& y) -> R {
									++fnCalls;
									observe("f", ++runs.n, x, y);
									throw Ex{val + runs.n};
								}));
					});
			case 13: return base([&](auto&& b) { return done(std::move(b) and OwnFinalizer{all}); });
			case 14:
			{
				const ExD ex{val};
				return base([&](auto&& b) { return done(std::move(b) and finally::throws(ex)); });
			}
#if FLOW_SIG == 1 || FLOW_SIG == 5 || FLOW_SIG == 7
			case 15:
				return base(
					[&](auto&& b) {
						return done(
							std::move(b)
							and finally::returns_result_of(
								[val, n = 0]() mutable {
									++fnCalls;
									++n;
#if FLOW_SIG == 1
									return val + n;
#elif FLOW_SIG == 5
									return new T{val + n};
#else
									return static_cast<double>(val + n);
#endif
								}));
					});
#endif
			default: break;
			}
		}

		switch (s.fin)
		{
#if FLOW_SIG == 6
		case -1: return base(done);
#endif
#if FLOW_SIG != 5 && FLOW_SIG != 6 && FLOW_SIG != 7
		case 0:
			if constexpr (chain != 4)
				return base([&](auto&& b) { return done(std::move(b) and finally::returns(T{val})); });
			break;
#endif
#if FLOW_SIG == 7
		case 0:
			if constexpr (chain != 4)
				return base([&](auto&& b) { return done(std::move(b) and finally::returns(val)); });
			break;
#endif
#if FLOW_SIG != 6
		case 2:
			return base(
				[&](auto&& b) {
					return done(
						std::move(b)
						and finally::returns_result_of(
							[val, n = 0]() mutable -> R {
								++fnCalls;
								++n;
#if FLOW_SIG == 1
								return T{val + n};
#elif FLOW_SIG == 5
								return std::make_unique<T>(val + n);
#elif FLOW_SIG == 7
								return val + n;
#else
								ext.v = val + n;
								return static_cast<R>(ext);
#endif
							}));
				});
#endif
#if FLOW_SIG != 6 && FLOW_SIG != 7
		case 3:
			if constexpr (chain != 4)
				return base([&](auto&& b) { return done(std::move(b) and finally::returns_arg<0>()); });
			break;
#endif
#if FLOW_SIG == 1 || FLOW_SIG == 2 || FLOW_SIG == 3
		case 4:
			if constexpr (chain != 2 && chain != 4)
				return base([&](auto&& b) { return done(std::move(b) and finally::returns_arg<1>()); });
			break;
#endif
#if FLOW_SIG == 1 || FLOW_SIG == 3
		case 5:
			if constexpr (chain != 1 && chain != 4)
				return base([&](auto&& b) { return done(std::move(b) and finally::returns_arg<2>()); });
			break;
#endif
		case 6:
			if constexpr (chain != 1 && chain != 4)
				return base(
					[&](auto&& b) {
						return done(
							std::move(b)
							and finally::returns_apply_result_of<1, 0>(
								[runs = Runs{}](auto& x, auto& y) -> R {
									++fnCalls;
									observe("f", ++runs.n, x, y);
#if FLOW_SIG == 1
									return T{deref(x).v * 10 + deref(y).v};
#elif FLOW_SIG == 5
									return std::make_unique<T>(deref(x).v * 10 + deref(y).v);
#elif FLOW_SIG == 7
									return deref(x).v * 10 + deref(y).v;
#elif FLOW_SIG == 4
									return std::move(y);
#elif FLOW_SIG == 6
									return;
#else
									return x;
#endif
								}));
					});
			break;
		case 7:
			if constexpr (chain != 2)
				return base(
					[&](auto&& b) {
						return done(
							std::move(b)
							and finally::returns_apply_all_result_of(
								all));
					});
			break;
#if FLOW_SIG == 1 || FLOW_SIG == 2 || FLOW_SIG == 3
		case 8:
			if constexpr (chain != 4)
				return base([&](auto&& b) { return done(std::move(b) and finally::returns(std::ref(ext))); });
			break;
#endif
		case 9: return base([&](auto&& b) { return done(std::move(b) and finally::throws(Ex{val})); });
		default: break;
		}
		std::fprintf(stderr, "unsupported finalizer %d\n", s.fin);
		std::exit(3);
	}

	template <>
	ScopedExpectation make<FLOW_SIG>(const Spec& s)
	{
		switch (s.chain)
		{
		case 0: return with_fin<0>(s);
		case 1: return with_fin<1>(s);
		case 2: return with_fin<2>(s);
		case 4: return with_fin<4>(s);
		default: return with_fin<3>(s);
		}
	}

	template <>
	Outcome do_call<FLOW_SIG>(const std::vector<int>& vals, const std::vector<int>& rv)
	{
		Outcome o{};
#if FLOW_SIG == 5
		auto owner = std::make_unique<T>(vals[0]);
		T* const p0 = owner.get();
		T c1{vals[1]}, c2{vals[2]};
		rec.ids[p0] = 0;
		rec.ids[&c1] = 1;
		rec.ids[&c2] = 2;
#else
		T c0{vals[0]}, c1{vals[1]}, c2{vals[2]};
		rec.ids[&c0] = 0;
		rec.ids[&c1] = 1;
		rec.ids[&c2] = 2;
#endif
		copies = 0;
		try
		{
#if FLOW_SIG == 1
			const auto fin = [&](T r) {
				o.copies = copies;
				o.res = result("val", -1, r.v);
			};
			if (rv[0])
				fin((*mock)(std::move(c0), c1, std::move(c2)));
			else
				fin((*mock)(c0, c1, std::move(c2)));
#elif FLOW_SIG == 2
			T& r = (*mock)(c0, c1, c2);
			o.copies = copies;
			o.res = result("ref", rec.id(&r), r.v);
#elif FLOW_SIG == 3
			const T& r = (*mock)(c0, c1, c2);
			o.copies = copies;
			o.res = result("ref", rec.id(&r), r.v);
#elif FLOW_SIG == 4
			const auto fin = [&](T&& r) {
				o.copies = copies;
				o.res = result("ref", rec.id(&r), r.v);
			};
			if (rv[2])
				fin((*mock)(std::move(c0), c1, std::move(c2)));
			else
				fin((*mock)(std::move(c0), c1, c2));
#elif FLOW_SIG == 5
			const std::unique_ptr<T> r = (*mock)(std::move(owner), &c1, c2);
			o.copies = copies;
			o.res = result(r && r.get() == p0 ? "ref" : "val", r && r.get() == p0 ? 0 : -1, r ? r->v : -998);
#elif FLOW_SIG == 6
			(*mock)(c0, std::move(c1), c2);
			o.copies = copies;
			o.res = result("void", -1, 0);
#elif FLOW_SIG == 7
			int r{};
			if (rv[2])
				r = (*mock)(c0, std::move(c1), std::move(c2));
			else
				r = (*mock)(c0, std::move(c1), c2);
			o.copies = copies;
			o.res = result("val", -1, r);
#endif
		}
		catch (const ExD& e)
		{
			o.copies = copies;
			o.res = result("excd", -1, e.v);
		}
		catch (const Ex& e)
		{
			o.copies = copies;
			o.res = result("exc", -1, e.v);
		}
		catch (...)
		{
			o.copies = copies;
			o.res = result("other", -1, 0);
		}
#if FLOW_SIG == 5
		o.after = {-1, c1.v, c2.v};
		rec.ids.erase(p0);
#else
		o.after = {c0.v, c1.v, c2.v};
		rec.ids.erase(&c0);
#endif
		rec.ids.erase(&c1);
		rec.ids.erase(&c2);
		return o;
	}
}
