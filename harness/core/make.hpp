#pragma once
#include "exec.hpp"

namespace mx
{
	// ---- continuation passing steps -------------------------------------------------
	template <typename B, typename K>
	ScopedExpectation step_times(B&& b, const ExpSpec& s, K&& k)
	{
		switch (s.tk)
		{
		case 1: return k(std::move(b) and expect::times(s.ta, s.tb));
		case 2: return k(std::move(b) and expect::times(s.ta));
		case 3: return k(std::move(b) and expect::at_least(s.ta));
		case 4: return k(std::move(b) and expect::at_most(s.ta));
		case 5: return k(std::move(b) and expect::once());
		case 6: return k(std::move(b) and expect::twice());
		default: return k(std::move(b));
		}
	}

	template <typename K>
	ScopedExpectation pick_seq(int slot, K&& k)
	{
		if (seq_is_lazy(slot))
			return k(*lazy_of(slot));
		return k(*greedy_of(slot));
	}

	template <int maxSeq, typename B, typename K>
	ScopedExpectation step_seq(B&& b, const ExpSpec& s, K&& k)
	{
		if (s.seqs.empty())
			return k(std::move(b));
		if constexpr (1 <= maxSeq)
		{
			if (s.seqs.size() == 1)
			{
				return pick_seq(
					s.seqs[0],
					[&](auto& q) -> ScopedExpectation { return k(std::move(b) and expect::in_sequence(q)); });
			}
		}
		if constexpr (2 <= maxSeq)
		{
			if (s.seqs.size() == 2)
			{
				return pick_seq(
					s.seqs[0],
					[&](auto& q0) -> ScopedExpectation {
						return pick_seq(
							s.seqs[1],
							[&](auto& q1) -> ScopedExpectation {
								if (s.spell == 0)
									return k(std::move(b) and expect::in_sequences(q0, q1));
								return k(std::move(b) and expect::in_sequence(q0) and expect::in_sequence(q1));
							});
					});
			}
		}
		if constexpr (3 <= maxSeq)
		{
			if (s.seqs.size() == 3)
			{
				return pick_seq(
					s.seqs[0],
					[&](auto& q0) -> ScopedExpectation {
						return pick_seq(
							s.seqs[1],
							[&](auto& q1) -> ScopedExpectation {
								return pick_seq(
									s.seqs[2],
									[&](auto& q2) -> ScopedExpectation {
										switch (s.spell)
										{
										case 0: return k(std::move(b) and expect::in_sequences(q0, q1, q2));
										case 1: return k(
												std::move(b) and expect::in_sequence(q0)
												and expect::in_sequence(q1) and expect::in_sequence(q2));
										case 2: return k(
												std::move(b) and expect::in_sequences(q0, q1)
												and expect::in_sequence(q2));
										default: return k(
												std::move(b) and expect::in_sequence(q0)
												and expect::in_sequences(q1, q2));
										}
									});
							});
					});
			}
		}
		std::fprintf(stderr, "unsupported seq shape\n");
		std::abort();
	}

	inline Tag mk_tag(const ExpSpec& s) { return Tag{s.uid, s.polAtoms.at(0)}; }

	inline Side mk_side(const ExpSpec& s, int k)
	{
		return Side{s.uid, k, std::size_t(k) <= s.sfx.size() ? s.sfx[k - 1] : -1};
	}

	inline DynMatcher mk_dyn(const ExpSpec& s, int i) { return DynMatcher{s.polAtoms.at(i)}; }

	struct Nullary
	{
		Side s;

		void operator()() const { s(); }
	};

	// policy shapes, see the operator PolList of Mimic.tla
	template <int maxPol, typename B, typename K>
	ScopedExpectation step_pol(B&& b, const ExpSpec& s, K&& k)
	{
		if (s.pol == 0)
			return k(std::move(b) and mk_tag(s));
		if constexpr (1 <= maxPol)
		{
			if (s.pol == 1)
				return k(std::move(b) and mk_tag(s) and then::invoke(Nullary{mk_side(s, 1)}));
		}
		if constexpr (2 <= maxPol && maxPol <= 4)
		{
			if (s.pol == 2)
			{
				return k(
					std::move(b)
					and mk_tag(s)
					and then::invoke(Nullary{mk_side(s, 1)})
					and then::apply_arg<0>(mk_side(s, 2))
					and then::invoke(Nullary{mk_side(s, 3)}));
			}
			if (s.pol == 3)
			{
				return k(
					std::move(b)
					and expect::arg<0>(mk_dyn(s, 1))
					and mk_tag(s)
					and expect::arg<0>(mk_dyn(s, 2), Proj{}));
			}
			if (s.pol == 4)
			{
				return k(
					std::move(b)
					and then::apply_all(mk_side(s, 1))
					and expect::arg<0>(mk_dyn(s, 1))
					and mk_tag(s)
					and then::apply_args<0, 0>(mk_side(s, 2)));
			}
		}
		if constexpr (maxPol == 5)
		{
			if (s.pol == 5)
			{
				return k(
					std::move(b)
					and expect::arg<1>(mk_dyn(s, 1))
					and mk_tag(s)
					and expect::arg<0>(mk_dyn(s, 2), Proj{})
					and then::apply_args<1, 0>(mk_side(s, 1))
					and then::apply_arg<1>(mk_side(s, 2))
					and then::apply_all(mk_side(s, 3)));
			}
		}
		std::fprintf(stderr, "unsupported pol shape\n");
		std::abort();
	}

	template <int maxFin, bool isVoid, typename B, typename K>
	ScopedExpectation step_fin(B&& b, const ExpSpec& s, K&& k)
	{
		if constexpr (isVoid)
		{
			if (s.fin == 1)
				return k(std::move(b) and finally::throws(MyEx{s.uid}));
			return k(std::move(b));
		}
		else
		{
			if (s.fin == 0)
				return k(std::move(b) and finally::returns(int{s.uid}));
			if constexpr (1 <= maxFin)
			{
				switch (s.fin)
				{
				case 1: return k(std::move(b) and finally::throws(MyEx{s.uid}));
				case 2: return k(std::move(b) and finally::returns_result_of(FinFn{s.uid}));
				case 3: return k(std::move(b) and finally::returns_arg<0>());
				case 4: return k(std::move(b) and finally::returns_apply_result_of<0>(FinFn{s.uid}));
				case 5: return k(std::move(b) and finally::returns_apply_all_result_of(FinFn{s.uid}));
				default: break;
				}
			}
			std::fprintf(stderr, "unsupported fin shape\n");
			std::abort();
		}
	}

	template <int maxSeq, int maxPol, int maxFin, int maxOrder, bool isVoid, typename B>
	ScopedExpectation build(B&& b0, const ExpSpec& s)
	{
		const auto done = [&](auto&& b) -> ScopedExpectation {
			if (s.uid % loc_count == loc_count - 1)
				return note_line(s.uid % loc_count, __LINE__, __FILE__), ScopedExpectation{std::move(b)};
			return ScopedExpectation{std::move(b), exp_loc(s.uid)};
		};

		if (s.order == 0)
		{
			return step_times(
				std::move(b0), s,
				[&](auto&& b1) -> ScopedExpectation {
					return step_seq<maxSeq>(
						std::move(b1), s,
						[&](auto&& b2) -> ScopedExpectation {
							return step_pol<maxPol>(
								std::move(b2), s,
								[&](auto&& b3) -> ScopedExpectation {
									return step_fin<maxFin, isVoid>(std::move(b3), s, done);
								});
						});
				});
		}
		if constexpr (1 <= maxOrder)
		{
			if (s.order == 1)
			{
				return step_fin<0, isVoid>(
					std::move(b0), s,
					[&](auto&& b1) -> ScopedExpectation {
						return step_pol<0>(
							std::move(b1), s,
							[&](auto&& b2) -> ScopedExpectation {
								return step_seq<maxSeq>(
									std::move(b2), s,
									[&](auto&& b3) -> ScopedExpectation {
										return step_times(std::move(b3), s, done);
									});
							});
					});
			}
			if (s.order == 2)
			{
				return step_seq<maxSeq>(
					std::move(b0), s,
					[&](auto&& b1) -> ScopedExpectation {
						return step_pol<0>(
							std::move(b1), s,
							[&](auto&& b2) -> ScopedExpectation {
								return step_times(
									std::move(b2), s,
									[&](auto&& b3) -> ScopedExpectation {
										return step_fin<0, isVoid>(std::move(b3), s, done);
									});
							});
					});
			}
		}
		std::fprintf(stderr, "unsupported order\n");
		std::abort();
	}

	// ---- object expressions ----------------------------------------------------------
	template <typename M, typename K>
	decltype(auto) with_expr(M& m, int expr, K&& k)
	{
		switch (expr)
		{
		case 0: return k(m);
		case 1: return k(std::as_const(m));
		case 2: return k(std::move(m));
		default: return k(std::move(std::as_const(m)));
		}
	}

	template <int maxSeq, int maxPol, int maxFin, int maxOrder, int maxArgK, bool isVoid, typename M>
	ScopedExpectation make_impl(M& mock, const ExpSpec& s)
	{
		const auto go = [&](auto&& builder) -> ScopedExpectation {
			return build<maxSeq, maxPol, maxFin, maxOrder, isVoid>(std::move(builder), s);
		};
		const auto d = [&](int i) { return DynMatcher{s.argAtoms.at(i)}; };

		return with_expr(
			mock, s.expr,
			[&]<typename Mm>(Mm&& mm) -> ScopedExpectation {
				if constexpr (0 < maxArgK && requires { std::forward<Mm>(mm).expect_call(d(0)); })
				{
					if (s.argk == 1)
						return build<0, 0, 0, 0, isVoid>(std::forward<Mm>(mm).expect_call(int{s.argAtoms.at(0).v}), s);
					if (s.argk == 2)
						return build<0, 0, 0, 0, isVoid>(std::forward<Mm>(mm).expect_call(matches::_), s);
					if (s.argk == 3)
						return build<0, 0, 0, 0, isVoid>(
							std::forward<Mm>(mm).expect_call(matches::ne(int{s.argAtoms.at(0).v})), s);
					if (s.argk == 4)
						return build<0, 0, 0, 0, isVoid>(
							std::forward<Mm>(mm).expect_call(!matches::lt(int{s.argAtoms.at(0).v})), s);
				}
				if constexpr (requires { std::forward<Mm>(mm).expect_call(); })
				{
					if (s.arity == 0)
						return go(std::forward<Mm>(mm).expect_call());
				}
				if constexpr (requires { std::forward<Mm>(mm).expect_call(d(0)); })
				{
					if (s.arity == 1)
						return go(std::forward<Mm>(mm).expect_call(d(0)));
				}
				if constexpr (requires { std::forward<Mm>(mm).expect_call(d(0), d(1)); })
				{
					if (s.arity == 2)
						return go(std::forward<Mm>(mm).expect_call(d(0), d(1)));
				}
				if constexpr (requires { std::forward<Mm>(mm).expect_call(d(0), d(1), d(2)); })
				{
					if (s.arity == 3)
						return go(std::forward<Mm>(mm).expect_call(d(0), d(1), d(2)));
				}
				std::fprintf(stderr, "unsupported overload\n");
				std::abort();
			});
	}

	template <typename M>
	int do_call_impl(M& mock, const CallSpec& c)
	{
		return with_expr(
			mock, c.expr,
			[&]<typename Mm>(Mm&& mm) -> int {
				const auto run = [&](auto... a) -> int {
					if constexpr (std::is_void_v<decltype(std::forward<Mm>(mm)(a..., c.loc))>)
					{
						if (c.noLoc)
							note_line(2 * loc_count - 1, __LINE__, __FILE__), std::forward<Mm>(mm)(a...);
						else
							std::forward<Mm>(mm)(a..., c.loc);
						return 0;
					}
					else if (c.noLoc)
						return note_line(2 * loc_count - 1, __LINE__, __FILE__), std::forward<Mm>(mm)(a...);
					else
						return std::forward<Mm>(mm)(a..., c.loc);
				};
				if constexpr (requires { std::forward<Mm>(mm)(c.loc); })
				{
					if (c.args.size() == 0)
						return run();
				}
				if constexpr (requires { std::forward<Mm>(mm)(1, c.loc); })
				{
					if (c.args.size() == 1)
						return run(c.args[0]);
				}
				if constexpr (requires { std::forward<Mm>(mm)(1, 1, c.loc); })
				{
					if (c.args.size() == 2)
						return run(c.args[0], c.args[1]);
				}
				if constexpr (requires { std::forward<Mm>(mm)(1, 1, 1, c.loc); })
				{
					if (c.args.size() == 3)
						return run(c.args[0], c.args[1], c.args[2]);
				}
				std::fprintf(stderr, "unsupported call\n");
				std::abort();
			});
	}
}


#define MX_MAKE(name, K, maxSeq, maxPol, maxFin, maxOrder, maxArgK, isVoid)                                   \
	namespace mx                                                                                               \
	{                                                                                                          \
		ScopedExpectation name(K& m, const ExpSpec& s)                                                         \
		{                                                                                                      \
			return make_impl<maxSeq, maxPol, maxFin, maxOrder, maxArgK, isVoid>(m, s);                         \
		}                                                                                                      \
	}

#define MX_CALL(K)                                                                                            \
	namespace mx                                                                                               \
	{                                                                                                          \
		template <>                                                                                            \
		int do_call<K>(K & m, const CallSpec& c)                                                               \
		{                                                                                                      \
			return do_call_impl(m, c);                                                                         \
		}                                                                                                      \
	}

#define MX_KIND(K, maxSeq, maxPol, maxFin, maxOrder, maxArgK, isVoid)                                         \
	namespace mx                                                                                               \
	{                                                                                                          \
		template <>                                                                                            \
		ScopedExpectation make<K>(K & m, const ExpSpec& s)                                                     \
		{                                                                                                      \
			return make_impl<maxSeq, maxPol, maxFin, maxOrder, maxArgK, isVoid>(m, s);                         \
		}                                                                                                      \
	}                                                                                                          \
	MX_CALL(K)
