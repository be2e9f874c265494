// The interfaces and their mock.
#pragma once

#include "ix.hpp"

namespace ix
{
	struct A
	{
		virtual ~A() = default;
		virtual void none() = 0;                       // 0
		virtual int one(int) = 0;                      // 1
		virtual int two(int) = 0;                      // 2
		virtual int two(int) const = 0;                // 3
		virtual int two(const std::string&) = 0;       // 4
		virtual int two(const std::string&, int) noexcept = 0; // 5
		virtual int two() const noexcept = 0;          // 6
		virtual T& refs(T&, const T&, T&&) = 0;        // 7
		virtual const T& refs(T&) const = 0;           // 8
		virtual T refs(T, Ptr) = 0;                    // 9
		virtual T&& refs(T&&) = 0;                     // 10
		virtual int quals(int) & = 0;                  // 11
		virtual int quals(int) const & = 0;            // 12
		virtual int nquals(int) & noexcept = 0;        // 13
		virtual int nquals(int) const & noexcept = 0;  // 14
		virtual Pair commas(Map, int) = 0;             // 15
		virtual Pair commas(Map) const = 0;            // 16
		virtual int many(int, int, int, int, int, int, int, int, int, int, int, int) = 0; // 17
		virtual int many(int, int, int, int, int, int, int, int, int, int, int) const = 0; // 18
		virtual T many(int, T, int, T) = 0;            // 19
		virtual void big(int) = 0;                     // 20
		virtual void big(int, int) = 0;                // 21
		virtual void big(int, int, int) = 0;           // 22
		virtual void big(int) const = 0;               // 23
		virtual void big(int, int) const = 0;          // 24
		virtual void big(const std::string&) const = 0;// 25
		virtual void big(T&) const noexcept = 0;       // 26
		virtual void big(const T*) = 0;                // 31
		virtual void big() = 0;                        // 32
		virtual int big(Map) = 0;                      // 33
		virtual int wide(int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) = 0; // 37
		virtual Pair solo(Map, int, Map) const noexcept = 0; // 38
	};

	template <typename V>
	struct Base
	{
		virtual ~Base() = default;
		virtual V get(V) = 0;                          // 27
		virtual V get(V) const = 0;                    // 28
	};

	struct B
	{
		virtual ~B() = default;
		virtual int one(int) = 0;                      // 1
		virtual Ptr other(Ptr) = 0;                    // 29
		virtual void other(T*) const = 0;              // 30
		virtual int one(int, int) const = 0;           // 34
		virtual const T& constant() const & noexcept = 0; // 35
		virtual T value(const int&&) = 0;              // 36
	};

	template <typename V>
	struct Mid : A, Base<V>
	{
		MOCK_OVERLOADED_METHOD(get, ADD_OVERLOAD(V, (V)), ADD_OVERLOAD(V, (V), const));
	};

	struct D : Mid<int>, B
	{
		MOCK_METHOD(none, void, ());
		MIMICPP_MOCK_METHOD(wide, int, (int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int));
		MOCK_METHOD(solo, (std::pair<int, int>), ((std::map<int, int>), int, (std::map<int, int>)), const noexcept);
		MOCK_OVERLOADED_METHOD(one, ADD_OVERLOAD(int, (int)), ADD_OVERLOAD(int, (int, int), const));
		MIMICPP_MOCK_OVERLOADED_METHOD(
			two,
			MIMICPP_ADD_OVERLOAD(int, (int)),
			MIMICPP_ADD_OVERLOAD(int, (int), const),
			MIMICPP_ADD_OVERLOAD(int, (const std::string&)),
			MIMICPP_ADD_OVERLOAD(int, (const std::string&, int), noexcept),
			MIMICPP_ADD_OVERLOAD(int, (), const noexcept));
		MOCK_OVERLOADED_METHOD(
			refs,
			ADD_OVERLOAD(T&, (T&, const T&, T&&)),
			ADD_OVERLOAD(const T&, (T&), const),
			ADD_OVERLOAD(T, (T, Ptr)),
			ADD_OVERLOAD(T&&, (T&&)));
		MOCK_OVERLOADED_METHOD(quals, ADD_OVERLOAD(int, (int), &), ADD_OVERLOAD(int, (int), const &));
		MOCK_OVERLOADED_METHOD(nquals, ADD_OVERLOAD(int, (int), & noexcept), ADD_OVERLOAD(int, (int), const & noexcept));
		MOCK_OVERLOADED_METHOD(
			commas,
			ADD_OVERLOAD((std::pair<int, int>), ((std::map<int, int>), int)),
			ADD_OVERLOAD((std::pair<int, int>), ((std::map<int, int>)), const));
		MOCK_OVERLOADED_METHOD(
			many,
			ADD_OVERLOAD(int, (int, int, int, int, int, int, int, int, int, int, int, int)),
			ADD_OVERLOAD(int, (int, int, int, int, int, int, int, int, int, int, int), const),
			ADD_OVERLOAD(T, (int, T, int, T)));
		MOCK_OVERLOADED_METHOD(
			big,
			ADD_OVERLOAD(void, (int)),
			ADD_OVERLOAD(void, (int, int)),
			ADD_OVERLOAD(void, (int, int, int)),
			ADD_OVERLOAD(void, (int), const),
			ADD_OVERLOAD(void, (int, int), const),
			ADD_OVERLOAD(void, (const std::string&), const),
			ADD_OVERLOAD(void, (T&), const noexcept),
			ADD_OVERLOAD(void, (const T*)),
			ADD_OVERLOAD(void, ()),
			ADD_OVERLOAD(int, (Map)));
		MOCK_OVERLOADED_METHOD(other, ADD_OVERLOAD(Ptr, (Ptr)), ADD_OVERLOAD(void, (T*), const));
		MOCK_METHOD(constant, const T&, (), const & noexcept);
		MIMICPP_MOCK_METHOD(value, T, (const int&&));
	};

	extern D* d;
}
