#include "mx.hpp"

#include <fstream>

namespace mx
{
	AnyPtr str_sensitive(const std::string& kind, int src, const Enc& arg);
	AnyPtr str_insensitive(const std::string& kind, int src, const Enc& arg);
	AnyPtr str_wchar_t(const std::string& kind, int src, const Enc& arg);
	AnyPtr str_char8_t(const std::string& kind, int src, const Enc& arg);
	AnyPtr str_char16_t(const std::string& kind, int src, const Enc& arg);
	AnyPtr str_char32_t(const std::string& kind, int src, const Enc& arg);
	AnyPtr str_ustring(const std::string& kind, int ci, int src, const Enc& arg);
	AnyPtr str_utext(const std::string& kind, int ci, int src, const Enc& arg);
	AnyPtr rng_eq(int src, const std::string& cmp, const Enc& arg);
	AnyPtr rng_unordered(int src, const std::string& cmp, const Enc& arg);
	AnyPtr rng_plain(const std::string& kind, int src, const std::string& cmp, const Enc& arg);
	AnyPtr rng_elements(const std::string& kind, const std::string& inner, int k);
	AnyPtr rng_nested(const std::string& kind, const std::string& inner, int k);

	inline std::string ints(const Enc& v)
	{
		std::string r{"["};
		for (std::size_t i = 0; i < v.size(); ++i)
			r += (i ? "," : "") + std::to_string(v[i]);
		return r + "]";
	}

	inline std::string esc(const std::string& s)
	{
		std::string r{"\""};
		for (char c : s)
		{
			if (c == '"' || c == '\\')
				r += '\\';
			r += static_cast<unsigned char>(c) < 32 || static_cast<unsigned char>(c) > 126 ? '?' : c;
		}
		return r + "\"";
	}
}

// "cmp kind ty src arg [eqtab lttab]", "str kind ci chartype src arg", "rng kind src cmp arg", "el kind inner k";
// "inv i move", "dup i move", "ts n list.."; lists are given with their length
int main(int argc, char** argv)
{
	using namespace mx;
	if (argc < 3)
		return 2;
	std::ifstream in{argv[1]};
	FILE* out = std::fopen(argv[2], "w");
	const auto emit = [&](const std::string& s) {
		std::fputs((s + "\n").c_str(), out);
		std::fflush(out);
	};
	std::vector<AnyPtr> slots{};
	std::vector<int> gone{};
	std::string line{};
	while (std::getline(in, line))
	{
		Words w{line};
		const std::string op = w.word();
		const auto created = [&](const std::string& fields, AnyPtr p) {
			if (!p)
			{
				std::fprintf(stderr, "bad line %s\n", line.c_str());
				std::exit(3);
			}
			slots.clear();
			gone.clear();
			const std::string d = p->describe();
			slots.push_back(std::move(p));
			gone.push_back(0);
			emit("{\"op\":\"new\"," + fields + ",\"d\":" + esc(d) + "}");
		};
		if (op == "S")
		{
			slots.clear();
			gone.clear();
			emit("{\"op\":\"start\",\"id\":" + w.word() + "}");
		}
		else if (op == "cmp")
		{
			Words v{line};
			v.word();
			const std::string kind = v.word();
			const int ty = v.num();
			v.num();
			const Enc arg = v.list();
			const Enc e = ty == 2 ? v.list() : Enc{}, l = ty == 2 ? v.list() : Enc{};
			created(
				"\"fam\":\"cmp\",\"kind\":\"" + kind + "\",\"ty\":" + std::to_string(ty) + ",\"ci\":0,\"arg\":" + ints(arg)
					+ ",\"eq\":" + ints(e) + ",\"lt\":" + ints(l) + ",\"cmp\":\"\"",
				make_cmp(w));
		}
		else if (op == "str")
		{
			const std::string kind = w.word();
			const int ci = w.num(), ct = w.num(), src = w.num();
			const Enc arg = w.list();
			AnyPtr p{};
			switch (ct)
			{
			case 0: p = ci ? str_insensitive(kind, src, arg) : str_sensitive(kind, src, arg); break;
			case 1: p = str_wchar_t(kind, src, arg); break;
			case 2: p = str_char8_t(kind, src, arg); break;
			case 3: p = str_char16_t(kind, src, arg); break;
			case 4: p = str_char32_t(kind, src, arg); break;
			case 5: p = str_ustring(kind, ci, src, arg); break;
			default: p = str_utext(kind, ci, src, arg); break;
			}
			created(
				"\"fam\":\"str\",\"kind\":\"" + kind + "\",\"ty\":" + std::to_string(ct) + ",\"ci\":" + std::to_string(ci) + ",\"arg\":"
					+ ints(arg) + ",\"eq\":[],\"lt\":[],\"cmp\":\"\"",
				std::move(p));
		}
		else if (op == "rng")
		{
			const std::string kind = w.word();
			const int src = w.num();
			const std::string cmp = w.word();
			const Enc arg = w.list();
			created(
				"\"fam\":\"rng\",\"kind\":\"" + kind + "\",\"ty\":0,\"ci\":0,\"arg\":" + ints(arg) + ",\"eq\":[],\"lt\":[],\"cmp\":\"" + cmp + "\"",
				kind == "eq" ? rng_eq(src, cmp, arg) : kind == "perm" ? rng_unordered(src, cmp, arg) : rng_plain(kind, src, cmp, arg));
		}
		else if (op == "el")
		{
			const std::string kind = w.word(), inner = w.word();
			const int k = w.num();
			created(
				"\"fam\":\"el\",\"kind\":\"" + kind + "\",\"ty\":0,\"ci\":0,\"arg\":[" + std::to_string(k) + "],\"eq\":[],\"lt\":[],\"cmp\":\""
					+ inner + "\"",
				kind.back() == '2' ? rng_nested(kind, inner, k) : rng_elements(kind, inner, k));
		}
		else if (op == "inv" || op == "dup")
		{
			const auto i = static_cast<std::size_t>(w.num()) - 1;
			const bool move = w.num() != 0;
			if (i >= slots.size() || gone[i])
				continue;
			bool moved = move;
			AnyPtr p = op == "inv" ? slots[i]->inv(move, moved) : slots[i]->dup(move, moved);
			if (!p)
				continue;
			const std::string d = p->describe();
			gone[i] = moved;
			slots.push_back(std::move(p));
			gone.push_back(0);
			emit(
				"{\"op\":\"" + op + "\",\"i\":" + std::to_string(i + 1) + ",\"moved\":" + std::to_string(moved ? 1 : 0) + ",\"d\":"
				+ esc(d) + "}");
		}
		else if (op == "ts")
		{
			const int n = w.num();
			std::vector<Enc> ts{};
			for (int i = 0; i < n; ++i)
				ts.push_back(w.list());
			std::string vs{}, rs{}, ds{};
			for (const auto& t : ts)
				vs += (vs.empty() ? "" : ",") + ints(t);
			for (std::size_t i = 0; i < slots.size(); ++i)
			{
				Enc r{};
				if (!gone[i])
					for (const auto& t : ts)
						r.push_back(slots[i]->eval(t));
				rs += (rs.empty() ? "" : ",") + ints(r);
				ds += (ds.empty() ? "" : ",") + (gone[i] ? std::string{"\"\""} : esc(slots[i]->describe()));
			}
			emit("{\"op\":\"ts\",\"vs\":[" + vs + "],\"r\":[" + rs + "],\"d\":[" + ds + "]}");
		}
	}
	slots.clear();
	emit("{\"op\":\"end\"}");
	return 0;
}
