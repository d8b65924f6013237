// C24: the string and set helpers every parser and printer here is built on, for every string up to LEN characters.
#include "common.hpp"
#include <lstk/lstk.hpp>
using namespace sxh;

namespace {
std::string text(const char* nm, int len) { std::string s; for (int i = 0; i < len; ++i) s += sx_char(nm); return s; }
bool same(std::string_view a, std::string_view b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) return false; return true; }
bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
}

extern "C" void sx_harness() {
    int what = sx_config_int("WHAT", 0); int maxlen = sx_config_int("LEN", 5), dl = sx_config_int("DELIM", 2);
    int len = sx_choice("len", maxlen + 1);
    std::string s = text("c", len);
    // the view handed over ends inside a larger buffer, as it does when a part of a line is split
    std::string tail = sx_config_int("TAIL", 0) ? text("after", dl) : "";
    std::string buf = s + tail; std::string_view v(buf.data(), s.size());
    if (what == 0) {          // split on a character
        char d = sx_char("delim"); auto parts = lstk::split_on(v, d);
        std::string back; size_t nd = 0; for (char c : s) nd += c == d;
        for (size_t i = 0; i < parts.size(); ++i) { if (i) back += d; back += std::string(parts[i]); for (char c : parts[i]) sx_assert(c != d, "no part contains the delimiter"); }
        sx_assert(same(back, s), "joining the parts with the delimiter gives the text back");
        if (!s.empty()) { sx_assert(parts.size() == nd + 1, "one part more than delimiters"); sx_reach("split"); }
        else sx_assert(parts.size() <= 1, "nothing to split in an empty text");
        auto strs = lstk::split_on_get_strings(v, d); sx_assert(strs.size() == parts.size(), "both splitters agree");
        for (size_t i = 0; i < strs.size(); ++i) sx_assert(same(strs[i], parts[i]), "both splitters agree");
        bool threw = false; std::vector<std::string_view> first;
        try { first = lstk::split_on_first(v, d); } catch (const std::exception&) { threw = true; }
        sx_assert(threw == (nd == 0), "splitting on the first delimiter needs one");
        if (!threw) { sx_assert(first.size() == 2 && same(first[0], parts[0]) && same(std::string(first[0]) + d + std::string(first[1]), s), "split at the first delimiter"); }
        sx_assert(lstk::contains(v, d) == (nd > 0), "contains finds the character");
    } else if (what == 1) {   // split on a string
        std::string d = text("delim", dl); auto parts = lstk::split_on(v, std::string_view(d));
        // reference: leftmost non-overlapping occurrences
        std::vector<std::string> ref; std::string cur; size_t i = 0;
        while (i < s.size()) { bool m = i + d.size() <= s.size(); for (size_t k = 0; m && k < d.size(); ++k) m = s[i + k] == d[k]; if (m) { ref.push_back(cur); cur.clear(); i += d.size(); } else cur += s[i++]; }
        if (!s.empty()) ref.push_back(cur);
        if (!s.empty() && ref.size() > 1) sx_reach("split");
        sx_assert(parts.size() == ref.size(), "one part more than occurrences of the delimiter");
        for (size_t k = 0; k < parts.size(); ++k) sx_assert(same(parts[k], ref[k]), "the parts are the text between occurrences");
    } else if (what == 2) {   // replace a character
        char t = sx_char("target"); std::string r = text("by", dl), ref;
        for (char c : s) if (c == t) ref += r; else ref += c;
        sx_assert(same(lstk::str_replace(v, t, r), ref), "every occurrence is replaced and everything else kept");
        sx_reach("replaced");
    } else if (what == 3) {   // trim
        std::string l = s, r = s; lstk::ltrim(l); lstk::rtrim(r);
        size_t a = 0; while (a < s.size() && space(s[a])) ++a; size_t b = s.size(); while (b > 0 && space(s[b - 1])) --b;
        sx_assert(same(l, s.substr(a)), "trimming the left removes exactly the leading blanks");
        sx_assert(same(r, s.substr(0, b)), "trimming the right removes exactly the trailing blanks");
        sx_reach("trimmed");
    } else if (what == 4) {   // join and cat
        std::vector<std::string> parts; int n = sx_choice("n", 4); std::string ref;
        for (int i = 0; i < n; ++i) { std::string p; int k = sx_choice("plen", 3); for (int j = 0; j < k; ++j) p += sx_char("p"); parts.push_back(p); if (i) ref += s; ref += p; }
        sx_assert(same(lstk::join(parts, v), ref), "join puts the separator between the parts");
        sx_assert(same(lstk::cat(s, "|", s), s + "|" + s), "cat appends");
        sx_reach("joined");
    } else if (what == 5) {   // sets and queues
        tsl::ordered_set<int> a, b; bool ia[4], ib[4];
        for (int i = 0; i < 4; ++i) { if ((ia[i] = sx_flag("a"))) a.insert(i); } for (int i = 3; i >= 0; --i) if ((ib[i] = sx_flag("b"))) b.insert(i);
        auto x = lstk::set_intersection(a, b), u = lstk::set_union(a, b); size_t nx = 0, nu = 0;
        for (int i = 0; i < 4; ++i) { sx_assert(x.contains(i) == (ia[i] && ib[i]), "intersection"); sx_assert(u.contains(i) == (ia[i] || ib[i]), "union"); nx += ia[i] && ib[i]; nu += ia[i] || ib[i]; }
        sx_assert(x.size() == nx && u.size() == nu, "no repeated members");
        std::queue<int> p, q; int n = sx_choice("np", 3), m = sx_choice("nq", 3); for (int i = 0; i < n; ++i) p.push(i); for (int i = 0; i < m; ++i) q.push(10 + i);
        lstk::queue_extend(p, q); sx_assert(q.empty() && p.size() == size_t(n + m), "the whole queue is appended");
        for (int i = 0; i < n + m; ++i) sx_assert(lstk::queue_pop(p) == (i < n ? i : 10 + i - n), "queues keep their order");
        sx_reach("sets");
    }
}
