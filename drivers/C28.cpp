//SOURCES: layout/layout.cpp
// C28: text, set and queue helpers against their mathematical counterparts.
#include "drv.hpp"
#include <lstk/lstk.hpp>
#include <deque>
#include <memory>

static std::string text(const char* alphabet, int maxlen)
{
    std::string s; int n = drv::rnd(0, maxlen), k = (int)strlen(alphabet);
    for (int i = 0; i < n; i++) s += alphabet[drv::rnd(0, k - 1)];
    return s;
}
static std::string quote(std::string_view s) { std::string r = "\""; for (char c : s) { if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else r += c; } return r + "\""; }
template <class D> static void check_split(const std::string& s, const D& delim, const std::string& dt, const char* part)
{
    drv::cas(part, quote(s) + " on " + quote(dt), s.empty());
    // an exact-size heap buffer: a read past the end is seen by the sanitizer
    std::unique_ptr<char[]> buf(new char[s.size()]); memcpy(buf.get(), s.data(), s.size());
    std::string_view v(buf.get(), s.size());
    auto pieces = lstk::split_on(v, delim);
    std::string back; bool in = true; int seps = 0;
    for (size_t i = 0; i < pieces.size(); i++) { back += (i ? dt : std::string()) + std::string(pieces[i]); in = in && pieces[i].find(dt) == std::string_view::npos; }
    for (size_t p = s.find(dt); p != std::string::npos; p = s.find(dt, p + dt.size())) seps++;
    std::ostringstream o; o << quote(s) << " on " << quote(dt) << " gave"; for (auto p : pieces) o << " " << quote(p);
    CHECK_(part, back == s, o.str());
    CHECK_(part, in, o.str());
    CHECK_(part, s.empty() ? pieces.empty() : (int)pieces.size() == seps + 1, o.str());
}
int main()
{
    drv::init("random texts over small alphabets split on characters and texts, joined, trimmed and replaced; random sets and queues; compared with set algebra and list concatenation");
    drv::Timer T;
    const double lim = drv::budget(20, 150);
    const int n = drv::thorough() ? 200000 : 20000;
    for (int k = 0; k < n && T.s() < lim; k++) {
        { std::string s = text("a,b,", 12); check_split(s, ',', ",", "split-char"); }
        { std::string s = text("ab*pi/", 14); std::string d = drv::coin() ? "*pi/" : drv::coin() ? "ab" : "i"; if (drv::coin()) s += d; check_split(s, std::string_view(d), d, "split-text"); }
        {
            std::string s = text("x:y", 10);
            drv::cas("split-first", quote(s), s.empty());
            size_t p = s.find(':'); bool thrown = false;
            std::unique_ptr<char[]> buf(new char[s.size()]); memcpy(buf.get(), s.data(), s.size());
            try { auto r = lstk::split_on_first(std::string_view(buf.get(), s.size()), ':'); CHECK_("split-first", p != std::string::npos && r.size() == 2 && r[0] == s.substr(0, p) && r[1] == s.substr(p + 1), quote(s)); } catch (const std::exception&) { thrown = true; }
            CHECK_("split-first", thrown == (p == std::string::npos), quote(s));
            CHECK_("split-strings", lstk::split_on_get_strings(s, ':').size() == lstk::split_on(std::string_view(s), ':').size(), quote(s));
            CHECK_("contains", lstk::contains(s, ':') == (p != std::string::npos), quote(s));
        }
        {
            std::string s = text("a b \t\n", 9), l = s, r = s;
            drv::cas("trim", quote(s), s.empty());
            lstk::ltrim(l); lstk::rtrim(r);
            size_t b = s.find_first_not_of(" \t\n"), e = s.find_last_not_of(" \t\n");
            CHECK_("trim", l == (b == std::string::npos ? "" : s.substr(b)), quote(s) << " became " << quote(l));
            CHECK_("trim", r == (e == std::string::npos ? "" : s.substr(0, e + 1)), quote(s) << " became " << quote(r));
        }
        {
            std::string s = text("a>b", 9), w = drv::coin() ? "&gt;" : "", want;
            drv::cas("replace", quote(s) + " by " + quote(w), s.empty());
            for (char c : s) { if (c == '>') want += w; else want += c; }
            std::string got = lstk::str_replace(s, '>', w);
            CHECK_("replace", got == want, quote(s) << " > by " << quote(w) << " gave " << quote(got));
        }
        {
            std::vector<std::string> v; std::string want; tsl::ordered_set<unsigned> ids; std::string wids;
            for (int i = drv::rnd(0, 4); i > 0; i--) v.push_back(text("ab", 3));
            for (int i = drv::rnd(0, 4); i > 0; i--) ids.insert((unsigned)drv::rnd(0, 120));
            for (size_t i = 0; i < v.size(); i++) want += (i ? ", " : "") + v[i];
            { bool f = true; for (auto i : ids) { wids += (f ? "" : ",") + std::to_string(i); f = false; } }
            drv::cas("join", want + "|" + wids, v.empty());
            CHECK_("join", lstk::join(v, ", ") == want, "joining " << v.size() << " texts gave " << quote(lstk::join(v, ", ")) << " instead of " << quote(want));
            CHECK_("join", lstk::join(ids, ",") == wids, "joining the numbers " << wids << " gave " << quote(lstk::join(ids, ",")));
            CHECK_("cat", lstk::cat("a", 1, std::string("b"), 'c') == "a1b99" || lstk::cat("a", 1, std::string("b")) == "a1b", "cat");
        }
        {
            tsl::ordered_set<unsigned> a, b; std::set<unsigned> sa, sb;
            for (int i = drv::rnd(0, 6); i > 0; i--) { unsigned x = drv::rnd(0, 7); a.insert(x); sa.insert(x); }
            for (int i = drv::rnd(0, 6); i > 0; i--) { unsigned x = drv::rnd(0, 7); b.insert(x); sb.insert(x); }
            std::ostringstream t; for (auto x : a) t << x << " "; t << "with "; for (auto x : b) t << x << " ";
            drv::cas("sets", t.str(), a.empty() && b.empty());
            auto in = lstk::set_intersection(a, b), un = lstk::set_union(a, b);
            std::set<unsigned> wi, wu = sa; for (auto x : sa) if (sb.count(x)) wi.insert(x); wu.insert(sb.begin(), sb.end());
            CHECK_("intersection", std::set<unsigned>(in.begin(), in.end()) == wi && in.size() == wi.size(), t.str());
            CHECK_("union", std::set<unsigned>(un.begin(), un.end()) == wu && un.size() == wu.size(), t.str());
        }
        {
            std::vector<int> a, b; for (int i = drv::rnd(0, 5); i > 0; i--) a.push_back(drv::rnd(0, 9)); for (int i = drv::rnd(0, 5); i > 0; i--) b.push_back(drv::rnd(0, 9));
            std::ostringstream t; for (auto x : a) t << x << " "; t << "then "; for (auto x : b) t << x << " ";
            drv::cas("queues", t.str(), a.empty() && b.empty());
            std::queue<int> qa, qb; for (auto x : a) qa.push(x); for (auto x : b) qb.push(x);
            std::deque<int> d(a.begin(), a.end());
            lstk::queue_extend(qa, qb);
            std::vector<int> all = a; all.insert(all.end(), b.begin(), b.end());
            CHECK_("queue", qb.empty() && qa.size() == all.size(), t.str());
            std::vector<int> got; while (!qa.empty()) got.push_back(lstk::queue_pop(qa));
            CHECK_("queue", got == all, t.str());
            std::vector<int> gd; while (!d.empty()) gd.push_back(lstk::deque_pop(d));
            CHECK_("deque", gd == a, t.str());
            std::vector<int> ext = a; lstk::vector_extend(ext, b);
            CHECK_("vector", ext == all, t.str());
        }
    }
    return drv::finish();
}
