// Small functions over the C++ and the library the verifier understands. tools/conform.py runs each of them for real and
// symbolically: what the verifier says a function returns must be what it returns.
#include <algorithm>
#include <array>
#include <cctype>
#include <deque>
#include <functional>
#include <iostream>
#include <iterator>
#include <utility>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <queue>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
namespace cli { namespace conf {
using std::string; using std::vector; using VS = std::vector<std::string>;
// ---- strings
inline string s_cat() { string a = "ab"; a += "cd"; a += 'e'; return a + "f" + string("g") + 'h'; }
inline string s_rep() { return string(4, 'x') + string(0, 'y') + string(1, 'z'); }
inline string s_sub1() { string a = "hello world"; return a.substr(6); }
inline string s_sub2() { string a = "hello world"; return a.substr(2, 3) + "|" + a.substr(11) + "|" + a.substr(9, 100); }
inline string s_sub3() { string a = "abc"; try { return a.substr(4); } catch (const std::out_of_range&) { return "oor"; } }
inline string s_erase1() { string a = "hello"; a.erase(1, 2); return a; }
inline string s_erase2() { string a = "hello"; a.erase(2); return a; }
inline string s_erase3() { string a = "hello"; a.erase(a.begin() + 1); return a; }
inline string s_erase4() { string a = "hello"; a.erase(a.begin() + 1, a.end() - 1); return a; }
inline string s_insert1() { string a = "held"; a.insert(2, "XY"); return a; }
inline string s_insert2() { string a = "held"; a.insert(a.begin() + 3, 'z'); return a; }
inline string s_insert3() { string a = "held"; a.insert(0, 2, 'q'); return a; }
inline string s_pop() { string a = "held"; a.pop_back(); a.push_back('!'); return a; }
inline string s_resize1() { string a = "held"; a.resize(2); return a; }
inline string s_resize2() { string a = "h"; a.resize(3, '.'); return a; }
inline string s_clear() { string a = "held"; a.clear(); return a + "."; }
inline string s_assign() { string a = "held"; a.assign("new"); string b; b = a; a = "other"; return b + a; }
inline string s_append() { string a = "x"; a.append("yz"); a.append(string("abc")); a.append(2, 'k'); return a; }
inline string s_append2() { string a = "x", b = "12345"; a.append(b, 1, 3); return a; }
inline string s_append3() { string a = "x", b = "12345"; a.append(b.begin() + 1, b.end()); return a; }
inline string s_iter() { string b = "12345"; return string(b.begin() + 1, b.end() - 1); }
inline string s_riter() { string b = "12345"; return string(b.rbegin(), b.rend()); }
inline string s_riter2() { string b = "12345"; return string(b.rbegin() + 1, b.rend()); }
inline string s_set() { string a = "abc"; a[1] = 'Z'; a.back() = '!'; a.front() = '?'; return a; }
inline string s_swap() { string a = "a", b = "bb"; a.swap(b); std::swap(a, b); std::swap(a, b); return a + "," + b; }
inline string s_move() { string a = "a"; string b = std::move(a); return b; }
inline string s_ptr() { const char* p = "abc"; return string(p) + string(p, 2) + string(p + 1, p + 3); }
inline string s_tostr() { return std::to_string(0) + std::to_string(-12) + std::to_string(305u) + std::to_string(9223372036854775807LL); }
inline int i_size() { string a = "hello"; return int(a.size() * 10 + a.length()); }
inline bool b_empty() { string a; return a.empty() && !string("x").empty(); }
inline int i_find1() { string a = "banana"; return int(a.find('n')) * 100 + int(a.find("na", 3)) * 10 + (a.find('z') == string::npos ? 1 : 0); }
inline int i_find2() { string a = "banana"; return int(a.find('b', 1) == string::npos) + 10 * int(a.find("") == 0); }
inline int i_rfind() { string a = "banana"; return int(a.rfind('n')) * 10 + int(a.rfind("ban", 0) == 0) + 2 * int(a.rfind("an", 0) == 0); }
inline int i_fno() { string a = "  \tx y "; return int(a.find_first_not_of(" \t")) * 10 + int(a.find_last_not_of(' ')); }
inline int i_fof() { string a = "key=val,x"; return int(a.find_first_of(",=")) * 100 + int(a.find_last_of(",=")) + (a.find_first_of("#") == string::npos ? 1000 : 0); }
inline int i_cmp() { string a = "abc"; return int(a.compare("abc") == 0) + 2 * int(a.compare(0, 2, "ab") == 0) + 4 * int(a.compare("abd") == 0); }
inline int i_find3(int n) { string a = "banana", b(1, char(95 + n)); return a.find(b) == 0 ? 1 : a.find(b) == string::npos ? 2 : 3; }
inline int i_find4() { string a = "banana", b = a.substr(0, 2), c = a.substr(4); return int(a.find(b) == 0) + 2 * int(a.find(c) != 0) + 4 * int(a.find(b, 2) == string::npos); }
inline int i_cmp2(int n) { string a = "abc", b = a.substr(0, n > 2 ? 2 : 1); return int(a.compare(0, b.size(), b) == 0) + 2 * int(b.compare(a) != 0); }
inline bool b_eq() { string a = "abc", b = "ab"; b += 'c'; return a == b && !(a != b) && a == "abc" && !(a == "ab") && "abc" == a; }
inline int i_at() { string a = "abc"; try { return a.at(1) + a.at(3); } catch (const std::out_of_range&) { return -1; } }
inline int i_signed() { string a = "\xff\x80\x7f"; return a[0] + a[1] * 1000 + static_cast<unsigned char>(a[0]) * 1000000; }
inline string s_trim() { string s = "  a b \n"; s.erase(s.begin(), std::find_if(s.begin(), s.end(), [](char c) { return !std::isspace(static_cast<unsigned char>(c)); })); return s; }
inline string s_rtrim() { string s = "  a b \n "; s.erase(std::find_if(s.rbegin(), s.rend(), [](char c) { return !std::isspace(static_cast<unsigned char>(c)); }).base(), s.end()); return s; }
// ---- vectors
inline VS v_push() { VS v; v.push_back("a"); v.emplace_back("b"); v.push_back(string("c")); return v; }
inline VS v_init() { VS v{"a", "b", ""}; return v; }
inline VS v_rep() { VS v(2, "q"); v.resize(3); v.resize(4, "w"); return v; }
inline VS v_erase() { VS v{"a", "b", "c", "d"}; v.erase(v.begin() + 1); v.erase(v.end() - 1); return v; }
inline VS v_erase2() { VS v{"a", "b", "c", "d"}; v.erase(v.begin(), v.begin() + 2); return v; }
inline VS v_insert() { VS v{"a", "d"}; v.insert(v.begin() + 1, "b"); v.insert(v.end(), "e"); return v; }
inline VS v_insert2() { VS v{"a", "d"}, w{"x", "y", "z"}; v.insert(v.begin() + 1, w.begin() + 1, w.end()); return v; }
inline VS v_insert3() { VS v{"a"}, w{"x", "y"}; v.insert(v.end(), w.begin(), w.end()); v.insert(v.begin(), std::make_move_iterator(w.begin()), std::make_move_iterator(w.end())); return v; }
inline VS v_rev() { VS v{"a", "b", "c"}; std::reverse(v.begin(), v.end()); return v; }
inline VS v_rev2() { VS v{"a", "b", "c"}; return VS(v.rbegin(), v.rend()); }
inline VS v_revcopy() { VS v{"a", "b", "c"}, w; std::reverse_copy(v.begin(), v.end(), std::back_inserter(w)); return w; }
inline VS v_copy() { VS v{"a", "b", "c"}, w{"0"}; std::copy(v.begin() + 1, v.end(), std::back_inserter(w)); return w; }
inline VS v_copy2() { VS v{"a", "b"}, w(3, "z"); std::copy(v.begin(), v.end(), w.begin() + 1); return w; }
inline VS v_move() { VS v{"a", "b"}, w; std::move(v.begin(), v.end(), std::back_inserter(w)); return w; }
inline VS v_pop() { VS v{"a", "b"}; v.pop_back(); return v; }
inline VS v_assign() { VS v{"a", "b"}, w; w = v; v.clear(); w.push_back("c"); return w; }
inline VS v_range() { VS v{"a", "b", "c"}; return VS(v.begin(), v.end() - 1); }
inline VS v_swap() { VS v{"a"}, w{"b", "c"}; v.swap(w); std::swap(v[0], v[1]); return v; }
inline VS v_set() { VS v{"a", "b"}; v[0] = "x"; v.back() += "y"; v.front() += "z"; v.at(1) += "w"; return v; }
inline VS v_iterset() { VS v{"a", "b"}; auto i = v.begin(); *i = "q"; ++i; *i += "r"; i->push_back('s'); return v; }
inline string v_last() { VS v{"a", "b", "c"}; return v[v.size() - 1] + v.back() + *(v.end() - 1) + *std::prev(v.end()) + *std::next(v.begin()) + *v.rbegin(); }
inline int v_dist() { VS v{"a", "b", "c"}; return int(std::distance(v.begin(), v.end())) * 10 + int(v.end() - v.begin()); }
inline int v_cmp() { VS v{"a", "b"}, w{"a"}; bool x = v == w; w.push_back("b"); return int(x) + 2 * int(v == w) + 4 * int(v != w); }
inline VS v_edge() { VS v; v.insert(v.begin(), "x"); v.erase(v.begin()); v.insert(v.begin(), "y"); return v; }
inline int v_at() { VS v; try { v.at(0); } catch (const std::out_of_range& e) { return 7; } return 1; }
// ---- algorithms
inline VS a_sort() { VS v{"b", "a", "c", "a"}; std::sort(v.begin(), v.end()); return v; }
inline VS a_unique() { VS v{"a", "a", "b", "c", "c"}; v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
inline VS a_remove() { VS v{"a", "x", "b", "x"}; v.erase(std::remove(v.begin(), v.end(), "x"), v.end()); return v; }
inline VS a_removeif() { VS v{"a", "", "b", ""}; v.erase(std::remove_if(v.begin(), v.end(), [](const string& s) { return s.empty(); }), v.end()); return v; }
inline int a_find() { VS v{"a", "b"}; return int(std::find(v.begin(), v.end(), "b") - v.begin()) + 10 * int(std::find(v.begin(), v.end(), "q") == v.end()); }
inline int a_findif() { VS v{"a", "bb", "cc"}; auto i = std::find_if(v.begin(), v.end(), [](const string& s) { return s.size() == 2; }); return int(i - v.begin()); }
inline int a_rfindif() { VS v{"a", "bb", "cc", "d"}; auto i = std::find_if(v.rbegin(), v.rend(), [](const string& s) { return s.size() == 2; }); return int(i - v.rbegin()) * 10 + int(v.rend() - i); }
inline int a_any() { VS v{"a", "bb"}; auto two = [](const string& s) { return s.size() == 2; }; return int(std::any_of(v.begin(), v.end(), two)) + 2 * int(std::all_of(v.begin(), v.end(), two)) + 4 * int(std::none_of(v.begin(), v.end(), two)); }
inline int a_minmax() { return std::min(3, 5) + 10 * std::max(3, 5) + 100 * std::min<int>(7, 2); }
inline int a_minelem() { VS v{"ccc", "a", "bb"}; auto i = std::min_element(v.begin(), v.end(), [](const string& a, const string& b) { return a.size() < b.size(); }); return int(i - v.begin()); }
inline int a_equal() { string a = "abc", b = "abd"; return int(std::equal(a.begin(), a.begin() + 2, b.begin())) + 2 * int(std::equal(a.begin(), a.end(), b.begin())); }
inline string a_exch() { string a = "a"; string b = std::exchange(a, "c"); return a + b; }
inline string a_foreach() { string a = "abc", r; r += a; std::for_each(r.begin(), r.begin(), [](char) {}); return r; }
inline string a_mismatch() { string a = "abcd", b = "abxd"; auto p = std::mismatch(a.begin(), a.end(), b.begin()); return string(a.begin(), p.first) + "/" + string(p.second, b.end()); }
inline int a_count() { string a = "banana"; return int(std::count(a.begin(), a.end(), 'a')); }
inline int a_ctype() { return int(std::isspace(' ') != 0) + 2 * int(std::isspace('x') != 0) + 4 * int(std::isdigit('7') != 0) + 8 * int(std::isdigit('a') != 0) + 16 * int(std::isprint('\n') != 0) + 32 * int(std::isspace('\v') != 0) + 64 * int(std::isalpha('Q') != 0) + 128 * int(std::isalnum('_') != 0); }
// ---- integers
inline int n_div() { return -7 / 2 * 100 + -7 % 2 * 10 + 7 / -2 + 7 % -2 * 1000; }
inline int n_shift() { unsigned a = 5; return int(a << 3) + int(a >> 1) + (1 << 4); }
inline unsigned n_wrap() { unsigned a = 0; --a; return a; }
inline unsigned long n_wrap2() { std::size_t a = 3; return a - 5; }
inline unsigned char n_u8() { unsigned char c = 250; c = static_cast<unsigned char>(c + 10); return c; }
inline signed char n_s8() { return static_cast<signed char>(200); }
inline int n_bits() { return (0x5a & 0x0f) + ((0x50 | 0x0a) * 1000) + ((6 ^ 3) * 1000000) + (~0 * 7); }
inline int n_cast() { return static_cast<int>(static_cast<unsigned char>(-1)) + static_cast<int>(static_cast<char>(255)); }
inline int n_inc() { int i = 3; int a = i++; int b = ++i; int c = i--; int d = --i; return a * 1000 + b * 100 + c * 10 + d; }
inline int n_tern() { int x = 3; return (x > 2 ? x : 9) + (x > 4 ? 100 : 200); }
inline int n_logic() { int n = 0; auto t = [&n](bool b) { ++n; return b; }; bool a = t(false) && t(true); bool b = t(true) || t(false); return n * 10 + a + 2 * b; }
inline int n_comma() { int a = 1, b = (a = 5, a + 1); return a * 10 + b; }
inline int n_compound() { int a = 10; a += 5; a -= 3; a *= 2; a /= 5; a %= 3; a |= 8; a &= 9; a ^= 3; a <<= 2; a >>= 1; return a; }
inline bool n_cmp() { unsigned u = 1; int i = -1; return static_cast<unsigned>(i) > u && i < 0; }
inline int n_bool() { bool b = 5; return b + true + !b; }
inline int n_enum() { enum class E { a, b = 7, c }; E e = E::c; return static_cast<int>(e) + (e == E::b ? 100 : 0); }
inline int n_switch(int k) { switch (k) { case 1: return 10; case 2: case 3: k += 5; break; case 4: k = 100; /* falls through */ case 5: k += 1; break; default: k = -1; } return k; }
inline int n_switch2(char c) { int r = 0; switch (c) { default: r = 9; case 'a': r += 1; break; case 'b': r = 2; } return r; }
inline int n_if(int k) { if (k < 0) return -k; else if (k == 0) return 42; return k * 2; }
inline int n_static(int k) { static const int t = 12; constexpr int u = 3; return t * k + u; }
// ---- control
inline int c_ret() { auto f = [](int x) -> int { if (x) return 1; return 2; }; return f(0) * 10 + f(3); }
inline int c_cap() { int a = 1, b = 2; auto f = [a, &b](int x) mutable { a += x; b += x; return a; }; int r = f(3); r = r * 10 + f(3); return r * 100 + a * 10 + b; }
inline int c_fn() { std::function<int(int)> f = [](int x) { return x + 1; }; std::function<int(int)> g; bool e = !g; g = f; return g(4) + (e ? 10 : 0) + (g ? 100 : 0); }
inline int c_badfn() { std::function<int(int)> g; try { return g(1); } catch (const std::bad_function_call&) { return 3; } }
inline int c_try() { int r = 0; try { r += 1; throw std::runtime_error("x"); } catch (const std::logic_error&) { r += 10; } catch (const std::exception& e) { r += 100; } return r; }
inline string c_what() { try { throw std::runtime_error("boom"); } catch (const std::exception& e) { return e.what(); } }
inline int c_rethrow() { int r = 0; try { try { throw 5; } catch (...) { r += 1; throw; } } catch (int i) { r += i * 10; } return r; }
inline int c_slice() { try { throw std::out_of_range("x"); } catch (const std::runtime_error&) { return 1; } catch (const std::logic_error&) { return 2; } }
struct Guard { int& n; int v; Guard(int& n, int v) : n(n), v(v) {} ~Guard() { n = n * 10 + v; } };
inline int c_dtor() { int n = 0; { Guard a(n, 1); Guard b(n, 2); n = 7; } return n; }
inline int c_dtor2() { int n = 0; try { Guard a(n, 1); Guard b(n, 2); throw 1; } catch (...) { n = n * 10 + 3; } return n; }
inline int c_dtor3(int k) { int n = 4; auto f = [&] { Guard a(n, 1); if (k) return n; n = 9; return n; }; int r = f(); return r * 1000 + n; }
inline int c_uptr() { int n = 5; { std::unique_ptr<Guard> p = std::make_unique<Guard>(n, 1); p->v = 3; auto q = std::move(p); if (p) return -1; n += 1; } return n; }
inline int c_sptr() { auto p = std::make_shared<string>("abc"); auto q = p; q->push_back('d'); p.reset(); return p ? 1 : int(q->size()); }
inline int c_ref() { int a = 1; int& r = a; r = 5; int b = r; b = 7; return a * 10 + b; }
inline int c_ptr() { int a = 1; int* p = &a; *p += 4; int* q = nullptr; return a + (q == nullptr ? 10 : 0) + (p != nullptr ? 100 : 0); }
inline int c_pair() { std::pair<string, int> p("ab", 4); auto q = std::make_pair(1, 2); p.first += "c"; return int(p.first.size()) * 100 + p.second * 10 + q.second; }
struct P { int x = 3; string s = "d"; int y; P() : y(x + 1) {} explicit P(int k) : x(k), y(k * 2) {} virtual ~P() = default; virtual int f() const { return x; } int g() const { return f() * 10; } };
struct Q : P { Q() : P(6) {} int f() const override { return y + 1; } };
inline int o_init() { P a; P b(5); return a.x * 1000 + a.y * 100 + b.x * 10 + int(b.s.size()); }
inline int o_virt() { Q q; P& p = q; return p.f() * 1000 + p.g() + p.P::f(); }
inline int o_copy() { P a(1); P b = a; b.x = 9; P c; c = b; c.x += 1; return a.x * 100 + b.x * 10 + c.x; }
inline int o_dyn() { Q q; P a; P* p = &q; P* r = &a; return (dynamic_cast<Q*>(p) ? 1 : 0) + (dynamic_cast<Q*>(r) ? 10 : 0); }
inline int o_order() { int n = 0; struct M { M(int& n, int k) { n = n * 10 + k; } }; struct W { M b; M a; W(int& n) : b(n, 1), a(n, 2) {} } w(n); return n; }
// ---- streams
inline string t_out() { std::ostringstream o; o << "a" << 'b' << string("c") << 12 << -3 << true << '\n'; return o.str(); }
inline string t_out2() { std::ostringstream o; o.put('x'); o.write("abcdef", 3); o << std::endl << std::flush; return o.str(); }
inline string t_char() { std::ostringstream o; unsigned char u = 65; signed char s = 66; short h = 67; o << u << s << h << 68u << 69L; return o.str(); }
// ---- further containers
inline string d_deque() { std::deque<string> d; d.push_back("b"); d.push_front("a"); d.push_back("c"); d.pop_front(); d.insert(d.begin() + 1, "q"); return d.front() + d.back() + d[1] + std::to_string(d.size()); }
inline string d_queue() { std::queue<string> d; d.push("b"); d.push("a"); d.pop(); return d.front() + std::to_string(d.size()); }
// ---- a character seen as a range
inline string one_a(char c) { const char d = c; return string(&d, 1); }
inline string one_b(char c) { char d = c; string s(&d, &d + 1); d = 'q'; return s + string(1, d); }
inline string one_c(char c) { char d = c; const char* p = &d; d = 'r'; return string("x") + string(p, p + 1); }
// ---- counting
inline int cnt_a(int n) { std::vector<int> v{1, 2, 1, 3}; return int(std::count(v.begin(), v.end(), n)) > 0 ? 1 : 0; }
inline int cnt_b() { std::vector<string> v{"a", "b"}; return std::count(v.begin(), v.end(), string("c")) == 0 ? 1 : 0; }
inline int cnt_c() { std::vector<string> v; return int(std::count(v.begin(), v.end(), string("c"))); }
inline int any_n(int n) { std::vector<int> v{1, 2, 3}; int seen = 0; bool r = std::any_of(v.begin(), v.end(), [&](int x) { ++seen; return x == n; }); return seen * 10 + (r ? 1 : 0); }
inline int none_n(int n) { std::vector<int> v{1, 2, 3}; int seen = 0; bool r = std::none_of(v.begin(), v.end(), [&](int x) { ++seen; return x == n; }); return seen * 10 + (r ? 1 : 0); }
inline int all_n(int n) { std::vector<int> v{1, 2, 3}; int seen = 0; bool r = std::all_of(v.begin(), v.end(), [&](int x) { ++seen; return x < n; }); return seen * 10 + (r ? 1 : 0); }
inline int find_n(int n) { std::vector<int> v{1, 2, 3}; int seen = 0; auto i = std::find_if(v.begin(), v.end(), [&](int x) { ++seen; return x == n; }); return seen * 10 + int(i - v.begin()); }
// ---- transform, and loops changing the elements of their range
inline string tr_a() { string a = "abz"; string r; std::transform(a.begin(), a.end(), std::back_inserter(r), [](char c) { return char(c + 1); }); return r; }
inline string tr_b() { std::vector<string> v{"a", "bc"}; std::vector<string> r{"z"}; std::transform(v.begin(), v.end(), std::back_inserter(r), [](const string& x) { return x + "!"; }); return r[0] + r[1] + r[2]; }
inline int tr_c() { std::vector<int> v{1, 2, 3}; std::vector<int> r(3); std::transform(v.begin(), v.end(), r.begin(), [](int x) { return x * 2; }); return r[0] * 100 + r[1] * 10 + r[2]; }
inline string tr_d() { string s = "abc"; std::transform(s.begin(), s.end(), s.begin(), [](char c) { return c == 'b' ? 'x' : c; }); return s; }
inline string rf_mv() { std::vector<string> v{"a", "bc", "d"}; std::vector<string> r; for (auto&& x : v) r.push_back(std::move(x)); return r[0] + r[1] + r[2] + std::to_string(v.size()); }
inline string rf_ch() { std::vector<string> v{"a", "bc"}; for (auto& x : v) x += "!"; return v[0] + v[1]; }
}}
