// Program of the differential runs: interprets a generated script over the standard library and prints what it computes.
#include <algorithm>
#include <deque>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <future>
#include <unordered_map>
#include <valarray>
#include <regex>
#include <vector>
#include <cstring>
#include <malloc.h>
struct alignas(64) Wide { unsigned char b[192]; Wide() { memset(b, 7, sizeof b); } };
struct alignas(8192) Huge { int v[3]; };
struct Node { std::unique_ptr<Node> l, r; int k; explicit Node(int k) : k(k) {} virtual ~Node() {} };
struct Big : Node { char pad[5000]; explicit Big(int k) : Node(k) { memset(pad, k, sizeof pad); } };
static void ins(std::unique_ptr<Node> &n, int k) { if (!n) { if (k % 5) n = std::make_unique<Node>(k); else n = std::make_unique<Big>(k); return; } ins(k < n->k ? n->l : n->r, k); }
static long sum(const std::unique_ptr<Node> &n, int d) { return n ? n->k * (d % 7 + 1) + sum(n->l, d + 1) + sum(n->r, d + 1) : 0; }
int main() {
    std::map<int, std::string> m; std::unordered_map<std::string, std::vector<int>> u; std::deque<long> d; std::list<std::string> l; std::vector<std::shared_ptr<std::vector<int>>> sh; std::unique_ptr<Node> root; std::vector<Wide> w; std::set<std::string> s;
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line); std::string op; long a = 0, b = 0; in >> op >> a >> b; 
        try {
        if (op == "map") { for (long i = 0; i < a; i++) m[(i * b) % 997] += std::string(i % 50, 'a' + i % 26); long t = 0; for (auto &x : m) t += x.first * x.second.size(); std::cout << t << "\n"; }
        else if (op == "unmap") { for (auto it = m.begin(); it != m.end();) it = it->first % (b + 2) == 0 ? m.erase(it) : std::next(it); std::cout << m.size() << "\n"; }
        else if (op == "umap") { for (long i = 0; i < a; i++) { auto &v = u["k" + std::to_string((i * b) % 251)]; v.insert(v.begin(), i); } long t = 0; for (auto &x : u) t += std::accumulate(x.second.begin(), x.second.end(), 0l) % 1009 * x.second.size(); std::cout << t << "\n"; }
        else if (op == "rehash") { u.rehash(a); if (b % 3 == 0) u.clear(); std::cout << u.size() << "\n"; }
        else if (op == "deque") { for (long i = 0; i < a; i++) { if (i % 3) d.push_back(i * b); else d.push_front(i); if (i % 4 == 3) d.pop_front(); } std::cout << d.size() << " " << (d.empty() ? 0 : d[d.size() / 2]) << "\n"; }
        else if (op == "list") { for (long i = 0; i < a; i++) l.push_back(std::string((i * b) % 300, 'q') + std::to_string(i)); l.sort(); l.unique(); if (b % 2) l.remove_if([](const std::string &x) { return x.size() % 3 == 0; }); std::cout << l.size() << "\n"; }
        else if (op == "shared") { for (long i = 0; i < a; i++) { sh.push_back(std::make_shared<std::vector<int>>(i % 4000, i)); if (i % 3 == 0) sh.push_back(sh[sh.size() / 2]); if (i % 5 == 4) sh.erase(sh.begin() + sh.size() / 3); } long t = 0; for (auto &x : sh) t += x->size() + (x->empty() ? 0 : x->back()) + x.use_count(); std::cout << t << "\n"; if (b % 2) sh.clear(); }
        else if (op == "tree") { for (long i = 0; i < a; i++) ins(root, (i * b * 7919) % 10007); std::cout << sum(root, 0) << "\n"; if (b % 3 == 0) root.reset(); }
        else if (op == "wide") { for (long i = 0; i < a % 3000; i++) { w.emplace_back(); if (reinterpret_cast<uintptr_t>(&w.back()) % 64) { std::cout << "misaligned\n"; return 3; } } long t = 0; for (auto &x : w) t += x.b[191]; std::cout << t << "\n"; if (b % 2) { w.clear(); w.shrink_to_fit(); } }
        else if (op == "huge") { std::vector<std::unique_ptr<Huge>> h; for (long i = 0; i < a % 40; i++) { h.push_back(std::make_unique<Huge>()); if (reinterpret_cast<uintptr_t>(h.back().get()) % 8192) { std::cout << "misaligned\n"; return 3; } h.back()->v[1] = i; } long t = 0; for (auto &x : h) t += x->v[1]; std::cout << t << "\n"; }
        else if (op == "string") { std::string x; for (long i = 0; i < a; i++) { x += std::to_string(i * b); if (i % 16 == 5) x.erase(x.size() / 3, 7); if (i % 64 == 9) x.insert(x.size() / 2, std::string(i % 90, '-')); } size_t h = 5; for (char c : x) h = h * 31 + c; std::cout << x.size() << " " << h << "\n"; }
        else if (op == "vec") { std::vector<std::string> v; for (long i = 0; i < a; i++) v.push_back(std::to_string((i * b) % 7919)); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); v.resize(v.size() / 2 + 1); std::cout << v.size() << v.back() << "\n"; }
        else if (op == "large") { std::vector<long> v(a * 1000); std::iota(v.begin(), v.end(), b); v.resize(v.size() * 3 / 2); v.shrink_to_fit(); std::cout << std::accumulate(v.begin(), v.end(), 0l) << "\n"; }
        else if (op == "threads") { std::vector<std::future<long>> f; for (long i = 0; i < a % 8 + 1; i++) f.push_back(std::async(std::launch::async, [i, b] { std::map<long, std::string> q; for (long j = 0; j < 300; j++) { q[j * b % 97].append(j % 40, 'x'); if (j % 7 == 0) q.erase(j % 31); } long t = i; for (auto &x : q) t += x.first + x.second.size(); return t; })); long t = 0; for (auto &x : f) t += x.get(); std::cout << t << "\n"; }
        else if (op == "pass") { std::vector<std::unique_ptr<std::string>> v; std::thread([&] { for (long i = 0; i < a % 2000; i++) v.push_back(std::make_unique<std::string>(i % 3000, 'p')); }).join(); long t = 0; for (auto &x : v) t += x->size(); std::cout << t << "\n"; }
        else if (op == "throw") { std::vector<int> v; std::cout << v.at(a) << "\n"; }
        else if (op == "badalloc") { volatile size_t n = ~0ul - a * 4096; char *volatile p = new char[n]; std::cout << (void *)p << "\n"; }
        else if (op == "set") { for (long i = 0; i < a; i++) s.insert(std::to_string(i * b % 1000)); while (s.size() > 300) s.erase(s.begin()); std::cout << s.size() << *s.rbegin() << "\n"; }
        else if (op == "regex") { std::regex r("([a-c]+)([0-9]*)x"); std::string t; for (long i = 0; i < a % 60; i++) t += "abc" + std::to_string(i * b) + "x "; std::cout << std::regex_replace(t, r, "$2$1") << "\n"; }
        else if (op == "valarray") { std::valarray<double> v(a % 5000 + 1); v += (double)b; std::cout << v.sum() << "\n"; }
        else if (op == "stream") { std::ostringstream o; for (long i = 0; i < a; i++) o << i * b << ','; std::cout << o.str().size() << "\n"; }
        } catch (std::bad_alloc &) { std::cout << "bad_alloc\n"; } catch (std::exception &e) { std::cout << "exception\n"; }
    }
}
