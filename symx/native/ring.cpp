// Exact arithmetic on sparse Laurent polynomials over Q, optionally truncated
// in a weight (power series).  Reads a straight-line program from stdin.
//   v NVARS
//   t K w_1 .. w_n           (monomials of weight >= K are dropped)
//   l i j                    (log of variable i is variable j)
//   q P j                    (log of prime P is variable j)
//   c ID num/den
//   p ID n  (num/den e_1 .. e_n)*n
//   + - * / ID A B ; n ID A ; L ID A (log) ; S ID A (sqrt)
//   e ID A NUM DEN           (A^(NUM/DEN), A monomial or monomial*(1+eps))
//   d ID                     (free)
//   o ID                     (print)
// errors:  "ERR ID text"
#include <gmpxx.h>
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
using namespace std;
static const int MAXV = 48;
static const int W = MAXV / 8;
static const uint64_t BIAS = 0x4040404040404040ull;
struct Key {
   uint64_t a[W];
   bool operator==(const Key& o) const { return memcmp(a, o.a, sizeof a) == 0; }
   bool operator<(const Key& o) const { return memcmp(a, o.a, sizeof a) < 0; }
};
struct KH { size_t operator()(const Key& k) const { uint64_t h = 1469598103934665603ull; for (int i = 0; i < W; i++) { h ^= k.a[i]; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; } return h; } };
static int NV = 0, TK = 0;
static bool trunc_ = false;
static int wt[MAXV];
static map<int, int> logvar, primelog;
static int expo(const Key& k, int i) { return (int)((k.a[i / 8] >> (8 * (i % 8))) & 0xff) - 64; }
static Key one() { Key k; for (int i = 0; i < W; i++) k.a[i] = BIAS; return k; }
static void setexp(Key& k, int i, int e) {
   if (e < -63 || e > 190) throw string("exponent overflow");
   k.a[i / 8] = (k.a[i / 8] & ~(0xffull << (8 * (i % 8)))) | ((uint64_t)(e + 64) << (8 * (i % 8)));
}
static int weight(const Key& k) { if (!trunc_) return 0; int s = 0; for (int i = 0; i < NV; i++) if (wt[i]) s += wt[i] * expo(k, i); return s; }
static Key kmul(const Key& x, const Key& y) {
   Key r; for (int i = 0; i < W; i++) r.a[i] = x.a[i] + y.a[i] - BIAS;
   return r;
}
static void chk(const Key& k) { for (int i = 0; i < NV; i++) { int e = expo(k, i); if (e < -60 || e > 60) throw string("exponent overflow"); } }
static Key kinv(const Key& x) { Key r; for (int i = 0; i < W; i++) r.a[i] = 2 * BIAS - x.a[i]; return r; }
typedef vector<pair<Key, mpq_class>> P;     // sorted by key
static size_t maxterms = 0, LIMIT = 4000000;
static void finish(P& p) {
   sort(p.begin(), p.end(), [](const pair<Key, mpq_class>& a, const pair<Key, mpq_class>& b) { return a.first < b.first; });
   maxterms = max(maxterms, p.size());
   if (p.size() > LIMIT) throw string("too many terms");
}
static P add(const P& a, const P& b, int s) {
   P r; r.reserve(a.size() + b.size());
   size_t i = 0, j = 0;
   while (i < a.size() || j < b.size()) {
      if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
      else if (i == a.size() || b[j].first < a[i].first) { r.push_back(b[j++]); if (s < 0) r.back().second = -r.back().second; }
      else { mpq_class c = s > 0 ? mpq_class(a[i].second + b[j].second) : mpq_class(a[i].second - b[j].second); if (c != 0) r.push_back({a[i].first, c}); i++; j++; }
   }
   maxterms = max(maxterms, r.size());
   return r;
}
static P mul(const P& a, const P& b) {
   P r;
   if (a.empty() || b.empty()) return r;
   if (a.size() == 1 || b.size() == 1) {
      const P& s = a.size() == 1 ? a : b; const P& l = a.size() == 1 ? b : a;
      int w0 = weight(s[0].first);
      for (auto& t : l) { if (trunc_ && w0 + weight(t.first) >= TK) continue; Key k = kmul(s[0].first, t.first); chk(k); r.push_back({k, mpq_class(s[0].second * t.second)}); }
      sort(r.begin(), r.end(), [](const pair<Key, mpq_class>& x, const pair<Key, mpq_class>& y) { return x.first < y.first; });
      return r;
   }
   unordered_map<Key, mpq_class, KH> m;
   m.reserve(a.size() * 2 + b.size() * 2);
   vector<int> wa, wb;
   if (trunc_) { for (auto& t : a) wa.push_back(weight(t.first)); for (auto& t : b) wb.push_back(weight(t.first)); }
   mpq_class tmp;
   for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) {
      if (trunc_ && wa[i] + wb[j] >= TK) continue;
      Key k = kmul(a[i].first, b[j].first);
      mpq_mul(tmp.get_mpq_t(), a[i].second.get_mpq_t(), b[j].second.get_mpq_t());
      auto it = m.find(k);
      if (it == m.end()) { chk(k); m.emplace(k, tmp); } else it->second += tmp;
   }
   r.reserve(m.size());
   for (auto& t : m) if (t.second != 0) r.push_back(t);
   finish(r);
   return r;
}
static P konst(const mpq_class& c) { P r; if (c != 0) r.push_back({one(), c}); return r; }
static P pvar(int i) { P r; Key k = one(); setexp(k, i, 1); if (!trunc_ || weight(k) < TK) r.push_back({k, mpq_class(1)}); return r; }
// split a = m*(1+eps), weight(eps) > 0
static void lead(const P& a, pair<Key, mpq_class>& m, P& eps) {
   if (a.empty()) throw string("division by zero or log of zero");
   if (a.size() == 1) { m = a[0]; eps.clear(); return; }
   if (!trunc_) throw string("not a monomial");
   int w = 1 << 30, n = 0; size_t at = 0;
   for (size_t i = 0; i < a.size(); i++) { int x = weight(a[i].first); if (x < w) { w = x; n = 1; at = i; } else if (x == w) n++; }
   if (n != 1) throw string("leading part is not a monomial");
   m = a[at];
   P inv; inv.push_back({kinv(m.first), mpq_class(1 / m.second)});
   // note: dividing by a lead of positive weight loses that many orders
   if (w > 0) throw string("leading part vanishes at the expansion point");
   P rest = a; rest.erase(rest.begin() + at);
   eps = mul(rest, inv);
}
static P series(const P& eps, const vector<mpq_class>& c) {    // sum c_k eps^k (Horner)
   P r = konst(c.back());
   for (int k = (int)c.size() - 2; k >= 0; k--) r = add(mul(r, eps), konst(c[k]), 1);
   return r;
}
static int nord(const P& eps) { if (eps.empty()) return 0; int w = 1 << 30; for (auto& t : eps) w = min(w, weight(t.first)); return (TK + w - 1) / w; }
static P inverse(const P& a) {
   pair<Key, mpq_class> m; P eps; lead(a, m, eps);
   P r; r.push_back({kinv(m.first), mpq_class(1 / m.second)});
   if (eps.empty()) return r;
   vector<mpq_class> c; for (int k = 0; k <= nord(eps); k++) c.push_back(k % 2 ? -1 : 1);
   return mul(r, series(eps, c));
}
static P logq(mpq_class q) {
   if (q <= 0) throw string("log of a non-positive number");
   P r;
   for (int s = 1; s >= -1; s -= 2) {
      mpz_class z = s > 0 ? q.get_num() : q.get_den();
      for (unsigned long p = 2; z > 1 && p < 2000; p++) while (z % p == 0) {
         auto it = primelog.find(p); if (it == primelog.end()) throw string("log of prime without symbol");
         P t = pvar(it->second); r = add(r, t, s); z /= p; }
      if (z > 1) throw string("log of a large prime");
   }
   return r;
}
static P plog(const P& a) {
   pair<Key, mpq_class> m; P eps; lead(a, m, eps);
   P r = logq(m.second);
   for (int i = 0; i < NV; i++) { int e = expo(m.first, i); if (!e) continue;
      auto it = logvar.find(i); if (it == logvar.end()) throw string("log of variable ") + to_string(i);
      r = add(r, mul(pvar(it->second), konst(mpq_class(e))), 1); }
   if (!eps.empty()) { vector<mpq_class> c{0}; for (int k = 1; k <= nord(eps); k++) c.push_back(mpq_class(k % 2 ? 1 : -1, k)); r = add(r, series(eps, c), 1); }
   return r;
}
static P ppow(const P& a, int num, int den) {
   pair<Key, mpq_class> m; P eps; lead(a, m, eps);
   Key k = one();
   for (int i = 0; i < NV; i++) { int e = expo(m.first, i); if ((e * num) % den) throw string("root of a non-square monomial"); setexp(k, i, e * num / den); }
   mpz_class n, d; 
   mpq_class q = m.second; if (q < 0) throw string("root of a negative number");
   if (!mpz_root(n.get_mpz_t(), q.get_num().get_mpz_t(), den) || !mpz_root(d.get_mpz_t(), q.get_den().get_mpz_t(), den)) throw string("irrational root");
   mpq_class root(n, d), qq(1); for (int i = 0; i < abs(num); i++) qq *= root; if (num < 0) qq = 1 / qq;
   P r; r.push_back({k, qq});
   if (!eps.empty()) { vector<mpq_class> c{1}; mpq_class ex(num, den), b(1); ex.canonicalize(); for (int j = 1; j <= nord(eps); j++) { b = b * (ex - (j - 1)) / j; c.push_back(b); } r = mul(r, series(eps, c)); }
   return r;
}
int main() {
   ios::sync_with_stdio(false);
   unordered_map<int, P> N; unordered_map<int, string> err;
   string line; string op;
   while (getline(cin, line)) {
      istringstream s(line); s >> op;
      int id = -1;
      try {
         if (op == "v") { s >> NV; if (NV > MAXV) { puts("FATAL too many variables"); return 2; } continue; }
         if (op == "t") { s >> TK; for (int i = 0; i < NV; i++) s >> wt[i]; trunc_ = true; continue; }
         if (op == "m") { s >> LIMIT; continue; }
         if (op == "l") { int i, j; s >> i >> j; logvar[i] = j; continue; }
         if (op == "q") { int i, j; s >> i >> j; primelog[i] = j; continue; }
         s >> id;
         if (op == "d") { N.erase(id); continue; }
         if (op == "o") {
            if (err.count(id)) { cout << "ERR " << id << " " << err[id] << "\n"; continue; }
            P& p = N[id];
            cout << "OUT " << id << " " << p.size() << "\n";
            for (auto& t : p) { cout << t.second; for (int i = 0; i < NV; i++) cout << " " << expo(t.first, i); cout << "\n"; }
            continue;
         }
         if (op == "c") { string q; s >> q; mpq_class c(q); c.canonicalize(); N[id] = konst(c); continue; }
         if (op == "p") { int n; s >> n; P p; for (int k = 0; k < n; k++) { string q; s >> q; mpq_class c(q); c.canonicalize(); Key key = one(); for (int i = 0; i < NV; i++) { int e; s >> e; setexp(key, i, e); } P t; if (!trunc_ || weight(key) < TK) t.push_back({key, c}); p = add(p, t, 1); } N[id] = p; continue; }
         int a, b;
         s >> a; if (err.count(a)) throw err[a];
         if (op == "n") { P p = N.at(a); for (auto& t : p) t.second = -t.second; N[id] = p; }
         else if (op == "L") N[id] = plog(N.at(a));
         else if (op == "S") N[id] = ppow(N.at(a), 1, 2);
         else if (op == "e") { int n, d; s >> n >> d; N[id] = ppow(N.at(a), n, d); }
         else {
            s >> b; if (err.count(b)) throw err[b];
            const P &x = N.at(a), &y = N.at(b);
            if (op == "+") N[id] = add(x, y, 1);
            else if (op == "-") N[id] = add(x, y, -1);
            else if (op == "*") N[id] = mul(x, y);
            else if (op == "/") N[id] = mul(x, inverse(y));
            else throw string("bad op");
         }
      } catch (const string& e) { err[id] = e; }
      catch (const exception& e) { err[id] = string("exception ") + e.what(); }
   }
   cout << "MAX " << maxterms << "\n";
}
