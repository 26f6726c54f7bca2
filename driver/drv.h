// fisx conformance driver: executes operations given as JSON lines against the real library and
// writes one JSON line per operation: the operation itself plus "res" = {"ok": value} or {"err": kind}.
#ifndef DRV_H
#define DRV_H
#include <nlohmann/json.hpp>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <functional>
#include <cstdio>
#include <cstdlib>
#include <stdexcept>

typedef nlohmann::json J;
typedef std::function<J(const J &)> Op;
std::map<std::string, Op> & ops();

struct Reg { Reg(const char * n, Op f) { ops()[n] = f; } };
#define OPCAT2(a, b) a##b
#define OPCAT(a, b) OPCAT2(a, b)
#define OP(name) static J OPCAT(op_, __LINE__)(const J & a); \
    static Reg OPCAT(reg_, __LINE__)(name, OPCAT(op_, __LINE__)); \
    static J OPCAT(op_, __LINE__)(const J & a)

struct driver_error { std::string what; driver_error(const std::string & w) : what(w) {} };

// numbers travel as strings so that TLC sees exactly what the code saw
inline double D(const J & j)
{
    if (j.is_string()) return strtod(j.get_ref<const std::string &>().c_str(), NULL);
    return j.get<double>();
}
inline double D(const J & a, const char * k, double dflt) { return a.contains(k) ? D(a[k]) : dflt; }
inline int I(const J & a, const char * k) { return a.at(k).get<int>(); }
inline int I(const J & a, const char * k, int dflt) { return a.contains(k) ? a[k].get<int>() : dflt; }
inline std::string S(const J & a, const char * k) { return a.at(k).get<std::string>(); }
inline std::string S(const J & a, const char * k, const char * dflt)
{ return a.contains(k) ? a[k].get<std::string>() : std::string(dflt); }
inline std::vector<double> VD(const J & j)
{ std::vector<double> r; for (auto & x : j) r.push_back(D(x)); return r; }
inline std::vector<double> VD(const J & a, const char * k)
{ return a.contains(k) ? VD(a[k]) : std::vector<double>(); }
inline std::vector<int> VI(const J & a, const char * k)
{ std::vector<int> r; if (a.contains(k)) for (auto & x : a[k]) r.push_back(x.get<int>()); return r; }
inline std::vector<std::string> VS(const J & j)
{ std::vector<std::string> r; for (auto & x : j) r.push_back(x.get<std::string>()); return r; }
inline std::vector<std::string> VS(const J & a, const char * k)
{ return a.contains(k) ? VS(a[k]) : std::vector<std::string>(); }
inline std::map<std::string, double> MD(const J & j)
{ std::map<std::string, double> r; for (auto it = j.begin(); it != j.end(); ++it) r[it.key()] = D(it.value()); return r; }

inline J O(double x)
{
    char buf[64];
    if (x != x) return "nan";
    if (x == 0.0) return "0.0";
    snprintf(buf, sizeof buf, "%.17g", x);
    return std::string(buf);
}
inline J O(int x) { return x; }
inline J O(long x) { return x; }
inline J O(bool x) { return x ? 1 : 0; }
inline J O(const std::string & s) { return s; }
template <class T> J O(const std::vector<T> & v);
template <class A, class B> J O(const std::pair<A, B> & p);
template <class T> J O(const std::map<std::string, T> & m);
template <class T> J O(const std::map<int, T> & m);
template <class T> J O(const std::map<double, T> & m);
template <class T> J O(const std::vector<T> & v) { J r = J::array(); for (auto & x : v) r.push_back(O(x)); return r; }
template <class A, class B> J O(const std::pair<A, B> & p) { return J::array({O(p.first), O(p.second)}); }
template <class T> J O(const std::map<std::string, T> & m) { J r = J::object(); for (auto & x : m) r[x.first] = O(x.second); return r; }
template <class T> J O(const std::map<int, T> & m) { J r = J::object(); for (auto & x : m) r[std::to_string(x.first)] = O(x.second); return r; }
template <class T> J O(const std::map<double, T> & m) { J r = J::array(); for (auto & x : m) r.push_back(J::array({O(x.first), O(x.second)})); return r; }

// object registry, by type and identifier; what a thread of the operation "threads" makes is its own
template <class T> std::map<std::string, std::shared_ptr<T> > & objs() { static std::map<std::string, std::shared_ptr<T> > m; return m; }
template <class T> std::map<std::string, std::shared_ptr<T> > & mine() { static thread_local std::map<std::string, std::shared_ptr<T> > m; return m; }
inline bool & inThread() { static thread_local bool b = false; return b; }
template <class T> T & G(const J & a, const char * k = "id")
{
    std::string id = a.at(k).get<std::string>();
    if (inThread()) { auto it = mine<T>().find(id); if (it != mine<T>().end()) return *(it->second); }
    auto it = objs<T>().find(id);
    if (it == objs<T>().end()) throw driver_error("no object " + id);
    return *(it->second);
}
template <class T> void P(const J & a, T * p, const char * k = "id")
{ (inThread() ? mine<T>() : objs<T>())[a.at(k).get<std::string>()] = std::shared_ptr<T>(p); }
void resetAll();
J runOp(const J & a);   // {"ok":..} or {"err":..}
#endif
