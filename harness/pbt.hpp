// A small property-based testing engine.
//
// Every random decision of a test is drawn from a choice source (Src).  A case is the
// sequence of choices it drew: it is a pure function of (seed, test name, case index),
// it is replayed from the recorded sequence, and it is shrunk by simplifying the
// sequence (deleting blocks, zeroing blocks, lowering single choices); generators
// map smaller choices to simpler values.  Cases run in forked workers, so that a
// crash or a hang of the code under test is an outcome of the case.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <sstream>
#include <iostream>
#include <initializer_list>

namespace pbt {

struct Discard { std::string why; };
// key: which defect this is, as far as the check can tell (used by the known-findings file)
struct Fail { std::string key; std::string msg; };

class Src {
    std::vector<uint64_t> _rec; size_t _pos=0; bool _replay=false; uint64_t _state=0; size_t _limit=1u<<20;
    uint64_t _next() { uint64_t z=(_state+=0x9E3779B97F4A7C15ull);
        z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
  public:
    explicit Src(uint64_t seed) : _state(seed) { }
    explicit Src(std::vector<uint64_t> rec) : _rec(std::move(rec)), _replay(true) { }
    std::vector<uint64_t> const& record() const { return _rec; }
    size_t used() const { return _pos; }
    // A choice in 0..n-1; 0 is the simplest.
    uint64_t draw(uint64_t n) {
        uint64_t v;
        if (_replay) { v = _pos<_rec.size() ? _rec[_pos] : 0; if (n!=0 && v>=n) v=n-1; }
        else { v=_next(); if (n!=0) v=(uint64_t)(((unsigned __int128)v*n)>>64); if (_rec.size()>=_limit) throw Discard{"too many choices"}; _rec.push_back(v); }
        ++_pos; return v;
    }
    bool boolean() { return draw(2)!=0; }
    bool chance(unsigned num, unsigned den) { return draw(den)>=den-num; }  // true is the less simple
    // lo..hi, both included; the value nearest to zero is the simplest
    int64_t range(int64_t lo, int64_t hi) {
        uint64_t n=(uint64_t)(hi-lo)+1;
        if (lo>=0) return lo+(int64_t)draw(n);
        if (hi<=0) return hi-(int64_t)draw(n);
        uint64_t v=draw(n); // 0,1,-1,2,-2,...
        uint64_t m=2*(uint64_t)std::min(hi,-lo);
        if (v<=m) return (v%2) ? (int64_t)((v+1)/2) : -(int64_t)(v/2);
        return hi>-lo ? (int64_t)(v-(uint64_t)(-lo)) : -(int64_t)(v-(uint64_t)hi);
    }
    size_t index(size_t n) { return (size_t)draw(n); }
    template<class T> T pick(std::initializer_list<T> l) { return *(l.begin()+(ptrdiff_t)index(l.size())); }
    template<class T> T const& pick(std::vector<T> const& l) { return l[index(l.size())]; }
    // index of a weighted alternative; the first one is the simplest
    size_t weighted(std::initializer_list<unsigned> w) {
        unsigned t=0; for (auto x : w) t+=x;
        uint64_t v=draw(t); size_t i=0; for (auto x : w) { if (v<x) return i; v-=x; ++i; } return 0; }
};

class Case {
  public:
    bool verbose=false;
    bool nontrivial=false;
    std::ostringstream text;
    std::set<std::string> labels;
    void label(std::string const& s) { labels.insert(s); }
    void interesting() { nontrivial=true; }
    void interesting(bool b) { nontrivial=nontrivial||b; }
};

// Describe inputs; evaluated only when the case is written out.
#define NOTE(c,expr) do { if ((c).verbose) { (c).text << expr << "\n"; if (getenv("PBT_TRACE")) std::cerr << expr << std::endl; } } while(0)
#define PBT_FAIL(key,expr) do { std::ostringstream _os; _os << expr; throw ::pbt::Fail{key,_os.str()}; } while(0)
#define PBT_CHECK(cond,key,expr) do { if (!(cond)) { PBT_FAIL(key,expr); } } while(0)
#define PBT_DISCARD(why) throw ::pbt::Discard{why}

typedef std::function<void(Src&,Case&)> TestFunction;
struct Test { std::string name; TestFunction fn; double quick; double thorough; unsigned hang_s; };
std::vector<Test>& tests();
// quick, thorough: how many cases
struct Register {
    Register(std::string name, double quick, double thorough, TestFunction fn, unsigned hang_s=120) {
        tests().push_back({name,fn,quick,thorough,hang_s}); } };
void set_rule(std::string rule);         // what makes a case non-trivial
void add_assumption(std::string s);
void set_reset(std::function<void()>);   // put global state back before every case

int main(int argc, char** argv);

} // namespace pbt
typedef pbt::Case PCase;
typedef pbt::Src PSrc;
#endif
