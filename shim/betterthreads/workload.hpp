// Stand-in for the betterthreads submodule (absent here): the elements of a workload
// are processed in an order that the harness owns.  VerifSchedule::pick(n) chooses
// which of the n pending elements is processed next (default: first in, first out).
#ifndef VERIF_SHIM_BT_WORKLOAD_HPP
#define VERIF_SHIM_BT_WORKLOAD_HPP
#include <deque>
#include <functional>
#include <tuple>
#include <memory>
#include "typedefs.hpp"
#include "task_manager.hpp"
#include "io/progress_indicator.hpp"

struct VerifSchedule {
    static std::function<std::size_t(std::size_t)>& pick() {
        static std::function<std::size_t(std::size_t)> f; return f; }
    static unsigned long& steps() { static unsigned long n=0; return n; }
    static unsigned long& maximum_steps() { static unsigned long n=~0ul; return n; }
    struct TooManySteps { };
    static std::size_t next(std::size_t n) {
        if (++steps() > maximum_steps()) throw TooManySteps();
        auto& p=pick(); return p ? p(n)%n : 0u; }
};

namespace BetterThreads {
using Ariadne::ProgressIndicator;

template<class E, class... AS> class StaticWorkload {
    std::deque<E> _elements; std::function<void(E const&)> _f;
  public:
    template<class F> StaticWorkload(F f, AS... as) {
        _f=[f,tp=std::tuple<AS...>(as...)](E const& e) {
            std::apply([&](auto&... a){ std::invoke(f,e,a...); }, const_cast<std::tuple<AS...>&>(tp)); }; }
    StaticWorkload& append(E const& e) { _elements.push_back(e); return *this; }
    template<class L> requires requires(L const& l) { l.begin(); l.end(); }
    StaticWorkload& append(L const& l) { for (auto const& e : l) _elements.push_back(e); return *this; }
    std::size_t size() const { return _elements.size(); }
    void process() {
        while (!_elements.empty()) {
            std::size_t i=VerifSchedule::next(_elements.size());
            E e=std::move(_elements[i]); _elements.erase(_elements.begin()+static_cast<std::ptrdiff_t>(i));
            _f(e);
        }
    }
};

template<class E, class... AS> class DynamicWorkload {
  public:
    class Access {
        friend class DynamicWorkload;
        DynamicWorkload& _w;
        Access(DynamicWorkload& w) : _w(w) { }
      public:
        void append(E const& e) { _w._elements.push_back(e); }
    };
  private:
    std::deque<E> _elements; std::function<void(Access&,E const&)> _f; Access _access;
    template<class F> void _init(F f, AS... as) {
        _f=[f,tp=std::make_shared<std::tuple<AS...>>(as...)](Access& acc, E const& e) {
            std::apply([&](auto&... a){ std::invoke(f,acc,e,a...); }, *tp); }; }
  public:
    template<class F> DynamicWorkload(F f, AS... as) : _access(*this) { _init(f,as...); }
    template<class P, class F> DynamicWorkload(P, F f, AS... as) : _access(*this) { _init(f,as...); }
    DynamicWorkload& append(E const& e) { _elements.push_back(e); return *this; }
    template<class L> requires requires(L const& l) { l.begin(); l.end(); }
    DynamicWorkload& append(L const& l) { for (auto const& e : l) _elements.push_back(e); return *this; }
    std::size_t size() const { return _elements.size(); }
    void process() {
        while (!_elements.empty()) {
            std::size_t i=VerifSchedule::next(_elements.size());
            E e=std::move(_elements[i]); _elements.erase(_elements.begin()+static_cast<std::ptrdiff_t>(i));
            _f(_access,e);
        }
    }
};
}
#endif
