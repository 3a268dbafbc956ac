// The time-sorted buffer against a reference sorted map.
#include "pbt.h"
#define ROS_PACKAGE_NAME "msf"
#include <msf_core/msf_types.h>
#include <msf_core/msf_macros.h>
#include <msf_core/msf_tools.h>
#include <sstream>
#include <iomanip>
#include <map>
#include <msf_core/msf_sortedContainer.h>
namespace {
struct Item { double time; int id; Item() : time(-7), id(-1) {} virtual ~Item() {} };
struct InvalidItem : Item {};
typedef boost::shared_ptr<Item> Ptr;
typedef std::map<double, Ptr> Model;

template <class C> struct Sut {
  C box;
  Model m;
  pbt::Ctx& c;
  int next = 0;
  bool dup = false, lookups_between = false, trimmed = false, moved = false, edge = false;
  Sut(pbt::Ctx& c) : c(c) {}
  bool invalid(const Ptr& p) { return p == box.GetInvalid() && p && p->time == msf_core::constants::INVALID_TIME; }
  std::string show(const Ptr& p) { std::ostringstream o; if (!p) o << "null"; else o << "#" << p->id << "@" << std::setprecision(17) << p->time; return o.str(); }
  typename C::iterator_T end() { return box.GetIteratorEnd(); }
  const char* op = "";
  double arg = 0;
  void want(bool ok, const std::string& what, const Ptr& got) { PBT_REQUIRE(ok, op << "(" << arg << "): expected " << what << ", got " << show(got) << " with " << m.size() << " elements"); c.evals(1); }
  void wantIt(typename C::iterator_T it, Model::iterator exp, const char* what) {
    if (exp == m.end()) { PBT_REQUIRE(it == end(), op << "(" << arg << ") [" << what << "]: expected the end, got " << show(it->second)); }
    else { PBT_REQUIRE(it != end(), op << "(" << arg << ") [" << what << "]: got the end, expected " << show(exp->second)); PBT_REQUIRE(it->second == exp->second, op << "(" << arg << ") [" << what << "]: expected " << show(exp->second) << ", got " << show(it->second)); }
    c.evals(1);
  }
  void whole() {
    op = "contents"; arg = 0;
    PBT_REQUIRE(box.Size() == m.size(), "size " << box.Size() << ", expected " << m.size());
    auto it = box.GetIteratorBegin();
    for (auto& e : m) {
      PBT_REQUIRE(it != end(), "iteration ends early");
      PBT_REQUIRE(it->second == e.second, "iteration order: got " << show(it->second) << ", expected " << show(e.second));
      PBT_REQUIRE(it->second->time == e.first, "element time " << it->second->time << " is not its key " << e.first);
      ++it;
    }
    PBT_REQUIRE(it == end(), "iteration has extra elements");
    if (m.empty()) { want(invalid(box.GetFirst()), "invalid first", box.GetFirst()); want(invalid(box.GetLast()), "invalid last", box.GetLast()); }
    else { want(box.GetFirst() == m.begin()->second, "first " + show(m.begin()->second), box.GetFirst()); want(box.GetLast() == m.rbegin()->second, "last " + show(m.rbegin()->second), box.GetLast()); }
    PBT_REQUIRE(box.GetInvalid() && box.GetInvalid()->time == msf_core::constants::INVALID_TIME, "the invalid element became valid");
    std::istringstream echo(box.EchoBufferContentTimes());
    double prev = -1, t; size_t n = 0;
    while (echo >> t) { PBT_REQUIRE(t >= prev, "printed times not sorted"); prev = t; ++n; }
    PBT_REQUIRE(n == m.size(), "printed " << n << " times for " << m.size() << " elements");
  }
  bool closest_ok(double t, const Ptr& p) {
    if (!p || m.find(p->time) == m.end() || m[p->time] != p) return false;
    double best = 1e300;
    for (auto& e : m) best = std::min(best, std::fabs(e.first - t));
    return std::fabs(p->time - t) <= best;
  }
  void queries(double t) {
    arg = t;
    auto lb = m.lower_bound(t), ub = m.upper_bound(t);
    bool exact = lb != m.end() && lb->first == t;
    if (exact) c.label("exact-hit");
    if (lb == m.begin() || lb == m.end()) edge = true; else lookups_between = true;
    op = "value at"; Ptr v = box.GetValueAt(t);
    want(exact ? v == lb->second : invalid(v), exact ? show(lb->second) : "invalid", v);
    op = "iterator at"; wantIt(box.GetIteratorAtValue(t, false), lb, "exact or next");
    Ptr probe(new Item); probe->time = t;
    wantIt(box.GetIteratorAtValue(probe, c.boolean()), lb, "exact or next, by value");
    op = "closest before"; v = box.GetClosestBefore(t);
    if (lb != m.begin()) { auto p = lb; --p; want(v == p->second, show(p->second), v); wantIt(box.GetIteratorClosestBefore(t), p, "iterator"); }
    else {
      want(m.empty() ? invalid(v) : (invalid(v) || v == m.begin()->second), "nothing before: invalid or the first", v);
      PBT_REQUIRE(box.GetIteratorClosestBefore(t) == box.GetIteratorBeforeBegin(), "iterator closest before(" << t << ") with nothing before is not the before-begin iterator");
      for (auto it = box.GetIteratorBegin(); it != end(); ++it) PBT_REQUIRE(it != box.GetIteratorBeforeBegin(), "before-begin iterator designates an element");
    }
    op = "closest after"; v = box.GetClosestAfter(t);
    want(ub == m.end() ? invalid(v) : v == ub->second, ub == m.end() ? "invalid" : show(ub->second), v);
    wantIt(box.GetIteratorClosestAfter(t), ub, "iterator");
    op = "closest"; v = box.GetClosest(t);
    if (m.empty()) { want(invalid(v), "invalid", v); PBT_REQUIRE(box.GetIteratorClosest(t) == end(), "iterator closest in an empty buffer"); }
    else {
      want(closest_ok(t, v), "the element closest in time", v);
      auto it = box.GetIteratorClosest(t);
      PBT_REQUIRE(it != end(), "iterator closest: end in a non-empty buffer");
      want(closest_ok(t, it->second), "the element closest in time (iterator)", it->second);
    }
  }
  double base, step;
  double gtime() {
    if (!m.empty() && c.chance(35)) {   // near or at an existing element
      auto it = m.begin(); std::advance(it, c.u64(m.size()));
      double t = it->first;
      switch (c.i(0, 4)) { case 1: return std::nextafter(t, 1e300); case 2: return std::nextafter(t, 0.0); case 3: return t + step * 0.5; case 4: return t + step * c.real(0, 3); default: return t; }
    }
    if (c.chance(6)) return c.oneof({1e-9, 1.0, 4294967295.0, 1e12, 1e-300, 1e300});
    return base + step * c.i(0, 40);
  }
  void run() {
    base = c.oneof({0.5, 100.0, 1.6e9, 4.2e9}); step = c.oneof({1.0, 0.005, 1e-6, 70.0});
    if (base > 1e8 && step < 1e-5) step = 1e-3;
    int n = 0;
    while (c.more(n, 25, 120)) {
      double t = gtime();
      switch (c.i(0, 11)) {
        case 0: case 1: case 2: case 3: case 4: {
          Ptr p(new Item); p->time = t; p->id = next++;
          op = "insert"; arg = t;
          auto ins = m.insert(std::make_pair(t, p));
          if (!ins.second) { dup = true; c.label("duplicate"); }
          auto it = box.Insert(p);
          PBT_REQUIRE(it != end() && it->second == ins.first->second, "insert(" << t << ") returned a wrong iterator");
          c.note() << "insert " << t << "\n";
          break;
        }
        case 5: case 6: case 7: case 8: c.note() << "query " << t << "\n"; queries(t); break;
        case 9: {
          if (m.empty()) break;
          double age = c.oneof({1.0, 3.0, 10.0, 60.0}) * (c.boolean() ? step : 1.0);
          c.note() << "clear older than " << age << "\n";
          double newest = m.rbegin()->first, cut = newest - age;
          size_t before = m.size();
          box.ClearOlderThan(age);
          // what must be there: everything at or after the cut; at most one older
          std::vector<Ptr> left;
          for (auto it = box.GetIteratorBegin(); it != end(); ++it) left.push_back(it->second);
          size_t older = 0;
          Model now;
          for (auto& p : left) { PBT_REQUIRE(m.count(p->time) && m[p->time] == p, "clean-up invented an element"); now[p->time] = p; if (p->time < cut) ++older; }
          for (auto& e : m) if (e.first >= cut) PBT_REQUIRE(now.count(e.first), "clean-up removed an element of age " << newest - e.first << " with limit " << age);
          // when everything older than the limit is to go, only the element closest to the limit may stay
          PBT_REQUIRE(older <= 1, "clean-up kept " << older << " elements older than the limit");
          if (older == 1) { auto lb = m.lower_bound(cut); --lb; PBT_REQUIRE(now.count(lb->first), "clean-up kept an older element but not the newest of them"); }
          m = now;
          if (m.size() < before) trimmed = true;
          break;
        }
        case 10: {
          double t2 = gtime();
          if (!m.empty() && c.chance(70)) { auto it = m.begin(); std::advance(it, c.u64(m.size())); t = it->first; }
          c.note() << "move " << t << " to " << t2 << "\n";
          op = "update time"; arg = t;
          auto it = m.find(t);
          bool taken = m.count(t2) && t2 != t;
          if (it != m.end() && taken) { c.label("move-onto-occupied"); break; }  // unspecified: one of the two is dropped
          Ptr got = box.UpdateTime(t, t2);
          if (it == m.end()) { want(m.empty() ? invalid(got) : closest_ok(t, got), "unchanged buffer and the closest element", got); break; }
          Ptr p = it->second;
          m.erase(it); m[t2] = p;
          want(got == p && p->time == t2, "the moved element", got);
          moved = true;
          break;
        }
        case 11: if (c.chance(20)) { c.note() << "clear\n"; box.Clear(); m.clear(); } break;
      }
      whole();
    }
    queries(gtime());
    if (trimmed) c.label("trimmed"); if (moved) c.label("moved"); if (edge) c.label("edge-lookup");
    c.nontrivial(m.size() >= 3 && lookups_between && (dup || trimmed || moved));
  }
};
}  // namespace
PBT_TARGET(history, "operation sequences on the buffer with duplicate, neighbouring and extreme times; non-trivial: at least 3 elements at the end, a lookup between elements, and a duplicate insertion, a trim or a moved element") {
  if (c.boolean()) { Sut<msf_core::SortedContainer<Item> > s(c); s.run(); }
  else { Sut<msf_core::SortedContainer<Item, InvalidItem> > s(c); s.run(); }
}
