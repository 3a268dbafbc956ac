// Initial values travel by state index into the filter (position application).
#include "rig.h"
using namespace rig;
typedef msf_core::MSF_InitMeasurement<State> Init;
template <class T> static void gen(pbt::Ctx& c, T& v) { for (int i = 0; i < v.size(); ++i) v(i) = c.sym(30); }
static void gen(pbt::Ctx& c, Q& q) { q = Q(c.sym(1) + 1e-3, c.sym(1), c.sym(1), c.sym(1)); q.normalize(); }
static bool same(const Q& a, const Q& b) { return a.coeffs() == b.coeffs(); }
template <class T> static bool same(const T& a, const T& b) { return a == b; }
template <int I> struct One {
  static void set(pbt::Ctx& c, Init& m, State& x, bool* has) {
    typedef std::decay_t<decltype(static_cast<const State&>(x).template Get<I>())> V;
    if (c.chance(60)) {
      V v; gen(c, v);
      m.SetStateInitValue<I>(v);
      PBT_REQUIRE(same(V(m.GetStateInitValue<I>()), v), "initial value " << I << " reads back differently");
      has[I] = true;
      const_cast<V&>(static_cast<const State&>(x).template Get<I>()) = v;
      if (c.chance(20)) { m.ResetStateInitValue<I>(); has[I] = false; }
    }
  }
  static void check(pbt::Ctx& c, const State& got, const State& x, const State& blank, bool* has) {
    const State& ref = has[I] ? x : blank;
    PBT_REQUIRE(same(got.template Get<I>(), ref.template Get<I>()), "state " << I << (has[I] ? " did not take its initial value" : " took a value although none was set"));
  }
};
template <class F, size_t... I> static void each(F f, std::index_sequence<I...>) { (f(std::integral_constant<int, int(I)>()), ...); }
typedef std::make_index_sequence<State::nStateVarsAtCompileTime> All;
PBT_TARGET(initial_values, "a random subset of initial values, some withdrawn, with or without covariance and readings; non-trivial: some but not all set") {
  world().reset();
  Rig r;
  boost::shared_ptr<Init> m(new Init(c.boolean()));
  bool readings = false;
  State x, blank;
  bool has[32] = {};
  each([&](auto I) { One<decltype(I)::value>::set(c, *m, x, has); }, All());
  V3 a(c.sym(9), c.sym(9), c.sym(9)), w(c.sym(1), c.sym(1), c.sym(1));
  m->Geta_m() = a; m->Getw_m() = w;
  bool cov = c.boolean();
  PMat P = PMat::Identity() * (1 + c.unit());
  P(0, NE - 1) = P(NE - 1, 0) = 0.5 * c.unit();
  if (cov) m->GetStateCovariance() = P;
  m->time = 1000 + c.unit();
  r.core().Init(m);
  (void)readings;
  PBT_REQUIRE(r.m->initial.size() == 1, "initialisation published " << r.m->initial.size() << " states");
  const State& g = *r.m->initial[0];
  each([&](auto I) { One<decltype(I)::value>::check(c, g, x, blank, has); }, All());
  PBT_REQUIRE(g.time == m->time, "initial state at " << g.time);
  if (cov) PBT_REQUIRE(g.P == P, "initial covariance was not taken over");
  else PBT_REQUIRE(!g.P.isZero(0) && g.P.diagonal().minCoeff() >= 0 && g.P == PMat(g.P.transpose()), "no valid default covariance");
  bool z = g.a_m.isZero(0) && g.w_m.isZero(0), t = g.a_m == a && g.w_m == w;
  PBT_REQUIRE(z || t, "initial readings " << g.a_m.transpose() << " are neither zero nor those given");
  int n = 0; for (bool b : has) n += b;
  c.nontrivial(n > 0 && n < State::nStateVarsAtCompileTime);
}
