// Checks of one state definition (a generated program) against expectations
// computed by the generator (checks/c24gen.py) from the declaration alone.
#pragma once
#include "pbt.h"
#include <functional>
#include <vector>
#include <tuple>
#include <string>
#include <msf_core/msf_fwds.h>
#include <msf_core/eigen_utils.h>
#include <msf_core/msf_tools.h>
#include <msf_core/msf_tmp.h>
#include <msf_core/msf_state.h>
#include <msf_core/msf_statevisitor.h>
#include <boost/fusion/include/at_c.hpp>
#include <array>
namespace layout {
struct Var { bool quat; int sz, esz, type, mult, idx, eidx; };
struct Sum { int n, N, E, core, coreE, prop, propE; int nAux; bool anyNtd, anyNtdQuat; };
template <class St, int I> auto& var(St& s) { return boost::fusion::at_c<I>(s.statevars); }
inline Eigen::Quaterniond gq(pbt::Ctx& c) { Eigen::Quaterniond q(c.sym(1) + 1e-3, c.sym(1), c.sym(1), c.sym(1)); q.normalize(); return q; }
template <int N> void fill(pbt::Ctx& c, Eigen::Matrix<double, N, 1>& v) { for (int i = 0; i < N; ++i) v(i) = c.sym(20); }
inline void fill(pbt::Ctx& c, Eigen::Quaterniond& q) { q = gq(c); }
template <int N> std::vector<double> flat(const Eigen::Matrix<double, N, 1>& v) { return std::vector<double>(v.data(), v.data() + N); }
inline std::vector<double> flat(const Eigen::Quaterniond& q) { return {q.w(), q.x(), q.y(), q.z()}; }
template <class M> M randm(pbt::Ctx& c) { M m; for (int i = 0; i < m.rows(); ++i) for (int j = 0; j < m.cols(); ++j) m(i, j) = 1 + c.i(0, 1 << 20); return m; }
template <class St> struct Run {
  pbt::Ctx& c; const Var* e; const Sum& s; const char* name;
  static constexpr int K = boost::fusion::result_of::size<typename St::StateSequence_T>::type::value;
  typedef typename St::StateSequence_T Seq;
  template <class F, size_t... I> void each(F f, std::index_sequence<I...>) { (f(std::integral_constant<int, int(I)>()), ...); }
  template <class F> void each(F f) { each(f, std::make_index_sequence<K>()); }
  void randomise(St& st, bool withQ = true) {
    each([&](auto I) { auto& v = var<St, I>(st); fill(c, v.state_); v.hasResetValue = c.boolean(); if (withQ) v.Q = randm<std::decay_t<decltype(v.Q)>>(c); });
    st.P = randm<typename St::P_type>(c);
  }
  std::vector<std::vector<double>> snap(St& st) { std::vector<std::vector<double>> o; each([&](auto I) { o.push_back(flat(var<St, I>(st).state_)); }); return o; }
  void sizes() {
#define SAME(a, b) PBT_REQUIRE(int(a) == int(b), name << ": " #a " is " << int(a) << ", the declaration implies " << int(b))
    SAME(St::nStateVarsAtCompileTime, s.n); SAME(St::nErrorStatesAtCompileTime, s.E); SAME(St::nStatesAtCompileTime, s.N);
    SAME(St::nCoreStatesAtCompileTime, s.core); SAME(St::nCoreErrorStatesAtCompileTime, s.coreE);
    SAME(St::nPropagatedCoreStatesAtCompileTime, s.prop); SAME(St::nPropagatedCoreErrorStatesAtCompileTime, s.propE);
    SAME(msf_tmp::CheckCorrectIndexing<Seq>::indexingerrors, 0);
    each([&](auto I) {
      constexpr int i = decltype(I)::value;
      typedef std::decay_t<decltype(var<St, i>(std::declval<St&>()))> V;
      SAME(V::sizeInState_, e[i].sz); SAME(V::sizeInCorrection_, e[i].esz); SAME(V::statetype_, e[i].type); SAME(V::name_, i);
      SAME((msf_tmp::GetStartIndex<Seq, V, msf_tmp::StateLengthForType>::value), e[i].idx);
      SAME((msf_tmp::GetStartIndex<Seq, V, msf_tmp::CorrectionStateLengthForType>::value), e[i].eidx);
      SAME((msf_tmp::GetStateIndexInState<Seq, i>::value), e[i].idx);
      SAME((msf_tmp::GetStateIndexInErrorState<Seq, i>::value), e[i].eidx);
      SAME((msf_tmp::GetStartIndexInCorrection<Seq, i>::value), e[i].eidx);
    });
    int best = msf_tmp::IndexOfBestNonTemporalDriftingState<Seq>::value;
    PBT_REQUIRE((best == -1) == !s.anyNtd, name << ": drift-free state index " << best << " although one " << (s.anyNtd ? "exists" : "does not exist"));
    if (best != -1) {
      PBT_REQUIRE(best >= 0 && best < s.n && e[best].type == msf_core::AuxiliaryNonTemporalDrifting, name << ": state " << best << " is not drift free");
      if (s.anyNtdQuat) PBT_REQUIRE(e[best].quat, name << ": an attitude is drift free but state " << best << " was preferred");
    }
  }
  void correct() {
    St st; randomise(st);
    auto b = snap(st);
    Eigen::Matrix<double, St::nErrorStatesAtCompileTime, 1> d;
    for (int i = 0; i < d.size(); ++i) d(i) = c.sym(c.chance(15) ? 5.0 : 0.3);
    auto P = st.P;
    st.Correct(d);
    auto a = snap(st);
    PBT_REQUIRE(st.P == P, name << ": correction changed the covariance");
    for (int i = 0; i < s.n; ++i) {
      if (!e[i].quat) {
        for (int k = 0; k < e[i].sz; ++k) {
          double x = e[i].mult ? b[i][k] * d(e[i].eidx + k) : b[i][k] + d(e[i].eidx + k);
          PBT_REQUIRE(std::fabs(a[i][k] - x) <= 1e-12 * (1 + std::fabs(x)), name << ": state " << i << "[" << k << "] corrected to " << a[i][k] << ", expected " << x);
        }
      } else {
        Eigen::Vector3d t = d.template segment<3>(e[i].eidx);
        Eigen::Quaterniond q0(b[i][0], b[i][1], b[i][2], b[i][3]), q1(a[i][0], a[i][1], a[i][2], a[i][3]);
        PBT_REQUIRE(std::fabs(q1.norm() - 1) < 1e-12, name << ": attitude " << i << " not a unit quaternion after the correction");
        Eigen::Quaterniond dq = q0.conjugate() * q1;
        if (dq.w() < 0) dq.coeffs() *= -1;
        double th = t.norm(), ang = 2 * std::atan2(dq.vec().norm(), dq.w());
        // small-angle construction: exact to third order, same axis for every size
        if (th > 1e-12) {
          PBT_REQUIRE((dq.vec().normalized() - t / th).norm() < 1e-6, name << ": attitude " << i << " turned about another axis");
          if (th < 0.5) PBT_REQUIRE(std::fabs(ang - th) <= 0.12 * th * th * th + 1e-12, name << ": attitude " << i << " turned by " << ang << " instead of " << th);
        }
      }
    }
  }
  void copies() {
    St st; randomise(st);
    St keep = st;
    auto b = snap(st);
    // reset
    struct Visit : msf_core::StateVisitor<St> { mutable int n = 0; void ResetState(St&) const override { ++n; } } visit;
    St r = st;
    r.Reset(&visit);
    auto z = snap(r);
    for (int i = 0; i < s.n; ++i)
      for (int k = 0; k < e[i].sz; ++k) PBT_REQUIRE(z[i][k] == (e[i].quat && k == 0 ? 1.0 : 0.0), name << ": state " << i << "[" << k << "] is " << z[i][k] << " after reset");
    PBT_REQUIRE(r.P.isZero(0) && visit.n == 1 && r.w_m.isZero(0) && r.a_m.isZero(0) && r.time == 0, name << ": reset left something behind");
    // states without propagation
    St t; randomise(t);
    auto tb = snap(t);
    boost::fusion::for_each(t.statevars, msf_tmp::CopyNonPropagationStates<St>(st));
    auto ta = snap(t);
    for (int i = 0; i < s.n; ++i) PBT_REQUIRE(ta[i] == (e[i].type == msf_core::CoreStateWithPropagation ? tb[i] : b[i]), name << ": copying states without propagation treated state " << i << " wrongly");
    each([&](auto I) { if (e[I].type != msf_core::CoreStateWithPropagation) PBT_REQUIRE((var<St, I>(t).Q == var<St, I>(st).Q), name << ": Q block of state " << I << " not copied"); });
    // initial values
    St u; randomise(u);
    auto ub = snap(u);
    boost::fusion::for_each(u.statevars, msf_tmp::CopyInitStates<St>(st));
    auto ua = snap(u);
    each([&](auto I) { PBT_REQUIRE(ua[I] == (var<St, I>(st).hasResetValue ? b[I] : ub[I]), name << ": initial value of state " << I << (var<St, I>(st).hasResetValue ? " not copied" : " copied although none is set")); });
    // Q blocks
    typename St::Q_type Q = randm<typename St::Q_type>(c), X = Q;
    boost::fusion::for_each(st.statevars, msf_tmp::CopyQBlocksFromAuxiliaryStatesToQ<Seq>(Q));
    each([&](auto I) { if (e[I].type >= msf_core::Auxiliary) X.block(e[I].eidx, e[I].eidx, e[I].esz, e[I].esz) = var<St, I>(st).Q; });
    PBT_REQUIRE(Q == X, name << ": Q blocks copied to the wrong place");
    const St& cst = st;
    each([&](auto I) {
      constexpr int i = decltype(I)::value;
      PBT_REQUIRE((&cst.template GetQBlock<i>() == &boost::fusion::at_c<i>(cst.statevars).Q), name << ": GetQBlock<" << i << "> is another block");
      PBT_REQUIRE((&cst.template Get<i>() == &boost::fusion::at_c<i>(cst.statevars).state_), name << ": Get<" << i << "> is another state");
      PBT_REQUIRE((&cst.template GetStateVariable<i>() == &boost::fusion::at_c<i>(cst.statevars)), name << ": GetStateVariable<" << i << "> is another state");
      // clear cross covariance
      St w = keep;
      w.template ClearCrossCov<i>();
      for (int a = 0; a < s.E; ++a)
        for (int d = 0; d < s.E; ++d) {
          bool ia = a >= e[i].eidx && a < e[i].eidx + e[i].esz, id = d >= e[i].eidx && d < e[i].eidx + e[i].esz;
          PBT_REQUIRE(w.P(a, d) == (ia != id ? 0.0 : keep.P(a, d)), name << ": clearing the cross covariance of state " << i << " left P(" << a << "," << d << ")=" << w.P(a, d));
        }
    });
    each([&](auto I) {  // Set
      constexpr int i = decltype(I)::value;
      St w = keep;
      auto nv = std::decay_t<decltype(boost::fusion::at_c<i>(cst.statevars).state_)>(boost::fusion::at_c<i>(t.statevars).state_);
      fill(c, nv);
      w.template Set<i>(nv);
      auto sw = snap(w);
      for (int k = 0; k < s.n; ++k) PBT_REQUIRE(sw[k] == (k == i ? flat(nv) : b[k]), name << ": setting state " << i << " changed state " << k);
    });
  }
  void messages() {
    St st; randomise(st);
    auto b = snap(st);
    sensor_fusion_comm::DoubleArrayStamped m;
    st.ToFullStateMsg(m);
    PBT_REQUIRE(int(m.data.size()) == s.N, name << ": full state message has " << m.data.size() << " entries");
    for (int i = 0; i < s.n; ++i)
      for (int k = 0; k < e[i].sz; ++k) PBT_REQUIRE(m.data[e[i].idx + k] == b[i][k], name << ": full state message entry " << e[i].idx + k << " is not state " << i << "[" << k << "]");
    sensor_fusion_comm::DoubleArrayStamped m2;
    st.ToCoreStateMsg(m2);
    PBT_REQUIRE(int(m2.data.size()) == s.core, name << ": core state message has " << m2.data.size() << " entries");
    auto ev = st.ToEigenVector();
    PBT_REQUIRE(ev.size() == s.core, name << ": core vector has " << ev.size() << " entries");
    for (int i = 0; i < s.n; ++i)
      if (e[i].type < msf_core::Auxiliary)
        for (int k = 0; k < e[i].sz; ++k) PBT_REQUIRE(m2.data[e[i].idx + k] == b[i][k] && ev(e[i].idx + k) == b[i][k], name << ": core state entry " << e[i].idx + k << " is not state " << i << "[" << k << "]");
    std::vector<std::tuple<int, int, int>> idx;
    st.CalculateIndicesInErrorState(idx);
    PBT_REQUIRE(int(idx.size()) == s.n, name << ": index list has " << idx.size() << " entries");
    for (int i = 0; i < s.n; ++i) PBT_REQUIRE(idx[i] == std::make_tuple(i, e[i].eidx, e[i].esz), name << ": index list entry " << i << " is (" << std::get<0>(idx[i]) << "," << std::get<1>(idx[i]) << "," << std::get<2>(idx[i]) << ")");
    sensor_fusion_comm::DoubleMatrixStamped cc, ca, cx;
    st.GetCoreCovariance(cc); st.GetAuxCovariance(ca); st.GetCoreAuxCovariance(cx);
    int a = s.coreE, x = s.E - s.coreE;
    auto blk = [&](const sensor_fusion_comm::DoubleMatrixStamped& m, int r0, int nr, int c0, int nc, const char* w) {
      PBT_REQUIRE(int(m.rows) == nr && int(m.cols) == nc && int(m.data.size()) == nr * nc, name << ": " << w << " covariance is " << m.rows << "x" << m.cols << " with " << m.data.size() << " entries, expected " << nr << "x" << nc);
      for (int i = 0; i < nr; ++i) for (int k = 0; k < nc; ++k) PBT_REQUIRE(m.data[i * nc + k] == st.P(r0 + i, c0 + k), name << ": " << w << " covariance entry (" << i << "," << k << ")");
    };
    blk(cc, 0, a, 0, a, "core"); blk(ca, a, x, a, x, "auxiliary"); blk(cx, 0, a, a, x, "core-auxiliary");
    // numeric check covers the core states
    PBT_REQUIRE(st.CheckStateForNumeric(), name << ": finite state reported as not numeric");
    int v = c.i(0, s.n - 1), k = c.i(0, e[v].sz - 1);
    double bad = c.oneof({std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()});
    bool core = e[v].type < msf_core::Auxiliary;
    each([&](auto I) { if (int(I) == v) poison(var<St, I>(st).state_, k, bad); });
    PBT_REQUIRE(st.CheckStateForNumeric() == !core, name << ": state " << v << "[" << k << "]=" << bad << (core ? " of the core not noticed" : " of an auxiliary state counted as core"));
  }
  template <int N> static void poison(Eigen::Matrix<double, N, 1>& v, int k, double x) { v(k) = x; }
  static void poison(Eigen::Quaterniond& q, int k, double x) { q.coeffs()((k + 3) % 4) = x; }
  void all() { sizes(); correct(); copies(); messages(); c.evals(s.n); }
};
}  // namespace layout
