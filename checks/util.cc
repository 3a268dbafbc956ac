// Numerical helpers on dynamic matrices, kept out of the template-heavy units.
#include <Eigen/Dense>
#include <cmath>
#include <limits>
namespace rig {
typedef Eigen::Ref<const Eigen::MatrixXd> M;
static void upd(double& worst, double e) { if (!(e <= worst)) worst = std::isnan(e) ? std::numeric_limits<double>::infinity() : e; }
double reldiff(const M& a, const M& b, double floor) {
  double worst = 0;
  if (a.rows() != b.rows() || a.cols() != b.cols()) return std::numeric_limits<double>::infinity();
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.cols(); ++j)
    upd(worst, std::fabs(a(i, j) - b(i, j)) / std::max(floor, std::max(std::fabs(a(i, j)), std::fabs(b(i, j)))));
  return worst;
}
double covdiff(const M& a, const M& b) {
  double worst = 0;
  for (int i = 0; i < a.rows(); ++i) for (int j = 0; j < a.rows(); ++j)
    upd(worst, std::fabs(a(i, j) - b(i, j)) / std::sqrt(std::max(1e-30, std::fabs(b(i, i))) * std::max(1e-30, std::fabs(b(j, j)))));
  return worst;
}
double mineig_scaled(const M& P) {
  Eigen::VectorXd d(P.rows());
  for (int i = 0; i < P.rows(); ++i) d[i] = P(i, i) > 0 ? 1 / std::sqrt(P(i, i)) : 0;
  Eigen::MatrixXd S = d.asDiagonal() * P * d.asDiagonal();
  S = 0.5 * (S + S.transpose()).eval();
  return Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(S, Eigen::EigenvaluesOnly).eigenvalues()[0];
}
Eigen::MatrixXd llt_product(const M& L) {
  Eigen::MatrixXd P = L * L.transpose();
  return 0.5 * (P + P.transpose());
}
// Textbook Kalman update: state correction and Joseph-form covariance, LDLT solve.
void kalman(const M& P, const M& H, const M& r, const M& R, Eigen::VectorXd* d, Eigen::MatrixXd* Pn) {
  Eigen::MatrixXd S = H * P * H.transpose() + R;
  Eigen::MatrixXd K = S.ldlt().solve(H * P).transpose();
  *d = K * r;
  Eigen::MatrixXd A = Eigen::MatrixXd::Identity(P.rows(), P.rows()) - K * H;
  Eigen::MatrixXd N = A * P * A.transpose() + K * R * K.transpose();
  *Pn = 0.5 * (N + N.transpose());
}
double mahalanobis(const M& P, const M& H, const M& r, const M& R) {
  Eigen::MatrixXd S = H * P * H.transpose() + R;
  return std::sqrt((r.transpose() * S.ldlt().solve(r))(0, 0));
}
}  // namespace rig
