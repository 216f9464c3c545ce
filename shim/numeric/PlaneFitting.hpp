#ifndef SHIM_PLANEFITTING
#define SHIM_PLANEFITTING
#include <Eigen/Core>
#include <Eigen/Dense>
namespace numeric {
template<class T> class PlaneFitting {
public:
    typedef T Scalar; typedef Eigen::Matrix<T,3,1> Vector3; typedef Eigen::Matrix<T,3,3> Matrix3;
    struct Result {
        Matrix3 cov; Eigen::Matrix<T,3,1,Eigen::DontAlign> coeffs; T residuals;
        const Eigen::Matrix<T,3,1,Eigen::DontAlign>& getCoeffs() const { return coeffs; }
        T getResiduals() const { return residuals; }
        Matrix3 getCovariance() const { return cov; }
    };
    T x, y, z, xx, yy, xy, xz, yz, zz, n;
    PlaneFitting() { clear(); }
    explicit PlaneFitting(const Vector3& p, T weight = 1) { clear(); update(p, weight); }
    void clear() { x = y = z = xx = yy = xy = xz = yz = zz = n = 0; }
    void update(const Vector3& p, T w = 1) {
        x += p.x() * w; y += p.y() * w; z += p.z() * w; xx += p.x() * p.x() * w; yy += p.y() * p.y() * w; xy += p.x() * p.y() * w;
        xz += p.x() * p.z() * w; yz += p.y() * p.z() * w; zz += p.z() * p.z() * w; n += w; }
    void update(const PlaneFitting& o) { x += o.x; y += o.y; z += o.z; xx += o.xx; yy += o.yy; xy += o.xy; xz += o.xz; yz += o.yz; zz += o.zz; n += o.n; }
    void scale(T f) { x *= f; y *= f; z *= f; xx *= f; yy *= f; xy *= f; xz *= f; yz *= f; zz *= f; n *= f; }
    Result solve() const {
        Matrix3 A; A << xx, xy, x, xy, yy, y, x, y, n;
        Vector3 b(xz, yz, z);
        Result r; r.coeffs = A.ldlt().solve(b); r.cov = A.inverse();
        r.residuals = zz - 2 * Vector3(r.coeffs).dot(b) + Vector3(r.coeffs).dot(A * Vector3(r.coeffs));
        return r; }
    Vector3 getCoeffs() const { return solve().getCoeffs(); }
};
}
#endif
