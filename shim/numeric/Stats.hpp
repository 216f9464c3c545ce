#ifndef SHIM_STATS
#define SHIM_STATS
#include <Eigen/Core>
namespace numeric {
// weighted mean and covariance
template<class V> class Stats {
public:
    typedef typename V::Scalar S; enum { D = V::RowsAtCompileTime };
    typedef Eigen::Matrix<S, D, D, Eigen::DontAlign> M;
    Stats() : n_(0) {}
    void update(const V& x, S w = 1) { if (n_ == 0) { mean_ = V::Zero(); m2_ = M::Zero(); } S nn = n_ + w; V d = x - mean_; mean_ += d * (w / nn); m2_ += (d * (x - mean_).transpose()) * w; n_ = nn; }
    V mean() const { return mean_; }
    M var() const { return m2_ / n_; }
    S sumWeights() const { return n_; }
private: S n_; V mean_; M m2_;
};
}
#endif
