#include "icp/ransac.hpp"
#include "icp/icpLocalization.hpp"
#include "icp/stability.hpp"
#include "icp/icpLocalization.hpp"
#include "icp/stability.hpp"
size_t otherFilePick(size_t n, size_t k, std::vector<size_t>& out) { envire::ransac::pickRandomIndex(n, k, out); return out.size(); }
