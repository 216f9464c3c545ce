#ifndef VERIF_CGAL_PROJ
#define VERIF_CGAL_PROJ
namespace CGAL { template <class K> struct Projection_traits_xy_3 { typedef typename K::Point_3 Point; }; }
#endif
