#include <CGAL/property_map.h>
