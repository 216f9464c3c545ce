// Plane Delaunay triangulation by definition: triangles with an empty circumcircle.
// As in CGAL, locating a point outside of the hull gives a face with the infinite
// vertex, and triangulations of lower dimension have faces without all vertices.
#ifndef VERIF_CGAL_DT2
#define VERIF_CGAL_DT2
#include <cstddef>
#include <list>
#include <vector>
namespace CGAL {
template <class Gt> class Delaunay_triangulation_2 {
public:
    typedef typename Gt::Point Point;
    struct Vertex { Point p; Point& point() { return p; } const Point& point() const { return p; } };
    typedef Vertex* Vertex_handle;
    struct Face { Vertex_handle v[3] = {nullptr, nullptr, nullptr}; Vertex_handle vertex(int i) const { return v[i]; } };
    typedef Face* Face_handle;
    Vertex_handle insert(const Point& p) {
        for (Vertex& v : vs) if (v.p.x() == p.x() && v.p.y() == p.y()) { v.p = p; return &v; }
        vs.push_back(Vertex()); vs.back().p = p; valid = false; return &vs.back();
    }
    size_t number_of_vertices() const { return vs.size(); }
    int dimension() const { build(); return dim; }
    bool is_infinite(Face_handle f) const { return f->v[0] == &inf || f->v[1] == &inf || f->v[2] == &inf; }
    bool is_infinite(Vertex_handle v) const { return v == &inf; }
    Vertex_handle infinite_vertex() const { return &inf; }
    Face_handle locate(const Point& q) const {
        build();
        if (dim < 1) return nullptr;
        if (dim == 1) return &line;
        for (Face& f : fs) if (in(f, q)) return &f;
        return &outer;
    }
private:
    static double orient(const Point& a, const Point& b, const Point& c) { return (b.x() - a.x()) * (c.y() - a.y()) - (b.y() - a.y()) * (c.x() - a.x()); }
    static bool in(const Face& f, const Point& q) {
        return orient(f.v[0]->p, f.v[1]->p, q) >= 0 && orient(f.v[1]->p, f.v[2]->p, q) >= 0 && orient(f.v[2]->p, f.v[0]->p, q) >= 0;
    }
    static double incircle(const Point& a, const Point& b, const Point& c, const Point& d) {
        double ax = a.x() - d.x(), ay = a.y() - d.y(), bx = b.x() - d.x(), by = b.y() - d.y(), cx = c.x() - d.x(), cy = c.y() - d.y();
        return (ax * ax + ay * ay) * (bx * cy - cx * by) - (bx * bx + by * by) * (ax * cy - cx * ay) + (cx * cx + cy * cy) * (ax * by - bx * ay);
    }
    void build() const {
        if (valid) return;
        valid = true; fs.clear(); dim = (int)vs.size() < 2 ? (int)vs.size() - 1 : 1;
        std::vector<Vertex*> v; for (Vertex& x : vs) v.push_back(&x);
        for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) for (size_t k = j + 1; k < v.size(); k++) {
            double o = orient(v[i]->p, v[j]->p, v[k]->p);
            if (o == 0) continue;
            dim = 2;
            Face f; f.v[0] = v[i]; f.v[1] = o > 0 ? v[j] : v[k]; f.v[2] = o > 0 ? v[k] : v[j];
            bool empty = true;
            for (size_t m = 0; m < v.size() && empty; m++) if (m != i && m != j && m != k && incircle(f.v[0]->p, f.v[1]->p, f.v[2]->p, v[m]->p) > 0) empty = false;
            if (empty) fs.push_back(f);
        }
        outer = Face(); line = Face();
        if (dim == 2) { outer.v[0] = fs.front().v[0]; outer.v[1] = &inf; outer.v[2] = fs.front().v[1]; }
        if (dim == 1) { line.v[0] = v[0]; line.v[1] = v[1]; }
    }
    mutable std::list<Vertex> vs;
    mutable Vertex inf;
    mutable std::list<Face> fs;
    mutable Face outer, line;
    mutable bool valid = false;
    mutable int dim = -1;
};
}
#endif
