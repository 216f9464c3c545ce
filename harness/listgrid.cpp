// ListGrid against a model: per-cell sequences, handle stability, copies are independent.
#include "mon.hpp"
#include <cstring>
#include <cstdlib>
#include <cassert>
#include <list>
#include <memory>
#include <envire/tools/ListGrid.hpp>
using namespace envire;

template <int PAD> struct Elem {
    int id; double val; char pad[PAD];
    Elem() {}
    explicit Elem(int i) : id(i), val(i * 0.5) { for (int k = 0; k < PAD; k++) pad[k] = (char)(i + k); }
    bool intact() const { if (val != id * 0.5 && val != -id * 0.25) return false; for (int k = 0; k < PAD; k++) if (pad[k] != (char)(id + k)) return false; return true; }
};

template <int PAD> struct Model {
    typedef Elem<PAD> E;
    typedef ListGrid<E> G;
    typedef typename G::iterator It;
    struct M { int id; double val; const E* addr; };
    struct Grid { std::unique_ptr<G> g; size_t w, h; std::vector<std::list<M> > cells;
        std::list<M>& at(size_t x, size_t y) { return cells[x * h + y]; } };
    std::vector<Grid> grids;
    int nextId = 1;
    mon::Rng& r;
    explicit Model(mon::Rng& r) : r(r) {}

    void verifyCell(Grid& g, size_t x, size_t y, const char* what) {
        std::list<M>& m = g.at(x, y);
        const G& cg = *g.g;
        size_t n = 0; auto mi = m.begin();
        for (typename G::const_iterator it = cg.beginCell(x, y); it != cg.endCell(); ++it) {
            REQUIRE(mi != m.end(), "listgrid:extra-element", what << ": cell " << x << "," << y << " has more than the " << m.size() << " elements put there");
            REQUIRE(it->intact(), "listgrid:corrupt-element", what << ": cell " << x << "," << y << " element " << n << " is damaged");
            REQUIRE(it->id == mi->id, "listgrid:order", what << ": cell " << x << "," << y << " element " << n << " is " << it->id << " expected " << mi->id);
            REQUIRE(it->val == mi->val, "listgrid:value", what << ": cell " << x << "," << y << " element " << n << " holds " << it->val << " expected " << mi->val);
            REQUIRE(!mi->addr || mi->addr == &*it, "listgrid:handle-moved", what << ": a live element changed its address");
            mi->addr = &*it;
            ++mi; ++n;
            REQUIRE(n <= 100000, "listgrid:cycle", what << ": cell list does not end");
        }
        REQUIRE(mi == m.end(), "listgrid:lost-element", what << ": cell " << x << "," << y << " has " << n << " of " << m.size() << " elements");
        // the mutable view agrees
        size_t k = 0;
        for (It it = g.g->beginCell(x, y); it != g.g->endCell(); it++) k++;
        REQUIRE(k == m.size(), "listgrid:views-differ", what << ": mutable iteration sees " << k << " const sees " << n);
    }
    void verify(Grid& g, const char* what) {
        for (size_t x = 0; x < g.w; x++) for (size_t y = 0; y < g.h; y++) verifyCell(g, x, y, what);
        mon::seen("verify");
    }
    void fresh(Grid& g, size_t w, size_t h) { g.w = w; g.h = h; g.cells.assign(w * h, std::list<M>()); }

    void run(int ops) {
        { Grid g; size_t w = r.range(1, 6), h = r.range(1, 6);
          if (r.chance(0.5)) { g.g.reset(new G(w, h)); LOGOP("g0 = ListGrid(" << w << "," << h << ")"); }
          else { g.g.reset(new G()); g.g->resize(w, h); LOGOP("g0 = ListGrid(); resize(" << w << "," << h << ")"); }
          fresh(g, w, h); grids.push_back(std::move(g)); }
        for (int op = 0; op < ops; op++) {
            size_t gi = r.u(grids.size());
            Grid& g = grids[gi];
            size_t x = r.u(g.w), y = r.u(g.h);
            if (r.chance(0.4)) { x = r.u(std::min<size_t>(2, g.w)); y = r.u(std::min<size_t>(2, g.h)); }
            int k = r.range(0, 99);
            if (k < 22) {
                E e(nextId++); LOGOP("g" << gi << ".insertHead(" << x << "," << y << "," << e.id << ")");
                g.g->insertHead(x, y, e); g.at(x, y).push_front(M{e.id, e.val, nullptr}); mon::seen("insertHead");
                verifyCell(g, x, y, "insertHead");
            } else if (k < 44) {
                E e(nextId++); LOGOP("g" << gi << ".insertTail(" << x << "," << y << "," << e.id << ")");
                g.g->insertTail(x, y, e); g.at(x, y).push_back(M{e.id, e.val, nullptr}); mon::seen("insertTail");
                verifyCell(g, x, y, "insertTail");
            } else if (k < 62) {
                std::list<M>& m = g.at(x, y);
                if (m.empty()) continue;
                size_t pos = r.u(m.size());
                if (r.chance(0.3)) pos = 0; else if (r.chance(0.3)) pos = m.size() - 1;
                LOGOP("g" << gi << ".erase(" << x << "," << y << " #" << pos << " of " << m.size() << ")");
                It it = g.g->beginCell(x, y); auto mi = m.begin();
                for (size_t i = 0; i < pos; i++) { ++it; ++mi; }
                It nx = g.g->erase(it);
                mi = m.erase(mi);
                if (mi == m.end()) REQUIRE(nx == g.g->endCell(), "listgrid:erase-result", "erasing the last element does not return the end");
                else REQUIRE(nx != g.g->endCell() && nx->id == mi->id, "listgrid:erase-result", "erase does not return the element that followed");
                mon::seen(pos == 0 ? "erase.head" : mi == m.end() ? "erase.tail" : "erase.mid");
                verifyCell(g, x, y, "erase");
            } else if (k < 70) {
                std::list<M>& m = g.at(x, y);
                It it = g.g->beginCell(x, y);
                for (auto mi = m.begin(); mi != m.end(); ++mi, ++it) if (r.chance(0.5)) { it->val = -it->id * 0.25; mi->val = it->val; }
                LOGOP("g" << gi << ".modify(" << x << "," << y << ")"); mon::seen("modify");
            } else if (k < 80) {
                int dx = r.range(-(int)g.w - 1, (int)g.w + 1), dy = r.range(-(int)g.h - 1, (int)g.h + 1);
                if (r.chance(0.6)) { dx = r.range(-2, 2); dy = r.range(-2, 2); }
                LOGOP("g" << gi << ".move(" << dx << "," << dy << ")");
                g.g->move(dx, dy);
                std::vector<std::list<M> > n(g.w * g.h);
                bool any = false;
                for (size_t a = 0; a < g.w; a++) for (size_t b = 0; b < g.h; b++) {
                    long nx = (long)a + dx, ny = (long)b + dy;
                    if (nx >= 0 && nx < (long)g.w && ny >= 0 && ny < (long)g.h) { n[nx * g.h + ny].swap(g.at(a, b)); any |= !n[nx * g.h + ny].empty(); }
                }
                g.cells.swap(n); mon::seen("move"); if (any && (dx || dy)) mon::seen("move.kept");
                verify(g, "move");
            } else if (k < 83) {
                LOGOP("g" << gi << ".clear()"); g.g->clear(); fresh(g, g.w, g.h); mon::seen("clear"); verify(g, "clear");
            } else if (k < 86) {
                size_t w = r.range(1, 7), h = r.range(1, 7);
                LOGOP("g" << gi << ".resize(" << w << "," << h << ")"); g.g->resize(w, h); fresh(g, w, h); mon::seen("resize"); verify(g, "resize");
            } else if (k < 91 && grids.size() < 5) {
                LOGOP("g" << grids.size() << " = copy of g" << gi);
                Grid n; n.g.reset(new G(*g.g)); n.w = g.w; n.h = g.h; n.cells = g.cells;
                for (auto& l : n.cells) for (auto& m : l) m.addr = nullptr;
                verify(n, "copy construct"); verify(g, "source of a copy");
                grids.push_back(std::move(n)); mon::seen("copy");
            } else if (k < 96) {
                size_t gj = r.u(grids.size());
                LOGOP("g" << gi << " = g" << gj);
                *g.g = *grids[gj].g;
                if (gj != gi) {
                    Grid& o = grids[gj];
                    mon::seen(o.w == g.w && o.h == g.h ? "assign.same_shape" : "assign.reshape");
                    g.w = o.w; g.h = o.h; g.cells = o.cells;
                    for (auto& l : g.cells) for (auto& m : l) m.addr = nullptr;
                    verify(o, "source of an assignment");
                } else mon::seen("assign.self");
                verify(g, "assignment");
            } else if (grids.size() > 1) {
                LOGOP("delete g" << gi); grids.erase(grids.begin() + gi); mon::seen("destroy");
            }
        }
        for (Grid& g : grids) verify(g, "end of the history");
        size_t total = 0; for (Grid& g : grids) for (auto& l : g.cells) total += l.size();
        if (total > 3) mon::distinct(mon::hashStr(mon::currentLog()));
        mon::sample(mon::currentLog());
    }
};

SECTION(history, 40000, 600000) { Model<4> m(c.rng); m.run(c.rng.range(20, 120)); }
SECTION(history_big_elements, 12000, 150000) { Model<64> m(c.rng); m.run(c.rng.range(20, 120)); }
SECTION(long_history, 200, 4000) { Model<4> m(c.rng); m.run(3000); }
