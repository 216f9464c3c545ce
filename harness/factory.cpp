#include "mon.hpp"
#include <envire/Core.hpp>
#include <envire/core/SerializationFactory.hpp>
#include <envire/core/Serialization.hpp>
using namespace envire;

namespace {
// factories that only report which one was asked, and with what
int asked = -1; Serialization* with = nullptr; bool fail = false;
template <int N> EnvironmentItem* make(Serialization& so) { asked = N; with = &so; if (fail) throw std::logic_error("factory"); return reinterpret_cast<EnvironmentItem*>((uintptr_t)(0x1000 + 16 * N)); }
SerializationFactory::Factory facs[] = {make<0>, make<1>, make<2>, make<3>, make<4>, make<5>, make<6>, make<7>};
char storage[64] __attribute__((aligned(16)));
}

SECTION(lookup, 1500, 12000)
{
    Serialization& so = *reinterpret_cast<Serialization*>(storage + 16 * c.rng.u(3));
    std::map<std::string, SerializationFactory::Factory> before = SerializationFactory::getMap();
    SerializationFactory::getMap().clear();
    std::map<std::string, int> model;
    static const char* parts[] = {"A", "Grid", "MLSGrid", "AGrid", "xA", "Grid<float>", "g", "envire", "B_1", "rid", "Gri"};
    auto name = [&]() {
        std::string s; int n = c.rng.u(3);
        for (int i = 0; i < n; i++) s += std::string(parts[c.rng.u(11)]) + "::";
        if (c.rng.chance(0.05)) s = "::" + s;
        if (c.rng.chance(0.03)) return s;
        s += parts[c.rng.u(11)];
        return s;
    };
    std::string log;
    int steps = c.rng.range(5, 60);
    for (int i = 0; i < steps; i++) {
        if (c.rng.chance(0.25)) {
            std::string n = name(); int f = c.rng.u(8);
            LOGOP("add " << n << " " << f); mon::seen(model.count(n) ? "register.again" : "register");
            SerializationFactory::addClass(n, facs[f]); model[n] = f;
        } else {
            std::string n = name();
            int want = -1; const char* how = "unknown";
            if (model.count(n)) { want = model[n]; how = "exact"; }
            else { size_t p = n.rfind("::"); if (p != std::string::npos && model.count(n.substr(p + 2))) { want = model[n.substr(p + 2)]; how = "unqualified"; } }
            asked = -1; with = nullptr; fail = c.rng.chance(0.05) && want >= 0;
            LOGOP("create " << n << " expect " << want << (fail ? " (fails)" : ""));
            EnvironmentItem* got = nullptr; int threw = 0;
            try { got = SerializationFactory::createObject(n, so); } catch (const std::runtime_error&) { threw = 1; } catch (const std::logic_error&) { threw = 2; }
            REQUIRE(asked == want, "factory:which", "class '" << n << "' was created by " << asked << ", expected " << want);
            if (want < 0) REQUIRE(threw == 1, "factory:unknown", "unknown class '" << n << "' was accepted");
            else if (fail) REQUIRE(threw == 2, "factory:pass", "the exception of a factory was lost");
            else REQUIRE(!threw && with == &so && got == reinterpret_cast<EnvironmentItem*>((uintptr_t)(0x1000 + 16 * want)), "factory:result", "class '" << n << "': wrong object or serialization");
            mon::seen(std::string("create.") + (fail ? "fail" : how));
            // a look-up registers nothing
            REQUIRE(SerializationFactory::getMap().size() == model.size(), "factory:register", "creating '" << n << "' changed the register");
        }
    }
    mon::distinct(mon::hashStr(mon::currentLog()));
    SerializationFactory::getMap() = before;
}
