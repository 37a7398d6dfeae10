// Instances of other types than the world's, in a translation unit of their own: instance identifiers and the bookkeeping
// of active transactions are shared by all instances of a process, whatever their component types.
#include "world.hh"

namespace world {
    namespace {
        struct SX {
            uint64_t v = 3;
        };
        struct SG {
            uint64_t v = 4;
        };
    } // namespace
} // namespace world
template<>
struct Tecs::is_global_component<world::SG> : std::true_type {};

namespace world {
    namespace {
        template<typename W, typename T>
        struct Impl final : IStranger {
            W ecs;
            std::vector<Entity> alive;
            std::unordered_set<uint64_t> dead;
            uint64_t next = 50;
            std::unordered_map<uint64_t, uint64_t> values;

            void step(int create, int destroy, std::vector<Entity> &made) override {
                try {
                    auto tx = ecs.template StartTransaction<Tecs::AddRemove>();
                    for (int i = 0; i < create; i++) {
                        Entity e = tx.NewEntity();
                        if (!e || values.count((uint64_t)e) || dead.count((uint64_t)e))
                            pbt::fail("an instance of another type issued handle %llx twice", (unsigned long long)(uint64_t)e);
                        e.template Set<T>(tx, T{next});
                        values[(uint64_t)e] = next++;
                        alive.push_back(e);
                        made.push_back(e);
                    }
                    for (int i = 0; i < destroy && !alive.empty(); i++) {
                        Entity e = alive.front();
                        alive.erase(alive.begin());
                        ((const Entity &)e).Destroy(tx);
                        values.erase((uint64_t)e);
                        dead.insert((uint64_t)e);
                    }
                } catch (const std::exception &ex) {
                    pbt::fail("a valid transaction on an instance of another type threw: %s", ex.what());
                }
            }
            void check() override {
                try {
                    auto tx = ecs.template StartTransaction<Tecs::Read<T>>();
                    size_t n = 0;
                    for (Entity e : tx.template EntitiesWith<T>())
                        if (e) n++;
                    if (n != alive.size())
                        pbt::fail("an instance of another type has %zu entities instead of %zu", n, alive.size());
                    for (auto &e : alive)
                        if (e.template Get<T>(tx).v != values[(uint64_t)e])
                            pbt::fail("a value changed in an instance of another type");
                } catch (const std::exception &ex) {
                    pbt::fail("a valid transaction on an instance of another type threw: %s", ex.what());
                }
            }
            bool denotes(const Entity &e) override {
                auto tx = ecs.template StartTransaction<Tecs::Read<T>>();
                return e.Exists(tx) || e.template Has<T>(tx) || e.Existed(tx);
            }
            bool isAlive(const Entity &e) override {
                return values.count((uint64_t)e) != 0;
            }
        };
    } // namespace
    IStranger *makeStranger(int which) {
        if (which == 0) return new Impl<Tecs::ECS<SX>, SX>();
        return new Impl<Tecs::ECS<SG, SX>, SX>();
    }
} // namespace world
