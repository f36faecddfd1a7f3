// U01: listens to the translation units of a generated program.
#include "headers_rig.h"

#include "vmon.h"

#include <map>
#include <string>

int main(int argc, char** argv)
{
    std::vector<char*> args(argv, argv + argc);
    std::string cases = "1", option = "--cases";
    args.push_back(option.data());
    args.push_back(cases.data());
    return vm::run_main(
        static_cast<int>(args.size()), args.data(),
        [](vm::Rng&, std::uint64_t)
        {
            auto& all = rig::units();
            std::map<std::string, std::pair<rig::Entity, const char*>> known;
            for (std::size_t i = 0; i < all.size(); ++i)
            {
                auto& u = all[i];
                rig::Join::speakers()[i](u.said, u.entities);
                const auto h = vm::hash(u.label, strlen(u.label));
                for (auto* list: {&u.said_before_main, &u.said})
                {
                    for (auto& s: *list)
                    {
                        vm::op("%s = %lld", s.what, s.got);
                        VM_CHECK(s.got == s.want, "result",
                                 "%s is %lld, not %lld%s in %s", s.what, s.got,
                                 s.want, list == &u.said ? "" : ", before main",
                                 u.label);
                        vm::state(vm::hash(s.what, strlen(s.what), h));
                        vm::count(list == &u.said ? "results"
                                                  : "results before main");
                    }
                }
                for (auto& e: u.entities)
                {
                    auto [it, first] = known.insert({e.what, {e, u.label}});
                    VM_CHECK(first || (it->second.first.where == e.where &&
                                       it->second.first.size == e.size),
                             "identity",
                             "%s is at %p (%lu bytes) for %s, but at %p (%lu) "
                             "for %s",
                             e.what, it->second.first.where,
                             it->second.first.size, it->second.second, e.where,
                             e.size, u.label);
                    vm::op("%s at %p", e.what, e.where);
                    vm::count(first ? "entities" : "entities seen again");
                    vm::state(vm::hash(e.what, strlen(e.what), h));
                }
                vm::count("translation units");
            }
        });
}
