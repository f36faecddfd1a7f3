// A memory resource that records what it is asked and fails on demand.
#pragma once
#include "vmon.h"

#include <utils/memory/memory.h>

namespace rig
{
struct Call
{
    bool alloc;
    std::size_t size, align;
    void* p;
};

class Recorder : public utils::memory::memory_resource
{
   public:
    Recorder()
        : memory_resource(&Recorder::allocate<Recorder>,
                          &Recorder::deallocate<Recorder>)
    {
    }
    ~Recorder() override
    {
        for (auto& b: blocks_)
        {
            std::free(b.second);
        }
    }
    Recorder(const Recorder&) = delete;

    bool is_equal(const memory_resource& o) const noexcept override
    {
        return group ? (dynamic_cast<const Recorder*>(&o) &&
                        static_cast<const Recorder&>(o).group == group)
                     : &o == this;
    }

    void* allocate_impl(std::size_t n, std::size_t a) noexcept
    {
        void* p = nullptr;
        if (!fail_next && n && (p = nearby(n, a)))
        {
            calls.push_back({true, n, a, p});
            return p;
        }
        if (!fail_next && n <= (std::size_t{1} << 20) && a <= 65536 && n)
        {
            const std::size_t al = a < sizeof(void*) ? sizeof(void*) : a;
            if (::posix_memalign(&p, al, n))
            {
                p = nullptr;
            }
            if (p)
            {
                blocks_[p] = p;
                std::memset(p, 0xa5, n);
            }
        }
        fail_next = false;
        calls.push_back({true, n, a, p});
        return p;
    }

    void deallocate_impl(void* p) noexcept
    {
        calls.push_back({false, 0, 0, p});
        auto it = blocks_.find(p);
        if (p && (p == at_behind_ || p == at_before_))
        {
            (p == at_behind_ ? at_behind_ : at_before_) = nullptr;
        }
        else if (it != blocks_.end())
        {
            std::free(it->second);
            blocks_.erase(it);
        }
        else if (p)
        {
            vm::fail("foreign-deallocation",
                     "upstream was given %p back, which it never handed out "
                     "or already got back",
                     p);
        }
    }

    bool owns(void* p) const
    {
        return blocks_.count(p) != 0 || p == at_behind_ || p == at_before_;
    }
    std::size_t outstanding() const
    {
        return blocks_.size() + (at_behind_ != nullptr) +
               (at_before_ != nullptr);
    }

    // Places next to somebody else's buffer where regions may lie: one that
    // starts as near as possible behind, one that ends as near before.
    std::byte *behind = nullptr, *before = nullptr;
    std::size_t room = 0;

    std::vector<Call> calls;
    bool fail_next = false;
    int group = 0;

   private:
    void* nearby(std::size_t n, std::size_t a)
    {
        if (n > room || a > room)
        {
            return nullptr;
        }
        if (behind && !at_behind_)
        {
            const auto u = reinterpret_cast<std::uintptr_t>(behind);
            const std::size_t skip = (0 - u) & (a - 1);
            if (skip + n <= room)
            {
                return at_behind_ = behind + skip;
            }
        }
        if (before && !at_before_)
        {
            const auto u = reinterpret_cast<std::uintptr_t>(before);
            const std::size_t back = n + ((u - n) & (a - 1));
            if (back <= room)
            {
                return at_before_ = before - back;
            }
        }
        return nullptr;
    }
    void *at_behind_ = nullptr, *at_before_ = nullptr;
    std::map<void*, void*> blocks_;
};
}  // namespace rig
