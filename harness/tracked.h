// An element type that owns a resource and reports everything done to it.
#pragma once
#include "vmon.h"

namespace rig
{
struct Ledger
{
    std::map<const void*, int> live;  // object -> value, -1 when moved from
    std::uint64_t made = 0, copies = 0, moves = 0, copy_assigns = 0,
                  move_assigns = 0, destroyed = 0;
    std::map<const void*, unsigned> moved_from;
    std::map<const void*, unsigned> copied_from;
    static Ledger& get()
    {
        static Ledger* l = new Ledger;
        return *l;
    }
    void reset_events()
    {
        made = copies = moves = copy_assigns = move_assigns = destroyed = 0;
        moved_from.clear();
        copied_from.clear();
    }
};

class Tracked
{
   public:
    explicit Tracked(int v) : p_(new int(v)) { born(v); ++led().made; }
    Tracked() : p_(new int(-77)) { born(-77); ++led().made; }
    Tracked(const Tracked& o) noexcept : p_(nullptr)
    {
        alive(&o, "copied from");
        VM_CHECK(o.p_, "copy-of-moved-from", "copied an element already moved from");
        p_ = new int(*o.p_);
        born(*p_);
        ++led().copies;
        ++led().copied_from[&o];
    }
    Tracked(Tracked&& o) noexcept : p_(nullptr)
    {
        alive(&o, "moved from");
        VM_CHECK(o.p_, "moved-twice", "an element was moved from twice");
        p_ = o.p_;
        o.p_ = nullptr;
        born(*p_);
        ++led().moves;
        ++led().moved_from[&o];
    }
    Tracked& operator=(const Tracked& o) noexcept
    {
        alive(this, "assigned to");
        alive(&o, "assigned from");
        VM_CHECK(o.p_, "copy-of-moved-from", "copied an element already moved from");
        int* n = new int(*o.p_);
        delete p_;
        p_ = n;
        ++led().copy_assigns;
        ++led().copied_from[&o];
        return *this;
    }
    Tracked& operator=(Tracked&& o) noexcept
    {
        alive(this, "assigned to");
        alive(&o, "assigned from");
        VM_CHECK(o.p_, "moved-twice", "an element was moved from twice");
        if (this != &o)
        {
            delete p_;
            p_ = o.p_;
            o.p_ = nullptr;
        }
        ++led().move_assigns;
        ++led().moved_from[&o];
        return *this;
    }
    ~Tracked()
    {
        alive(this, "destroyed");
        led().live.erase(this);
        ++led().destroyed;
        delete p_;
        p_ = nullptr;
    }
    bool has() const { return p_ != nullptr; }
    int value() const
    {
        alive(this, "read");
        return p_ ? *p_ : -1;
    }
    friend bool operator==(const Tracked& a, const Tracked& b)
    {
        return a.value() == b.value();
    }
    friend bool operator!=(const Tracked& a, const Tracked& b)
    {
        return a.value() != b.value();
    }
    static Ledger& led() { return Ledger::get(); }

   private:
    void born(int v)
    {
        VM_CHECK(led().live.emplace(this, v).second, "constructed-twice",
                 "an element was constructed over a living one");
    }
    static void alive(const Tracked* t, const char* what)
    {
        VM_CHECK(led().live.count(t), "dead-element",
                 "an element that does not live was %s", what);
    }
    int* p_;
};
}  // namespace rig
