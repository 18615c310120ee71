// Payload types and small helpers shared by the harnesses.
#pragma once

#include "mc.hpp"

#include <algorithm>
#include <memory>
#include <ostream>
#include <type_traits>
#include <utility>

/** A value whose instances are counted and whose memory is on the heap, so
 *  that leaks, double destruction and use after destruction show. */
struct counted
{
    int* p;

    counted() : p(new int(0)) { ++mc::counters::live; }
    explicit counted(int v) : p(new int(v)) { ++mc::counters::live; }
    counted(const counted& o) : p(new int(o.get())) { ++mc::counters::live; }
    counted(counted&& o) : p(new int(o.get()))
    {
        ++mc::counters::live;
        *o.p = -1; // moved from
    }
    counted& operator=(const counted& o)
    {
        *p = o.get();
        return *this;
    }
    counted& operator=(counted&& o)
    {
        if (this != &o)
        {
            *p = o.get();
            *o.p = -1;
        }
        return *this;
    }
    ~counted()
    {
        --mc::counters::live;
        *p = -99;
        delete p;
        p = nullptr;
    }
    int get() const
    {
        if (!p || *p == -99)
            mc::fail("use of a destroyed value");
        return *p;
    }
    bool operator==(const counted& o) const { return get() == o.get(); }
    bool operator!=(const counted& o) const { return get() != o.get(); }
    bool operator<(const counted& o) const { return get() < o.get(); }
};

inline std::ostream& operator<<(std::ostream& os, const counted& c) { return os << "#" << *c.p; }
