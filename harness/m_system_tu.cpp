#include "vmon.h"

#include <cassert>
#include <utils/memory/memory.h>

#include "m_system_tu.h"

namespace um = utils::memory;
namespace
{
um::memory_resource* const system_at_start = um::system_memory_resource();
um::memory_resource* const null_at_start = um::null_memory_resource();
um::memory_resource* const default_at_start = um::get_default_resource();
}  // namespace

um::memory_resource* tu_system() { return um::system_memory_resource(); }
um::memory_resource* tu_null() { return um::null_memory_resource(); }
um::memory_resource* tu_default() { return um::get_default_resource(); }
um::memory_resource* tu_set_default(um::memory_resource* r)
{
    return um::set_default_resource(r);
}
um::memory_resource* tu_system_at_start() { return system_at_start; }
um::memory_resource* tu_null_at_start() { return null_at_start; }
um::memory_resource* tu_default_at_start() { return default_at_start; }
