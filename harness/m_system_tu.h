// What another translation unit sees.
#pragma once
namespace utils::memory
{
class memory_resource;
}
utils::memory::memory_resource* tu_system();
utils::memory::memory_resource* tu_null();
utils::memory::memory_resource* tu_default();
utils::memory::memory_resource* tu_set_default(utils::memory::memory_resource*);
// values read while namespace-scope objects of that unit were initialized
utils::memory::memory_resource* tu_system_at_start();
utils::memory::memory_resource* tu_null_at_start();
utils::memory::memory_resource* tu_default_at_start();
