/* The one place that looks into the runtime structure. */
#include <ratjs.h>
#include "ratjs_internal.h"

size_t
host_mem_size (RJS_Runtime *rt)
{
    return rt->mem_size;
}
