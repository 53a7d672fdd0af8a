#ifndef ENGINE_CTL_H
#define ENGINE_CTL_H
#include "shim.h"
// run fn with the engine's next output prescribed; false if it did not draw exactly once
template <class F>
bool script(uint32_t raw, F fn)
{
    verif::drawn.clear();
    verif::scripted.assign(1, raw);
    verif::scriptpos = 0;
    verif::logging = true;
    fn();
    verif::logging = false;
    bool ok = verif::drawn.size() == 1;
    verif::scripted.clear();
    return ok;
}
#endif
