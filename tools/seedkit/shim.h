// Forced into every translation unit (-include).  It lets the Python-2 era
// sources build against the Python 3 that is installed here, and puts the
// random engine under the driver's control.  It changes no code of the
// repository: std::mt19937 is replaced by a subclass that logs what it draws
// and can be told what to draw next.
#ifndef VERIF_SHIM_H
#define VERIF_SHIM_H
#ifdef __cplusplus
#define PyString_Check PyUnicode_Check
#define PyString_AsString PyUnicode_AsUTF8
#define PyString_FromString PyUnicode_FromString
#define PyInt_Check PyLong_Check
#define PyInt_FromLong PyLong_FromLong
#define PyInt_AsLong PyLong_AsLong
#ifdef VERIF_ENGINE
#include <random>
#include <vector>
#include <stdint.h>
namespace verif {
extern bool logging;
extern std::vector<uint32_t> drawn;    // what was drawn since logging began
extern std::vector<uint32_t> scripted; // what to draw first
extern size_t scriptpos;
}
namespace std {
struct verif_mt : public mt19937 {
    typedef mt19937 base;
    using base::base;
    verif_mt() {}
    result_type operator()()
    {
        uint32_t v;
        if (verif::logging && verif::scriptpos < verif::scripted.size())
            v = verif::scripted[verif::scriptpos++];
        else
            v = (uint32_t)base::operator()();
        if (verif::logging)
            verif::drawn.push_back(v);
        return v;
    }
};
}
#define mt19937 verif_mt
#endif
#endif
#endif
