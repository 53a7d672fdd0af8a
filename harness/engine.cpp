#ifdef VERIF_ENGINE
namespace verif {
bool logging = false;
std::vector<uint32_t> drawn;
std::vector<uint32_t> scripted;
size_t scriptpos = 0;
}
#endif
