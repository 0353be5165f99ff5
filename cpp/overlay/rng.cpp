#include "rng.h"
#include <sstream>
VerifScript verif_script;
void RandomFactory::Reset(const std::string& state) { std::istringstream i(state); i >> _s; }
std::ostream& operator<<(std::ostream& os, RandomFactory& r) { return os << r._s; }
std::istream& operator>>(std::istream& is, RandomFactory& r) { return is >> r._s; }
std::string ToString(const RandomFactory& r) { return std::to_string(r._s); }
RandomFactory RNG;
