// Scriptable stand-in for utility/rng.h (same interface): every draw is logged and can be dictated.
#ifndef Fermion_Simulator_random_h
#define Fermion_Simulator_random_h
#include <cstdint>
#include <iosfwd>
#include <random>
#include <string>
#include <vector>
typedef double real;
struct VerifDraw { bool isU; long n; };
struct VerifScript {
    bool on = false;
    std::vector<uint32_t> in;
    std::vector<VerifDraw> log;
    size_t pos = 0;
};
extern VerifScript verif_script;
class RandomFactory {
    friend std::ostream& operator<<(std::ostream& os, RandomFactory& r);
    friend std::istream& operator>>(std::istream& is, RandomFactory& r);
    friend std::string ToString(const RandomFactory& RNG);
    uint64_t _s;
    uint32_t next()
    {
        uint64_t z = (_s += 0x9e3779b97f4a7c15ULL);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return (uint32_t)(z ^ (z >> 31));
    }
    uint32_t word(bool isU, long n)
    {
        if (!verif_script.on) return next();
        verif_script.log.push_back(VerifDraw{isU, n});
        uint32_t v = verif_script.pos < verif_script.in.size() ? verif_script.in[verif_script.pos] : 0;
        verif_script.pos++;
        return v;
    }
public:
    RandomFactory() : _s(1) {}
    RandomFactory(int s) : _s(s) {}
    RandomFactory(const std::string& state) { Reset(state); }
    void Reset() { _s = 1; }
    void Reset(int s) { _s = (uint64_t)(uint32_t)s * 0x9e3779b97f4a7c15ULL + 12345; }
    void Reset(const std::string& state);
    inline real urn() { return word(true, 0) * 2.32830643653869628906e-010; }
    inline int irn(int from, int thru) { return (int)(word(false, (long)thru - from + 1) % (uint32_t)(thru - from + 1)) + from; }
};
int TestRNG();
#endif
