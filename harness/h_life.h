// What the sources of the children of h_life.cpp share.
#ifndef VF_LIFE_H
#define VF_LIFE_H
#include <cstdint>
#include <string>
namespace life {
uint64_t seed();
bool child();
void tell(const std::string& s);
void reg(int slow);
void send(const char* who, int i, int how);
void early();
}
#endif
