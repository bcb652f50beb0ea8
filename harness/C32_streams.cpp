// memory: printing and parsing
//@ variant release -DNDEBUG
//@ flags -DVP_BALANCE -include vp_noextern.h
#include "C31_streams.cpp"
