// memory: what an operation allocates it frees, whichever way it ends ( the operations of C31_threads.cpp, twice each )
//@ variant release -DNDEBUG
//@ flags -DVP_BALANCE
#include "C31_threads.cpp"
