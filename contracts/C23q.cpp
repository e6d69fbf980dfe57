// The queue wrappers over the contract of the queue (contracts/absq): C23.
#define VF_ABSQ
#include "C23e.cpp"
