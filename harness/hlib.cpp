#include "hlib.h"
std::vector<Buf>* g_bufs = nullptr;
