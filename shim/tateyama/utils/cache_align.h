// Stand-in written for /verif: only what jogasaki's sources use.
#pragma once
#ifndef cache_align
#define cache_align alignas(64)
#endif
