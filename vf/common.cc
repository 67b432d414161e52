#include "q.h"
namespace vf {
#ifndef VF_MAXVOL
#define VF_MAXVOL 96
#endif
int geo_maxvol = VF_MAXVOL;
void session_begin(Case& c, int argc, char** argv) { default_session(c, argc, argv); }
void case_begin(Case&) {}
}
