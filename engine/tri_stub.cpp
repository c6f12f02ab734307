// default environment stub for the external mesher; a harness that reaches it overrides it
#include <cstdlib>
extern "C++" {
#include "triangle/triangle.h"
}
__attribute__((weak)) void triangulate(char *, struct triangulateio *, struct triangulateio *, struct triangulateio *) { abort(); }
