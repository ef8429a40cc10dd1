// The part of the CSPICE interface used by the repository; the implementation (a kernel pool) is in harness/kernels.cpp.
#ifndef VF_SHIM_SPICE
#define VF_SHIM_SPICE
typedef int SpiceInt;
typedef char SpiceChar;
typedef double SpiceDouble;
typedef int SpiceBoolean;
typedef const char ConstSpiceChar;
#define SPICETRUE 1
#define SPICEFALSE 0
extern "C" {
void ktotal_c(ConstSpiceChar *kind, SpiceInt *count);
void kdata_c(SpiceInt which, ConstSpiceChar *kind, SpiceInt fillen, SpiceInt typlen, SpiceInt srclen, SpiceChar *file, SpiceChar *filtyp, SpiceChar *srcfil, SpiceInt *handle, SpiceBoolean *found);
void kinfo_c(ConstSpiceChar *file, SpiceInt typlen, SpiceInt srclen, SpiceChar *filtyp, SpiceChar *srcfil, SpiceInt *handle, SpiceBoolean *found);
void furnsh_c(ConstSpiceChar *file);
void unload_c(ConstSpiceChar *file);
void kclear_c(void);
void bodvrd_c(ConstSpiceChar *body, ConstSpiceChar *item, SpiceInt maxn, SpiceInt *dim, SpiceDouble *values);
SpiceDouble unitim_c(SpiceDouble epoch, ConstSpiceChar *insys, ConstSpiceChar *outsys);
void spkezp_c(SpiceInt targ, SpiceDouble et, ConstSpiceChar *ref, ConstSpiceChar *abcorr, SpiceInt obs, SpiceDouble ptarg[3], SpiceDouble *lt);
}
#endif
