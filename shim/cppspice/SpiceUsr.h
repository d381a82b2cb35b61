/* Stand-in for CSPICE: prototypes; the driver supplies a recording kernel pool. */
#ifndef VF_SHIM_SPICE_H
#define VF_SHIM_SPICE_H
#ifdef __cplusplus
extern "C" {
#endif
typedef int SpiceInt; typedef char SpiceChar; typedef int SpiceBoolean; typedef double SpiceDouble;
typedef const char ConstSpiceChar;
#define SPICETRUE 1
#define SPICEFALSE 0
void furnsh_c(ConstSpiceChar *file);
void ktotal_c(ConstSpiceChar *kind, SpiceInt *count);
void kdata_c(SpiceInt which, ConstSpiceChar *kind, SpiceInt fileln, SpiceInt filtln, SpiceInt srclen, SpiceChar *file,
             SpiceChar *filtyp, SpiceChar *srcfil, SpiceInt *handle, SpiceBoolean *found);
void bodvrd_c(ConstSpiceChar *bodynm, ConstSpiceChar *item, SpiceInt maxn, SpiceInt *dim, SpiceDouble *values);
SpiceDouble unitim_c(SpiceDouble epoch, ConstSpiceChar *insys, ConstSpiceChar *outsys);
void spkezp_c(SpiceInt targ, SpiceDouble et, ConstSpiceChar *ref, ConstSpiceChar *abcorr, SpiceInt obs, SpiceDouble *ptarg, SpiceDouble *lt);
#ifdef __cplusplus
}
#endif
#endif
