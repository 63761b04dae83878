// Controllable stand-in for CSPICE (absent offline): only what s2e-core calls.
#ifndef VERIF_SPICE_USR_H
#define VERIF_SPICE_USR_H
typedef double SpiceDouble;
typedef int SpiceInt;
typedef int SpiceBoolean;
typedef char SpiceChar;
typedef const char ConstSpiceChar;
typedef const double ConstSpiceDouble;
#define SPICETRUE 1
#define SPICEFALSE 0
#ifdef __cplusplus
extern "C" {
#endif
void bodvcd_c(SpiceInt bodyid, ConstSpiceChar* item, SpiceInt maxn, SpiceInt* dim, SpiceDouble* values);
void bodc2n_c(SpiceInt code, SpiceInt namelen, SpiceChar* name, SpiceBoolean* found);
void bodn2c_c(ConstSpiceChar* name, SpiceInt* code, SpiceBoolean* found);
void spkezr_c(ConstSpiceChar* target, SpiceDouble et, ConstSpiceChar* ref, ConstSpiceChar* abcorr, ConstSpiceChar* obs, SpiceDouble starg[6], SpiceDouble* lt);
void furnsh_c(ConstSpiceChar* file);
void str2et_c(ConstSpiceChar* str, SpiceDouble* et);
void sxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble xform[6][6]);
#ifdef __cplusplus
}
#endif
#endif
