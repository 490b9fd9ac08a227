/* libmed 4.1.0 (the one installed here) predates these three calls of the MED API. */
#ifndef VERIF_MEDSHIM_H
#define VERIF_MEDSHIM_H
#include <med.h>
#ifdef __cplusplus
extern "C" {
#endif
med_err MEDfileObjectDescriptionWr(med_idt fid, med_class cls, const char *name, const char *desc);
med_err MEDfileObjectDescriptionExist(med_idt fid, med_class cls, const char *name, med_bool *exist);
med_err MEDfileObjectDescriptionRd(med_idt fid, med_class cls, const char *name, char *desc);
#ifdef __cplusplus
}
#endif
#endif
