/* MEDfileObjectDescription{Wr,Exist,Rd} for libmed 4.1.0: one string attribute per described
 * object on a group of our own, which every other MED reader ignores. */
#include "medshim.h"
#include <hdf5.h>
#include <stdio.h>
#include <string.h>

#define GRP "/VERIF_OBJDESC"

static void key(char *buf, size_t n, med_class cls, const char *name)
{
  char nm[MED_NAME_SIZE + 1];
  size_t i;
  strncpy(nm, name, MED_NAME_SIZE);
  nm[MED_NAME_SIZE] = 0;
  for (i = strlen(nm); i > 0 && nm[i - 1] == ' '; i--) nm[i - 1] = 0;
  snprintf(buf, n, "%d:%s", (int)cls, nm);
}

med_err MEDfileObjectDescriptionWr(med_idt fid, med_class cls, const char *name, const char *desc)
{
  char k[MED_NAME_SIZE + 32], val[MED_COMMENT_SIZE + 1];
  hid_t g, t, s, a;
  herr_t r;
  key(k, sizeof k, cls, name);
  memset(val, 0, sizeof val);
  strncpy(val, desc, MED_COMMENT_SIZE);
  if (H5Lexists(fid, GRP, H5P_DEFAULT) > 0) g = H5Gopen2(fid, GRP, H5P_DEFAULT);
  else g = H5Gcreate2(fid, GRP, H5P_DEFAULT, H5P_DEFAULT, H5P_DEFAULT);
  if (g < 0) return -1;
  if (H5Aexists(g, k) > 0) H5Adelete(g, k);
  t = H5Tcopy(H5T_C_S1);
  H5Tset_size(t, MED_COMMENT_SIZE + 1);
  s = H5Screate(H5S_SCALAR);
  a = H5Acreate2(g, k, t, s, H5P_DEFAULT, H5P_DEFAULT);
  r = a < 0 ? -1 : H5Awrite(a, t, val);
  if (a >= 0) H5Aclose(a);
  H5Sclose(s);
  H5Tclose(t);
  H5Gclose(g);
  return r < 0 ? -1 : 0;
}

med_err MEDfileObjectDescriptionExist(med_idt fid, med_class cls, const char *name, med_bool *exist)
{
  char k[MED_NAME_SIZE + 32];
  hid_t g;
  key(k, sizeof k, cls, name);
  *exist = MED_FALSE;
  if (H5Lexists(fid, GRP, H5P_DEFAULT) <= 0) return 0;
  g = H5Gopen2(fid, GRP, H5P_DEFAULT);
  if (g < 0) return -1;
  if (H5Aexists(g, k) > 0) *exist = MED_TRUE;
  H5Gclose(g);
  return 0;
}

med_err MEDfileObjectDescriptionRd(med_idt fid, med_class cls, const char *name, char *desc)
{
  char k[MED_NAME_SIZE + 32], val[MED_COMMENT_SIZE + 1];
  hid_t g, a, t;
  herr_t r;
  key(k, sizeof k, cls, name);
  g = H5Gopen2(fid, GRP, H5P_DEFAULT);
  if (g < 0) return -1;
  a = H5Aopen(g, k, H5P_DEFAULT);
  t = H5Tcopy(H5T_C_S1);
  H5Tset_size(t, MED_COMMENT_SIZE + 1);
  r = a < 0 ? -1 : H5Aread(a, t, val);
  if (r >= 0) strcpy(desc, val);
  if (a >= 0) H5Aclose(a);
  H5Tclose(t);
  H5Gclose(g);
  return r < 0 ? -1 : 0;
}
