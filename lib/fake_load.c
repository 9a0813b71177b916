/* LD_PRELOAD stand-in for getloadavg(3): the value comes from $FAKE_CTL/load. */
#include <stdio.h>
#include <stdlib.h>

int getloadavg(double avg[], int nelem) {
  char path[4096];
  const char *ctl = getenv("FAKE_CTL");
  double v = 0;
  FILE *f;
  int i;
  if (!ctl) return -1;
  snprintf(path, sizeof path, "%s/load", ctl);
  f = fopen(path, "r");
  if (!f) return -1;
  if (fscanf(f, "%lf", &v) != 1) v = 0;
  fclose(f);
  for (i = 0; i < nelem; i++) avg[i] = v;
  return nelem;
}
