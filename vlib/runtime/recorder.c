/* Stands for a compiled instrument (or mpirun, or a compiler): appends its arguments to a log beside it, makes the output directory */
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
int main(int argc, char **argv) {
  char path[8192], line[256];
  long n = 0;
  int c, fail = 0;
  char *dir = NULL;
  FILE *f;
  snprintf(path, sizeof path, "%s", getenv("VERIF_LOG"));
  if ((f = fopen(path, "r"))) { while ((c = fgetc(f)) != EOF) n += c == '\n'; fclose(f); }
  f = fopen(path, "a");
  for (int i = 0; i < argc; i++) {
    for (char *s = argv[i]; *s; s++) fprintf(f, "%02x", (unsigned char) *s);
    fprintf(f, " ");
    if (!strcmp(argv[i], "--dir") && i + 1 < argc) dir = argv[i + 1];
    if (!strncmp(argv[i], "--dir=", 6)) dir = argv[i] + 6;
    if (!strcmp(argv[i] + (strlen(argv[i]) > 5 ? strlen(argv[i]) - 5 : 0), "=fail")) fail = 1;
    if (!strcmp(argv[i] + (strlen(argv[i]) > 5 ? strlen(argv[i]) - 5 : 0), "=kill")) fail = 2;
  }
  fprintf(f, "\n");
  fclose(f);
  if (fail == 2) raise(SIGKILL);
  if (fail) return 3;
  if (dir) {
    if (mkdir(dir, 0777)) return 4;
    snprintf(path, sizeof path, "%s/mon.dat", dir);
    f = fopen(path, "w");
    fprintf(f, "# Format: McCode with text headers\n# type: array_0d\n# component: mon\n# filename: mon.dat\n# variables: I I_err N\n%ld 1 2\n", n);
    fclose(f);
    for (char *name = strtok(getenv("VERIF_EXTRA"), ":"); name; name = strtok(NULL, ":")) {
      char *slash = strchr(name, '/');
      if (slash) {
        snprintf(path, sizeof path, "%s/%.*s", dir, (int) (slash - name), name);
        mkdir(path, 0777);
      }
      snprintf(path, sizeof path, "%s/%s", dir, name);
      f = fopen(path, "w");
      fprintf(f, "# Format: McCode with text headers\n# type: array_0d\n# component: mon\n# filename: %s\n# variables: I I_err N\n%ld 1 %d\n", name, n, (int) strlen(name));
      fclose(f);
    }
  }
  if (getenv("VERIF_PRINT")) printf("run %ld\n", n);
  return 0;
}
