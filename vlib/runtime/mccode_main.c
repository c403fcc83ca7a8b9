static void verif_bytes(const char *s) {
  for (; *s; s++) printf("%02x", (unsigned char) *s);
  printf(" ");
}
int mccode_main(int argc, char *argv[]) {
  unsigned long long n = 1;
  unsigned long seed = 1;
  setvbuf(stdout, NULL, _IOFBF, 1 << 16);
  printf("@name "); verif_bytes(instrument_name); printf("\n@source "); verif_bytes(instrument_source);
  printf("\n@code "); verif_bytes(instrument_code); printf("\n");
  for (int i = 0; i < numipar; i++) {
    printf("@par %s %d ", mcinputtable[i].name, (int) mcinputtable[i].type);
    printf("v"); verif_bytes(mcinputtable[i].val); printf("u"); verif_bytes(mcinputtable[i].unit); printf("\n");
  }
  if (mcinputtable[numipar].name) printf("@par (unterminated)\n");
  for (int i = 0; i < num_metadata; i++) {
    printf("@meta s"); verif_bytes(metadata_table[i].source); printf("n"); verif_bytes(metadata_table[i].name);
    printf("t"); verif_bytes(metadata_table[i].type); printf("v"); verif_bytes(metadata_table[i].value); printf("\n");
  }
  for (int j = 0; j < numipar; j++) { /* defaults, read as strictly as values on the command line */
    char *v = mcinputtable[j].val, *e = NULL;
    if (!v || !*v) continue;
    switch (mcinputtable[j].type) {
      case instr_type_double: *(double *) mcinputtable[j].par = strtod(v, &e); break;
      case instr_type_int: *(int *) mcinputtable[j].par = (int) strtol(v, &e, 10); break;
      case instr_type_string: *(char **) mcinputtable[j].par = v; break;
      default: printf("@bad type %d\n", (int) mcinputtable[j].type);
    }
    if (e && *e) printf("@baddefault %s\n", mcinputtable[j].name);
  }
  for (int i = 1; i < argc; i++) {
    char *e = strchr(argv[i], '=');
    if (!strncmp(argv[i], "-n", 2)) { n = strtoull(argv[i] + 2, NULL, 10); continue; }
    if (!strncmp(argv[i], "-s", 2)) { seed = strtoul(argv[i] + 2, NULL, 10); continue; }
    if (!strcmp(argv[i], "-t")) { mcdotrace = 1; continue; }
    if (!strcmp(argv[i], "-p")) { verif_show_placed = 1; continue; }
    if (!e) continue;
    for (int j = 0; j < numipar; j++)
      if (strlen(mcinputtable[j].name) == (size_t)(e - argv[i]) && !strncmp(mcinputtable[j].name, argv[i], e - argv[i])) {
        switch (mcinputtable[j].type) {
          case instr_type_double: *(double *) mcinputtable[j].par = strtod(e + 1, NULL); break;
          case instr_type_int: *(int *) mcinputtable[j].par = (int) strtol(e + 1, NULL, 10); break;
          case instr_type_string: *(char **) mcinputtable[j].par = e + 1; break;
          default: printf("@bad type %d\n", (int) mcinputtable[j].type);
        }
      }
  }
  init();
  printf("@start\n");
#ifdef FUNNEL
  raytrace_all_funnel(n, seed);
#else
  raytrace_all(n, seed);
#endif
  printf("@end\n");
  finally();
  printf("@done %d\n", verif_siminfo);
  return 0;
}
