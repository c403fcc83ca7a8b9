int mcgravitation = 0;
int mcdotrace = 0, numgangs = 7813, vecsize = 128;
long gpu_innerloop = 2147483647;
FILE *siminfo_file = NULL;
static int verif_siminfo = 0;
void siminfo_init(FILE *f) { verif_siminfo++; siminfo_file = stdout; }
void siminfo_close(void) { verif_siminfo--; }
void verif_message(const char *m) { (void) m; }
static int verif_show_placed = 0;
void verif_placed(const char *name, Coords c, Rotation t) {
  if (!verif_show_placed) return;
  printf("@placed %s %.17g %.17g %.17g", name, c.x, c.y, c.z);
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) printf(" %.17g", t[i][j]);
  printf("\n");
}
unsigned long _hash(unsigned long x) { return x * 2654435761UL + 12345; }
Coords coords_set(MCNUM x, MCNUM y, MCNUM z) { Coords a; a.x = x; a.y = y; a.z = z; return a; }
Coords coords_get(Coords a, MCNUM *x, MCNUM *y, MCNUM *z) { *x = a.x; *y = a.y; *z = a.z; return a; }
Coords coords_add(Coords a, Coords b) { return coords_set(a.x + b.x, a.y + b.y, a.z + b.z); }
Coords coords_sub(Coords a, Coords b) { return coords_set(a.x - b.x, a.y - b.y, a.z - b.z); }
Coords coords_neg(Coords a) { return coords_set(-a.x, -a.y, -a.z); }
double coords_len(Coords a) { return sqrt(a.x*a.x + a.y*a.y + a.z*a.z); }
int coords_test_zero(Coords a) { return a.x == 0 && a.y == 0 && a.z == 0; }
/* rotations as in McCode: about x, then y, then z */
void rot_set_rotation(Rotation t, double phx, double phy, double phz) {
  if (phx == 0 && phy == 0 && phz == 0) {
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) t[i][j] = i == j;
    return;
  }
  double cx = cos(phx), sx = sin(phx), cy = cos(phy), sy = sin(phy), cz = cos(phz), sz = sin(phz);
  t[0][0] = cy*cz;
  t[0][1] = sx*sy*cz + cx*sz;
  t[0][2] = sx*sz - cx*sy*cz;
  t[1][0] = -cy*sz;
  t[1][1] = cx*cz - sx*sy*sz;
  t[1][2] = sx*cz + cx*sy*sz;
  t[2][0] = sy;
  t[2][1] = -sx*cy;
  t[2][2] = cx*cy;
}
int rot_test_identity(Rotation t) { return t[0][0] + t[1][1] + t[2][2] == 3; }
void rot_mul(Rotation a, Rotation b, Rotation r) {
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = a[i][0]*b[0][j] + a[i][1]*b[1][j] + a[i][2]*b[2][j];
}
void rot_copy(Rotation d, Rotation s) { memcpy(d, s, sizeof(Rotation)); }
void rot_transpose(Rotation s, Rotation d) {
  Rotation c;
  memcpy(c, s, sizeof(Rotation));
  for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) d[i][j] = c[j][i];
}
Coords rot_apply(Rotation t, Coords a) {
  return coords_set(t[0][0]*a.x + t[0][1]*a.y + t[0][2]*a.z, t[1][0]*a.x + t[1][1]*a.y + t[1][2]*a.z,
                    t[2][0]*a.x + t[2][1]*a.y + t[2][2]*a.z);
}
static unsigned long long verif_ncount = 1;
void mcset_ncount(unsigned long long n) { verif_ncount = n; }
/* the particles which are not absorbed come first; there is no multiplication */
long sort_absorb_last(_class_particle *a, _class_particle *b, long len, long buffer, long flag, long *mult) {
  long n = 0;
  for (long i = 0; i < len; i++) if (!a[i]._absorbed) b[n++] = a[i];
  long m = n;
  for (long i = 0; i < len; i++) if (a[i]._absorbed) b[m++] = a[i];
  memcpy(a, b, len * sizeof(_class_particle));
  if (mult) *mult = 1;
  return n;
}
void mcdis_magnify(const char *s) { (void) s; }
void mcdis_line(double a, double b, double c, double d, double e, double f) {
  printf("MCDISPLAY: line %g,%g,%g,%g,%g,%g\n", a, b, c, d, e, f);
}
