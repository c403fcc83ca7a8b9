extern int mcdotrace, numgangs, vecsize;
extern long gpu_innerloop;
extern FILE *siminfo_file;
extern char instrument_name[];
void siminfo_init(FILE *);
void siminfo_close(void);
void mcset_ncount(unsigned long long);
long sort_absorb_last(_class_particle *, _class_particle *, long, long, long, long *);
void mcdis_magnify(const char *), mcdis_line(double, double, double, double, double, double);
#define VERIF_MCXTRACE 1
#define DEBUG_STATE() if (!mcdotrace); else printf("@STATE %lld %.15g %.15g %.15g %.15g %.15g %.15g %.15g %.15g\n", _particle->_uid, x, y, z, kx, ky, kz, t, p);
