_class_particle mcsetstate(double x, double y, double z, double kx, double ky, double kz, double phi, double t, double Ex, double Ey, double Ez,
                           double p, int mcgravitation, void *mcMagnet, int mcallowbackprop) {
  _class_particle m;
  memset(&m, 0, sizeof(m));
  memset(&m._logic, 0x11, sizeof(m._logic));  /* the counters of JUMPs are not set here */
  m.x = x; m.y = y; m.z = z; m.kx = kx; m.ky = ky; m.kz = kz; m.phi = phi; m.t = t; m.Ex = Ex; m.Ey = Ey; m.Ez = Ez; m.p = p;
  m._index = 1;
  return m;
}
void mccoordschange(Coords a, Rotation t, _class_particle *m) {
  Coords b = coords_add(rot_apply(t, coords_set(m->x, m->y, m->z)), a);
  m->x = b.x; m->y = b.y; m->z = b.z;
  b = rot_apply(t, coords_set(m->kx, m->ky, m->kz));
  m->kx = b.x; m->ky = b.y; m->kz = b.z;
  b = rot_apply(t, coords_set(m->Ex, m->Ey, m->Ez));
  m->Ex = b.x; m->Ey = b.y; m->Ez = b.z;
}
