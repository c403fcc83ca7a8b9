_class_particle mcsetstate(double x, double y, double z, double vx, double vy, double vz, double t, double sx, double sy, double sz,
                           double p, int mcgravitation, void *mcMagnet, int mcallowbackprop) {
  _class_particle m;
  memset(&m, 0, sizeof(m));
  memset(&m._logic, 0x11, sizeof(m._logic));  /* the counters of JUMPs are not set here */
  m.x = x; m.y = y; m.z = z; m.vx = vx; m.vy = vy; m.vz = vz; m.t = t; m.sx = sx; m.sy = sy; m.sz = sz; m.p = p;
  m.mcgravitation = mcgravitation; m.mcMagnet = mcMagnet; m.allow_backprop = mcallowbackprop;
  m._index = 1;
  return m;
}
void mccoordschange(Coords a, Rotation t, _class_particle *m) {
  Coords b = coords_add(rot_apply(t, coords_set(m->x, m->y, m->z)), a);
  m->x = b.x; m->y = b.y; m->z = b.z;
  b = rot_apply(t, coords_set(m->vx, m->vy, m->vz));
  m->vx = b.x; m->vy = b.y; m->vz = b.z;
  b = rot_apply(t, coords_set(m->sx, m->sy, m->sz));
  m->sx = b.x; m->sy = b.y; m->sz = b.z;
}
