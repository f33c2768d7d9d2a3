// The participant interface through the C++, C and Fortran bindings.
#pragma once
#include <memory>
#include <string>
#include <vector>

#include <precice/precice.hpp>
#ifndef NO_BINDINGS
#include <precice/preciceC.h>
#include <precice/preciceFortran.hpp>
#endif

using Ints = std::vector<int>;
using Dbls = std::vector<double>;
using Str  = std::string;

struct Api {
  virtual ~Api()                                                                                  = default;
  virtual void   initialize()                                                                     = 0;
  virtual void   advance(double dt)                                                               = 0;
  virtual void   finalize()                                                                       = 0;
  virtual int    getMeshDimensions(const Str &m)                                                  = 0;
  virtual int    getDataDimensions(const Str &m, const Str &d)                                    = 0;
  virtual bool   isCouplingOngoing()                                                              = 0;
  virtual bool   isTimeWindowComplete()                                                           = 0;
  virtual double getMaxTimeStepSize()                                                             = 0;
  virtual bool   requiresInitialData()                                                            = 0;
  virtual bool   requiresReadingCheckpoint()                                                      = 0;
  virtual bool   requiresWritingCheckpoint()                                                      = 0;
  virtual bool   requiresMeshConnectivityFor(const Str &m)                                        = 0;
  virtual bool   requiresGradientDataFor(const Str &m, const Str &d)                              = 0;
  virtual void   resetMesh(const Str &m)                                                          = 0;
  virtual int    setMeshVertex(const Str &m, const Dbls &c)                                       = 0;
  virtual int    getMeshVertexSize(const Str &m)                                                  = 0;
  virtual void   setMeshVertices(const Str &m, const Dbls &c, Ints &ids)                          = 0;
  virtual void   setMeshEdge(const Str &m, int a, int b)                                          = 0;
  virtual void   setMeshTriangle(const Str &m, int a, int b, int c)                               = 0;
  virtual void   setMeshQuad(const Str &m, int a, int b, int c, int d)                            = 0;
  virtual void   setMeshTetrahedron(const Str &m, int a, int b, int c, int d)                     = 0;
  virtual void   setMeshEdges(const Str &m, const Ints &ids)                                      = 0;
  virtual void   setMeshTriangles(const Str &m, const Ints &ids)                                  = 0;
  virtual void   setMeshQuads(const Str &m, const Ints &ids)                                      = 0;
  virtual void   setMeshTetrahedra(const Str &m, const Ints &ids)                                 = 0;
  virtual void   writeData(const Str &m, const Str &d, const Ints &ids, const Dbls &v)            = 0;
  virtual void   readData(const Str &m, const Str &d, const Ints &ids, double t, Dbls &v)         = 0;
  virtual void   writeAndMapData(const Str &m, const Str &d, const Dbls &c, const Dbls &v)        = 0;
  virtual void   mapAndReadData(const Str &m, const Str &d, const Dbls &c, double t, Dbls &v)     = 0;
  virtual void   writeGradientData(const Str &m, const Str &d, const Ints &ids, const Dbls &v)    = 0;
  virtual void   setMeshAccessRegion(const Str &m, const Dbls &box)                               = 0;
  virtual void   getMeshVertexIDsAndCoordinates(const Str &m, Ints &ids, Dbls &c)                 = 0;
  virtual void   startProfilingSection(const Str &n)                                              = 0;
  virtual void   stopLastProfilingSection()                                                       = 0;
};

struct CppApi final : Api {
  precice::Participant p;
  CppApi(const Str &part, const Str &cfg, int r, int s) : p(part, cfg, r, s) {}
  void   initialize() override { p.initialize(); }
  void   advance(double dt) override { p.advance(dt); }
  void   finalize() override { p.finalize(); }
  int    getMeshDimensions(const Str &m) override { return p.getMeshDimensions(m); }
  int    getDataDimensions(const Str &m, const Str &d) override { return p.getDataDimensions(m, d); }
  bool   isCouplingOngoing() override { return p.isCouplingOngoing(); }
  bool   isTimeWindowComplete() override { return p.isTimeWindowComplete(); }
  double getMaxTimeStepSize() override { return p.getMaxTimeStepSize(); }
  bool   requiresInitialData() override { return p.requiresInitialData(); }
  bool   requiresReadingCheckpoint() override { return p.requiresReadingCheckpoint(); }
  bool   requiresWritingCheckpoint() override { return p.requiresWritingCheckpoint(); }
  bool   requiresMeshConnectivityFor(const Str &m) override { return p.requiresMeshConnectivityFor(m); }
  bool   requiresGradientDataFor(const Str &m, const Str &d) override { return p.requiresGradientDataFor(m, d); }
  void   resetMesh(const Str &m) override { p.resetMesh(m); }
  int    setMeshVertex(const Str &m, const Dbls &c) override { return p.setMeshVertex(m, c); }
  int    getMeshVertexSize(const Str &m) override { return p.getMeshVertexSize(m); }
  void   setMeshVertices(const Str &m, const Dbls &c, Ints &ids) override { p.setMeshVertices(m, c, ids); }
  void   setMeshEdge(const Str &m, int a, int b) override { p.setMeshEdge(m, a, b); }
  void   setMeshTriangle(const Str &m, int a, int b, int c) override { p.setMeshTriangle(m, a, b, c); }
  void   setMeshQuad(const Str &m, int a, int b, int c, int d) override { p.setMeshQuad(m, a, b, c, d); }
  void   setMeshTetrahedron(const Str &m, int a, int b, int c, int d) override { p.setMeshTetrahedron(m, a, b, c, d); }
  void   setMeshEdges(const Str &m, const Ints &i) override { p.setMeshEdges(m, i); }
  void   setMeshTriangles(const Str &m, const Ints &i) override { p.setMeshTriangles(m, i); }
  void   setMeshQuads(const Str &m, const Ints &i) override { p.setMeshQuads(m, i); }
  void   setMeshTetrahedra(const Str &m, const Ints &i) override { p.setMeshTetrahedra(m, i); }
  void   writeData(const Str &m, const Str &d, const Ints &i, const Dbls &v) override { p.writeData(m, d, i, v); }
  void   readData(const Str &m, const Str &d, const Ints &i, double t, Dbls &v) override { p.readData(m, d, i, t, v); }
  void   writeAndMapData(const Str &m, const Str &d, const Dbls &c, const Dbls &v) override { p.writeAndMapData(m, d, c, v); }
  void   mapAndReadData(const Str &m, const Str &d, const Dbls &c, double t, Dbls &v) override { p.mapAndReadData(m, d, c, t, v); }
  void   writeGradientData(const Str &m, const Str &d, const Ints &i, const Dbls &v) override { p.writeGradientData(m, d, i, v); }
  void   setMeshAccessRegion(const Str &m, const Dbls &b) override { p.setMeshAccessRegion(m, b); }
  void   getMeshVertexIDsAndCoordinates(const Str &m, Ints &i, Dbls &c) override { p.getMeshVertexIDsAndCoordinates(m, i, c); }
  void   startProfilingSection(const Str &n) override { p.startProfilingSection(n); }
  void   stopLastProfilingSection() override { p.stopLastProfilingSection(); }
};

#ifndef NO_BINDINGS
// The C functions take numbers of entities; sizes of the passed arrays are not checked by them.
struct CApi final : Api {
  CApi(const Str &part, const Str &cfg, int r, int s) { precicec_createParticipant(part.c_str(), cfg.c_str(), r, s); }
  static int n(size_t x) { return static_cast<int>(x); }
  int        dim(const Str &m) { return precicec_getMeshDimensions(m.c_str()); }
  void       initialize() override { precicec_initialize(); }
  void       advance(double dt) override { precicec_advance(dt); }
  void       finalize() override { precicec_finalize(); }
  int        getMeshDimensions(const Str &m) override { return precicec_getMeshDimensions(m.c_str()); }
  int        getDataDimensions(const Str &m, const Str &d) override { return precicec_getDataDimensions(m.c_str(), d.c_str()); }
  bool       isCouplingOngoing() override { return precicec_isCouplingOngoing(); }
  bool       isTimeWindowComplete() override { return precicec_isTimeWindowComplete(); }
  double     getMaxTimeStepSize() override { return precicec_getMaxTimeStepSize(); }
  bool       requiresInitialData() override { return precicec_requiresInitialData(); }
  bool       requiresReadingCheckpoint() override { return precicec_requiresReadingCheckpoint(); }
  bool       requiresWritingCheckpoint() override { return precicec_requiresWritingCheckpoint(); }
  bool       requiresMeshConnectivityFor(const Str &m) override { return precicec_requiresMeshConnectivityFor(m.c_str()); }
  bool       requiresGradientDataFor(const Str &m, const Str &d) override { return precicec_requiresGradientDataFor(m.c_str(), d.c_str()); }
  void       resetMesh(const Str &m) override { precicec_resetMesh(m.c_str()); }
  int        setMeshVertex(const Str &m, const Dbls &c) override { return precicec_setMeshVertex(m.c_str(), c.data()); }
  int        getMeshVertexSize(const Str &m) override { return precicec_getMeshVertexSize(m.c_str()); }
  void       setMeshVertices(const Str &m, const Dbls &c, Ints &ids) override { precicec_setMeshVertices(m.c_str(), n(ids.size()), c.data(), ids.data()); }
  void       setMeshEdge(const Str &m, int a, int b) override { precicec_setMeshEdge(m.c_str(), a, b); }
  void       setMeshTriangle(const Str &m, int a, int b, int c) override { precicec_setMeshTriangle(m.c_str(), a, b, c); }
  void       setMeshQuad(const Str &m, int a, int b, int c, int d) override { precicec_setMeshQuad(m.c_str(), a, b, c, d); }
  void       setMeshTetrahedron(const Str &m, int a, int b, int c, int d) override { precicec_setMeshTetrahedron(m.c_str(), a, b, c, d); }
  void       setMeshEdges(const Str &m, const Ints &i) override { precicec_setMeshEdges(m.c_str(), n(i.size() / 2), i.data()); }
  void       setMeshTriangles(const Str &m, const Ints &i) override { precicec_setMeshTriangles(m.c_str(), n(i.size() / 3), i.data()); }
  void       setMeshQuads(const Str &m, const Ints &i) override { precicec_setMeshQuads(m.c_str(), n(i.size() / 4), i.data()); }
  void       setMeshTetrahedra(const Str &m, const Ints &i) override { precicec_setMeshTetrahedra(m.c_str(), n(i.size() / 4), i.data()); }
  void       writeData(const Str &m, const Str &d, const Ints &i, const Dbls &v) override { precicec_writeData(m.c_str(), d.c_str(), n(i.size()), i.data(), v.data()); }
  void       readData(const Str &m, const Str &d, const Ints &i, double t, Dbls &v) override { precicec_readData(m.c_str(), d.c_str(), n(i.size()), i.data(), t, v.data()); }
  void       writeAndMapData(const Str &m, const Str &d, const Dbls &c, const Dbls &v) override { precicec_writeAndMapData(m.c_str(), d.c_str(), n(c.size() / dim(m)), c.data(), v.data()); }
  void       mapAndReadData(const Str &m, const Str &d, const Dbls &c, double t, Dbls &v) override { precicec_mapAndReadData(m.c_str(), d.c_str(), n(c.size() / dim(m)), c.data(), t, v.data()); }
  void       writeGradientData(const Str &m, const Str &d, const Ints &i, const Dbls &v) override { precicec_writeGradientData(m.c_str(), d.c_str(), n(i.size()), i.data(), v.data()); }
  void       setMeshAccessRegion(const Str &m, const Dbls &b) override { precicec_setMeshAccessRegion(m.c_str(), b.data()); }
  void       getMeshVertexIDsAndCoordinates(const Str &m, Ints &i, Dbls &c) override { precicec_getMeshVertexIDsAndCoordinates(m.c_str(), n(i.size()), i.data(), c.data()); }
  void       startProfilingSection(const Str &s) override { precicec_startProfilingSection(s.c_str()); }
  void       stopLastProfilingSection() override { precicec_stopLastProfilingSection(); }
};

// Fortran passes everything by reference and names padded with blanks.
struct FApi final : Api {
  struct S {
    Str s;
    explicit S(const Str &x) : s(x) { s.resize(x.size() + 7, ' '); }
    const char *p() const { return s.data(); }
    int         l() const { return static_cast<int>(s.size()); }
  };
  static int n(size_t x) { return static_cast<int>(x); }
  int        dim(const Str &m) { return getMeshDimensions(m); }
  FApi(const Str &part, const Str &cfg, int r, int s)
  {
    S a(part), b(cfg);
    precicef_create_(a.p(), b.p(), &r, &s, a.l(), b.l());
  }
  void initialize() override { precicef_initialize_(); }
  void advance(double dt) override { precicef_advance_(&dt); }
  void finalize() override { precicef_finalize_(); }
  int  getMeshDimensions(const Str &m) override
  {
    S   a(m);
    int r = -99;
    precicef_get_mesh_dimensions_(a.p(), &r, a.l());
    return r;
  }
  int getDataDimensions(const Str &m, const Str &d) override
  {
    S   a(m), b(d);
    int r = -99;
    precicef_get_data_dimensions_(a.p(), b.p(), &r, a.l(), b.l());
    return r;
  }
  bool isCouplingOngoing() override
  {
    int r = -99;
    precicef_is_coupling_ongoing_(&r);
    return r;
  }
  bool isTimeWindowComplete() override
  {
    int r = -99;
    precicef_is_time_window_complete_(&r);
    return r;
  }
  double getMaxTimeStepSize() override
  {
    double r = -99;
    precicef_get_max_time_step_size_(&r);
    return r;
  }
  bool requiresInitialData() override
  {
    int r = -99;
    precicef_requires_initial_data_(&r);
    return r;
  }
  bool requiresReadingCheckpoint() override
  {
    int r = -99;
    precicef_requires_reading_checkpoint_(&r);
    return r;
  }
  bool requiresWritingCheckpoint() override
  {
    int r = -99;
    precicef_requires_writing_checkpoint_(&r);
    return r;
  }
  bool requiresMeshConnectivityFor(const Str &m) override
  {
    S   a(m);
    int r = -99;
    precicef_requires_mesh_connectivity_for_(a.p(), &r, a.l());
    return r;
  }
  bool requiresGradientDataFor(const Str &m, const Str &d) override
  {
    S   a(m), b(d);
    int r = -99;
    precicef_requires_gradient_data_for_(a.p(), b.p(), &r, a.l(), b.l());
    return r;
  }
  void resetMesh(const Str &m) override
  {
    S a(m);
    precicef_reset_mesh_(a.p(), a.l());
  }
  int setMeshVertex(const Str &m, const Dbls &c) override
  {
    S   a(m);
    int r = -99;
    precicef_set_mesh_vertex_(a.p(), c.data(), &r, a.l());
    return r;
  }
  int getMeshVertexSize(const Str &m) override
  {
    S   a(m);
    int r = -99;
    precicef_get_mesh_vertex_size_(a.p(), &r, a.l());
    return r;
  }
  void setMeshVertices(const Str &m, const Dbls &c, Ints &ids) override
  {
    S   a(m);
    int s = n(ids.size());
    precicef_set_mesh_vertices_(a.p(), &s, const_cast<double *>(c.data()), ids.data(), a.l());
  }
  void setMeshEdge(const Str &m, int x, int y) override
  {
    S a(m);
    precicef_set_mesh_edge_(a.p(), &x, &y, a.l());
  }
  void setMeshTriangle(const Str &m, int x, int y, int z) override
  {
    S a(m);
    precicef_set_mesh_triangle_(a.p(), &x, &y, &z, a.l());
  }
  void setMeshQuad(const Str &m, int x, int y, int z, int w) override
  {
    S a(m);
    precicef_set_mesh_quad_(a.p(), &x, &y, &z, &w, a.l());
  }
  void setMeshTetrahedron(const Str &m, int x, int y, int z, int w) override
  {
    S a(m);
    precicef_set_mesh_tetrahedron_(a.p(), &x, &y, &z, &w, a.l());
  }
  void setMeshEdges(const Str &m, const Ints &i) override
  {
    S   a(m);
    int s = n(i.size() / 2);
    precicef_set_mesh_edges_(a.p(), &s, i.data(), a.l());
  }
  void setMeshTriangles(const Str &m, const Ints &i) override
  {
    S   a(m);
    int s = n(i.size() / 3);
    precicef_set_mesh_triangles_(a.p(), &s, i.data(), a.l());
  }
  void setMeshQuads(const Str &m, const Ints &i) override
  {
    S   a(m);
    int s = n(i.size() / 4);
    precicef_set_mesh_quads_(a.p(), &s, i.data(), a.l());
  }
  void setMeshTetrahedra(const Str &m, const Ints &i) override
  {
    S   a(m);
    int s = n(i.size() / 4);
    precicef_set_mesh_tetrahedra_(a.p(), &s, i.data(), a.l());
  }
  void writeData(const Str &m, const Str &d, const Ints &i, const Dbls &v) override
  {
    S   a(m), b(d);
    int s = n(i.size());
    precicef_write_data_(a.p(), b.p(), &s, const_cast<int *>(i.data()), const_cast<double *>(v.data()), a.l(), b.l());
  }
  void readData(const Str &m, const Str &d, const Ints &i, double t, Dbls &v) override
  {
    S   a(m), b(d);
    int s = n(i.size());
    precicef_read_data_(a.p(), b.p(), &s, const_cast<int *>(i.data()), &t, v.data(), a.l(), b.l());
  }
  void writeAndMapData(const Str &m, const Str &d, const Dbls &c, const Dbls &v) override
  {
    S   a(m), b(d);
    int s = n(c.size() / dim(m));
    precicef_write_and_map_data_(a.p(), b.p(), &s, const_cast<double *>(c.data()), const_cast<double *>(v.data()), a.l(), b.l());
  }
  void mapAndReadData(const Str &m, const Str &d, const Dbls &c, double t, Dbls &v) override
  {
    S   a(m), b(d);
    int s = n(c.size() / dim(m));
    precicef_map_and_read_data_(a.p(), b.p(), &s, const_cast<double *>(c.data()), &t, v.data(), a.l(), b.l());
  }
  void writeGradientData(const Str &m, const Str &d, const Ints &i, const Dbls &v) override
  {
    S   a(m), b(d);
    int s = n(i.size());
    precicef_write_gradient_data_(a.p(), b.p(), &s, i.data(), v.data(), a.l(), b.l());
  }
  void setMeshAccessRegion(const Str &m, const Dbls &box) override
  {
    S a(m);
    precicef_set_mesh_access_region_(a.p(), box.data(), a.l());
  }
  void getMeshVertexIDsAndCoordinates(const Str &m, Ints &i, Dbls &c) override
  {
    S   a(m);
    int s = n(i.size());
    precicef_get_mesh_vertex_ids_and_coordinates_(a.p(), &s, i.data(), c.data(), a.l());
  }
  void startProfilingSection(const Str &x) override
  {
    S a(x);
    precicef_start_profiling_section_(a.p(), a.l());
  }
  void stopLastProfilingSection() override { precicef_stop_last_profiling_section_(); }
};
#endif

inline std::unique_ptr<Api> makeApi(const Str &backend, const Str &part, const Str &cfg, int rank, int size)
{
#ifndef NO_BINDINGS
  if (backend == "c")
    return std::make_unique<CApi>(part, cfg, rank, size);
  if (backend == "f")
    return std::make_unique<FApi>(part, cfg, rank, size);
#endif
  return std::make_unique<CppApi>(part, cfg, rank, size);
}
