// A solver that takes part in whatever coupling the configuration describes.
#pragma once
#include <algorithm>
#include <cmath>
#include <istream>
#include <map>
#include <set>

#include "api.hpp"

namespace drive {

// Vertices of a mesh: a wavy grid on the unit square, different for every mesh name.
inline Dbls grid(const Str &mesh, int dim, int &nx, int &ny)
{
  int seed = 0;
  for (char c : mesh)
    seed += c;
  nx = 4 + seed % 3;
  ny = 4 + seed % 2;
  Dbls c;
  for (int j = 0; j < ny; ++j)
    for (int i = 0; i < nx; ++i) {
      const double x = i / (nx - 1.0), y = j / (ny - 1.0);
      c.push_back(x + 0.05 * std::sin(3 * y + seed));
      c.push_back(y + 0.05 * std::cos(2 * x + seed));
      if (dim == 3)
        c.push_back(0.2 * std::sin(x + 2 * y));
    }
  return c;
}

struct Mesh {
  Str  name, kind; // own, access or jit
  int  dim = 0;
  Ints ids;
  Dbls coords;
};

struct Item {
  Str mesh, data;
};

struct Result {
  int    calls = 0, rejected = 0;
  double time = 0, sum = 0, last = 0;
  bool   capped = false;
};

// loop: cap, meshes (name kind), writes (mesh data), reads (mesh data)
inline Result loop(Api &p, std::istream &is)
{
  int cap, n;
  is >> cap >> n;
  std::map<Str, Mesh> meshes;
  while (n-- > 0) {
    Mesh m;
    is >> m.name >> m.kind;
    m.dim = p.getMeshDimensions(m.name);
    if (m.kind == "own") {
      int nx, ny;
      m.coords = grid(m.name, m.dim, nx, ny);
      m.ids.resize(m.coords.size() / m.dim);
      p.setMeshVertices(m.name, m.coords, m.ids);
      Ints tri;
      for (int j = 0; j + 1 < ny; ++j)
        for (int i = 0; i + 1 < nx; ++i)
          for (int k : {0, 1, nx, 1, nx, nx + 1})
            tri.push_back(m.ids[j * nx + i + k]);
      if (p.requiresMeshConnectivityFor(m.name))
        p.setMeshTriangles(m.name, tri);
    } else {
      Dbls box;
      for (int k = 0; k < m.dim; ++k) {
        box.push_back(-2);
        box.push_back(2);
      }
      p.setMeshAccessRegion(m.name, box);
      m.coords = {0.2, 0.3, 0.7, 0.9};
      if (m.dim == 3)
        m.coords = {0.2, 0.3, 0.1, 0.7, 0.9, 0.1};
    }
    meshes[m.name] = m;
  }
  std::vector<Item> writes, reads;
  for (auto *v : {&writes, &reads}) {
    is >> n;
    while (n-- > 0) {
      Item x;
      is >> x.mesh >> x.data;
      v->push_back(x);
    }
  }
  Result r;
  double mean  = 0;
  auto   write = [&](double t) {
    for (auto &x : writes) {
      auto     &m  = meshes.at(x.mesh);
      if (m.kind == "access" && m.ids.empty()) // not known before initialize
        continue;
      const int dd = p.getDataDimensions(x.mesh, x.data);
      Dbls      v;
      for (size_t i = 0; i < m.coords.size() / m.dim; ++i)
        for (int k = 0; k < dd; ++k)
          v.push_back((k + 1) * (1 + m.coords[i * m.dim] - 0.5 * m.coords[i * m.dim + 1]) + 0.3 * t + 0.2 * mean);
      if (m.kind == "jit")
        p.writeAndMapData(x.mesh, x.data, m.coords, v);
      else
        p.writeData(x.mesh, x.data, m.ids, v);
      if (m.kind != "jit" && p.requiresGradientDataFor(x.mesh, x.data)) {
        Dbls g;
        for (size_t i = 0; i < m.ids.size(); ++i)
          for (int d = 0; d < m.dim; ++d)
            for (int k = 0; k < dd; ++k)
              g.push_back((k + 1) * (d == 0 ? 1 : d == 1 ? -0.5
                                                         : 0));
        p.writeGradientData(x.mesh, x.data, m.ids, g);
      }
    }
  };
  auto read = [&](double t) {
    double s = 0;
    size_t c = 0;
    for (auto &x : reads) {
      auto &m = meshes.at(x.mesh);
      Dbls  v(m.coords.size() / m.dim * p.getDataDimensions(x.mesh, x.data), -777.0);
      if (m.kind == "jit")
        p.mapAndReadData(x.mesh, x.data, m.coords, t, v);
      else
        p.readData(x.mesh, x.data, m.ids, t, v);
      for (size_t i = 0; i < v.size(); ++i) {
        s += v[i];
        r.sum += v[i] * (1 + i % 7);
        ++c;
      }
    }
    mean = c ? s / c : 0;
  };
  if (p.requiresInitialData()) {
    write(0);
  }
  p.initialize();
  for (auto &[name, m] : meshes)
    if (m.kind == "access") {
      m.ids.resize(p.getMeshVertexSize(name));
      m.coords.assign(m.ids.size() * m.dim, 0);
      p.getMeshVertexIDsAndCoordinates(name, m.ids, m.coords);
    }
  double t = 0, saved = 0;
  while (p.isCouplingOngoing()) {
    if (r.calls == cap) {
      r.capped = true;
      return r;
    }
    if (p.requiresWritingCheckpoint())
      saved = t;
    read(0);
    const double dt = std::min(p.getMaxTimeStepSize(), 0.7);
    t += dt;
    write(t);
    p.advance(dt);
    ++r.calls;
    if (p.requiresReadingCheckpoint()) {
      t = saved;
      ++r.rejected;
    }
    read(p.isCouplingOngoing() ? p.getMaxTimeStepSize() : 0);
  }
  r.time = t;
  r.last = mean;
  return r;
}

} // namespace drive
