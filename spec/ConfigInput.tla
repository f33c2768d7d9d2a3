---------------------------- MODULE ConfigInput ----------------------------
(* Written by tools/mkconfigs.py from configs/*.xml and Schema.tla.           *)
EXTENDS TLC, Integers, Sequences

Templates == [
aitken |-> <<
  [tag |-> "precice-configuration", up |-> 0, at |-> <<>>],
  [tag |-> "profiling", up |-> 1, at |-> ("mode" :> "off")],
  [tag |-> "data:vector", up |-> 1, at |-> ("name" :> "DA")],
  [tag |-> "data:scalar", up |-> 1, at |-> ("name" :> "DB" @@ "waveform-degree" :> "2")],
  [tag |-> "mesh", up |-> 1, at |-> ("name" :> "MA" @@ "dimensions" :> "2")],
  [tag |-> "use-data", up |-> 5, at |-> ("name" :> "DA")],
  [tag |-> "use-data", up |-> 5, at |-> ("name" :> "DB")],
  [tag |-> "mesh", up |-> 1, at |-> ("name" :> "MB" @@ "dimensions" :> "2")],
  [tag |-> "use-data", up |-> 8, at |-> ("name" :> "DA")],
  [tag |-> "use-data", up |-> 8, at |-> ("name" :> "DB")],
  [tag |-> "m2n:sockets", up |-> 1, at |-> ("acceptor" :> "B" @@ "connector" :> "A")],
  [tag |-> "participant", up |-> 1, at |-> ("name" :> "A")],
  [tag |-> "provide-mesh", up |-> 12, at |-> ("name" :> "MA")],
  [tag |-> "receive-mesh", up |-> 12, at |-> ("name" :> "MB" @@ "from" :> "B" @@ "geometric-filter" :> "no-filter")],
  [tag |-> "write-data", up |-> 12, at |-> ("name" :> "DA" @@ "mesh" :> "MA")],
  [tag |-> "read-data", up |-> 12, at |-> ("name" :> "DB" @@ "mesh" :> "MA")],
  [tag |-> "mapping:nearest-projection", up |-> 12, at |-> ("direction" :> "write" @@ "from" :> "MA" @@ "to" :> "MB" @@ "constraint" :> "scaled-consistent-surface")],
  [tag |-> "mapping:linear-cell-interpolation", up |-> 12, at |-> ("direction" :> "read" @@ "from" :> "MB" @@ "to" :> "MA" @@ "constraint" :> "consistent")],
  [tag |-> "participant", up |-> 1, at |-> ("name" :> "B")],
  [tag |-> "provide-mesh", up |-> 19, at |-> ("name" :> "MB")],
  [tag |-> "write-data", up |-> 19, at |-> ("name" :> "DB" @@ "mesh" :> "MB")],
  [tag |-> "read-data", up |-> 19, at |-> ("name" :> "DA" @@ "mesh" :> "MB")],
  [tag |-> "export:vtu", up |-> 19, at |-> ("every-iteration" :> "true")],
  [tag |-> "action:summation", up |-> 19, at |-> ("timing" :> "read-mapping-post" @@ "mesh" :> "MB")],
  [tag |-> "source-data", up |-> 24, at |-> ("name" :> "DB")],
  [tag |-> "target-data", up |-> 24, at |-> ("name" :> "DB")],
  [tag |-> "coupling-scheme:serial-implicit", up |-> 1, at |-> <<>>],
  [tag |-> "participants", up |-> 27, at |-> ("first" :> "A" @@ "second" :> "B")],
  [tag |-> "max-time", up |-> 27, at |-> ("value" :> "1")],
  [tag |-> "time-window-size", up |-> 27, at |-> ("value" :> "0.5")],
  [tag |-> "exchange", up |-> 27, at |-> ("data" :> "DA" @@ "mesh" :> "MB" @@ "from" :> "A" @@ "to" :> "B")],
  [tag |-> "exchange", up |-> 27, at |-> ("data" :> "DB" @@ "mesh" :> "MB" @@ "from" :> "B" @@ "to" :> "A" @@ "substeps" :> "true")],
  [tag |-> "max-iterations", up |-> 27, at |-> ("value" :> "3")],
  [tag |-> "absolute-convergence-measure", up |-> 27, at |-> ("limit" :> "0.01" @@ "data" :> "DB" @@ "mesh" :> "MB")],
  [tag |-> "absolute-or-relative-convergence-measure", up |-> 27, at |-> ("abs-limit" :> "0.01" @@ "rel-limit" :> "0.1" @@ "data" :> "DA" @@ "mesh" :> "MB")],
  [tag |-> "acceleration:aitken", up |-> 27, at |-> <<>>],
  [tag |-> "data", up |-> 36, at |-> ("name" :> "DB" @@ "mesh" :> "MB")],
  [tag |-> "initial-relaxation", up |-> 36, at |-> ("value" :> "0.4")]>>,
chain |-> <<
  [tag |-> "precice-configuration", up |-> 0, at |-> <<>>],
  [tag |-> "profiling", up |-> 1, at |-> ("mode" :> "off")],
  [tag |-> "data:scalar", up |-> 1, at |-> ("name" :> "DA")],
  [tag |-> "data:scalar", up |-> 1, at |-> ("name" :> "DB")],
  [tag |-> "data:scalar", up |-> 1, at |-> ("name" :> "DC" @@ "waveform-degree" :> "0")],
  [tag |-> "mesh", up |-> 1, at |-> ("name" :> "MA" @@ "dimensions" :> "2")],
  [tag |-> "use-data", up |-> 6, at |-> ("name" :> "DA")],
  [tag |-> "use-data", up |-> 6, at |-> ("name" :> "DB")],
  [tag |-> "mesh", up |-> 1, at |-> ("name" :> "MB" @@ "dimensions" :> "2")],
  [tag |-> "use-data", up |-> 9, at |-> ("name" :> "DA")],
  [tag |-> "use-data", up |-> 9, at |-> ("name" :> "DB")],
  [tag |-> "use-data", up |-> 9, at |-> ("name" :> "DC")],
  [tag |-> "mesh", up |-> 1, at |-> ("name" :> "MC" @@ "dimensions" :> "2")],
  [tag |-> "use-data", up |-> 13, at |-> ("name" :> "DC")],
  [tag |-> "m2n:sockets", up |-> 1, at |-> ("acceptor" :> "A" @@ "connector" :> "B")],
  [tag |-> "m2n:sockets", up |-> 1, at |-> ("acceptor" :> "B" @@ "connector" :> "C")],
  [tag |-> "participant", up |-> 1, at |-> ("name" :> "A")],
  [tag |-> "provide-mesh", up |-> 17, at |-> ("name" :> "MA")],
  [tag |-> "receive-mesh", up |-> 17, at |-> ("name" :> "MB" @@ "from" :> "B")],
  [tag |-> "write-data", up |-> 17, at |-> ("name" :> "DA" @@ "mesh" :> "MA")],
  [tag |-> "read-data", up |-> 17, at |-> ("name" :> "DB" @@ "mesh" :> "MA")],
  [tag |-> "mapping:nearest-neighbor", up |-> 17, at |-> ("direction" :> "read" @@ "from" :> "MB" @@ "to" :> "MA" @@ "constraint" :> "consistent")],
  [tag |-> "mapping:nearest-neighbor", up |-> 17, at |-> ("direction" :> "write" @@ "from" :> "MA" @@ "to" :> "MB" @@ "constraint" :> "conservative")],
  [tag |-> "participant", up |-> 1, at |-> ("name" :> "B")],
  [tag |-> "provide-mesh", up |-> 24, at |-> ("name" :> "MB")],
  [tag |-> "write-data", up |-> 24, at |-> ("name" :> "DB" @@ "mesh" :> "MB")],
  [tag |-> "write-data", up |-> 24, at |-> ("name" :> "DC" @@ "mesh" :> "MB")],
  [tag |-> "read-data", up |-> 24, at |-> ("name" :> "DA" @@ "mesh" :> "MB")],
  [tag |-> "participant", up |-> 1, at |-> ("name" :> "C")],
  [tag |-> "provide-mesh", up |-> 29, at |-> ("name" :> "MC")],
  [tag |-> "receive-mesh", up |-> 29, at |-> ("name" :> "MB" @@ "from" :> "B")],
  [tag |-> "read-data", up |-> 29, at |-> ("name" :> "DC" @@ "mesh" :> "MC")],
  [tag |-> "mapping:nearest-neighbor", up |-> 29, at |-> ("direction" :> "read" @@ "from" :> "MB" @@ "to" :> "MC" @@ "constraint" :> "consistent")],
  [tag |-> "coupling-scheme:parallel-implicit", up |-> 1, at |-> <<>>],
  [tag |-> "participants", up |-> 34, at |-> ("first" :> "A" @@ "second" :> "B")],
  [tag |-> "max-time-windows", up |-> 34, at |-> ("value" :> "2")],
  [tag |-> "time-window-size", up |-> 34, at |-> ("value" :> "1")],
  [tag |-> "exchange", up |-> 34, at |-> ("data" :> "DA" @@ "mesh" :> "MB" @@ "from" :> "A" @@ "to" :> "B")],
  [tag |-> "exchange", up |-> 34, at |-> ("data" :> "DB" @@ "mesh" :> "MB" @@ "from" :> "B" @@ "to" :> "A")],
  [tag |-> "max-iterations", up |-> 34, at |-> ("value" :> "2")],
  [tag |-> "coupling-scheme:parallel-explicit", up |-> 1, at |-> <<>>],
  [tag |-> "participants", up |-> 41, at |-> ("first" :> "B" @@ "second" :> "C")],
  [tag |-> "max-time-windows", up |-> 41, at |-> ("value" :> "2")],
  [tag |-> "time-window-size", up |-> 41, at |-> ("value" :> "1")],
  [tag |-> "exchange", up |-> 41, at |-> ("data" :> "DC" @@ "mesh" :> "MB" @@ "from" :> "B" @@ "to" :> "C")]>>,
direct |-> <<
  [tag |-> "precice-configuration", up |-> 0, at |-> ("experimental" :> "true")],
  [tag |-> "profiling", up |-> 1, at |-> ("mode" :> "off")],
  [tag |-> "data:scalar", up |-> 1, at |-> ("name" :> "DA")],
  [tag |-> "data:scalar", up |-> 1, at |-> ("name" :> "DB")],
  [tag |-> "data:scalar", up |-> 1, at |-> ("name" :> "DC")],
  [tag |-> "mesh", up |-> 1, at |-> ("name" :> "MA" @@ "dimensions" :> "2")],
  [tag |-> "use-data", up |-> 6, at |-> ("name" :> "DA")],
  [tag |-> "use-data", up |-> 6, at |-> ("name" :> "DB")],
  [tag |-> "use-data", up |-> 6, at |-> ("name" :> "DC")],
  [tag |-> "m2n:sockets", up |-> 1, at |-> ("acceptor" :> "A" @@ "connector" :> "B")],
  [tag |-> "participant", up |-> 1, at |-> ("name" :> "A")],
  [tag |-> "provide-mesh", up |-> 11, at |-> ("name" :> "MA")],
  [tag |-> "write-data", up |-> 11, at |-> ("name" :> "DA" @@ "mesh" :> "MA")],
  [tag |-> "read-data", up |-> 11, at |-> ("name" :> "DB" @@ "mesh" :> "MA")],
  [tag |-> "read-data", up |-> 11, at |-> ("name" :> "DC" @@ "mesh" :> "MA")],
  [tag |-> "participant", up |-> 1, at |-> ("name" :> "B")],
  [tag |-> "receive-mesh", up |-> 16, at |-> ("name" :> "MA" @@ "from" :> "A" @@ "api-access" :> "true")],
  [tag |-> "read-data", up |-> 16, at |-> ("name" :> "DA" @@ "mesh" :> "MA")],
  [tag |-> "write-data", up |-> 16, at |-> ("name" :> "DB" @@ "mesh" :> "MA")],
  [tag |-> "write-data", up |-> 16, at |-> ("name" :> "DC" @@ "mesh" :> "MA")],
  [tag |-> "mapping:nearest-neighbor", up |-> 16, at |-> ("direction" :> "read" @@ "from" :> "MA" @@ "constraint" :> "consistent")],
  [tag |-> "mapping:coarse-graining", up |-> 16, at |-> ("direction" :> "write" @@ "to" :> "MA" @@ "constraint" :> "conservative" @@ "radius" :> "2")],
  [tag |-> "coupling-scheme:parallel-explicit", up |-> 1, at |-> <<>>],
  [tag |-> "participants", up |-> 23, at |-> ("first" :> "A" @@ "second" :> "B")],
  [tag |-> "max-time", up |-> 23, at |-> ("value" :> "1")],
  [tag |-> "time-window-size", up |-> 23, at |-> ("value" :> "1/2")],
  [tag |-> "exchange", up |-> 23, at |-> ("data" :> "DA" @@ "mesh" :> "MA" @@ "from" :> "A" @@ "to" :> "B" @@ "initialize" :> "1")],
  [tag |-> "exchange", up |-> 23, at |-> ("data" :> "DB" @@ "mesh" :> "MA" @@ "from" :> "B" @@ "to" :> "A")],
  [tag |-> "exchange", up |-> 23, at |-> ("data" :> "DC" @@ "mesh" :> "MA" @@ "from" :> "B" @@ "to" :> "A")]>>,
ils |-> <<
  [tag |-> "precice-configuration", up |-> 0, at |-> <<>>],
  [tag |-> "profiling", up |-> 1, at |-> ("mode" :> "off")],
  [tag |-> "data:scalar", up |-> 1, at |-> ("name" :> "DA" @@ "lower-bound" :> "-100")],
  [tag |-> "data:scalar", up |-> 1, at |-> ("name" :> "DB" @@ "lower-bound" :> "-100" @@ "upper-bound" :> "100")],
  [tag |-> "mesh", up |-> 1, at |-> ("name" :> "MA" @@ "dimensions" :> "2")],
  [tag |-> "use-data", up |-> 5, at |-> ("name" :> "DA")],
  [tag |-> "use-data", up |-> 5, at |-> ("name" :> "DB")],
  [tag |-> "mesh", up |-> 1, at |-> ("name" :> "MB" @@ "dimensions" :> "2")],
  [tag |-> "use-data", up |-> 8, at |-> ("name" :> "DA")],
  [tag |-> "use-data", up |-> 8, at |-> ("name" :> "DB")],
  [tag |-> "m2n:sockets", up |-> 1, at |-> ("acceptor" :> "A" @@ "connector" :> "B")],
  [tag |-> "participant", up |-> 1, at |-> ("name" :> "A")],
  [tag |-> "provide-mesh", up |-> 12, at |-> ("name" :> "MA")],
  [tag |-> "write-data", up |-> 12, at |-> ("name" :> "DA" @@ "mesh" :> "MA")],
  [tag |-> "read-data", up |-> 12, at |-> ("name" :> "DB" @@ "mesh" :> "MA")],
  [tag |-> "participant", up |-> 1, at |-> ("name" :> "B")],
  [tag |-> "receive-mesh", up |-> 16, at |-> ("name" :> "MA" @@ "from" :> "A")],
  [tag |-> "provide-mesh", up |-> 16, at |-> ("name" :> "MB")],
  [tag |-> "write-data", up |-> 16, at |-> ("name" :> "DB" @@ "mesh" :> "MB")],
  [tag |-> "read-data", up |-> 16, at |-> ("name" :> "DA" @@ "mesh" :> "MB")],
  [tag |-> "mapping:rbf", up |-> 16, at |-> ("direction" :> "read" @@ "from" :> "MA" @@ "to" :> "MB" @@ "constraint" :> "consistent")],
  [tag |-> "basis-function:compact-polynomial-c6", up |-> 21, at |-> ("support-radius" :> "2")],
  [tag |-> "mapping:rbf-global-direct", up |-> 16, at |-> ("direction" :> "write" @@ "from" :> "MB" @@ "to" :> "MA" @@ "constraint" :> "conservative" @@ "polynomial" :> "separate" @@ "x-dead" :> "false")],
  [tag |-> "basis-function:thin-plate-splines", up |-> 23, at |-> <<>>],
  [tag |-> "coupling-scheme:parallel-implicit", up |-> 1, at |-> <<>>],
  [tag |-> "participants", up |-> 25, at |-> ("first" :> "A" @@ "second" :> "B")],
  [tag |-> "max-time-windows", up |-> 25, at |-> ("value" :> "2")],
  [tag |-> "time-window-size", up |-> 25, at |-> ("value" :> "0.5")],
  [tag |-> "exchange", up |-> 25, at |-> ("data" :> "DA" @@ "mesh" :> "MA" @@ "from" :> "A" @@ "to" :> "B")],
  [tag |-> "exchange", up |-> 25, at |-> ("data" :> "DB" @@ "mesh" :> "MA" @@ "from" :> "B" @@ "to" :> "A")],
  [tag |-> "min-iterations", up |-> 25, at |-> ("value" :> "2")],
  [tag |-> "max-iterations", up |-> 25, at |-> ("value" :> "4")],
  [tag |-> "relative-convergence-measure", up |-> 25, at |-> ("limit" :> "0.001" @@ "data" :> "DA" @@ "mesh" :> "MA")],
  [tag |-> "residual-relative-convergence-measure", up |-> 25, at |-> ("limit" :> "0.001" @@ "data" :> "DB" @@ "mesh" :> "MA" @@ "suffices" :> "false" @@ "strict" :> "false")],
  [tag |-> "acceleration:IQN-ILS", up |-> 25, at |-> <<>>],
  [tag |-> "data", up |-> 35, at |-> ("name" :> "DA" @@ "mesh" :> "MA" @@ "scaling" :> "1")],
  [tag |-> "data", up |-> 35, at |-> ("name" :> "DB" @@ "mesh" :> "MA")],
  [tag |-> "initial-relaxation", up |-> 35, at |-> ("value" :> "0.5")],
  [tag |-> "max-used-iterations", up |-> 35, at |-> ("value" :> "10")],
  [tag |-> "time-windows-reused", up |-> 35, at |-> ("value" :> "1")],
  [tag |-> "filter", up |-> 35, at |-> ("type" :> "QR2" @@ "limit" :> "0.001")],
  [tag |-> "preconditioner", up |-> 35, at |-> ("type" :> "residual-sum")]>>,
multi |-> <<
  [tag |-> "precice-configuration", up |-> 0, at |-> <<>>],
  [tag |-> "profiling", up |-> 1, at |-> ("mode" :> "off")],
  [tag |-> "data:scalar", up |-> 1, at |-> ("name" :> "DA")],
  [tag |-> "data:scalar", up |-> 1, at |-> ("name" :> "DB")],
  [tag |-> "data:scalar", up |-> 1, at |-> ("name" :> "DC")],
  [tag |-> "mesh", up |-> 1, at |-> ("name" :> "MA" @@ "dimensions" :> "3")],
  [tag |-> "use-data", up |-> 6, at |-> ("name" :> "DA")],
  [tag |-> "use-data", up |-> 6, at |-> ("name" :> "DB")],
  [tag |-> "mesh", up |-> 1, at |-> ("name" :> "MC" @@ "dimensions" :> "3")],
  [tag |-> "use-data", up |-> 9, at |-> ("name" :> "DB")],
  [tag |-> "use-data", up |-> 9, at |-> ("name" :> "DC")],
  [tag |-> "mesh", up |-> 1, at |-> ("name" :> "MB" @@ "dimensions" :> "3")],
  [tag |-> "use-data", up |-> 12, at |-> ("name" :> "DA")],
  [tag |-> "use-data", up |-> 12, at |-> ("name" :> "DB")],
  [tag |-> "use-data", up |-> 12, at |-> ("name" :> "DC")],
  [tag |-> "m2n:sockets", up |-> 1, at |-> ("acceptor" :> "A" @@ "connector" :> "B")],
  [tag |-> "m2n:sockets", up |-> 1, at |-> ("acceptor" :> "C" @@ "connector" :> "B" @@ "enforce-gather-scatter" :> "true")],
  [tag |-> "participant", up |-> 1, at |-> ("name" :> "A")],
  [tag |-> "provide-mesh", up |-> 18, at |-> ("name" :> "MA")],
  [tag |-> "write-data", up |-> 18, at |-> ("name" :> "DA" @@ "mesh" :> "MA")],
  [tag |-> "read-data", up |-> 18, at |-> ("name" :> "DB" @@ "mesh" :> "MA")],
  [tag |-> "participant", up |-> 1, at |-> ("name" :> "B")],
  [tag |-> "receive-mesh", up |-> 22, at |-> ("name" :> "MA" @@ "from" :> "A")],
  [tag |-> "receive-mesh", up |-> 22, at |-> ("name" :> "MC" @@ "from" :> "C")],
  [tag |-> "provide-mesh", up |-> 22, at |-> ("name" :> "MB")],
  [tag |-> "write-data", up |-> 22, at |-> ("name" :> "DB" @@ "mesh" :> "MB")],
  [tag |-> "read-data", up |-> 22, at |-> ("name" :> "DA" @@ "mesh" :> "MB")],
  [tag |-> "read-data", up |-> 22, at |-> ("name" :> "DC" @@ "mesh" :> "MB")],
  [tag |-> "mapping:nearest-neighbor", up |-> 22, at |-> ("direction" :> "read" @@ "from" :> "MA" @@ "to" :> "MB" @@ "constraint" :> "consistent")],
  [tag |-> "mapping:nearest-neighbor", up |-> 22, at |-> ("direction" :> "write" @@ "from" :> "MB" @@ "to" :> "MA" @@ "constraint" :> "consistent")],
  [tag |-> "mapping:rbf-pum-direct", up |-> 22, at |-> ("direction" :> "write" @@ "from" :> "MB" @@ "to" :> "MC" @@ "constraint" :> "consistent" @@ "polynomial" :> "separate")],
  [tag |-> "basis-function:gaussian", up |-> 31, at |-> ("shape-parameter" :> "1")],
  [tag |-> "mapping:nearest-neighbor", up |-> 22, at |-> ("direction" :> "read" @@ "from" :> "MC" @@ "to" :> "MB" @@ "constraint" :> "consistent")],
  [tag |-> "participant", up |-> 1, at |-> ("name" :> "C")],
  [tag |-> "provide-mesh", up |-> 34, at |-> ("name" :> "MC")],
  [tag |-> "write-data", up |-> 34, at |-> ("name" :> "DC" @@ "mesh" :> "MC")],
  [tag |-> "read-data", up |-> 34, at |-> ("name" :> "DB" @@ "mesh" :> "MC")],
  [tag |-> "coupling-scheme:multi", up |-> 1, at |-> <<>>],
  [tag |-> "participant", up |-> 38, at |-> ("name" :> "A")],
  [tag |-> "participant", up |-> 38, at |-> ("name" :> "B" @@ "control" :> "true")],
  [tag |-> "participant", up |-> 38, at |-> ("name" :> "C" @@ "control" :> "false")],
  [tag |-> "max-time-windows", up |-> 38, at |-> ("value" :> "2")],
  [tag |-> "time-window-size", up |-> 38, at |-> ("value" :> "1")],
  [tag |-> "exchange", up |-> 38, at |-> ("data" :> "DA" @@ "mesh" :> "MA" @@ "from" :> "A" @@ "to" :> "B")],
  [tag |-> "exchange", up |-> 38, at |-> ("data" :> "DB" @@ "mesh" :> "MA" @@ "from" :> "B" @@ "to" :> "A" @@ "substeps" :> "false")],
  [tag |-> "exchange", up |-> 38, at |-> ("data" :> "DC" @@ "mesh" :> "MC" @@ "from" :> "C" @@ "to" :> "B")],
  [tag |-> "exchange", up |-> 38, at |-> ("data" :> "DB" @@ "mesh" :> "MC" @@ "from" :> "B" @@ "to" :> "C")],
  [tag |-> "max-iterations", up |-> 38, at |-> ("value" :> "3")],
  [tag |-> "relative-convergence-measure", up |-> 38, at |-> ("limit" :> "0.5" @@ "data" :> "DA" @@ "mesh" :> "MA" @@ "strict" :> "false")],
  [tag |-> "acceleration:constant", up |-> 38, at |-> <<>>],
  [tag |-> "relaxation", up |-> 50, at |-> ("value" :> "0.7")]>>,
remesh |-> <<
  [tag |-> "precice-configuration", up |-> 0, at |-> ("experimental" :> "true" @@ "allow-remeshing" :> "true")],
  [tag |-> "profiling", up |-> 1, at |-> ("mode" :> "off")],
  [tag |-> "data:scalar", up |-> 1, at |-> ("name" :> "DA")],
  [tag |-> "data:scalar", up |-> 1, at |-> ("name" :> "DB")],
  [tag |-> "mesh", up |-> 1, at |-> ("name" :> "MA" @@ "dimensions" :> "2")],
  [tag |-> "use-data", up |-> 5, at |-> ("name" :> "DA")],
  [tag |-> "use-data", up |-> 5, at |-> ("name" :> "DB")],
  [tag |-> "mesh", up |-> 1, at |-> ("name" :> "MB" @@ "dimensions" :> "2")],
  [tag |-> "use-data", up |-> 8, at |-> ("name" :> "DA")],
  [tag |-> "use-data", up |-> 8, at |-> ("name" :> "DB")],
  [tag |-> "m2n:sockets", up |-> 1, at |-> ("acceptor" :> "A" @@ "connector" :> "B")],
  [tag |-> "participant", up |-> 1, at |-> ("name" :> "A")],
  [tag |-> "provide-mesh", up |-> 12, at |-> ("name" :> "MA")],
  [tag |-> "receive-mesh", up |-> 12, at |-> ("name" :> "MB" @@ "from" :> "B")],
  [tag |-> "write-data", up |-> 12, at |-> ("name" :> "DA" @@ "mesh" :> "MA")],
  [tag |-> "read-data", up |-> 12, at |-> ("name" :> "DB" @@ "mesh" :> "MA")],
  [tag |-> "mapping:nearest-neighbor-gradient", up |-> 12, at |-> ("direction" :> "read" @@ "from" :> "MB" @@ "to" :> "MA" @@ "constraint" :> "consistent")],
  [tag |-> "mapping:nearest-neighbor", up |-> 12, at |-> ("direction" :> "write" @@ "from" :> "MA" @@ "to" :> "MB" @@ "constraint" :> "conservative")],
  [tag |-> "participant", up |-> 1, at |-> ("name" :> "B")],
  [tag |-> "provide-mesh", up |-> 19, at |-> ("name" :> "MB")],
  [tag |-> "write-data", up |-> 19, at |-> ("name" :> "DB" @@ "mesh" :> "MB")],
  [tag |-> "read-data", up |-> 19, at |-> ("name" :> "DA" @@ "mesh" :> "MB")],
  [tag |-> "export:vtp", up |-> 19, at |-> <<>>],
  [tag |-> "coupling-scheme:parallel-implicit", up |-> 1, at |-> <<>>],
  [tag |-> "participants", up |-> 24, at |-> ("first" :> "B" @@ "second" :> "A")],
  [tag |-> "max-time", up |-> 24, at |-> ("value" :> "1")],
  [tag |-> "time-window-size", up |-> 24, at |-> ("value" :> "1")],
  [tag |-> "exchange", up |-> 24, at |-> ("data" :> "DA" @@ "mesh" :> "MB" @@ "from" :> "A" @@ "to" :> "B")],
  [tag |-> "exchange", up |-> 24, at |-> ("data" :> "DB" @@ "mesh" :> "MB" @@ "from" :> "B" @@ "to" :> "A")],
  [tag |-> "max-iterations", up |-> 24, at |-> ("value" :> "2")]>>,
serial |-> <<
  [tag |-> "precice-configuration", up |-> 0, at |-> ("wait-in-finalize" :> "false")],
  [tag |-> "profiling", up |-> 1, at |-> ("mode" :> "off")],
  [tag |-> "data:scalar", up |-> 1, at |-> ("name" :> "DA")],
  [tag |-> "data:vector", up |-> 1, at |-> ("name" :> "DB" @@ "waveform-degree" :> "1")],
  [tag |-> "mesh", up |-> 1, at |-> ("name" :> "MA" @@ "dimensions" :> "2")],
  [tag |-> "use-data", up |-> 5, at |-> ("name" :> "DA")],
  [tag |-> "use-data", up |-> 5, at |-> ("name" :> "DB")],
  [tag |-> "mesh", up |-> 1, at |-> ("name" :> "MB" @@ "dimensions" :> "2")],
  [tag |-> "use-data", up |-> 8, at |-> ("name" :> "DA")],
  [tag |-> "use-data", up |-> 8, at |-> ("name" :> "DB")],
  [tag |-> "m2n:sockets", up |-> 1, at |-> ("acceptor" :> "A" @@ "connector" :> "B" @@ "exchange-directory" :> ".")],
  [tag |-> "participant", up |-> 1, at |-> ("name" :> "A")],
  [tag |-> "provide-mesh", up |-> 12, at |-> ("name" :> "MA")],
  [tag |-> "write-data", up |-> 12, at |-> ("name" :> "DA" @@ "mesh" :> "MA")],
  [tag |-> "read-data", up |-> 12, at |-> ("name" :> "DB" @@ "mesh" :> "MA")],
  [tag |-> "watch-point", up |-> 12, at |-> ("name" :> "P" @@ "mesh" :> "MA" @@ "coordinate" :> "0.5;0")],
  [tag |-> "watch-integral", up |-> 12, at |-> ("name" :> "I" @@ "mesh" :> "MA" @@ "scale-with-connectivity" :> "false")],
  [tag |-> "export:csv", up |-> 12, at |-> ("every-n-time-windows" :> "1")],
  [tag |-> "action:multiply-by-area", up |-> 12, at |-> ("timing" :> "write-mapping-post" @@ "mesh" :> "MA")],
  [tag |-> "target-data", up |-> 19, at |-> ("name" :> "DA")],
  [tag |-> "participant", up |-> 1, at |-> ("name" :> "B")],
  [tag |-> "provide-mesh", up |-> 21, at |-> ("name" :> "MB")],
  [tag |-> "receive-mesh", up |-> 21, at |-> ("name" :> "MA" @@ "from" :> "A" @@ "safety-factor" :> "0.5")],
  [tag |-> "write-data", up |-> 21, at |-> ("name" :> "DB" @@ "mesh" :> "MB")],
  [tag |-> "read-data", up |-> 21, at |-> ("name" :> "DA" @@ "mesh" :> "MB")],
  [tag |-> "mapping:nearest-neighbor", up |-> 21, at |-> ("direction" :> "read" @@ "from" :> "MA" @@ "to" :> "MB" @@ "constraint" :> "consistent")],
  [tag |-> "mapping:nearest-neighbor", up |-> 21, at |-> ("direction" :> "write" @@ "from" :> "MB" @@ "to" :> "MA" @@ "constraint" :> "conservative")],
  [tag |-> "coupling-scheme:serial-explicit", up |-> 1, at |-> <<>>],
  [tag |-> "participants", up |-> 28, at |-> ("first" :> "A" @@ "second" :> "B")],
  [tag |-> "max-time", up |-> 28, at |-> ("value" :> "2")],
  [tag |-> "max-time-windows", up |-> 28, at |-> ("value" :> "3")],
  [tag |-> "time-window-size", up |-> 28, at |-> ("value" :> "1" @@ "method" :> "fixed")],
  [tag |-> "exchange", up |-> 28, at |-> ("data" :> "DA" @@ "mesh" :> "MA" @@ "from" :> "A" @@ "to" :> "B" @@ "initialize" :> "false")],
  [tag |-> "exchange", up |-> 28, at |-> ("data" :> "DB" @@ "mesh" :> "MA" @@ "from" :> "B" @@ "to" :> "A" @@ "initialize" :> "true" @@ "substeps" :> "true")]>>]

Pool ==
(((((((((<<"precice-configuration", "experimental">> :> {"true", "false", "on", "0"}) @@
 ((<<"precice-configuration", "allow-remeshing">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration", "wait-in-finalize">> :> {"true", "false", "on", "0"}))) @@
 ((<<"precice-configuration/profiling", "mode">> :> {"all", "api", "fundamental", "off", "Nope"}) @@
 ((<<"precice-configuration/profiling", "flush-every">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 (<<"precice-configuration/profiling", "synchronize">> :> {"true", "false", "on", "0"})))) @@
 (((<<"precice-configuration/data:scalar", "name">> :> {"DA", "DB", "DC", "Nope"}) @@
 ((<<"precice-configuration/data:scalar", "waveform-degree">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 (<<"precice-configuration/data:scalar", "lower-bound">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))) @@
 (((<<"precice-configuration/data:scalar", "upper-bound">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/data:vector", "name">> :> {"DA", "DB", "DC", "Nope"})) @@
 ((<<"precice-configuration/data:vector", "waveform-degree">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 (<<"precice-configuration/data:vector", "lower-bound-x">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))))) @@
 ((((<<"precice-configuration/data:vector", "lower-bound-y">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 ((<<"precice-configuration/data:vector", "lower-bound-z">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/data:vector", "upper-bound-x">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))) @@
 (((<<"precice-configuration/data:vector", "upper-bound-y">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/data:vector", "upper-bound-z">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})) @@
 ((<<"precice-configuration/mesh", "name">> :> {"MA", "MB", "MC", "Nope"}) @@
 (<<"precice-configuration/mesh", "dimensions">> :> {"2", "3", "Nope"})))) @@
 (((<<"precice-configuration/mesh/use-data", "name">> :> {"DA", "DB", "DC", "Nope"}) @@
 ((<<"precice-configuration/m2n:sockets", "port">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 (<<"precice-configuration/m2n:sockets", "acceptor">> :> {"A", "B", "C", "Nope", ""}))) @@
 (((<<"precice-configuration/m2n:sockets", "connector">> :> {"A", "B", "C", "Nope", ""}) @@
 (<<"precice-configuration/m2n:sockets", "enforce-gather-scatter">> :> {"true", "false", "on", "0"})) @@
 ((<<"precice-configuration/m2n:sockets", "use-two-level-initialization">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/m2n:mpi-multiple-ports", "acceptor">> :> {"A", "B", "C", "Nope", ""})))))) @@
 (((((<<"precice-configuration/m2n:mpi-multiple-ports", "connector">> :> {"A", "B", "C", "Nope", ""}) @@
 ((<<"precice-configuration/m2n:mpi-multiple-ports", "enforce-gather-scatter">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/m2n:mpi-multiple-ports", "use-two-level-initialization">> :> {"true", "false", "on", "0"}))) @@
 (((<<"precice-configuration/m2n:mpi", "acceptor">> :> {"A", "B", "C", "Nope", ""}) @@
 (<<"precice-configuration/m2n:mpi", "connector">> :> {"A", "B", "C", "Nope", ""})) @@
 ((<<"precice-configuration/m2n:mpi", "enforce-gather-scatter">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/m2n:mpi", "use-two-level-initialization">> :> {"true", "false", "on", "0"})))) @@
 (((<<"precice-configuration/participant", "name">> :> {"A", "B", "C", "Nope"}) @@
 ((<<"precice-configuration/participant/write-data", "name">> :> {"DA", "DB", "DC", "Nope"}) @@
 (<<"precice-configuration/participant/write-data", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}))) @@
 (((<<"precice-configuration/participant/read-data", "name">> :> {"DA", "DB", "DC", "Nope"}) @@
 (<<"precice-configuration/participant/read-data", "mesh">> :> {"MA", "MB", "MC", "Nope", ""})) @@
 ((<<"precice-configuration/participant/mapping:nearest-neighbor", "from">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/participant/mapping:nearest-neighbor", "to">> :> {"MA", "MB", "MC", "Nope", ""}))))) @@
 ((((<<"precice-configuration/participant/mapping:nearest-neighbor", "direction">> :> {"write", "read", "Nope"}) @@
 ((<<"precice-configuration/participant/mapping:nearest-neighbor", "constraint">> :> {"conservative", "consistent", "scaled-consistent-surface", "scaled-consistent-volume", "Nope"}) @@
 (<<"precice-configuration/participant/mapping:nearest-projection", "from">> :> {"MA", "MB", "MC", "Nope", ""}))) @@
 (((<<"precice-configuration/participant/mapping:nearest-projection", "to">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/participant/mapping:nearest-projection", "direction">> :> {"write", "read", "Nope"})) @@
 ((<<"precice-configuration/participant/mapping:nearest-projection", "constraint">> :> {"conservative", "consistent", "scaled-consistent-surface", "scaled-consistent-volume", "Nope"}) @@
 (<<"precice-configuration/participant/mapping:nearest-neighbor-gradient", "from">> :> {"MA", "MB", "MC", "Nope", ""})))) @@
 (((<<"precice-configuration/participant/mapping:nearest-neighbor-gradient", "to">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 ((<<"precice-configuration/participant/mapping:nearest-neighbor-gradient", "direction">> :> {"write", "read", "Nope"}) @@
 (<<"precice-configuration/participant/mapping:nearest-neighbor-gradient", "constraint">> :> {"conservative", "consistent", "scaled-consistent-surface", "scaled-consistent-volume", "Nope"}))) @@
 (((<<"precice-configuration/participant/mapping:linear-cell-interpolation", "from">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/participant/mapping:linear-cell-interpolation", "to">> :> {"MA", "MB", "MC", "Nope", ""})) @@
 ((<<"precice-configuration/participant/mapping:linear-cell-interpolation", "direction">> :> {"write", "read", "Nope"}) @@
 (<<"precice-configuration/participant/mapping:linear-cell-interpolation", "constraint">> :> {"conservative", "consistent", "scaled-consistent-surface", "scaled-consistent-volume", "Nope"}))))))) @@
 ((((((<<"precice-configuration/participant/mapping:rbf-global-iterative", "from">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 ((<<"precice-configuration/participant/mapping:rbf-global-iterative", "to">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/participant/mapping:rbf-global-iterative", "direction">> :> {"write", "read", "Nope"}))) @@
 (((<<"precice-configuration/participant/mapping:rbf-global-iterative", "constraint">> :> {"conservative", "consistent", "scaled-consistent-surface", "scaled-consistent-volume", "Nope"}) @@
 (<<"precice-configuration/participant/mapping:rbf-global-iterative", "polynomial">> :> {"on", "off", "separate", "Nope"})) @@
 ((<<"precice-configuration/participant/mapping:rbf-global-iterative", "x-dead">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/participant/mapping:rbf-global-iterative", "y-dead">> :> {"true", "false", "on", "0"})))) @@
 (((<<"precice-configuration/participant/mapping:rbf-global-iterative", "z-dead">> :> {"true", "false", "on", "0"}) @@
 ((<<"precice-configuration/participant/mapping:rbf-global-iterative", "solver-rtol">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/participant/mapping:rbf-global-iterative/executor:openmp", "n-threads">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}))) @@
 (((<<"precice-configuration/participant/mapping:rbf-global-iterative/basis-function:compact-polynomial-c0", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/participant/mapping:rbf-global-iterative/basis-function:compact-polynomial-c2", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})) @@
 ((<<"precice-configuration/participant/mapping:rbf-global-iterative/basis-function:compact-polynomial-c4", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/participant/mapping:rbf-global-iterative/basis-function:compact-polynomial-c6", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))))) @@
 ((((<<"precice-configuration/participant/mapping:rbf-global-iterative/basis-function:compact-polynomial-c8", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 ((<<"precice-configuration/participant/mapping:rbf-global-iterative/basis-function:compact-tps-c2", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/participant/mapping:rbf-global-iterative/basis-function:multiquadrics", "shape-parameter">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))) @@
 (((<<"precice-configuration/participant/mapping:rbf-global-iterative/basis-function:inverse-multiquadrics", "shape-parameter">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/participant/mapping:rbf-global-iterative/basis-function:gaussian", "shape-parameter">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})) @@
 ((<<"precice-configuration/participant/mapping:rbf-global-iterative/basis-function:gaussian", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/participant/mapping:rbf-global-direct", "from">> :> {"MA", "MB", "MC", "Nope", ""})))) @@
 (((<<"precice-configuration/participant/mapping:rbf-global-direct", "to">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 ((<<"precice-configuration/participant/mapping:rbf-global-direct", "direction">> :> {"write", "read", "Nope"}) @@
 (<<"precice-configuration/participant/mapping:rbf-global-direct", "constraint">> :> {"conservative", "consistent", "scaled-consistent-surface", "scaled-consistent-volume", "Nope"}))) @@
 (((<<"precice-configuration/participant/mapping:rbf-global-direct", "polynomial">> :> {"on", "off", "separate", "Nope"}) @@
 (<<"precice-configuration/participant/mapping:rbf-global-direct", "x-dead">> :> {"true", "false", "on", "0"})) @@
 ((<<"precice-configuration/participant/mapping:rbf-global-direct", "y-dead">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/participant/mapping:rbf-global-direct", "z-dead">> :> {"true", "false", "on", "0"})))))) @@
 (((((<<"precice-configuration/participant/mapping:rbf-global-direct/basis-function:compact-polynomial-c0", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 ((<<"precice-configuration/participant/mapping:rbf-global-direct/basis-function:compact-polynomial-c2", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/participant/mapping:rbf-global-direct/basis-function:compact-polynomial-c4", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))) @@
 (((<<"precice-configuration/participant/mapping:rbf-global-direct/basis-function:compact-polynomial-c6", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/participant/mapping:rbf-global-direct/basis-function:compact-polynomial-c8", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})) @@
 ((<<"precice-configuration/participant/mapping:rbf-global-direct/basis-function:compact-tps-c2", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/participant/mapping:rbf-global-direct/basis-function:multiquadrics", "shape-parameter">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})))) @@
 (((<<"precice-configuration/participant/mapping:rbf-global-direct/basis-function:inverse-multiquadrics", "shape-parameter">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 ((<<"precice-configuration/participant/mapping:rbf-global-direct/basis-function:gaussian", "shape-parameter">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/participant/mapping:rbf-global-direct/basis-function:gaussian", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))) @@
 (((<<"precice-configuration/participant/mapping:rbf-pum-direct", "from">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/participant/mapping:rbf-pum-direct", "to">> :> {"MA", "MB", "MC", "Nope", ""})) @@
 ((<<"precice-configuration/participant/mapping:rbf-pum-direct", "direction">> :> {"write", "read", "Nope"}) @@
 (<<"precice-configuration/participant/mapping:rbf-pum-direct", "constraint">> :> {"conservative", "consistent", "scaled-consistent-surface", "scaled-consistent-volume", "Nope"}))))) @@
 ((((<<"precice-configuration/participant/mapping:rbf-pum-direct", "polynomial">> :> {"off", "separate", "Nope"}) @@
 ((<<"precice-configuration/participant/mapping:rbf-pum-direct", "vertices-per-cluster">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 (<<"precice-configuration/participant/mapping:rbf-pum-direct", "relative-overlap">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))) @@
 (((<<"precice-configuration/participant/mapping:rbf-pum-direct", "project-to-input">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/participant/mapping:rbf-pum-direct/executor:cuda", "execution-mode">> :> {"minimal-memory", "minimal-compute", "Nope"})) @@
 ((<<"precice-configuration/participant/mapping:rbf-pum-direct/executor:hip", "execution-mode">> :> {"minimal-memory", "minimal-compute", "Nope"}) @@
 (<<"precice-configuration/participant/mapping:rbf-pum-direct/executor:sycl", "execution-mode">> :> {"minimal-memory", "minimal-compute", "Nope"})))) @@
 (((<<"precice-configuration/participant/mapping:rbf-pum-direct/executor:openmp", "n-threads">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 ((<<"precice-configuration/participant/mapping:rbf-pum-direct/executor:openmp", "execution-mode">> :> {"minimal-memory", "minimal-compute", "Nope"}) @@
 (<<"precice-configuration/participant/mapping:rbf-pum-direct/basis-function:compact-polynomial-c0", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))) @@
 (((<<"precice-configuration/participant/mapping:rbf-pum-direct/basis-function:compact-polynomial-c2", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/participant/mapping:rbf-pum-direct/basis-function:compact-polynomial-c4", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})) @@
 ((<<"precice-configuration/participant/mapping:rbf-pum-direct/basis-function:compact-polynomial-c6", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/participant/mapping:rbf-pum-direct/basis-function:compact-polynomial-c8", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})))))))) @@
 (((((((<<"precice-configuration/participant/mapping:rbf-pum-direct/basis-function:compact-tps-c2", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 ((<<"precice-configuration/participant/mapping:rbf-pum-direct/basis-function:multiquadrics", "shape-parameter">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/participant/mapping:rbf-pum-direct/basis-function:inverse-multiquadrics", "shape-parameter">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))) @@
 ((<<"precice-configuration/participant/mapping:rbf-pum-direct/basis-function:gaussian", "shape-parameter">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 ((<<"precice-configuration/participant/mapping:rbf-pum-direct/basis-function:gaussian", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/participant/mapping:rbf", "from">> :> {"MA", "MB", "MC", "Nope", ""})))) @@
 (((<<"precice-configuration/participant/mapping:rbf", "to">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 ((<<"precice-configuration/participant/mapping:rbf", "direction">> :> {"write", "read", "Nope"}) @@
 (<<"precice-configuration/participant/mapping:rbf", "constraint">> :> {"conservative", "consistent", "scaled-consistent-surface", "scaled-consistent-volume", "Nope"}))) @@
 (((<<"precice-configuration/participant/mapping:rbf", "x-dead">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/participant/mapping:rbf", "y-dead">> :> {"true", "false", "on", "0"})) @@
 ((<<"precice-configuration/participant/mapping:rbf", "z-dead">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/participant/mapping:rbf/basis-function:compact-polynomial-c0", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))))) @@
 ((((<<"precice-configuration/participant/mapping:rbf/basis-function:compact-polynomial-c2", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 ((<<"precice-configuration/participant/mapping:rbf/basis-function:compact-polynomial-c4", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/participant/mapping:rbf/basis-function:compact-polynomial-c6", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))) @@
 (((<<"precice-configuration/participant/mapping:rbf/basis-function:compact-polynomial-c8", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/participant/mapping:rbf/basis-function:compact-tps-c2", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})) @@
 ((<<"precice-configuration/participant/mapping:rbf/basis-function:multiquadrics", "shape-parameter">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/participant/mapping:rbf/basis-function:inverse-multiquadrics", "shape-parameter">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})))) @@
 (((<<"precice-configuration/participant/mapping:rbf/basis-function:gaussian", "shape-parameter">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 ((<<"precice-configuration/participant/mapping:rbf/basis-function:gaussian", "support-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/participant/mapping:coarse-graining", "from">> :> {"MA", "MB", "MC", "Nope", ""}))) @@
 (((<<"precice-configuration/participant/mapping:coarse-graining", "to">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/participant/mapping:coarse-graining", "direction">> :> {"write", "read", "Nope"})) @@
 ((<<"precice-configuration/participant/mapping:coarse-graining", "constraint">> :> {"conservative", "consistent", "scaled-consistent-surface", "scaled-consistent-volume", "Nope"}) @@
 (<<"precice-configuration/participant/mapping:coarse-graining", "radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})))))) @@
 (((((<<"precice-configuration/participant/mapping:axial-geometric-multiscale", "from">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 ((<<"precice-configuration/participant/mapping:axial-geometric-multiscale", "to">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/participant/mapping:axial-geometric-multiscale", "direction">> :> {"write", "read", "Nope"}))) @@
 (((<<"precice-configuration/participant/mapping:axial-geometric-multiscale", "constraint">> :> {"conservative", "consistent", "scaled-consistent-surface", "scaled-consistent-volume", "Nope"}) @@
 (<<"precice-configuration/participant/mapping:axial-geometric-multiscale", "multiscale-dimension">> :> {"1d-3d", "1d-2d", "2d-3d", "Nope"})) @@
 ((<<"precice-configuration/participant/mapping:axial-geometric-multiscale", "multiscale-type">> :> {"spread", "collect", "Nope"}) @@
 (<<"precice-configuration/participant/mapping:axial-geometric-multiscale", "multiscale-axis">> :> {"x", "y", "z", "Nope"})))) @@
 (((<<"precice-configuration/participant/mapping:axial-geometric-multiscale", "multiscale-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 ((<<"precice-configuration/participant/mapping:axial-geometric-multiscale", "multiscale-cross-section-profile">> :> {"uniform", "parabolic", "Nope"}) @@
 (<<"precice-configuration/participant/mapping:axial-geometric-multiscale", "multiscale-cross-section">> :> {"circle", "square", "Nope"}))) @@
 (((<<"precice-configuration/participant/mapping:radial-geometric-multiscale", "from">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/participant/mapping:radial-geometric-multiscale", "to">> :> {"MA", "MB", "MC", "Nope", ""})) @@
 ((<<"precice-configuration/participant/mapping:radial-geometric-multiscale", "direction">> :> {"write", "read", "Nope"}) @@
 (<<"precice-configuration/participant/mapping:radial-geometric-multiscale", "constraint">> :> {"conservative", "consistent", "scaled-consistent-surface", "scaled-consistent-volume", "Nope"}))))) @@
 ((((<<"precice-configuration/participant/mapping:radial-geometric-multiscale", "multiscale-type">> :> {"spread", "collect", "Nope"}) @@
 ((<<"precice-configuration/participant/mapping:radial-geometric-multiscale", "multiscale-axis">> :> {"x", "y", "z", "Nope"}) @@
 (<<"precice-configuration/participant/mapping:radial-geometric-multiscale", "multiscale-radius">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))) @@
 (((<<"precice-configuration/participant/action:multiply-by-area", "timing">> :> {"write-mapping-post", "read-mapping-post", "Nope"}) @@
 (<<"precice-configuration/participant/action:multiply-by-area", "mesh">> :> {"MA", "MB", "MC", "Nope", ""})) @@
 ((<<"precice-configuration/participant/action:multiply-by-area/target-data", "name">> :> {"DA", "DB", "DC", "Nope"}) @@
 (<<"precice-configuration/participant/action:divide-by-area", "timing">> :> {"write-mapping-post", "read-mapping-post", "Nope"})))) @@
 (((<<"precice-configuration/participant/action:divide-by-area", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 ((<<"precice-configuration/participant/action:divide-by-area/target-data", "name">> :> {"DA", "DB", "DC", "Nope"}) @@
 (<<"precice-configuration/participant/action:summation", "timing">> :> {"write-mapping-post", "read-mapping-post", "Nope"}))) @@
 (((<<"precice-configuration/participant/action:summation", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/participant/action:summation/source-data", "name">> :> {"DA", "DB", "DC", "Nope"})) @@
 ((<<"precice-configuration/participant/action:summation/target-data", "name">> :> {"DA", "DB", "DC", "Nope"}) @@
 (<<"precice-configuration/participant/action:recorder", "timing">> :> {"write-mapping-post", "read-mapping-post", "Nope"}))))))) @@
 ((((((<<"precice-configuration/participant/action:recorder", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 ((<<"precice-configuration/participant/action:python", "timing">> :> {"write-mapping-post", "read-mapping-post", "Nope"}) @@
 (<<"precice-configuration/participant/action:python", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}))) @@
 (((<<"precice-configuration/participant/action:python/source-data", "name">> :> {"DA", "DB", "DC", "Nope"}) @@
 (<<"precice-configuration/participant/action:python/target-data", "name">> :> {"DA", "DB", "DC", "Nope"})) @@
 ((<<"precice-configuration/participant/export:vtk", "every-n-time-windows">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 (<<"precice-configuration/participant/export:vtk", "every-iteration">> :> {"true", "false", "on", "0"})))) @@
 (((<<"precice-configuration/participant/export:vtk", "update-series">> :> {"true", "false", "on", "0"}) @@
 ((<<"precice-configuration/participant/export:vtu", "every-n-time-windows">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 (<<"precice-configuration/participant/export:vtu", "every-iteration">> :> {"true", "false", "on", "0"}))) @@
 (((<<"precice-configuration/participant/export:vtu", "update-series">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/participant/export:vtp", "every-n-time-windows">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"})) @@
 ((<<"precice-configuration/participant/export:vtp", "every-iteration">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/participant/export:vtp", "update-series">> :> {"true", "false", "on", "0"}))))) @@
 ((((<<"precice-configuration/participant/export:csv", "every-n-time-windows">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 ((<<"precice-configuration/participant/export:csv", "every-iteration">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/participant/export:csv", "update-series">> :> {"true", "false", "on", "0"}))) @@
 (((<<"precice-configuration/participant/watch-point", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/participant/watch-point", "coordinate">> :> {"0.5;0", "0.5;0;0", "0.5", "a;b"})) @@
 ((<<"precice-configuration/participant/watch-integral", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/participant/watch-integral", "scale-with-connectivity">> :> {"true", "false", "on", "0"})))) @@
 (((<<"precice-configuration/participant/provide-mesh", "name">> :> {"MA", "MB", "MC", "Nope"}) @@
 ((<<"precice-configuration/participant/receive-mesh", "name">> :> {"MA", "MB", "MC", "Nope"}) @@
 (<<"precice-configuration/participant/receive-mesh", "api-access">> :> {"true", "false", "on", "0"}))) @@
 (((<<"precice-configuration/participant/receive-mesh", "direct-access">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/participant/receive-mesh", "geometric-filter">> :> {"no-filter", "on-primary-rank", "on-secondary-ranks", "Nope"})) @@
 ((<<"precice-configuration/participant/receive-mesh", "from">> :> {"A", "B", "C", "Nope", ""}) @@
 (<<"precice-configuration/participant/receive-mesh", "safety-factor">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})))))) @@
 (((((<<"precice-configuration/participant/intra-comm:sockets", "port">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 ((<<"precice-configuration/coupling-scheme:serial-explicit/max-time", "value">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:serial-explicit/max-time-windows", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}))) @@
 (((<<"precice-configuration/coupling-scheme:serial-explicit/time-window-size", "value">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:serial-explicit/time-window-size", "method">> :> {"fixed", "first-participant", "Nope"})) @@
 ((<<"precice-configuration/coupling-scheme:serial-explicit/participants", "first">> :> {"A", "B", "C", "Nope", ""}) @@
 (<<"precice-configuration/coupling-scheme:serial-explicit/participants", "second">> :> {"A", "B", "C", "Nope", ""})))) @@
 (((<<"precice-configuration/coupling-scheme:serial-explicit/exchange", "data">> :> {"DA", "DB", "DC", "Nope"}) @@
 ((<<"precice-configuration/coupling-scheme:serial-explicit/exchange", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/coupling-scheme:serial-explicit/exchange", "from">> :> {"A", "B", "C", "Nope", ""}))) @@
 (((<<"precice-configuration/coupling-scheme:serial-explicit/exchange", "to">> :> {"A", "B", "C", "Nope", ""}) @@
 (<<"precice-configuration/coupling-scheme:serial-explicit/exchange", "initialize">> :> {"true", "false", "on", "0"})) @@
 ((<<"precice-configuration/coupling-scheme:serial-explicit/exchange", "substeps">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-explicit/max-time", "value">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))))) @@
 ((((<<"precice-configuration/coupling-scheme:parallel-explicit/max-time-windows", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 ((<<"precice-configuration/coupling-scheme:parallel-explicit/time-window-size", "value">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-explicit/participants", "first">> :> {"A", "B", "C", "Nope", ""}))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-explicit/participants", "second">> :> {"A", "B", "C", "Nope", ""}) @@
 (<<"precice-configuration/coupling-scheme:parallel-explicit/exchange", "data">> :> {"DA", "DB", "DC", "Nope"})) @@
 ((<<"precice-configuration/coupling-scheme:parallel-explicit/exchange", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/coupling-scheme:parallel-explicit/exchange", "from">> :> {"A", "B", "C", "Nope", ""})))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-explicit/exchange", "to">> :> {"A", "B", "C", "Nope", ""}) @@
 ((<<"precice-configuration/coupling-scheme:parallel-explicit/exchange", "initialize">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-explicit/exchange", "substeps">> :> {"true", "false", "on", "0"}))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/max-time", "value">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/max-time-windows", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"})) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/time-window-size", "value">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/time-window-size", "method">> :> {"fixed", "first-participant", "Nope"}))))))))) @@
 ((((((((<<"precice-configuration/coupling-scheme:serial-implicit/participants", "first">> :> {"A", "B", "C", "Nope", ""}) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/participants", "second">> :> {"A", "B", "C", "Nope", ""}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/exchange", "data">> :> {"DA", "DB", "DC", "Nope"}))) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/exchange", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/exchange", "from">> :> {"A", "B", "C", "Nope", ""}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/exchange", "to">> :> {"A", "B", "C", "Nope", ""})))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/exchange", "initialize">> :> {"true", "false", "on", "0"}) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/exchange", "substeps">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:constant/relaxation", "value">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:aitken/initial-relaxation", "value">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:aitken/data", "scaling">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:aitken/data", "name">> :> {"DA", "DB", "DC", "Nope"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:aitken/data", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}))))) @@
 ((((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:aitken/preconditioner", "type">> :> {"constant", "value", "residual", "residual-sum", "Nope"}) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:aitken/preconditioner", "update-on-threshold">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:aitken/preconditioner", "freeze-after">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS", "reduced-time-grid">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS", "on-bound-violation">> :> {"ignore", "clamp", "discard", "scale", "Nope"})) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/initial-relaxation", "value">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/initial-relaxation", "enforce">> :> {"true", "false", "on", "0"})))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/max-used-iterations", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/time-windows-reused", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/data", "name">> :> {"DA", "DB", "DC", "Nope"}))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/data", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/data", "scaling">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/filter", "limit">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/filter", "type">> :> {"QR1", "QR1-absolute", "QR2", "QR3", "Nope"})))))) @@
 (((((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/preconditioner", "type">> :> {"constant", "value", "residual", "residual-sum", "Nope"}) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/preconditioner", "update-on-threshold">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/preconditioner", "freeze-after">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ", "always-build-jacobian">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ", "reduced-time-grid">> :> {"true", "false", "on", "0"})) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ", "on-bound-violation">> :> {"ignore", "clamp", "discard", "scale", "Nope"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/initial-relaxation", "value">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/initial-relaxation", "enforce">> :> {"true", "false", "on", "0"}) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/imvj-restart-mode", "type">> :> {"no-restart", "RS-0", "RS-LS", "RS-SVD", "RS-SLIDE", "Nope"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/imvj-restart-mode", "chunk-size">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/imvj-restart-mode", "reused-time-windows-at-restart">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/imvj-restart-mode", "truncation-threshold">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/max-used-iterations", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/time-windows-reused", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}))))) @@
 ((((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/data", "name">> :> {"DA", "DB", "DC", "Nope"}) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/data", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/data", "scaling">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/filter", "limit">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/filter", "type">> :> {"QR1", "QR1-absolute", "QR2", "QR3", "Nope"})) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/preconditioner", "type">> :> {"constant", "value", "residual", "residual-sum", "Nope"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/preconditioner", "update-on-threshold">> :> {"true", "false", "on", "0"})))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/preconditioner", "freeze-after">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/absolute-convergence-measure", "data">> :> {"DA", "DB", "DC", "Nope"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/absolute-convergence-measure", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/absolute-convergence-measure", "suffices">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/absolute-convergence-measure", "strict">> :> {"true", "false", "on", "0"})) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/absolute-convergence-measure", "limit">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/absolute-or-relative-convergence-measure", "data">> :> {"DA", "DB", "DC", "Nope"}))))))) @@
 ((((((<<"precice-configuration/coupling-scheme:serial-implicit/absolute-or-relative-convergence-measure", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/absolute-or-relative-convergence-measure", "suffices">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/absolute-or-relative-convergence-measure", "strict">> :> {"true", "false", "on", "0"}))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/absolute-or-relative-convergence-measure", "abs-limit">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/absolute-or-relative-convergence-measure", "rel-limit">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/relative-convergence-measure", "data">> :> {"DA", "DB", "DC", "Nope"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/relative-convergence-measure", "mesh">> :> {"MA", "MB", "MC", "Nope", ""})))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/relative-convergence-measure", "suffices">> :> {"true", "false", "on", "0"}) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/relative-convergence-measure", "strict">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/relative-convergence-measure", "limit">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/residual-relative-convergence-measure", "data">> :> {"DA", "DB", "DC", "Nope"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/residual-relative-convergence-measure", "mesh">> :> {"MA", "MB", "MC", "Nope", ""})) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/residual-relative-convergence-measure", "suffices">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/residual-relative-convergence-measure", "strict">> :> {"true", "false", "on", "0"}))))) @@
 ((((<<"precice-configuration/coupling-scheme:serial-implicit/residual-relative-convergence-measure", "limit">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/min-iterations", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/max-iterations", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/max-time", "value">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/max-time-windows", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"})) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/time-window-size", "value">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/participants", "first">> :> {"A", "B", "C", "Nope", ""})))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/participants", "second">> :> {"A", "B", "C", "Nope", ""}) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/exchange", "data">> :> {"DA", "DB", "DC", "Nope"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/exchange", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/exchange", "from">> :> {"A", "B", "C", "Nope", ""}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/exchange", "to">> :> {"A", "B", "C", "Nope", ""})) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/exchange", "initialize">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/exchange", "substeps">> :> {"true", "false", "on", "0"})))))) @@
 (((((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:constant/relaxation", "value">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:aitken/initial-relaxation", "value">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:aitken/data", "scaling">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:aitken/data", "name">> :> {"DA", "DB", "DC", "Nope"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:aitken/data", "mesh">> :> {"MA", "MB", "MC", "Nope", ""})) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:aitken/preconditioner", "type">> :> {"constant", "value", "residual", "residual-sum", "Nope"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:aitken/preconditioner", "update-on-threshold">> :> {"true", "false", "on", "0"})))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:aitken/preconditioner", "freeze-after">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS", "reduced-time-grid">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS", "on-bound-violation">> :> {"ignore", "clamp", "discard", "scale", "Nope"}))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/initial-relaxation", "value">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/initial-relaxation", "enforce">> :> {"true", "false", "on", "0"})) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/max-used-iterations", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/time-windows-reused", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}))))) @@
 ((((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/data", "name">> :> {"DA", "DB", "DC", "Nope"}) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/data", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/data", "scaling">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/filter", "limit">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/filter", "type">> :> {"QR1", "QR1-absolute", "QR2", "QR3", "Nope"})) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/preconditioner", "type">> :> {"constant", "value", "residual", "residual-sum", "Nope"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/preconditioner", "update-on-threshold">> :> {"true", "false", "on", "0"})))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/preconditioner", "freeze-after">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ", "always-build-jacobian">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ", "reduced-time-grid">> :> {"true", "false", "on", "0"}))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ", "on-bound-violation">> :> {"ignore", "clamp", "discard", "scale", "Nope"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/initial-relaxation", "value">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/initial-relaxation", "enforce">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/imvj-restart-mode", "type">> :> {"no-restart", "RS-0", "RS-LS", "RS-SVD", "RS-SLIDE", "Nope"})))))))) @@
 (((((((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/imvj-restart-mode", "chunk-size">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/imvj-restart-mode", "reused-time-windows-at-restart">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/imvj-restart-mode", "truncation-threshold">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/max-used-iterations", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/time-windows-reused", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/data", "name">> :> {"DA", "DB", "DC", "Nope"})))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/data", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/data", "scaling">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/filter", "limit">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/filter", "type">> :> {"QR1", "QR1-absolute", "QR2", "QR3", "Nope"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/preconditioner", "type">> :> {"constant", "value", "residual", "residual-sum", "Nope"})) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/preconditioner", "update-on-threshold">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/preconditioner", "freeze-after">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}))))) @@
 ((((<<"precice-configuration/coupling-scheme:parallel-implicit/absolute-convergence-measure", "data">> :> {"DA", "DB", "DC", "Nope"}) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/absolute-convergence-measure", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/absolute-convergence-measure", "suffices">> :> {"true", "false", "on", "0"}))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/absolute-convergence-measure", "strict">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/absolute-convergence-measure", "limit">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/absolute-or-relative-convergence-measure", "data">> :> {"DA", "DB", "DC", "Nope"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/absolute-or-relative-convergence-measure", "mesh">> :> {"MA", "MB", "MC", "Nope", ""})))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/absolute-or-relative-convergence-measure", "suffices">> :> {"true", "false", "on", "0"}) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/absolute-or-relative-convergence-measure", "strict">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/absolute-or-relative-convergence-measure", "abs-limit">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/absolute-or-relative-convergence-measure", "rel-limit">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/relative-convergence-measure", "data">> :> {"DA", "DB", "DC", "Nope"})) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/relative-convergence-measure", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/relative-convergence-measure", "suffices">> :> {"true", "false", "on", "0"})))))) @@
 (((((<<"precice-configuration/coupling-scheme:parallel-implicit/relative-convergence-measure", "strict">> :> {"true", "false", "on", "0"}) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/relative-convergence-measure", "limit">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/residual-relative-convergence-measure", "data">> :> {"DA", "DB", "DC", "Nope"}))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/residual-relative-convergence-measure", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/residual-relative-convergence-measure", "suffices">> :> {"true", "false", "on", "0"})) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/residual-relative-convergence-measure", "strict">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/residual-relative-convergence-measure", "limit">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/min-iterations", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/max-iterations", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 (<<"precice-configuration/coupling-scheme:multi/max-time", "value">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))) @@
 (((<<"precice-configuration/coupling-scheme:multi/max-time-windows", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 (<<"precice-configuration/coupling-scheme:multi/time-window-size", "value">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})) @@
 ((<<"precice-configuration/coupling-scheme:multi/participant", "name">> :> {"A", "B", "C", "Nope"}) @@
 (<<"precice-configuration/coupling-scheme:multi/participant", "control">> :> {"true", "false", "on", "0"}))))) @@
 ((((<<"precice-configuration/coupling-scheme:multi/exchange", "data">> :> {"DA", "DB", "DC", "Nope"}) @@
 ((<<"precice-configuration/coupling-scheme:multi/exchange", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/coupling-scheme:multi/exchange", "from">> :> {"A", "B", "C", "Nope", ""}))) @@
 (((<<"precice-configuration/coupling-scheme:multi/exchange", "to">> :> {"A", "B", "C", "Nope", ""}) @@
 (<<"precice-configuration/coupling-scheme:multi/exchange", "initialize">> :> {"true", "false", "on", "0"})) @@
 ((<<"precice-configuration/coupling-scheme:multi/exchange", "substeps">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:constant/relaxation", "value">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})))) @@
 (((<<"precice-configuration/coupling-scheme:multi/acceleration:aitken/initial-relaxation", "value">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 ((<<"precice-configuration/coupling-scheme:multi/acceleration:aitken/data", "scaling">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:aitken/data", "name">> :> {"DA", "DB", "DC", "Nope"}))) @@
 (((<<"precice-configuration/coupling-scheme:multi/acceleration:aitken/data", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:aitken/preconditioner", "type">> :> {"constant", "value", "residual", "residual-sum", "Nope"})) @@
 ((<<"precice-configuration/coupling-scheme:multi/acceleration:aitken/preconditioner", "update-on-threshold">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:aitken/preconditioner", "freeze-after">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}))))))) @@
 ((((((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS", "reduced-time-grid">> :> {"true", "false", "on", "0"}) @@
 ((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS", "on-bound-violation">> :> {"ignore", "clamp", "discard", "scale", "Nope"}) @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/initial-relaxation", "value">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))) @@
 (((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/initial-relaxation", "enforce">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/max-used-iterations", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"})) @@
 ((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/time-windows-reused", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/data", "name">> :> {"DA", "DB", "DC", "Nope"})))) @@
 (((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/data", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 ((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/data", "scaling">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/filter", "limit">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))) @@
 (((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/filter", "type">> :> {"QR1", "QR1-absolute", "QR2", "QR3", "Nope"}) @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/preconditioner", "type">> :> {"constant", "value", "residual", "residual-sum", "Nope"})) @@
 ((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/preconditioner", "update-on-threshold">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/preconditioner", "freeze-after">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}))))) @@
 ((((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ", "always-build-jacobian">> :> {"true", "false", "on", "0"}) @@
 ((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ", "reduced-time-grid">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ", "on-bound-violation">> :> {"ignore", "clamp", "discard", "scale", "Nope"}))) @@
 (((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/initial-relaxation", "value">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/initial-relaxation", "enforce">> :> {"true", "false", "on", "0"})) @@
 ((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/imvj-restart-mode", "type">> :> {"no-restart", "RS-0", "RS-LS", "RS-SVD", "RS-SLIDE", "Nope"}) @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/imvj-restart-mode", "chunk-size">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"})))) @@
 (((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/imvj-restart-mode", "reused-time-windows-at-restart">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 ((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/imvj-restart-mode", "truncation-threshold">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/max-used-iterations", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}))) @@
 (((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/time-windows-reused", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/data", "name">> :> {"DA", "DB", "DC", "Nope"})) @@
 ((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/data", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/data", "scaling">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})))))) @@
 (((((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/filter", "limit">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 ((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/filter", "type">> :> {"QR1", "QR1-absolute", "QR2", "QR3", "Nope"}) @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/preconditioner", "type">> :> {"constant", "value", "residual", "residual-sum", "Nope"}))) @@
 (((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/preconditioner", "update-on-threshold">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/preconditioner", "freeze-after">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"})) @@
 ((<<"precice-configuration/coupling-scheme:multi/absolute-convergence-measure", "data">> :> {"DA", "DB", "DC", "Nope"}) @@
 (<<"precice-configuration/coupling-scheme:multi/absolute-convergence-measure", "mesh">> :> {"MA", "MB", "MC", "Nope", ""})))) @@
 (((<<"precice-configuration/coupling-scheme:multi/absolute-convergence-measure", "suffices">> :> {"true", "false", "on", "0"}) @@
 ((<<"precice-configuration/coupling-scheme:multi/absolute-convergence-measure", "strict">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:multi/absolute-convergence-measure", "limit">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}))) @@
 (((<<"precice-configuration/coupling-scheme:multi/absolute-or-relative-convergence-measure", "data">> :> {"DA", "DB", "DC", "Nope"}) @@
 (<<"precice-configuration/coupling-scheme:multi/absolute-or-relative-convergence-measure", "mesh">> :> {"MA", "MB", "MC", "Nope", ""})) @@
 ((<<"precice-configuration/coupling-scheme:multi/absolute-or-relative-convergence-measure", "suffices">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:multi/absolute-or-relative-convergence-measure", "strict">> :> {"true", "false", "on", "0"}))))) @@
 ((((<<"precice-configuration/coupling-scheme:multi/absolute-or-relative-convergence-measure", "abs-limit">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 ((<<"precice-configuration/coupling-scheme:multi/absolute-or-relative-convergence-measure", "rel-limit">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"}) @@
 (<<"precice-configuration/coupling-scheme:multi/relative-convergence-measure", "data">> :> {"DA", "DB", "DC", "Nope"}))) @@
 (((<<"precice-configuration/coupling-scheme:multi/relative-convergence-measure", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/coupling-scheme:multi/relative-convergence-measure", "suffices">> :> {"true", "false", "on", "0"})) @@
 ((<<"precice-configuration/coupling-scheme:multi/relative-convergence-measure", "strict">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:multi/relative-convergence-measure", "limit">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})))) @@
 (((<<"precice-configuration/coupling-scheme:multi/residual-relative-convergence-measure", "data">> :> {"DA", "DB", "DC", "Nope"}) @@
 ((<<"precice-configuration/coupling-scheme:multi/residual-relative-convergence-measure", "mesh">> :> {"MA", "MB", "MC", "Nope", ""}) @@
 (<<"precice-configuration/coupling-scheme:multi/residual-relative-convergence-measure", "suffices">> :> {"true", "false", "on", "0"}))) @@
 (((<<"precice-configuration/coupling-scheme:multi/residual-relative-convergence-measure", "strict">> :> {"true", "false", "on", "0"}) @@
 (<<"precice-configuration/coupling-scheme:multi/residual-relative-convergence-measure", "limit">> :> {"-1", "0", "0.001", "0.5", "1", "1.5", "1/2", "inf", "abc", "", "0.5x", "1e"})) @@
 ((<<"precice-configuration/coupling-scheme:multi/min-iterations", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}) @@
 (<<"precice-configuration/coupling-scheme:multi/max-iterations", "value">> :> {"-1", "0", "1", "2", "3", "65536", "99999999999", "1.5", "abc", "", "2x"}))))))))))

(* one value for every attribute *)
Sample ==
(((((((((<<"precice-configuration", "experimental">> :> "true") @@
 ((<<"precice-configuration", "allow-remeshing">> :> "true") @@
 (<<"precice-configuration", "wait-in-finalize">> :> "true"))) @@
 ((<<"precice-configuration/profiling", "mode">> :> "all") @@
 ((<<"precice-configuration/profiling", "flush-every">> :> "1") @@
 (<<"precice-configuration/profiling", "synchronize">> :> "true")))) @@
 (((<<"precice-configuration/data:scalar", "name">> :> "DA") @@
 ((<<"precice-configuration/data:scalar", "waveform-degree">> :> "1") @@
 (<<"precice-configuration/data:scalar", "lower-bound">> :> "0.5"))) @@
 (((<<"precice-configuration/data:scalar", "upper-bound">> :> "0.5") @@
 (<<"precice-configuration/data:vector", "name">> :> "DA")) @@
 ((<<"precice-configuration/data:vector", "waveform-degree">> :> "1") @@
 (<<"precice-configuration/data:vector", "lower-bound-x">> :> "0.5"))))) @@
 ((((<<"precice-configuration/data:vector", "lower-bound-y">> :> "0.5") @@
 ((<<"precice-configuration/data:vector", "lower-bound-z">> :> "0.5") @@
 (<<"precice-configuration/data:vector", "upper-bound-x">> :> "0.5"))) @@
 (((<<"precice-configuration/data:vector", "upper-bound-y">> :> "0.5") @@
 (<<"precice-configuration/data:vector", "upper-bound-z">> :> "0.5")) @@
 ((<<"precice-configuration/mesh", "name">> :> "MA") @@
 (<<"precice-configuration/mesh", "dimensions">> :> "2")))) @@
 (((<<"precice-configuration/mesh/use-data", "name">> :> "DA") @@
 ((<<"precice-configuration/m2n:sockets", "port">> :> "1") @@
 (<<"precice-configuration/m2n:sockets", "acceptor">> :> "A"))) @@
 (((<<"precice-configuration/m2n:sockets", "connector">> :> "A") @@
 (<<"precice-configuration/m2n:sockets", "enforce-gather-scatter">> :> "true")) @@
 ((<<"precice-configuration/m2n:sockets", "use-two-level-initialization">> :> "true") @@
 (<<"precice-configuration/m2n:mpi-multiple-ports", "acceptor">> :> "A")))))) @@
 (((((<<"precice-configuration/m2n:mpi-multiple-ports", "connector">> :> "A") @@
 ((<<"precice-configuration/m2n:mpi-multiple-ports", "enforce-gather-scatter">> :> "true") @@
 (<<"precice-configuration/m2n:mpi-multiple-ports", "use-two-level-initialization">> :> "true"))) @@
 (((<<"precice-configuration/m2n:mpi", "acceptor">> :> "A") @@
 (<<"precice-configuration/m2n:mpi", "connector">> :> "A")) @@
 ((<<"precice-configuration/m2n:mpi", "enforce-gather-scatter">> :> "true") @@
 (<<"precice-configuration/m2n:mpi", "use-two-level-initialization">> :> "true")))) @@
 (((<<"precice-configuration/participant", "name">> :> "A") @@
 ((<<"precice-configuration/participant/write-data", "name">> :> "DA") @@
 (<<"precice-configuration/participant/write-data", "mesh">> :> "MA"))) @@
 (((<<"precice-configuration/participant/read-data", "name">> :> "DA") @@
 (<<"precice-configuration/participant/read-data", "mesh">> :> "MA")) @@
 ((<<"precice-configuration/participant/mapping:nearest-neighbor", "from">> :> "MA") @@
 (<<"precice-configuration/participant/mapping:nearest-neighbor", "to">> :> "MA"))))) @@
 ((((<<"precice-configuration/participant/mapping:nearest-neighbor", "direction">> :> "write") @@
 ((<<"precice-configuration/participant/mapping:nearest-neighbor", "constraint">> :> "conservative") @@
 (<<"precice-configuration/participant/mapping:nearest-projection", "from">> :> "MA"))) @@
 (((<<"precice-configuration/participant/mapping:nearest-projection", "to">> :> "MA") @@
 (<<"precice-configuration/participant/mapping:nearest-projection", "direction">> :> "write")) @@
 ((<<"precice-configuration/participant/mapping:nearest-projection", "constraint">> :> "conservative") @@
 (<<"precice-configuration/participant/mapping:nearest-neighbor-gradient", "from">> :> "MA")))) @@
 (((<<"precice-configuration/participant/mapping:nearest-neighbor-gradient", "to">> :> "MA") @@
 ((<<"precice-configuration/participant/mapping:nearest-neighbor-gradient", "direction">> :> "write") @@
 (<<"precice-configuration/participant/mapping:nearest-neighbor-gradient", "constraint">> :> "conservative"))) @@
 (((<<"precice-configuration/participant/mapping:linear-cell-interpolation", "from">> :> "MA") @@
 (<<"precice-configuration/participant/mapping:linear-cell-interpolation", "to">> :> "MA")) @@
 ((<<"precice-configuration/participant/mapping:linear-cell-interpolation", "direction">> :> "write") @@
 (<<"precice-configuration/participant/mapping:linear-cell-interpolation", "constraint">> :> "conservative"))))))) @@
 ((((((<<"precice-configuration/participant/mapping:rbf-global-iterative", "from">> :> "MA") @@
 ((<<"precice-configuration/participant/mapping:rbf-global-iterative", "to">> :> "MA") @@
 (<<"precice-configuration/participant/mapping:rbf-global-iterative", "direction">> :> "write"))) @@
 (((<<"precice-configuration/participant/mapping:rbf-global-iterative", "constraint">> :> "conservative") @@
 (<<"precice-configuration/participant/mapping:rbf-global-iterative", "polynomial">> :> "on")) @@
 ((<<"precice-configuration/participant/mapping:rbf-global-iterative", "x-dead">> :> "true") @@
 (<<"precice-configuration/participant/mapping:rbf-global-iterative", "y-dead">> :> "true")))) @@
 (((<<"precice-configuration/participant/mapping:rbf-global-iterative", "z-dead">> :> "true") @@
 ((<<"precice-configuration/participant/mapping:rbf-global-iterative", "solver-rtol">> :> "0.5") @@
 (<<"precice-configuration/participant/mapping:rbf-global-iterative/executor:openmp", "n-threads">> :> "1"))) @@
 (((<<"precice-configuration/participant/mapping:rbf-global-iterative/basis-function:compact-polynomial-c0", "support-radius">> :> "0.5") @@
 (<<"precice-configuration/participant/mapping:rbf-global-iterative/basis-function:compact-polynomial-c2", "support-radius">> :> "0.5")) @@
 ((<<"precice-configuration/participant/mapping:rbf-global-iterative/basis-function:compact-polynomial-c4", "support-radius">> :> "0.5") @@
 (<<"precice-configuration/participant/mapping:rbf-global-iterative/basis-function:compact-polynomial-c6", "support-radius">> :> "0.5"))))) @@
 ((((<<"precice-configuration/participant/mapping:rbf-global-iterative/basis-function:compact-polynomial-c8", "support-radius">> :> "0.5") @@
 ((<<"precice-configuration/participant/mapping:rbf-global-iterative/basis-function:compact-tps-c2", "support-radius">> :> "0.5") @@
 (<<"precice-configuration/participant/mapping:rbf-global-iterative/basis-function:multiquadrics", "shape-parameter">> :> "0.5"))) @@
 (((<<"precice-configuration/participant/mapping:rbf-global-iterative/basis-function:inverse-multiquadrics", "shape-parameter">> :> "0.5") @@
 (<<"precice-configuration/participant/mapping:rbf-global-iterative/basis-function:gaussian", "shape-parameter">> :> "0.5")) @@
 ((<<"precice-configuration/participant/mapping:rbf-global-iterative/basis-function:gaussian", "support-radius">> :> "0.5") @@
 (<<"precice-configuration/participant/mapping:rbf-global-direct", "from">> :> "MA")))) @@
 (((<<"precice-configuration/participant/mapping:rbf-global-direct", "to">> :> "MA") @@
 ((<<"precice-configuration/participant/mapping:rbf-global-direct", "direction">> :> "write") @@
 (<<"precice-configuration/participant/mapping:rbf-global-direct", "constraint">> :> "conservative"))) @@
 (((<<"precice-configuration/participant/mapping:rbf-global-direct", "polynomial">> :> "on") @@
 (<<"precice-configuration/participant/mapping:rbf-global-direct", "x-dead">> :> "true")) @@
 ((<<"precice-configuration/participant/mapping:rbf-global-direct", "y-dead">> :> "true") @@
 (<<"precice-configuration/participant/mapping:rbf-global-direct", "z-dead">> :> "true")))))) @@
 (((((<<"precice-configuration/participant/mapping:rbf-global-direct/basis-function:compact-polynomial-c0", "support-radius">> :> "0.5") @@
 ((<<"precice-configuration/participant/mapping:rbf-global-direct/basis-function:compact-polynomial-c2", "support-radius">> :> "0.5") @@
 (<<"precice-configuration/participant/mapping:rbf-global-direct/basis-function:compact-polynomial-c4", "support-radius">> :> "0.5"))) @@
 (((<<"precice-configuration/participant/mapping:rbf-global-direct/basis-function:compact-polynomial-c6", "support-radius">> :> "0.5") @@
 (<<"precice-configuration/participant/mapping:rbf-global-direct/basis-function:compact-polynomial-c8", "support-radius">> :> "0.5")) @@
 ((<<"precice-configuration/participant/mapping:rbf-global-direct/basis-function:compact-tps-c2", "support-radius">> :> "0.5") @@
 (<<"precice-configuration/participant/mapping:rbf-global-direct/basis-function:multiquadrics", "shape-parameter">> :> "0.5")))) @@
 (((<<"precice-configuration/participant/mapping:rbf-global-direct/basis-function:inverse-multiquadrics", "shape-parameter">> :> "0.5") @@
 ((<<"precice-configuration/participant/mapping:rbf-global-direct/basis-function:gaussian", "shape-parameter">> :> "0.5") @@
 (<<"precice-configuration/participant/mapping:rbf-global-direct/basis-function:gaussian", "support-radius">> :> "0.5"))) @@
 (((<<"precice-configuration/participant/mapping:rbf-pum-direct", "from">> :> "MA") @@
 (<<"precice-configuration/participant/mapping:rbf-pum-direct", "to">> :> "MA")) @@
 ((<<"precice-configuration/participant/mapping:rbf-pum-direct", "direction">> :> "write") @@
 (<<"precice-configuration/participant/mapping:rbf-pum-direct", "constraint">> :> "conservative"))))) @@
 ((((<<"precice-configuration/participant/mapping:rbf-pum-direct", "polynomial">> :> "off") @@
 ((<<"precice-configuration/participant/mapping:rbf-pum-direct", "vertices-per-cluster">> :> "1") @@
 (<<"precice-configuration/participant/mapping:rbf-pum-direct", "relative-overlap">> :> "0.5"))) @@
 (((<<"precice-configuration/participant/mapping:rbf-pum-direct", "project-to-input">> :> "true") @@
 (<<"precice-configuration/participant/mapping:rbf-pum-direct/executor:cuda", "execution-mode">> :> "minimal-memory")) @@
 ((<<"precice-configuration/participant/mapping:rbf-pum-direct/executor:hip", "execution-mode">> :> "minimal-memory") @@
 (<<"precice-configuration/participant/mapping:rbf-pum-direct/executor:sycl", "execution-mode">> :> "minimal-memory")))) @@
 (((<<"precice-configuration/participant/mapping:rbf-pum-direct/executor:openmp", "n-threads">> :> "1") @@
 ((<<"precice-configuration/participant/mapping:rbf-pum-direct/executor:openmp", "execution-mode">> :> "minimal-memory") @@
 (<<"precice-configuration/participant/mapping:rbf-pum-direct/basis-function:compact-polynomial-c0", "support-radius">> :> "0.5"))) @@
 (((<<"precice-configuration/participant/mapping:rbf-pum-direct/basis-function:compact-polynomial-c2", "support-radius">> :> "0.5") @@
 (<<"precice-configuration/participant/mapping:rbf-pum-direct/basis-function:compact-polynomial-c4", "support-radius">> :> "0.5")) @@
 ((<<"precice-configuration/participant/mapping:rbf-pum-direct/basis-function:compact-polynomial-c6", "support-radius">> :> "0.5") @@
 (<<"precice-configuration/participant/mapping:rbf-pum-direct/basis-function:compact-polynomial-c8", "support-radius">> :> "0.5")))))))) @@
 (((((((<<"precice-configuration/participant/mapping:rbf-pum-direct/basis-function:compact-tps-c2", "support-radius">> :> "0.5") @@
 ((<<"precice-configuration/participant/mapping:rbf-pum-direct/basis-function:multiquadrics", "shape-parameter">> :> "0.5") @@
 (<<"precice-configuration/participant/mapping:rbf-pum-direct/basis-function:inverse-multiquadrics", "shape-parameter">> :> "0.5"))) @@
 ((<<"precice-configuration/participant/mapping:rbf-pum-direct/basis-function:gaussian", "shape-parameter">> :> "0.5") @@
 ((<<"precice-configuration/participant/mapping:rbf-pum-direct/basis-function:gaussian", "support-radius">> :> "0.5") @@
 (<<"precice-configuration/participant/mapping:rbf", "from">> :> "MA")))) @@
 (((<<"precice-configuration/participant/mapping:rbf", "to">> :> "MA") @@
 ((<<"precice-configuration/participant/mapping:rbf", "direction">> :> "write") @@
 (<<"precice-configuration/participant/mapping:rbf", "constraint">> :> "conservative"))) @@
 (((<<"precice-configuration/participant/mapping:rbf", "x-dead">> :> "true") @@
 (<<"precice-configuration/participant/mapping:rbf", "y-dead">> :> "true")) @@
 ((<<"precice-configuration/participant/mapping:rbf", "z-dead">> :> "true") @@
 (<<"precice-configuration/participant/mapping:rbf/basis-function:compact-polynomial-c0", "support-radius">> :> "0.5"))))) @@
 ((((<<"precice-configuration/participant/mapping:rbf/basis-function:compact-polynomial-c2", "support-radius">> :> "0.5") @@
 ((<<"precice-configuration/participant/mapping:rbf/basis-function:compact-polynomial-c4", "support-radius">> :> "0.5") @@
 (<<"precice-configuration/participant/mapping:rbf/basis-function:compact-polynomial-c6", "support-radius">> :> "0.5"))) @@
 (((<<"precice-configuration/participant/mapping:rbf/basis-function:compact-polynomial-c8", "support-radius">> :> "0.5") @@
 (<<"precice-configuration/participant/mapping:rbf/basis-function:compact-tps-c2", "support-radius">> :> "0.5")) @@
 ((<<"precice-configuration/participant/mapping:rbf/basis-function:multiquadrics", "shape-parameter">> :> "0.5") @@
 (<<"precice-configuration/participant/mapping:rbf/basis-function:inverse-multiquadrics", "shape-parameter">> :> "0.5")))) @@
 (((<<"precice-configuration/participant/mapping:rbf/basis-function:gaussian", "shape-parameter">> :> "0.5") @@
 ((<<"precice-configuration/participant/mapping:rbf/basis-function:gaussian", "support-radius">> :> "0.5") @@
 (<<"precice-configuration/participant/mapping:coarse-graining", "from">> :> "MA"))) @@
 (((<<"precice-configuration/participant/mapping:coarse-graining", "to">> :> "MA") @@
 (<<"precice-configuration/participant/mapping:coarse-graining", "direction">> :> "write")) @@
 ((<<"precice-configuration/participant/mapping:coarse-graining", "constraint">> :> "conservative") @@
 (<<"precice-configuration/participant/mapping:coarse-graining", "radius">> :> "0.5")))))) @@
 (((((<<"precice-configuration/participant/mapping:axial-geometric-multiscale", "from">> :> "MA") @@
 ((<<"precice-configuration/participant/mapping:axial-geometric-multiscale", "to">> :> "MA") @@
 (<<"precice-configuration/participant/mapping:axial-geometric-multiscale", "direction">> :> "write"))) @@
 (((<<"precice-configuration/participant/mapping:axial-geometric-multiscale", "constraint">> :> "conservative") @@
 (<<"precice-configuration/participant/mapping:axial-geometric-multiscale", "multiscale-dimension">> :> "1d-3d")) @@
 ((<<"precice-configuration/participant/mapping:axial-geometric-multiscale", "multiscale-type">> :> "spread") @@
 (<<"precice-configuration/participant/mapping:axial-geometric-multiscale", "multiscale-axis">> :> "x")))) @@
 (((<<"precice-configuration/participant/mapping:axial-geometric-multiscale", "multiscale-radius">> :> "0.5") @@
 ((<<"precice-configuration/participant/mapping:axial-geometric-multiscale", "multiscale-cross-section-profile">> :> "uniform") @@
 (<<"precice-configuration/participant/mapping:axial-geometric-multiscale", "multiscale-cross-section">> :> "circle"))) @@
 (((<<"precice-configuration/participant/mapping:radial-geometric-multiscale", "from">> :> "MA") @@
 (<<"precice-configuration/participant/mapping:radial-geometric-multiscale", "to">> :> "MA")) @@
 ((<<"precice-configuration/participant/mapping:radial-geometric-multiscale", "direction">> :> "write") @@
 (<<"precice-configuration/participant/mapping:radial-geometric-multiscale", "constraint">> :> "conservative"))))) @@
 ((((<<"precice-configuration/participant/mapping:radial-geometric-multiscale", "multiscale-type">> :> "spread") @@
 ((<<"precice-configuration/participant/mapping:radial-geometric-multiscale", "multiscale-axis">> :> "x") @@
 (<<"precice-configuration/participant/mapping:radial-geometric-multiscale", "multiscale-radius">> :> "0.5"))) @@
 (((<<"precice-configuration/participant/action:multiply-by-area", "timing">> :> "write-mapping-post") @@
 (<<"precice-configuration/participant/action:multiply-by-area", "mesh">> :> "MA")) @@
 ((<<"precice-configuration/participant/action:multiply-by-area/target-data", "name">> :> "DA") @@
 (<<"precice-configuration/participant/action:divide-by-area", "timing">> :> "write-mapping-post")))) @@
 (((<<"precice-configuration/participant/action:divide-by-area", "mesh">> :> "MA") @@
 ((<<"precice-configuration/participant/action:divide-by-area/target-data", "name">> :> "DA") @@
 (<<"precice-configuration/participant/action:summation", "timing">> :> "write-mapping-post"))) @@
 (((<<"precice-configuration/participant/action:summation", "mesh">> :> "MA") @@
 (<<"precice-configuration/participant/action:summation/source-data", "name">> :> "DA")) @@
 ((<<"precice-configuration/participant/action:summation/target-data", "name">> :> "DA") @@
 (<<"precice-configuration/participant/action:recorder", "timing">> :> "write-mapping-post"))))))) @@
 ((((((<<"precice-configuration/participant/action:recorder", "mesh">> :> "MA") @@
 ((<<"precice-configuration/participant/action:python", "timing">> :> "write-mapping-post") @@
 (<<"precice-configuration/participant/action:python", "mesh">> :> "MA"))) @@
 (((<<"precice-configuration/participant/action:python/source-data", "name">> :> "DA") @@
 (<<"precice-configuration/participant/action:python/target-data", "name">> :> "DA")) @@
 ((<<"precice-configuration/participant/export:vtk", "every-n-time-windows">> :> "1") @@
 (<<"precice-configuration/participant/export:vtk", "every-iteration">> :> "true")))) @@
 (((<<"precice-configuration/participant/export:vtk", "update-series">> :> "true") @@
 ((<<"precice-configuration/participant/export:vtu", "every-n-time-windows">> :> "1") @@
 (<<"precice-configuration/participant/export:vtu", "every-iteration">> :> "true"))) @@
 (((<<"precice-configuration/participant/export:vtu", "update-series">> :> "true") @@
 (<<"precice-configuration/participant/export:vtp", "every-n-time-windows">> :> "1")) @@
 ((<<"precice-configuration/participant/export:vtp", "every-iteration">> :> "true") @@
 (<<"precice-configuration/participant/export:vtp", "update-series">> :> "true"))))) @@
 ((((<<"precice-configuration/participant/export:csv", "every-n-time-windows">> :> "1") @@
 ((<<"precice-configuration/participant/export:csv", "every-iteration">> :> "true") @@
 (<<"precice-configuration/participant/export:csv", "update-series">> :> "true"))) @@
 (((<<"precice-configuration/participant/watch-point", "mesh">> :> "MA") @@
 (<<"precice-configuration/participant/watch-point", "coordinate">> :> "0.5;0")) @@
 ((<<"precice-configuration/participant/watch-integral", "mesh">> :> "MA") @@
 (<<"precice-configuration/participant/watch-integral", "scale-with-connectivity">> :> "true")))) @@
 (((<<"precice-configuration/participant/provide-mesh", "name">> :> "MA") @@
 ((<<"precice-configuration/participant/receive-mesh", "name">> :> "MA") @@
 (<<"precice-configuration/participant/receive-mesh", "api-access">> :> "true"))) @@
 (((<<"precice-configuration/participant/receive-mesh", "direct-access">> :> "true") @@
 (<<"precice-configuration/participant/receive-mesh", "geometric-filter">> :> "no-filter")) @@
 ((<<"precice-configuration/participant/receive-mesh", "from">> :> "A") @@
 (<<"precice-configuration/participant/receive-mesh", "safety-factor">> :> "0.5")))))) @@
 (((((<<"precice-configuration/participant/intra-comm:sockets", "port">> :> "1") @@
 ((<<"precice-configuration/coupling-scheme:serial-explicit/max-time", "value">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:serial-explicit/max-time-windows", "value">> :> "1"))) @@
 (((<<"precice-configuration/coupling-scheme:serial-explicit/time-window-size", "value">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:serial-explicit/time-window-size", "method">> :> "fixed")) @@
 ((<<"precice-configuration/coupling-scheme:serial-explicit/participants", "first">> :> "A") @@
 (<<"precice-configuration/coupling-scheme:serial-explicit/participants", "second">> :> "A")))) @@
 (((<<"precice-configuration/coupling-scheme:serial-explicit/exchange", "data">> :> "DA") @@
 ((<<"precice-configuration/coupling-scheme:serial-explicit/exchange", "mesh">> :> "MA") @@
 (<<"precice-configuration/coupling-scheme:serial-explicit/exchange", "from">> :> "A"))) @@
 (((<<"precice-configuration/coupling-scheme:serial-explicit/exchange", "to">> :> "A") @@
 (<<"precice-configuration/coupling-scheme:serial-explicit/exchange", "initialize">> :> "true")) @@
 ((<<"precice-configuration/coupling-scheme:serial-explicit/exchange", "substeps">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:parallel-explicit/max-time", "value">> :> "0.5"))))) @@
 ((((<<"precice-configuration/coupling-scheme:parallel-explicit/max-time-windows", "value">> :> "1") @@
 ((<<"precice-configuration/coupling-scheme:parallel-explicit/time-window-size", "value">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:parallel-explicit/participants", "first">> :> "A"))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-explicit/participants", "second">> :> "A") @@
 (<<"precice-configuration/coupling-scheme:parallel-explicit/exchange", "data">> :> "DA")) @@
 ((<<"precice-configuration/coupling-scheme:parallel-explicit/exchange", "mesh">> :> "MA") @@
 (<<"precice-configuration/coupling-scheme:parallel-explicit/exchange", "from">> :> "A")))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-explicit/exchange", "to">> :> "A") @@
 ((<<"precice-configuration/coupling-scheme:parallel-explicit/exchange", "initialize">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:parallel-explicit/exchange", "substeps">> :> "true"))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/max-time", "value">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/max-time-windows", "value">> :> "1")) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/time-window-size", "value">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/time-window-size", "method">> :> "fixed"))))))))) @@
 ((((((((<<"precice-configuration/coupling-scheme:serial-implicit/participants", "first">> :> "A") @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/participants", "second">> :> "A") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/exchange", "data">> :> "DA"))) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/exchange", "mesh">> :> "MA") @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/exchange", "from">> :> "A") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/exchange", "to">> :> "A")))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/exchange", "initialize">> :> "true") @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/exchange", "substeps">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:constant/relaxation", "value">> :> "0.5"))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:aitken/initial-relaxation", "value">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:aitken/data", "scaling">> :> "0.5")) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:aitken/data", "name">> :> "DA") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:aitken/data", "mesh">> :> "MA"))))) @@
 ((((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:aitken/preconditioner", "type">> :> "constant") @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:aitken/preconditioner", "update-on-threshold">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:aitken/preconditioner", "freeze-after">> :> "1"))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS", "reduced-time-grid">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS", "on-bound-violation">> :> "ignore")) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/initial-relaxation", "value">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/initial-relaxation", "enforce">> :> "true")))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/max-used-iterations", "value">> :> "1") @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/time-windows-reused", "value">> :> "1") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/data", "name">> :> "DA"))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/data", "mesh">> :> "MA") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/data", "scaling">> :> "0.5")) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/filter", "limit">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/filter", "type">> :> "QR1")))))) @@
 (((((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/preconditioner", "type">> :> "constant") @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/preconditioner", "update-on-threshold">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/preconditioner", "freeze-after">> :> "1"))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ", "always-build-jacobian">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ", "reduced-time-grid">> :> "true")) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ", "on-bound-violation">> :> "ignore") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/initial-relaxation", "value">> :> "0.5")))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/initial-relaxation", "enforce">> :> "true") @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/imvj-restart-mode", "type">> :> "no-restart") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/imvj-restart-mode", "chunk-size">> :> "1"))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/imvj-restart-mode", "reused-time-windows-at-restart">> :> "1") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/imvj-restart-mode", "truncation-threshold">> :> "0.5")) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/max-used-iterations", "value">> :> "1") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/time-windows-reused", "value">> :> "1"))))) @@
 ((((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/data", "name">> :> "DA") @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/data", "mesh">> :> "MA") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/data", "scaling">> :> "0.5"))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/filter", "limit">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/filter", "type">> :> "QR1")) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/preconditioner", "type">> :> "constant") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/preconditioner", "update-on-threshold">> :> "true")))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/preconditioner", "freeze-after">> :> "1") @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/absolute-convergence-measure", "data">> :> "DA") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/absolute-convergence-measure", "mesh">> :> "MA"))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/absolute-convergence-measure", "suffices">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/absolute-convergence-measure", "strict">> :> "true")) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/absolute-convergence-measure", "limit">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/absolute-or-relative-convergence-measure", "data">> :> "DA"))))))) @@
 ((((((<<"precice-configuration/coupling-scheme:serial-implicit/absolute-or-relative-convergence-measure", "mesh">> :> "MA") @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/absolute-or-relative-convergence-measure", "suffices">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/absolute-or-relative-convergence-measure", "strict">> :> "true"))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/absolute-or-relative-convergence-measure", "abs-limit">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/absolute-or-relative-convergence-measure", "rel-limit">> :> "0.5")) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/relative-convergence-measure", "data">> :> "DA") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/relative-convergence-measure", "mesh">> :> "MA")))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/relative-convergence-measure", "suffices">> :> "true") @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/relative-convergence-measure", "strict">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/relative-convergence-measure", "limit">> :> "0.5"))) @@
 (((<<"precice-configuration/coupling-scheme:serial-implicit/residual-relative-convergence-measure", "data">> :> "DA") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/residual-relative-convergence-measure", "mesh">> :> "MA")) @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/residual-relative-convergence-measure", "suffices">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/residual-relative-convergence-measure", "strict">> :> "true"))))) @@
 ((((<<"precice-configuration/coupling-scheme:serial-implicit/residual-relative-convergence-measure", "limit">> :> "0.5") @@
 ((<<"precice-configuration/coupling-scheme:serial-implicit/min-iterations", "value">> :> "1") @@
 (<<"precice-configuration/coupling-scheme:serial-implicit/max-iterations", "value">> :> "1"))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/max-time", "value">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/max-time-windows", "value">> :> "1")) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/time-window-size", "value">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/participants", "first">> :> "A")))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/participants", "second">> :> "A") @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/exchange", "data">> :> "DA") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/exchange", "mesh">> :> "MA"))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/exchange", "from">> :> "A") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/exchange", "to">> :> "A")) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/exchange", "initialize">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/exchange", "substeps">> :> "true")))))) @@
 (((((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:constant/relaxation", "value">> :> "0.5") @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:aitken/initial-relaxation", "value">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:aitken/data", "scaling">> :> "0.5"))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:aitken/data", "name">> :> "DA") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:aitken/data", "mesh">> :> "MA")) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:aitken/preconditioner", "type">> :> "constant") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:aitken/preconditioner", "update-on-threshold">> :> "true")))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:aitken/preconditioner", "freeze-after">> :> "1") @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS", "reduced-time-grid">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS", "on-bound-violation">> :> "ignore"))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/initial-relaxation", "value">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/initial-relaxation", "enforce">> :> "true")) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/max-used-iterations", "value">> :> "1") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/time-windows-reused", "value">> :> "1"))))) @@
 ((((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/data", "name">> :> "DA") @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/data", "mesh">> :> "MA") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/data", "scaling">> :> "0.5"))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/filter", "limit">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/filter", "type">> :> "QR1")) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/preconditioner", "type">> :> "constant") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/preconditioner", "update-on-threshold">> :> "true")))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/preconditioner", "freeze-after">> :> "1") @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ", "always-build-jacobian">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ", "reduced-time-grid">> :> "true"))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ", "on-bound-violation">> :> "ignore") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/initial-relaxation", "value">> :> "0.5")) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/initial-relaxation", "enforce">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/imvj-restart-mode", "type">> :> "no-restart")))))))) @@
 (((((((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/imvj-restart-mode", "chunk-size">> :> "1") @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/imvj-restart-mode", "reused-time-windows-at-restart">> :> "1") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/imvj-restart-mode", "truncation-threshold">> :> "0.5"))) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/max-used-iterations", "value">> :> "1") @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/time-windows-reused", "value">> :> "1") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/data", "name">> :> "DA")))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/data", "mesh">> :> "MA") @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/data", "scaling">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/filter", "limit">> :> "0.5"))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/filter", "type">> :> "QR1") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/preconditioner", "type">> :> "constant")) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/preconditioner", "update-on-threshold">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/preconditioner", "freeze-after">> :> "1"))))) @@
 ((((<<"precice-configuration/coupling-scheme:parallel-implicit/absolute-convergence-measure", "data">> :> "DA") @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/absolute-convergence-measure", "mesh">> :> "MA") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/absolute-convergence-measure", "suffices">> :> "true"))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/absolute-convergence-measure", "strict">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/absolute-convergence-measure", "limit">> :> "0.5")) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/absolute-or-relative-convergence-measure", "data">> :> "DA") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/absolute-or-relative-convergence-measure", "mesh">> :> "MA")))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/absolute-or-relative-convergence-measure", "suffices">> :> "true") @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/absolute-or-relative-convergence-measure", "strict">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/absolute-or-relative-convergence-measure", "abs-limit">> :> "0.5"))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/absolute-or-relative-convergence-measure", "rel-limit">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/relative-convergence-measure", "data">> :> "DA")) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/relative-convergence-measure", "mesh">> :> "MA") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/relative-convergence-measure", "suffices">> :> "true")))))) @@
 (((((<<"precice-configuration/coupling-scheme:parallel-implicit/relative-convergence-measure", "strict">> :> "true") @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/relative-convergence-measure", "limit">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/residual-relative-convergence-measure", "data">> :> "DA"))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/residual-relative-convergence-measure", "mesh">> :> "MA") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/residual-relative-convergence-measure", "suffices">> :> "true")) @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/residual-relative-convergence-measure", "strict">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:parallel-implicit/residual-relative-convergence-measure", "limit">> :> "0.5")))) @@
 (((<<"precice-configuration/coupling-scheme:parallel-implicit/min-iterations", "value">> :> "1") @@
 ((<<"precice-configuration/coupling-scheme:parallel-implicit/max-iterations", "value">> :> "1") @@
 (<<"precice-configuration/coupling-scheme:multi/max-time", "value">> :> "0.5"))) @@
 (((<<"precice-configuration/coupling-scheme:multi/max-time-windows", "value">> :> "1") @@
 (<<"precice-configuration/coupling-scheme:multi/time-window-size", "value">> :> "0.5")) @@
 ((<<"precice-configuration/coupling-scheme:multi/participant", "name">> :> "A") @@
 (<<"precice-configuration/coupling-scheme:multi/participant", "control">> :> "true"))))) @@
 ((((<<"precice-configuration/coupling-scheme:multi/exchange", "data">> :> "DA") @@
 ((<<"precice-configuration/coupling-scheme:multi/exchange", "mesh">> :> "MA") @@
 (<<"precice-configuration/coupling-scheme:multi/exchange", "from">> :> "A"))) @@
 (((<<"precice-configuration/coupling-scheme:multi/exchange", "to">> :> "A") @@
 (<<"precice-configuration/coupling-scheme:multi/exchange", "initialize">> :> "true")) @@
 ((<<"precice-configuration/coupling-scheme:multi/exchange", "substeps">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:constant/relaxation", "value">> :> "0.5")))) @@
 (((<<"precice-configuration/coupling-scheme:multi/acceleration:aitken/initial-relaxation", "value">> :> "0.5") @@
 ((<<"precice-configuration/coupling-scheme:multi/acceleration:aitken/data", "scaling">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:aitken/data", "name">> :> "DA"))) @@
 (((<<"precice-configuration/coupling-scheme:multi/acceleration:aitken/data", "mesh">> :> "MA") @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:aitken/preconditioner", "type">> :> "constant")) @@
 ((<<"precice-configuration/coupling-scheme:multi/acceleration:aitken/preconditioner", "update-on-threshold">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:aitken/preconditioner", "freeze-after">> :> "1"))))))) @@
 ((((((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS", "reduced-time-grid">> :> "true") @@
 ((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS", "on-bound-violation">> :> "ignore") @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/initial-relaxation", "value">> :> "0.5"))) @@
 (((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/initial-relaxation", "enforce">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/max-used-iterations", "value">> :> "1")) @@
 ((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/time-windows-reused", "value">> :> "1") @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/data", "name">> :> "DA")))) @@
 (((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/data", "mesh">> :> "MA") @@
 ((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/data", "scaling">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/filter", "limit">> :> "0.5"))) @@
 (((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/filter", "type">> :> "QR1") @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/preconditioner", "type">> :> "constant")) @@
 ((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/preconditioner", "update-on-threshold">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/preconditioner", "freeze-after">> :> "1"))))) @@
 ((((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ", "always-build-jacobian">> :> "true") @@
 ((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ", "reduced-time-grid">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ", "on-bound-violation">> :> "ignore"))) @@
 (((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/initial-relaxation", "value">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/initial-relaxation", "enforce">> :> "true")) @@
 ((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/imvj-restart-mode", "type">> :> "no-restart") @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/imvj-restart-mode", "chunk-size">> :> "1")))) @@
 (((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/imvj-restart-mode", "reused-time-windows-at-restart">> :> "1") @@
 ((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/imvj-restart-mode", "truncation-threshold">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/max-used-iterations", "value">> :> "1"))) @@
 (((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/time-windows-reused", "value">> :> "1") @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/data", "name">> :> "DA")) @@
 ((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/data", "mesh">> :> "MA") @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/data", "scaling">> :> "0.5")))))) @@
 (((((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/filter", "limit">> :> "0.5") @@
 ((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/filter", "type">> :> "QR1") @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/preconditioner", "type">> :> "constant"))) @@
 (((<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/preconditioner", "update-on-threshold">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/preconditioner", "freeze-after">> :> "1")) @@
 ((<<"precice-configuration/coupling-scheme:multi/absolute-convergence-measure", "data">> :> "DA") @@
 (<<"precice-configuration/coupling-scheme:multi/absolute-convergence-measure", "mesh">> :> "MA")))) @@
 (((<<"precice-configuration/coupling-scheme:multi/absolute-convergence-measure", "suffices">> :> "true") @@
 ((<<"precice-configuration/coupling-scheme:multi/absolute-convergence-measure", "strict">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:multi/absolute-convergence-measure", "limit">> :> "0.5"))) @@
 (((<<"precice-configuration/coupling-scheme:multi/absolute-or-relative-convergence-measure", "data">> :> "DA") @@
 (<<"precice-configuration/coupling-scheme:multi/absolute-or-relative-convergence-measure", "mesh">> :> "MA")) @@
 ((<<"precice-configuration/coupling-scheme:multi/absolute-or-relative-convergence-measure", "suffices">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:multi/absolute-or-relative-convergence-measure", "strict">> :> "true"))))) @@
 ((((<<"precice-configuration/coupling-scheme:multi/absolute-or-relative-convergence-measure", "abs-limit">> :> "0.5") @@
 ((<<"precice-configuration/coupling-scheme:multi/absolute-or-relative-convergence-measure", "rel-limit">> :> "0.5") @@
 (<<"precice-configuration/coupling-scheme:multi/relative-convergence-measure", "data">> :> "DA"))) @@
 (((<<"precice-configuration/coupling-scheme:multi/relative-convergence-measure", "mesh">> :> "MA") @@
 (<<"precice-configuration/coupling-scheme:multi/relative-convergence-measure", "suffices">> :> "true")) @@
 ((<<"precice-configuration/coupling-scheme:multi/relative-convergence-measure", "strict">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:multi/relative-convergence-measure", "limit">> :> "0.5")))) @@
 (((<<"precice-configuration/coupling-scheme:multi/residual-relative-convergence-measure", "data">> :> "DA") @@
 ((<<"precice-configuration/coupling-scheme:multi/residual-relative-convergence-measure", "mesh">> :> "MA") @@
 (<<"precice-configuration/coupling-scheme:multi/residual-relative-convergence-measure", "suffices">> :> "true"))) @@
 (((<<"precice-configuration/coupling-scheme:multi/residual-relative-convergence-measure", "strict">> :> "true") @@
 (<<"precice-configuration/coupling-scheme:multi/residual-relative-convergence-measure", "limit">> :> "0.5")) @@
 ((<<"precice-configuration/coupling-scheme:multi/min-iterations", "value">> :> "1") @@
 (<<"precice-configuration/coupling-scheme:multi/max-iterations", "value">> :> "1"))))))))))

Values ==
((((((("" :> [int |-> TRUE, float |-> TRUE, vector |-> TRUE, num |-> 0]) @@
 (("-1" :> [int |-> TRUE, float |-> TRUE, vector |-> TRUE, num |-> -10000]) @@
 ("-100" :> [int |-> TRUE, float |-> TRUE, vector |-> TRUE, num |-> -1000000]))) @@
 (("-inf" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> -2000000000]) @@
 (("." :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("0" :> [int |-> TRUE, float |-> TRUE, vector |-> TRUE, num |-> 0])))) @@
 ((("0.0001" :> [int |-> FALSE, float |-> TRUE, vector |-> TRUE, num |-> 1]) @@
 (("0.001" :> [int |-> FALSE, float |-> TRUE, vector |-> TRUE, num |-> 10]) @@
 ("0.01" :> [int |-> FALSE, float |-> TRUE, vector |-> TRUE, num |-> 100]))) @@
 (("0.1" :> [int |-> FALSE, float |-> TRUE, vector |-> TRUE, num |-> 1000]) @@
 (("0.15" :> [int |-> FALSE, float |-> TRUE, vector |-> TRUE, num |-> 1500]) @@
 ("0.4" :> [int |-> FALSE, float |-> TRUE, vector |-> TRUE, num |-> 4000]))))) @@
 (((("0.5" :> [int |-> FALSE, float |-> TRUE, vector |-> TRUE, num |-> 5000]) @@
 (("0.5;0" :> [int |-> FALSE, float |-> FALSE, vector |-> TRUE, num |-> 0]) @@
 ("0.5;0;0" :> [int |-> FALSE, float |-> FALSE, vector |-> TRUE, num |-> 0]))) @@
 (("0.5x" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 (("0.7" :> [int |-> FALSE, float |-> TRUE, vector |-> TRUE, num |-> 7000]) @@
 ("1" :> [int |-> TRUE, float |-> TRUE, vector |-> TRUE, num |-> 10000])))) @@
 ((("1.5" :> [int |-> FALSE, float |-> TRUE, vector |-> TRUE, num |-> 15000]) @@
 (("1/2" :> [int |-> FALSE, float |-> TRUE, vector |-> TRUE, num |-> 5000]) @@
 ("10" :> [int |-> TRUE, float |-> TRUE, vector |-> TRUE, num |-> 100000]))) @@
 ((("100" :> [int |-> TRUE, float |-> TRUE, vector |-> TRUE, num |-> 1000000]) @@
 ("1d-2d" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0])) @@
 (("1d-3d" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("1e" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0])))))) @@
 ((((("1e-09" :> [int |-> FALSE, float |-> TRUE, vector |-> TRUE, num |-> 1]) @@
 (("1e-16" :> [int |-> FALSE, float |-> TRUE, vector |-> TRUE, num |-> 1]) @@
 ("2" :> [int |-> TRUE, float |-> TRUE, vector |-> TRUE, num |-> 20000]))) @@
 (("2d-3d" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 (("2x" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("3" :> [int |-> TRUE, float |-> TRUE, vector |-> TRUE, num |-> 30000])))) @@
 ((("4" :> [int |-> TRUE, float |-> TRUE, vector |-> TRUE, num |-> 40000]) @@
 (("50" :> [int |-> TRUE, float |-> TRUE, vector |-> TRUE, num |-> 500000]) @@
 ("65536" :> [int |-> TRUE, float |-> TRUE, vector |-> TRUE, num |-> 655360000]))) @@
 ((("8" :> [int |-> TRUE, float |-> TRUE, vector |-> TRUE, num |-> 80000]) @@
 ("99999999999" :> [int |-> FALSE, float |-> TRUE, vector |-> TRUE, num |-> 2000000000])) @@
 (("A" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("B" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]))))) @@
 (((("C" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 (("DA" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("DB" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]))) @@
 (("DC" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 (("I" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("MA" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0])))) @@
 ((("MB" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 (("MC" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("Nope" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]))) @@
 ((("P" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("QR1" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0])) @@
 (("QR1-absolute" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("QR2" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]))))))) @@
 (((((("QR3" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 (("RS-0" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("RS-LS" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]))) @@
 (("RS-SLIDE" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 (("RS-SVD" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("a;b" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0])))) @@
 ((("abc" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 (("all" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("api" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]))) @@
 (("circle" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 (("clamp" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("collect" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]))))) @@
 (((("conservative" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 (("consistent" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("constant" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]))) @@
 (("discard" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 (("false" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("first-participant" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0])))) @@
 ((("fixed" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 (("fundamental" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("ignore" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]))) @@
 ((("inf" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 2000000000]) @@
 ("lo" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0])) @@
 (("minimal-compute" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("minimal-memory" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0])))))) @@
 ((((("nan" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 (("no-filter" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("no-restart" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]))) @@
 (("off" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 (("on" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("on-primary-rank" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0])))) @@
 ((("on-secondary-ranks" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 (("parabolic" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("read" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]))) @@
 ((("read-mapping-post" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("residual" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0])) @@
 (("residual-sum" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("scale" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]))))) @@
 (((("scaled-consistent-surface" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 (("scaled-consistent-volume" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("separate" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]))) @@
 (("spread" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 (("square" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("true" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0])))) @@
 ((("uniform" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 (("value" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("write" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]))) @@
 ((("write-mapping-post" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("x" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0])) @@
 (("y" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]) @@
 ("z" :> [int |-> FALSE, float |-> FALSE, vector |-> FALSE, num |-> 0]))))))))

NotFinite == {"-inf", "inf", "nan"}

Components(v) ==
  LET f == ((((("" :> 1) @@
 (("-1" :> 1) @@
 ("-100" :> 1))) @@
 ((("0" :> 1) @@
 ("0.0001" :> 1)) @@
 (("0.001" :> 1) @@
 ("0.01" :> 1)))) @@
 ((("0.1" :> 1) @@
 (("0.15" :> 1) @@
 ("0.4" :> 1))) @@
 ((("0.5" :> 1) @@
 ("0.5;0" :> 2)) @@
 (("0.5;0;0" :> 3) @@
 ("0.7" :> 1))))) @@
 (((("1" :> 1) @@
 (("1.5" :> 1) @@
 ("1/2" :> 1))) @@
 ((("10" :> 1) @@
 ("100" :> 1)) @@
 (("1e-09" :> 1) @@
 ("1e-16" :> 1)))) @@
 ((("2" :> 1) @@
 (("3" :> 1) @@
 ("4" :> 1))) @@
 ((("50" :> 1) @@
 ("65536" :> 1)) @@
 (("8" :> 1) @@
 ("99999999999" :> 1)))))) IN f[v]

Spaces ==
(((((("acceleration:IQN-ILS" :> "acceleration") @@
 (("acceleration:IQN-IMVJ" :> "acceleration") @@
 ("acceleration:aitken" :> "acceleration"))) @@
 (("acceleration:constant" :> "acceleration") @@
 (("action:divide-by-area" :> "action") @@
 ("action:multiply-by-area" :> "action")))) @@
 ((("action:python" :> "action") @@
 (("action:recorder" :> "action") @@
 ("action:summation" :> "action"))) @@
 ((("basis-function:compact-polynomial-c0" :> "basis-function") @@
 ("basis-function:compact-polynomial-c2" :> "basis-function")) @@
 (("basis-function:compact-polynomial-c4" :> "basis-function") @@
 ("basis-function:compact-polynomial-c6" :> "basis-function"))))) @@
 (((("basis-function:compact-polynomial-c8" :> "basis-function") @@
 (("basis-function:compact-tps-c2" :> "basis-function") @@
 ("basis-function:gaussian" :> "basis-function"))) @@
 (("basis-function:inverse-multiquadrics" :> "basis-function") @@
 (("basis-function:multiquadrics" :> "basis-function") @@
 ("basis-function:thin-plate-splines" :> "basis-function")))) @@
 ((("basis-function:volume-splines" :> "basis-function") @@
 (("coupling-scheme:multi" :> "coupling-scheme") @@
 ("coupling-scheme:parallel-explicit" :> "coupling-scheme"))) @@
 ((("coupling-scheme:parallel-implicit" :> "coupling-scheme") @@
 ("coupling-scheme:serial-explicit" :> "coupling-scheme")) @@
 (("coupling-scheme:serial-implicit" :> "coupling-scheme") @@
 ("data:scalar" :> "data")))))) @@
 ((((("data:vector" :> "data") @@
 (("executor:cpu" :> "executor") @@
 ("executor:cuda" :> "executor"))) @@
 (("executor:hip" :> "executor") @@
 (("executor:openmp" :> "executor") @@
 ("executor:sycl" :> "executor")))) @@
 ((("export:csv" :> "export") @@
 (("export:vtk" :> "export") @@
 ("export:vtp" :> "export"))) @@
 ((("export:vtu" :> "export") @@
 ("intra-comm:mpi" :> "intra-comm")) @@
 (("intra-comm:sockets" :> "intra-comm") @@
 ("m2n:mpi" :> "m2n"))))) @@
 (((("m2n:mpi-multiple-ports" :> "m2n") @@
 (("m2n:sockets" :> "m2n") @@
 ("mapping:axial-geometric-multiscale" :> "mapping"))) @@
 (("mapping:coarse-graining" :> "mapping") @@
 (("mapping:linear-cell-interpolation" :> "mapping") @@
 ("mapping:nearest-neighbor" :> "mapping")))) @@
 ((("mapping:nearest-neighbor-gradient" :> "mapping") @@
 (("mapping:nearest-projection" :> "mapping") @@
 ("mapping:radial-geometric-multiscale" :> "mapping"))) @@
 ((("mapping:rbf" :> "mapping") @@
 ("mapping:rbf-global-direct" :> "mapping")) @@
 (("mapping:rbf-global-iterative" :> "mapping") @@
 ("mapping:rbf-pum-direct" :> "mapping")))))))

SubTags ==
((((("precice-configuration" :> {"coupling-scheme:multi", "coupling-scheme:parallel-explicit", "coupling-scheme:parallel-implicit", "coupling-scheme:serial-explicit", "coupling-scheme:serial-implicit", "data:scalar", "data:vector", "m2n:mpi", "m2n:mpi-multiple-ports", "m2n:sockets", "mesh", "participant", "profiling"}) @@
 (("precice-configuration/coupling-scheme:multi" :> {"absolute-convergence-measure", "absolute-or-relative-convergence-measure", "acceleration:IQN-ILS", "acceleration:IQN-IMVJ", "acceleration:aitken", "acceleration:constant", "exchange", "max-iterations", "max-time", "max-time-windows", "min-iterations", "participant", "relative-convergence-measure", "residual-relative-convergence-measure", "time-window-size"}) @@
 ("precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS" :> {"data", "filter", "initial-relaxation", "max-used-iterations", "preconditioner", "time-windows-reused"}))) @@
 ((("precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ" :> {"data", "filter", "imvj-restart-mode", "initial-relaxation", "max-used-iterations", "preconditioner", "time-windows-reused"}) @@
 ("precice-configuration/coupling-scheme:multi/acceleration:aitken" :> {"data", "initial-relaxation", "preconditioner"})) @@
 (("precice-configuration/coupling-scheme:multi/acceleration:constant" :> {"relaxation"}) @@
 ("precice-configuration/coupling-scheme:parallel-explicit" :> {"exchange", "max-time", "max-time-windows", "participants", "time-window-size"})))) @@
 ((("precice-configuration/coupling-scheme:parallel-implicit" :> {"absolute-convergence-measure", "absolute-or-relative-convergence-measure", "acceleration:IQN-ILS", "acceleration:IQN-IMVJ", "acceleration:aitken", "acceleration:constant", "exchange", "max-iterations", "max-time", "max-time-windows", "min-iterations", "participants", "relative-convergence-measure", "residual-relative-convergence-measure", "time-window-size"}) @@
 (("precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS" :> {"data", "filter", "initial-relaxation", "max-used-iterations", "preconditioner", "time-windows-reused"}) @@
 ("precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ" :> {"data", "filter", "imvj-restart-mode", "initial-relaxation", "max-used-iterations", "preconditioner", "time-windows-reused"}))) @@
 ((("precice-configuration/coupling-scheme:parallel-implicit/acceleration:aitken" :> {"data", "initial-relaxation", "preconditioner"}) @@
 ("precice-configuration/coupling-scheme:parallel-implicit/acceleration:constant" :> {"relaxation"})) @@
 (("precice-configuration/coupling-scheme:serial-explicit" :> {"exchange", "max-time", "max-time-windows", "participants", "time-window-size"}) @@
 ("precice-configuration/coupling-scheme:serial-implicit" :> {"absolute-convergence-measure", "absolute-or-relative-convergence-measure", "acceleration:IQN-ILS", "acceleration:IQN-IMVJ", "acceleration:aitken", "acceleration:constant", "exchange", "max-iterations", "max-time", "max-time-windows", "min-iterations", "participants", "relative-convergence-measure", "residual-relative-convergence-measure", "time-window-size"}))))) @@
 (((("precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS" :> {"data", "filter", "initial-relaxation", "max-used-iterations", "preconditioner", "time-windows-reused"}) @@
 (("precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ" :> {"data", "filter", "imvj-restart-mode", "initial-relaxation", "max-used-iterations", "preconditioner", "time-windows-reused"}) @@
 ("precice-configuration/coupling-scheme:serial-implicit/acceleration:aitken" :> {"data", "initial-relaxation", "preconditioner"}))) @@
 ((("precice-configuration/coupling-scheme:serial-implicit/acceleration:constant" :> {"relaxation"}) @@
 ("precice-configuration/mesh" :> {"use-data"})) @@
 (("precice-configuration/participant" :> {"action:divide-by-area", "action:multiply-by-area", "action:python", "action:recorder", "action:summation", "export:csv", "export:vtk", "export:vtp", "export:vtu", "intra-comm:mpi", "intra-comm:sockets", "mapping:axial-geometric-multiscale", "mapping:coarse-graining", "mapping:linear-cell-interpolation", "mapping:nearest-neighbor", "mapping:nearest-neighbor-gradient", "mapping:nearest-projection", "mapping:radial-geometric-multiscale", "mapping:rbf", "mapping:rbf-global-direct", "mapping:rbf-global-iterative", "mapping:rbf-pum-direct", "provide-mesh", "read-data", "receive-mesh", "watch-integral", "watch-point", "write-data"}) @@
 ("precice-configuration/participant/action:divide-by-area" :> {"target-data"})))) @@
 ((("precice-configuration/participant/action:multiply-by-area" :> {"target-data"}) @@
 (("precice-configuration/participant/action:python" :> {"module", "path", "source-data", "target-data"}) @@
 ("precice-configuration/participant/action:summation" :> {"source-data", "target-data"}))) @@
 ((("precice-configuration/participant/mapping:rbf" :> {"basis-function:compact-polynomial-c0", "basis-function:compact-polynomial-c2", "basis-function:compact-polynomial-c4", "basis-function:compact-polynomial-c6", "basis-function:compact-polynomial-c8", "basis-function:compact-tps-c2", "basis-function:gaussian", "basis-function:inverse-multiquadrics", "basis-function:multiquadrics", "basis-function:thin-plate-splines", "basis-function:volume-splines"}) @@
 ("precice-configuration/participant/mapping:rbf-global-direct" :> {"basis-function:compact-polynomial-c0", "basis-function:compact-polynomial-c2", "basis-function:compact-polynomial-c4", "basis-function:compact-polynomial-c6", "basis-function:compact-polynomial-c8", "basis-function:compact-tps-c2", "basis-function:gaussian", "basis-function:inverse-multiquadrics", "basis-function:multiquadrics", "basis-function:thin-plate-splines", "basis-function:volume-splines", "executor:cpu", "executor:cuda", "executor:hip"})) @@
 (("precice-configuration/participant/mapping:rbf-global-iterative" :> {"basis-function:compact-polynomial-c0", "basis-function:compact-polynomial-c2", "basis-function:compact-polynomial-c4", "basis-function:compact-polynomial-c6", "basis-function:compact-polynomial-c8", "basis-function:compact-tps-c2", "basis-function:gaussian", "basis-function:inverse-multiquadrics", "basis-function:multiquadrics", "basis-function:thin-plate-splines", "basis-function:volume-splines", "executor:cpu", "executor:cuda", "executor:hip", "executor:openmp"}) @@
 ("precice-configuration/participant/mapping:rbf-pum-direct" :> {"basis-function:compact-polynomial-c0", "basis-function:compact-polynomial-c2", "basis-function:compact-polynomial-c4", "basis-function:compact-polynomial-c6", "basis-function:compact-polynomial-c8", "basis-function:compact-tps-c2", "basis-function:gaussian", "basis-function:inverse-multiquadrics", "basis-function:multiquadrics", "basis-function:thin-plate-splines", "basis-function:volume-splines", "executor:cpu", "executor:cuda", "executor:hip", "executor:openmp", "executor:sycl"}))))))
Below(p) == IF p \in DOMAIN SubTags THEN SubTags[p] ELSE {}

=============================================================================
