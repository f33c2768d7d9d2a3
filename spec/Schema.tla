------------------------------- MODULE Schema -------------------------------
(* The tags of a configuration, how often each may occur in its parent, and   *)
(* their attributes with type, default and options: the reference             *)
(* documentation of the pinned release, transcribed by tools/mkschema.py.      *)
EXTENDS TLC

Tags ==
  "precice-configuration" :> [occurs |-> "1", attributes |-> ("experimental" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "allow-remeshing" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "wait-in-finalize" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}])] @@
  "precice-configuration/profiling" :> [occurs |-> "0..1", attributes |-> ("mode" :> [type |-> "string", optional |-> TRUE, default |-> "fundamental", options |-> {"all", "api", "fundamental", "off"}] @@ "flush-every" :> [type |-> "integer", optional |-> TRUE, default |-> "50", options |-> {}] @@ "directory" :> [type |-> "string", optional |-> TRUE, default |-> ".", options |-> {}] @@ "synchronize" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}])] @@
  "precice-configuration/data:scalar" :> [occurs |-> "0..*", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "waveform-degree" :> [type |-> "integer", optional |-> TRUE, default |-> "1", options |-> {}] @@ "lower-bound" :> [type |-> "float", optional |-> TRUE, default |-> "-inf", options |-> {}] @@ "upper-bound" :> [type |-> "float", optional |-> TRUE, default |-> "inf", options |-> {}])] @@
  "precice-configuration/data:vector" :> [occurs |-> "0..*", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "waveform-degree" :> [type |-> "integer", optional |-> TRUE, default |-> "1", options |-> {}] @@ "lower-bound-x" :> [type |-> "float", optional |-> TRUE, default |-> "-inf", options |-> {}] @@ "lower-bound-y" :> [type |-> "float", optional |-> TRUE, default |-> "-inf", options |-> {}] @@ "lower-bound-z" :> [type |-> "float", optional |-> TRUE, default |-> "-inf", options |-> {}] @@ "upper-bound-x" :> [type |-> "float", optional |-> TRUE, default |-> "inf", options |-> {}] @@ "upper-bound-y" :> [type |-> "float", optional |-> TRUE, default |-> "inf", options |-> {}] @@ "upper-bound-z" :> [type |-> "float", optional |-> TRUE, default |-> "inf", options |-> {}])] @@
  "precice-configuration/mesh" :> [occurs |-> "1..*", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "dimensions" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {"2", "3"}])] @@
  "precice-configuration/mesh/use-data" :> [occurs |-> "0..*", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/m2n:sockets" :> [occurs |-> "0..*", attributes |-> ("port" :> [type |-> "integer", optional |-> TRUE, default |-> "0", options |-> {}] @@ "network" :> [type |-> "string", optional |-> TRUE, default |-> "lo", options |-> {}] @@ "exchange-directory" :> [type |-> "string", optional |-> TRUE, default |-> ".", options |-> {}] @@ "acceptor" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "connector" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "enforce-gather-scatter" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "use-two-level-initialization" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}])] @@
  "precice-configuration/m2n:mpi-multiple-ports" :> [occurs |-> "0..*", attributes |-> ("exchange-directory" :> [type |-> "string", optional |-> TRUE, default |-> ".", options |-> {}] @@ "acceptor" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "connector" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "enforce-gather-scatter" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "use-two-level-initialization" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}])] @@
  "precice-configuration/m2n:mpi" :> [occurs |-> "0..*", attributes |-> ("exchange-directory" :> [type |-> "string", optional |-> TRUE, default |-> ".", options |-> {}] @@ "acceptor" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "connector" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "enforce-gather-scatter" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "use-two-level-initialization" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}])] @@
  "precice-configuration/participant" :> [occurs |-> "1..*", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/write-data" :> [occurs |-> "0..*", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/read-data" :> [occurs |-> "0..*", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:nearest-neighbor" :> [occurs |-> "0..*", attributes |-> ("from" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}] @@ "to" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}] @@ "direction" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"write", "read"}] @@ "constraint" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"conservative", "consistent", "scaled-consistent-surface", "scaled-consistent-volume"}])] @@
  "precice-configuration/participant/mapping:nearest-projection" :> [occurs |-> "0..*", attributes |-> ("from" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}] @@ "to" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}] @@ "direction" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"write", "read"}] @@ "constraint" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"conservative", "consistent", "scaled-consistent-surface", "scaled-consistent-volume"}])] @@
  "precice-configuration/participant/mapping:nearest-neighbor-gradient" :> [occurs |-> "0..*", attributes |-> ("from" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}] @@ "to" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}] @@ "direction" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"write", "read"}] @@ "constraint" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"conservative", "consistent", "scaled-consistent-surface", "scaled-consistent-volume"}])] @@
  "precice-configuration/participant/mapping:linear-cell-interpolation" :> [occurs |-> "0..*", attributes |-> ("from" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}] @@ "to" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}] @@ "direction" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"write", "read"}] @@ "constraint" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"conservative", "consistent", "scaled-consistent-surface", "scaled-consistent-volume"}])] @@
  "precice-configuration/participant/mapping:rbf-global-iterative" :> [occurs |-> "0..*", attributes |-> ("from" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}] @@ "to" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}] @@ "direction" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"write", "read"}] @@ "constraint" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"conservative", "consistent", "scaled-consistent-surface", "scaled-consistent-volume"}] @@ "polynomial" :> [type |-> "string", optional |-> TRUE, default |-> "separate", options |-> {"on", "off", "separate"}] @@ "x-dead" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "y-dead" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "z-dead" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "solver-rtol" :> [type |-> "float", optional |-> TRUE, default |-> "1e-09", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-iterative/executor:cpu" :> [occurs |-> "0..1", attributes |-> <<>>] @@
  "precice-configuration/participant/mapping:rbf-global-iterative/executor:cuda" :> [occurs |-> "0..1", attributes |-> ("gpu-device-id" :> [type |-> "string", optional |-> TRUE, default |-> "0", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-iterative/executor:hip" :> [occurs |-> "0..1", attributes |-> ("gpu-device-id" :> [type |-> "string", optional |-> TRUE, default |-> "0", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-iterative/executor:openmp" :> [occurs |-> "0..1", attributes |-> ("n-threads" :> [type |-> "integer", optional |-> TRUE, default |-> "0", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-iterative/basis-function:compact-polynomial-c0" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-iterative/basis-function:compact-polynomial-c2" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-iterative/basis-function:compact-polynomial-c4" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-iterative/basis-function:compact-polynomial-c6" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-iterative/basis-function:compact-polynomial-c8" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-iterative/basis-function:compact-tps-c2" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-iterative/basis-function:multiquadrics" :> [occurs |-> "0..1", attributes |-> ("shape-parameter" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-iterative/basis-function:inverse-multiquadrics" :> [occurs |-> "0..1", attributes |-> ("shape-parameter" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-iterative/basis-function:gaussian" :> [occurs |-> "0..1", attributes |-> ("shape-parameter" :> [type |-> "float", optional |-> TRUE, default |-> "nan", options |-> {}] @@ "support-radius" :> [type |-> "float", optional |-> TRUE, default |-> "nan", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-iterative/basis-function:thin-plate-splines" :> [occurs |-> "0..1", attributes |-> <<>>] @@
  "precice-configuration/participant/mapping:rbf-global-iterative/basis-function:volume-splines" :> [occurs |-> "0..1", attributes |-> <<>>] @@
  "precice-configuration/participant/mapping:rbf-global-direct" :> [occurs |-> "0..*", attributes |-> ("from" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}] @@ "to" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}] @@ "direction" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"write", "read"}] @@ "constraint" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"conservative", "consistent", "scaled-consistent-surface", "scaled-consistent-volume"}] @@ "polynomial" :> [type |-> "string", optional |-> TRUE, default |-> "separate", options |-> {"on", "off", "separate"}] @@ "x-dead" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "y-dead" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "z-dead" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-direct/executor:cpu" :> [occurs |-> "0..1", attributes |-> <<>>] @@
  "precice-configuration/participant/mapping:rbf-global-direct/executor:cuda" :> [occurs |-> "0..1", attributes |-> ("gpu-device-id" :> [type |-> "string", optional |-> TRUE, default |-> "0", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-direct/executor:hip" :> [occurs |-> "0..1", attributes |-> ("gpu-device-id" :> [type |-> "string", optional |-> TRUE, default |-> "0", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-direct/basis-function:compact-polynomial-c0" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-direct/basis-function:compact-polynomial-c2" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-direct/basis-function:compact-polynomial-c4" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-direct/basis-function:compact-polynomial-c6" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-direct/basis-function:compact-polynomial-c8" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-direct/basis-function:compact-tps-c2" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-direct/basis-function:multiquadrics" :> [occurs |-> "0..1", attributes |-> ("shape-parameter" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-direct/basis-function:inverse-multiquadrics" :> [occurs |-> "0..1", attributes |-> ("shape-parameter" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-direct/basis-function:gaussian" :> [occurs |-> "0..1", attributes |-> ("shape-parameter" :> [type |-> "float", optional |-> TRUE, default |-> "nan", options |-> {}] @@ "support-radius" :> [type |-> "float", optional |-> TRUE, default |-> "nan", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-global-direct/basis-function:thin-plate-splines" :> [occurs |-> "0..1", attributes |-> <<>>] @@
  "precice-configuration/participant/mapping:rbf-global-direct/basis-function:volume-splines" :> [occurs |-> "0..1", attributes |-> <<>>] @@
  "precice-configuration/participant/mapping:rbf-pum-direct" :> [occurs |-> "0..*", attributes |-> ("from" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}] @@ "to" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}] @@ "direction" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"write", "read"}] @@ "constraint" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"conservative", "consistent", "scaled-consistent-surface", "scaled-consistent-volume"}] @@ "polynomial" :> [type |-> "string", optional |-> TRUE, default |-> "separate", options |-> {"off", "separate"}] @@ "vertices-per-cluster" :> [type |-> "integer", optional |-> TRUE, default |-> "50", options |-> {}] @@ "relative-overlap" :> [type |-> "float", optional |-> TRUE, default |-> "0.15", options |-> {}] @@ "project-to-input" :> [type |-> "boolean", optional |-> TRUE, default |-> "true", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-pum-direct/executor:cpu" :> [occurs |-> "0..1", attributes |-> <<>>] @@
  "precice-configuration/participant/mapping:rbf-pum-direct/executor:cuda" :> [occurs |-> "0..1", attributes |-> ("gpu-device-id" :> [type |-> "string", optional |-> TRUE, default |-> "0", options |-> {}] @@ "execution-mode" :> [type |-> "string", optional |-> TRUE, default |-> "minimal-memory", options |-> {"minimal-memory", "minimal-compute"}])] @@
  "precice-configuration/participant/mapping:rbf-pum-direct/executor:hip" :> [occurs |-> "0..1", attributes |-> ("gpu-device-id" :> [type |-> "string", optional |-> TRUE, default |-> "0", options |-> {}] @@ "execution-mode" :> [type |-> "string", optional |-> TRUE, default |-> "minimal-memory", options |-> {"minimal-memory", "minimal-compute"}])] @@
  "precice-configuration/participant/mapping:rbf-pum-direct/executor:sycl" :> [occurs |-> "0..1", attributes |-> ("gpu-device-id" :> [type |-> "string", optional |-> TRUE, default |-> "0", options |-> {}] @@ "execution-mode" :> [type |-> "string", optional |-> TRUE, default |-> "minimal-memory", options |-> {"minimal-memory", "minimal-compute"}])] @@
  "precice-configuration/participant/mapping:rbf-pum-direct/executor:openmp" :> [occurs |-> "0..1", attributes |-> ("n-threads" :> [type |-> "integer", optional |-> TRUE, default |-> "0", options |-> {}] @@ "execution-mode" :> [type |-> "string", optional |-> TRUE, default |-> "minimal-memory", options |-> {"minimal-memory", "minimal-compute"}])] @@
  "precice-configuration/participant/mapping:rbf-pum-direct/basis-function:compact-polynomial-c0" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-pum-direct/basis-function:compact-polynomial-c2" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-pum-direct/basis-function:compact-polynomial-c4" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-pum-direct/basis-function:compact-polynomial-c6" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-pum-direct/basis-function:compact-polynomial-c8" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-pum-direct/basis-function:compact-tps-c2" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-pum-direct/basis-function:multiquadrics" :> [occurs |-> "0..1", attributes |-> ("shape-parameter" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-pum-direct/basis-function:inverse-multiquadrics" :> [occurs |-> "0..1", attributes |-> ("shape-parameter" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-pum-direct/basis-function:gaussian" :> [occurs |-> "0..1", attributes |-> ("shape-parameter" :> [type |-> "float", optional |-> TRUE, default |-> "nan", options |-> {}] @@ "support-radius" :> [type |-> "float", optional |-> TRUE, default |-> "nan", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf-pum-direct/basis-function:thin-plate-splines" :> [occurs |-> "0..1", attributes |-> <<>>] @@
  "precice-configuration/participant/mapping:rbf-pum-direct/basis-function:volume-splines" :> [occurs |-> "0..1", attributes |-> <<>>] @@
  "precice-configuration/participant/mapping:rbf" :> [occurs |-> "0..*", attributes |-> ("from" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}] @@ "to" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}] @@ "direction" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"write", "read"}] @@ "constraint" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"conservative", "consistent", "scaled-consistent-surface", "scaled-consistent-volume"}] @@ "x-dead" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "y-dead" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "z-dead" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf/basis-function:compact-polynomial-c0" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf/basis-function:compact-polynomial-c2" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf/basis-function:compact-polynomial-c4" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf/basis-function:compact-polynomial-c6" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf/basis-function:compact-polynomial-c8" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf/basis-function:compact-tps-c2" :> [occurs |-> "0..1", attributes |-> ("support-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf/basis-function:multiquadrics" :> [occurs |-> "0..1", attributes |-> ("shape-parameter" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf/basis-function:inverse-multiquadrics" :> [occurs |-> "0..1", attributes |-> ("shape-parameter" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf/basis-function:gaussian" :> [occurs |-> "0..1", attributes |-> ("shape-parameter" :> [type |-> "float", optional |-> TRUE, default |-> "nan", options |-> {}] @@ "support-radius" :> [type |-> "float", optional |-> TRUE, default |-> "nan", options |-> {}])] @@
  "precice-configuration/participant/mapping:rbf/basis-function:thin-plate-splines" :> [occurs |-> "0..1", attributes |-> <<>>] @@
  "precice-configuration/participant/mapping:rbf/basis-function:volume-splines" :> [occurs |-> "0..1", attributes |-> <<>>] @@
  "precice-configuration/participant/mapping:coarse-graining" :> [occurs |-> "0..*", attributes |-> ("from" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}] @@ "to" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}] @@ "direction" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"write", "read"}] @@ "constraint" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"conservative", "consistent", "scaled-consistent-surface", "scaled-consistent-volume"}] @@ "radius" :> [type |-> "float", optional |-> TRUE, default |-> "0", options |-> {}])] @@
  "precice-configuration/participant/mapping:axial-geometric-multiscale" :> [occurs |-> "0..*", attributes |-> ("from" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}] @@ "to" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}] @@ "direction" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"write", "read"}] @@ "constraint" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"conservative", "consistent", "scaled-consistent-surface", "scaled-consistent-volume"}] @@ "multiscale-dimension" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"1d-3d", "1d-2d", "2d-3d"}] @@ "multiscale-type" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"spread", "collect"}] @@ "multiscale-axis" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"x", "y", "z"}] @@ "multiscale-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}] @@ "multiscale-cross-section-profile" :> [type |-> "string", optional |-> TRUE, default |-> "uniform", options |-> {"uniform", "parabolic"}] @@ "multiscale-cross-section" :> [type |-> "string", optional |-> TRUE, default |-> "circle", options |-> {"circle", "square"}])] @@
  "precice-configuration/participant/mapping:radial-geometric-multiscale" :> [occurs |-> "0..*", attributes |-> ("from" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}] @@ "to" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}] @@ "direction" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"write", "read"}] @@ "constraint" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"conservative", "consistent", "scaled-consistent-surface", "scaled-consistent-volume"}] @@ "multiscale-type" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"spread", "collect"}] @@ "multiscale-axis" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"x", "y", "z"}] @@ "multiscale-radius" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/action:multiply-by-area" :> [occurs |-> "0..*", attributes |-> ("timing" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"write-mapping-post", "read-mapping-post"}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/action:multiply-by-area/target-data" :> [occurs |-> "1", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/action:divide-by-area" :> [occurs |-> "0..*", attributes |-> ("timing" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"write-mapping-post", "read-mapping-post"}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/action:divide-by-area/target-data" :> [occurs |-> "1", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/action:summation" :> [occurs |-> "0..*", attributes |-> ("timing" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"write-mapping-post", "read-mapping-post"}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/action:summation/source-data" :> [occurs |-> "1..*", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/action:summation/target-data" :> [occurs |-> "1", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/action:recorder" :> [occurs |-> "0..*", attributes |-> ("timing" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"write-mapping-post", "read-mapping-post"}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/action:python" :> [occurs |-> "0..*", attributes |-> ("timing" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"write-mapping-post", "read-mapping-post"}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/action:python/path" :> [occurs |-> "0..1", attributes |-> ("name" :> [type |-> "string", optional |-> TRUE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/action:python/module" :> [occurs |-> "1", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/action:python/source-data" :> [occurs |-> "0..1", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/action:python/target-data" :> [occurs |-> "0..1", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/export:vtk" :> [occurs |-> "0..*", attributes |-> ("directory" :> [type |-> "string", optional |-> TRUE, default |-> ".", options |-> {}] @@ "every-n-time-windows" :> [type |-> "integer", optional |-> TRUE, default |-> "1", options |-> {}] @@ "every-iteration" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "update-series" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}])] @@
  "precice-configuration/participant/export:vtu" :> [occurs |-> "0..*", attributes |-> ("directory" :> [type |-> "string", optional |-> TRUE, default |-> ".", options |-> {}] @@ "every-n-time-windows" :> [type |-> "integer", optional |-> TRUE, default |-> "1", options |-> {}] @@ "every-iteration" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "update-series" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}])] @@
  "precice-configuration/participant/export:vtp" :> [occurs |-> "0..*", attributes |-> ("directory" :> [type |-> "string", optional |-> TRUE, default |-> ".", options |-> {}] @@ "every-n-time-windows" :> [type |-> "integer", optional |-> TRUE, default |-> "1", options |-> {}] @@ "every-iteration" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "update-series" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}])] @@
  "precice-configuration/participant/export:csv" :> [occurs |-> "0..*", attributes |-> ("directory" :> [type |-> "string", optional |-> TRUE, default |-> ".", options |-> {}] @@ "every-n-time-windows" :> [type |-> "integer", optional |-> TRUE, default |-> "1", options |-> {}] @@ "every-iteration" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "update-series" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}])] @@
  "precice-configuration/participant/watch-point" :> [occurs |-> "0..*", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "coordinate" :> [type |-> "vector", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/watch-integral" :> [occurs |-> "0..*", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "scale-with-connectivity" :> [type |-> "boolean", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/provide-mesh" :> [occurs |-> "0..*", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/participant/receive-mesh" :> [occurs |-> "0..*", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "api-access" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "direct-access" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "geometric-filter" :> [type |-> "string", optional |-> TRUE, default |-> "on-secondary-ranks", options |-> {"no-filter", "on-primary-rank", "on-secondary-ranks"}] @@ "from" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "safety-factor" :> [type |-> "float", optional |-> TRUE, default |-> "0.5", options |-> {}])] @@
  "precice-configuration/participant/intra-comm:sockets" :> [occurs |-> "0..1", attributes |-> ("port" :> [type |-> "integer", optional |-> TRUE, default |-> "0", options |-> {}] @@ "network" :> [type |-> "string", optional |-> TRUE, default |-> "lo", options |-> {}] @@ "exchange-directory" :> [type |-> "string", optional |-> TRUE, default |-> ".", options |-> {}])] @@
  "precice-configuration/participant/intra-comm:mpi" :> [occurs |-> "0..1", attributes |-> ("exchange-directory" :> [type |-> "string", optional |-> TRUE, default |-> ".", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-explicit" :> [occurs |-> "0..*", attributes |-> <<>>] @@
  "precice-configuration/coupling-scheme:serial-explicit/max-time" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-explicit/max-time-windows" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-explicit/time-window-size" :> [occurs |-> "1", attributes |-> ("value" :> [type |-> "float", optional |-> TRUE, default |-> "-1", options |-> {}] @@ "method" :> [type |-> "string", optional |-> TRUE, default |-> "fixed", options |-> {"fixed", "first-participant"}])] @@
  "precice-configuration/coupling-scheme:serial-explicit/participants" :> [occurs |-> "1", attributes |-> ("first" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "second" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-explicit/exchange" :> [occurs |-> "1..*", attributes |-> ("data" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "from" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "to" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "initialize" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "substeps" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-explicit" :> [occurs |-> "0..*", attributes |-> <<>>] @@
  "precice-configuration/coupling-scheme:parallel-explicit/max-time" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-explicit/max-time-windows" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-explicit/time-window-size" :> [occurs |-> "1", attributes |-> ("value" :> [type |-> "float", optional |-> TRUE, default |-> "-1", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-explicit/participants" :> [occurs |-> "1", attributes |-> ("first" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "second" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-explicit/exchange" :> [occurs |-> "1..*", attributes |-> ("data" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "from" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "to" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "initialize" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "substeps" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit" :> [occurs |-> "0..*", attributes |-> <<>>] @@
  "precice-configuration/coupling-scheme:serial-implicit/max-time" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/max-time-windows" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/time-window-size" :> [occurs |-> "1", attributes |-> ("value" :> [type |-> "float", optional |-> TRUE, default |-> "-1", options |-> {}] @@ "method" :> [type |-> "string", optional |-> TRUE, default |-> "fixed", options |-> {"fixed", "first-participant"}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/participants" :> [occurs |-> "1", attributes |-> ("first" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "second" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/exchange" :> [occurs |-> "1..*", attributes |-> ("data" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "from" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "to" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "initialize" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "substeps" :> [type |-> "boolean", optional |-> TRUE, default |-> "true", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/acceleration:constant" :> [occurs |-> "0..1", attributes |-> <<>>] @@
  "precice-configuration/coupling-scheme:serial-implicit/acceleration:constant/relaxation" :> [occurs |-> "1", attributes |-> ("value" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/acceleration:aitken" :> [occurs |-> "0..1", attributes |-> <<>>] @@
  "precice-configuration/coupling-scheme:serial-implicit/acceleration:aitken/initial-relaxation" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/acceleration:aitken/data" :> [occurs |-> "1..*", attributes |-> ("scaling" :> [type |-> "float", optional |-> TRUE, default |-> "1", options |-> {}] @@ "name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/acceleration:aitken/preconditioner" :> [occurs |-> "0..1", attributes |-> ("type" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"constant", "value", "residual", "residual-sum"}] @@ "update-on-threshold" :> [type |-> "boolean", optional |-> TRUE, default |-> "true", options |-> {}] @@ "freeze-after" :> [type |-> "integer", optional |-> TRUE, default |-> "-1", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS" :> [occurs |-> "0..1", attributes |-> ("reduced-time-grid" :> [type |-> "boolean", optional |-> TRUE, default |-> "true", options |-> {}] @@ "on-bound-violation" :> [type |-> "string", optional |-> TRUE, default |-> "ignore", options |-> {"ignore", "clamp", "discard", "scale"}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/initial-relaxation" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}] @@ "enforce" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/max-used-iterations" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/time-windows-reused" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/data" :> [occurs |-> "1..*", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "scaling" :> [type |-> "float", optional |-> TRUE, default |-> "1", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/filter" :> [occurs |-> "0..1", attributes |-> ("limit" :> [type |-> "float", optional |-> TRUE, default |-> "1e-16", options |-> {}] @@ "type" :> [type |-> "string", optional |-> TRUE, default |-> "QR3", options |-> {"QR1", "QR1-absolute", "QR2", "QR3"}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-ILS/preconditioner" :> [occurs |-> "0..1", attributes |-> ("type" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"constant", "value", "residual", "residual-sum"}] @@ "update-on-threshold" :> [type |-> "boolean", optional |-> TRUE, default |-> "true", options |-> {}] @@ "freeze-after" :> [type |-> "integer", optional |-> TRUE, default |-> "-1", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ" :> [occurs |-> "0..1", attributes |-> ("always-build-jacobian" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "reduced-time-grid" :> [type |-> "boolean", optional |-> TRUE, default |-> "true", options |-> {}] @@ "on-bound-violation" :> [type |-> "string", optional |-> TRUE, default |-> "ignore", options |-> {"ignore", "clamp", "discard", "scale"}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/initial-relaxation" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}] @@ "enforce" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/imvj-restart-mode" :> [occurs |-> "0..1", attributes |-> ("type" :> [type |-> "string", optional |-> TRUE, default |-> "RS-SVD", options |-> {"no-restart", "RS-0", "RS-LS", "RS-SVD", "RS-SLIDE"}] @@ "chunk-size" :> [type |-> "integer", optional |-> TRUE, default |-> "8", options |-> {}] @@ "reused-time-windows-at-restart" :> [type |-> "integer", optional |-> TRUE, default |-> "8", options |-> {}] @@ "truncation-threshold" :> [type |-> "float", optional |-> TRUE, default |-> "0.0001", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/max-used-iterations" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/time-windows-reused" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/data" :> [occurs |-> "1..*", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "scaling" :> [type |-> "float", optional |-> TRUE, default |-> "1", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/filter" :> [occurs |-> "0..1", attributes |-> ("limit" :> [type |-> "float", optional |-> TRUE, default |-> "1e-16", options |-> {}] @@ "type" :> [type |-> "string", optional |-> TRUE, default |-> "QR3", options |-> {"QR1", "QR1-absolute", "QR2", "QR3"}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/acceleration:IQN-IMVJ/preconditioner" :> [occurs |-> "0..1", attributes |-> ("type" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"constant", "value", "residual", "residual-sum"}] @@ "update-on-threshold" :> [type |-> "boolean", optional |-> TRUE, default |-> "true", options |-> {}] @@ "freeze-after" :> [type |-> "integer", optional |-> TRUE, default |-> "-1", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/absolute-convergence-measure" :> [occurs |-> "0..*", attributes |-> ("data" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "suffices" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "strict" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "limit" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/absolute-or-relative-convergence-measure" :> [occurs |-> "0..*", attributes |-> ("data" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "suffices" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "strict" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "abs-limit" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}] @@ "rel-limit" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/relative-convergence-measure" :> [occurs |-> "0..*", attributes |-> ("data" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "suffices" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "strict" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "limit" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/residual-relative-convergence-measure" :> [occurs |-> "0..*", attributes |-> ("data" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "suffices" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "strict" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "limit" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/min-iterations" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:serial-implicit/max-iterations" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit" :> [occurs |-> "0..*", attributes |-> <<>>] @@
  "precice-configuration/coupling-scheme:parallel-implicit/max-time" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/max-time-windows" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/time-window-size" :> [occurs |-> "1", attributes |-> ("value" :> [type |-> "float", optional |-> TRUE, default |-> "-1", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/participants" :> [occurs |-> "1", attributes |-> ("first" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "second" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/exchange" :> [occurs |-> "1..*", attributes |-> ("data" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "from" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "to" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "initialize" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "substeps" :> [type |-> "boolean", optional |-> TRUE, default |-> "true", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/acceleration:constant" :> [occurs |-> "0..1", attributes |-> <<>>] @@
  "precice-configuration/coupling-scheme:parallel-implicit/acceleration:constant/relaxation" :> [occurs |-> "1", attributes |-> ("value" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/acceleration:aitken" :> [occurs |-> "0..1", attributes |-> <<>>] @@
  "precice-configuration/coupling-scheme:parallel-implicit/acceleration:aitken/initial-relaxation" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/acceleration:aitken/data" :> [occurs |-> "1..*", attributes |-> ("scaling" :> [type |-> "float", optional |-> TRUE, default |-> "1", options |-> {}] @@ "name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/acceleration:aitken/preconditioner" :> [occurs |-> "0..1", attributes |-> ("type" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"constant", "value", "residual", "residual-sum"}] @@ "update-on-threshold" :> [type |-> "boolean", optional |-> TRUE, default |-> "true", options |-> {}] @@ "freeze-after" :> [type |-> "integer", optional |-> TRUE, default |-> "-1", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS" :> [occurs |-> "0..1", attributes |-> ("reduced-time-grid" :> [type |-> "boolean", optional |-> TRUE, default |-> "true", options |-> {}] @@ "on-bound-violation" :> [type |-> "string", optional |-> TRUE, default |-> "ignore", options |-> {"ignore", "clamp", "discard", "scale"}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/initial-relaxation" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}] @@ "enforce" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/max-used-iterations" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/time-windows-reused" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/data" :> [occurs |-> "1..*", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "scaling" :> [type |-> "float", optional |-> TRUE, default |-> "1", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/filter" :> [occurs |-> "0..1", attributes |-> ("limit" :> [type |-> "float", optional |-> TRUE, default |-> "1e-16", options |-> {}] @@ "type" :> [type |-> "string", optional |-> TRUE, default |-> "QR3", options |-> {"QR1", "QR1-absolute", "QR2", "QR3"}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-ILS/preconditioner" :> [occurs |-> "0..1", attributes |-> ("type" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"constant", "value", "residual", "residual-sum"}] @@ "update-on-threshold" :> [type |-> "boolean", optional |-> TRUE, default |-> "true", options |-> {}] @@ "freeze-after" :> [type |-> "integer", optional |-> TRUE, default |-> "-1", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ" :> [occurs |-> "0..1", attributes |-> ("always-build-jacobian" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "reduced-time-grid" :> [type |-> "boolean", optional |-> TRUE, default |-> "true", options |-> {}] @@ "on-bound-violation" :> [type |-> "string", optional |-> TRUE, default |-> "ignore", options |-> {"ignore", "clamp", "discard", "scale"}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/initial-relaxation" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}] @@ "enforce" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/imvj-restart-mode" :> [occurs |-> "0..1", attributes |-> ("type" :> [type |-> "string", optional |-> TRUE, default |-> "RS-SVD", options |-> {"no-restart", "RS-0", "RS-LS", "RS-SVD", "RS-SLIDE"}] @@ "chunk-size" :> [type |-> "integer", optional |-> TRUE, default |-> "8", options |-> {}] @@ "reused-time-windows-at-restart" :> [type |-> "integer", optional |-> TRUE, default |-> "8", options |-> {}] @@ "truncation-threshold" :> [type |-> "float", optional |-> TRUE, default |-> "0.0001", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/max-used-iterations" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/time-windows-reused" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/data" :> [occurs |-> "1..*", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "scaling" :> [type |-> "float", optional |-> TRUE, default |-> "1", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/filter" :> [occurs |-> "0..1", attributes |-> ("limit" :> [type |-> "float", optional |-> TRUE, default |-> "1e-16", options |-> {}] @@ "type" :> [type |-> "string", optional |-> TRUE, default |-> "QR3", options |-> {"QR1", "QR1-absolute", "QR2", "QR3"}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/acceleration:IQN-IMVJ/preconditioner" :> [occurs |-> "0..1", attributes |-> ("type" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"constant", "value", "residual", "residual-sum"}] @@ "update-on-threshold" :> [type |-> "boolean", optional |-> TRUE, default |-> "true", options |-> {}] @@ "freeze-after" :> [type |-> "integer", optional |-> TRUE, default |-> "-1", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/absolute-convergence-measure" :> [occurs |-> "0..*", attributes |-> ("data" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "suffices" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "strict" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "limit" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/absolute-or-relative-convergence-measure" :> [occurs |-> "0..*", attributes |-> ("data" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "suffices" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "strict" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "abs-limit" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}] @@ "rel-limit" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/relative-convergence-measure" :> [occurs |-> "0..*", attributes |-> ("data" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "suffices" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "strict" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "limit" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/residual-relative-convergence-measure" :> [occurs |-> "0..*", attributes |-> ("data" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "suffices" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "strict" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "limit" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/min-iterations" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:parallel-implicit/max-iterations" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi" :> [occurs |-> "0..*", attributes |-> <<>>] @@
  "precice-configuration/coupling-scheme:multi/max-time" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/max-time-windows" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/time-window-size" :> [occurs |-> "1", attributes |-> ("value" :> [type |-> "float", optional |-> TRUE, default |-> "-1", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/participant" :> [occurs |-> "1..*", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "control" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/exchange" :> [occurs |-> "1..*", attributes |-> ("data" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "from" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "to" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "initialize" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "substeps" :> [type |-> "boolean", optional |-> TRUE, default |-> "true", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/acceleration:constant" :> [occurs |-> "0..1", attributes |-> <<>>] @@
  "precice-configuration/coupling-scheme:multi/acceleration:constant/relaxation" :> [occurs |-> "1", attributes |-> ("value" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/acceleration:aitken" :> [occurs |-> "0..1", attributes |-> <<>>] @@
  "precice-configuration/coupling-scheme:multi/acceleration:aitken/initial-relaxation" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/acceleration:aitken/data" :> [occurs |-> "1..*", attributes |-> ("scaling" :> [type |-> "float", optional |-> TRUE, default |-> "1", options |-> {}] @@ "name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/acceleration:aitken/preconditioner" :> [occurs |-> "0..1", attributes |-> ("type" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"constant", "value", "residual", "residual-sum"}] @@ "update-on-threshold" :> [type |-> "boolean", optional |-> TRUE, default |-> "true", options |-> {}] @@ "freeze-after" :> [type |-> "integer", optional |-> TRUE, default |-> "-1", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS" :> [occurs |-> "0..1", attributes |-> ("reduced-time-grid" :> [type |-> "boolean", optional |-> TRUE, default |-> "true", options |-> {}] @@ "on-bound-violation" :> [type |-> "string", optional |-> TRUE, default |-> "ignore", options |-> {"ignore", "clamp", "discard", "scale"}])] @@
  "precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/initial-relaxation" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}] @@ "enforce" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/max-used-iterations" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/time-windows-reused" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/data" :> [occurs |-> "1..*", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "scaling" :> [type |-> "float", optional |-> TRUE, default |-> "1", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/filter" :> [occurs |-> "0..1", attributes |-> ("limit" :> [type |-> "float", optional |-> TRUE, default |-> "1e-16", options |-> {}] @@ "type" :> [type |-> "string", optional |-> TRUE, default |-> "QR3", options |-> {"QR1", "QR1-absolute", "QR2", "QR3"}])] @@
  "precice-configuration/coupling-scheme:multi/acceleration:IQN-ILS/preconditioner" :> [occurs |-> "0..1", attributes |-> ("type" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"constant", "value", "residual", "residual-sum"}] @@ "update-on-threshold" :> [type |-> "boolean", optional |-> TRUE, default |-> "true", options |-> {}] @@ "freeze-after" :> [type |-> "integer", optional |-> TRUE, default |-> "-1", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ" :> [occurs |-> "0..1", attributes |-> ("always-build-jacobian" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "reduced-time-grid" :> [type |-> "boolean", optional |-> TRUE, default |-> "true", options |-> {}] @@ "on-bound-violation" :> [type |-> "string", optional |-> TRUE, default |-> "ignore", options |-> {"ignore", "clamp", "discard", "scale"}])] @@
  "precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/initial-relaxation" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}] @@ "enforce" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/imvj-restart-mode" :> [occurs |-> "0..1", attributes |-> ("type" :> [type |-> "string", optional |-> TRUE, default |-> "RS-SVD", options |-> {"no-restart", "RS-0", "RS-LS", "RS-SVD", "RS-SLIDE"}] @@ "chunk-size" :> [type |-> "integer", optional |-> TRUE, default |-> "8", options |-> {}] @@ "reused-time-windows-at-restart" :> [type |-> "integer", optional |-> TRUE, default |-> "8", options |-> {}] @@ "truncation-threshold" :> [type |-> "float", optional |-> TRUE, default |-> "0.0001", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/max-used-iterations" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/time-windows-reused" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/data" :> [occurs |-> "1..*", attributes |-> ("name" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "scaling" :> [type |-> "float", optional |-> TRUE, default |-> "1", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/filter" :> [occurs |-> "0..1", attributes |-> ("limit" :> [type |-> "float", optional |-> TRUE, default |-> "1e-16", options |-> {}] @@ "type" :> [type |-> "string", optional |-> TRUE, default |-> "QR3", options |-> {"QR1", "QR1-absolute", "QR2", "QR3"}])] @@
  "precice-configuration/coupling-scheme:multi/acceleration:IQN-IMVJ/preconditioner" :> [occurs |-> "0..1", attributes |-> ("type" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {"constant", "value", "residual", "residual-sum"}] @@ "update-on-threshold" :> [type |-> "boolean", optional |-> TRUE, default |-> "true", options |-> {}] @@ "freeze-after" :> [type |-> "integer", optional |-> TRUE, default |-> "-1", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/absolute-convergence-measure" :> [occurs |-> "0..*", attributes |-> ("data" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "suffices" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "strict" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "limit" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/absolute-or-relative-convergence-measure" :> [occurs |-> "0..*", attributes |-> ("data" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "suffices" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "strict" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "abs-limit" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}] @@ "rel-limit" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/relative-convergence-measure" :> [occurs |-> "0..*", attributes |-> ("data" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "suffices" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "strict" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "limit" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/residual-relative-convergence-measure" :> [occurs |-> "0..*", attributes |-> ("data" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "mesh" :> [type |-> "string", optional |-> FALSE, default |-> "", options |-> {}] @@ "suffices" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "strict" :> [type |-> "boolean", optional |-> TRUE, default |-> "false", options |-> {}] @@ "limit" :> [type |-> "float", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/min-iterations" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])] @@
  "precice-configuration/coupling-scheme:multi/max-iterations" :> [occurs |-> "0..1", attributes |-> ("value" :> [type |-> "integer", optional |-> FALSE, default |-> "", options |-> {}])]

=============================================================================
