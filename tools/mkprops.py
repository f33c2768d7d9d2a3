#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('C01','Coupled participants step through the same windows and end together',
 "For every legal sequence of step sizes, every participant is told a maximum step equal to exactly what remains of its current time window (cut at the configured end), a window is reported complete exactly when the participant reaches its boundary, and coupling is reported ongoing exactly until the configured number of windows or end time is used up. All participants of a coupling pass through the same windows in the same order and finish at the same coupled time, with no call blocking forever.",
 ['histories','configurations','schedules'],
 "All legal sequences of step sizes and calls of all participants, all window sizes / end conditions / window-size methods, all coupling schemes and roles, and all relative process speeds.",
 "Tests run a few fixed step patterns per scheme; the property quantifies over every subcycling pattern, end-time/window-size combination and interleaving of independent processes.",
 ['src/cplscheme/BaseCouplingScheme.cpp','src/cplscheme/SerialCouplingScheme.cpp','src/cplscheme/ParallelCouplingScheme.cpp','src/cplscheme/MultiCouplingScheme.cpp','src/cplscheme/impl/TimeHandler.cpp','src/precice/impl/ParticipantImpl.cpp'],
 [('time accounting of the window and the end','src/cplscheme/impl/TimeHandler.cpp'),('window counting and end test','BaseCouplingScheme::firstExchange/secondExchange/isCouplingOngoing'),('exchange order of the two sides','SerialCouplingScheme, ParallelCouplingScheme exchange*Data')],
 ['isCouplingOngoing','getMaxTimeStepSize','isTimeWindowComplete','blocking of initialize/advance/finalize'])

p('C02','Implicit coupling repeats a window until it may stop, with exact checkpoints',
 "In implicit coupling every participant is asked to save its state exactly once at the start of each window that will be computed and to restore it exactly when the window has to be repeated, and repeating puts coupled time back to the window start; all participants agree on every repeat decision. A window is left exactly when at least the configured minimum of iterations was done and either the configured convergence criteria (absolute, relative, residual-relative, combined by all, suffices and strict rules) hold for the exchanged data or the configured maximum is reached; a strict criterion missing at the maximum is an error.",
 ['histories','configurations','inputs'],
 "All iteration histories (which iterations converge), all min/max settings and criteria combinations, all data values, all subcycling patterns per iteration, serial, parallel and multi schemes.",
 "Tests fix a handful of iteration counts and criteria; the agreement of several processes over all convergence histories and criteria combinations is never enumerated.",
 ['src/cplscheme/BaseCouplingScheme.cpp','src/cplscheme/impl/AbsoluteConvergenceMeasure.hpp','src/cplscheme/impl/RelativeConvergenceMeasure.hpp','src/cplscheme/impl/ResidualRelativeConvergenceMeasure.hpp','src/cplscheme/SerialCouplingScheme.cpp','src/cplscheme/ParallelCouplingScheme.cpp','src/cplscheme/MultiCouplingScheme.cpp'],
 [('action requirement bookkeeping','BaseCouplingScheme::requireAction/markActionFulfilled/checkCompletenessRequiredActions'),('convergence evaluation','BaseCouplingScheme::measureConvergence/doImplicitStep'),('convergence flag exchange','BaseCouplingScheme::sendConvergence/receiveConvergence')],
 ['requiresWritingCheckpoint','requiresReadingCheckpoint','isTimeWindowComplete','getMaxTimeStepSize','errors raised by advance'])

p('C03','Reads return exactly what the coupling scheme prescribes from the partner writes',
 "Every value a participant reads is determined by the partner's writes and the coupling scheme alone: the partner's latest available window-end values (or, with substeps, its values at every step of the window), taken from the same window where the scheme gives that order, from the previous window or iteration otherwise, and never from a discarded iteration, an earlier write of the same step or another data field. Vertices not written in a step count as zero, and the result does not depend on process timing.",
 ['histories','schedules','configurations'],
 "All interleavings of writes, reads and steps of all participants, all schemes (serial/parallel, explicit/implicit), substep exchange on/off, subcycling patterns that differ per iteration, several data fields and both directions.",
 "Tests compare values for a few fixed schedules; which sample a read must see depends on the full history of steps, iterations and windows on both sides.",
 ['src/cplscheme/BaseCouplingScheme.cpp','src/cplscheme/CouplingData.cpp','src/precice/impl/ParticipantImpl.cpp','src/precice/impl/ReadDataContext.cpp','src/precice/impl/WriteDataContext.cpp','src/precice/impl/DataContext.cpp','src/com/SerializedStamples.cpp'],
 [('write buffering and reset per step','WriteDataContext, ParticipantImpl::samplizeWriteData/resetWrittenData'),('exchange of samples','BaseCouplingScheme::sendData/receiveData'),('trimming of received and mapped samples','ParticipantImpl::trimReadMappedData/trimOldDataBefore/trimSendDataAfter')],
 ['readData'])

p('C04','Illegal API use is rejected with an error and legal use is accepted',
 "Each API call is accepted exactly when the participant's current phase, the configuration and the arguments allow it; otherwise it raises an ordinary error that the caller can catch, without crash, hang or silent acceptance. This covers call order, step sizes, mesh and data names, directions, vertex ids, sizes, mesh locking, pending checkpoint or initial-data duties and profiling sections, and is the same through the C++, C and Fortran interfaces.",
 ['histories','inputs'],
 "All sequences of API calls with legal and illegal arguments from construction to finalization, in explicit and implicit coupling.",
 "Tests contain single illegal calls in one fixed context; acceptance depends on the whole preceding call history.",
 ['src/precice/impl/ParticipantImpl.cpp','src/precice/impl/ValidationMacros.hpp','src/precice/impl/DataContext.cpp','src/precice/Participant.cpp','src/utils/MultiLock.hpp','extras/bindings/c/src/preciceC.cpp','extras/bindings/fortran/src/preciceFortran.cpp'],
 [('phase and argument checks','ParticipantImpl API functions and ValidationMacros.hpp'),('mesh locking','ParticipantImpl::_meshLock')],
 ['exception or return of every API call'])

p('C05','Coupling of several participants and of several schemes stays consistent',
 "When a participant takes part in several couplings (one fully implicit multi-coupling with a controller, or any mix of explicit couplings with at most one implicit coupling), each pairwise coupling keeps its own exchange rules, explicit couplings exchange only once per completed window and never during repeated iterations, the maximum step respects every active coupling, and completion, checkpoint duties and end of coupling are reported consistently. No such combination that is accepted deadlocks.",
 ['configurations','schedules','histories'],
 "All small coupling topologies of three and more participants (multi with any controller, chains, fans, mixed explicit/implicit, different directions) and all step and convergence histories.",
 "Tests contain a few fixed topologies with one schedule each; deadlock freedom and exchange order over all process interleavings are not reachable by running them.",
 ['src/cplscheme/CompositionalCouplingScheme.cpp','src/cplscheme/MultiCouplingScheme.cpp','src/cplscheme/BaseCouplingScheme.cpp'],
 [('explicit schemes on hold','CompositionalCouplingScheme::addComputedTime/firstExchange/secondExchange'),('controller collects, decides, distributes','MultiCouplingScheme::exchangeFirstData/exchangeSecondData')],
 ['isCouplingOngoing','getMaxTimeStepSize','isTimeWindowComplete','requires*Checkpoint','readData'])

p('C06','Initial data is what the partner wrote before initialization, or zero',
 "A participant is asked for initial data exactly when the configuration requests it from it. Reading at the start of coupling returns the partner's initial data if the configuration initializes that data (or the partner's first-window result where the scheme already delivered it), and zero otherwise; initial values also act as the start-of-window value for time interpolation and as the previous iterate in the first window.",
 ['configurations','histories'],
 "All subsets of initialized data over both directions and all schemes, with initial writes complete, partial or repeated, and reads at every time of the first window.",
 "Tests cover some flag combinations with complete writes only and mostly read at a single time.",
 ['src/precice/impl/ParticipantImpl.cpp','src/cplscheme/BaseCouplingScheme.cpp','src/cplscheme/SerialCouplingScheme.cpp','src/cplscheme/ParallelCouplingScheme.cpp','src/cplscheme/MultiCouplingScheme.cpp','src/cplscheme/config/CouplingSchemeConfiguration.cpp'],
 [('initial data requirement','BaseCouplingScheme::determineInitialSend/determineInitialReceive'),('initial mapping and buffering','ParticipantImpl::initialize'),('exchange of initial data','*CouplingScheme::exchangeInitialData')],
 ['requiresInitialData','readData after initialize'])

p('C07','Reading at any time of a window interpolates the received samples',
 "Within the current window a read at a relative time returns the value of the interpolant of the configured degree through the samples known for that data (start of window plus everything received for the window): exact at sample times, constant in time for degree zero or a single known sample, piecewise linear for degree one, and a spline of at most the configured degree otherwise. The answer does not depend on the order, number or repetition of reads, and never reads outside the window or uses samples of other windows.",
 ['inputs','histories'],
 "All read times, degrees, substep patterns of the writer (also different in each iteration and window) and reader step patterns.",
 "Tests sample a few times for a few grids; the interpolant depends on the complete grid history.",
 ['src/time/Waveform.cpp','src/math/Bspline.cpp','src/precice/impl/ReadDataContext.cpp','src/mesh/Data.cpp','src/precice/impl/ParticipantImpl.cpp'],
 [('sample storage and interpolation','time::Waveform'),('relative to absolute time','ParticipantImpl::readData')],
 ['readData'])

p('M01','Data mapping moves values as its constraint promises',
 "For every pair of meshes a consistent nearest-neighbor mapping gives each target vertex the value of a closest source vertex, a conservative mapping keeps the component-wise sum, and projection-based mappings use the closest edge, triangle or cell and therefore reproduce constants and linear fields on the interface; conservative mapping is the transpose of the consistent one. Scaled-consistent mapping keeps the surface (or volume) integral of every component, gradient-based mapping adds the linear term, and geometric-multiscale and coarse-graining mappings follow their definitions, in read and in write direction alike.",
 ['inputs','configurations'],
 "All small vertex sets and connectivities on integer grids in 2D and 3D, all mapping types with exact rational results, both constraints and directions, scalar and vector data.",
 "Tests use a few hand-written geometries; ties, duplicate positions, degenerate elements and combinations of direction, constraint and dimension are not enumerated.",
 ['src/mapping/NearestNeighborBaseMapping.cpp','src/mapping/NearestNeighborMapping.cpp','src/mapping/NearestProjectionMapping.cpp','src/mapping/BarycentricBaseMapping.cpp','src/mapping/LinearCellInterpolationMapping.cpp','src/mapping/NearestNeighborGradientMapping.cpp','src/mapping/Mapping.cpp','src/mapping/Polation.cpp','src/query/Index.cpp','src/precice/impl/DataContext.cpp'],
 [('match search','query::Index'),('application of weights','BarycentricBaseMapping, NearestNeighborMapping'),('scaling','Mapping::scaleConsistentMapping')],
 ['readData on the mapped side'])

p('M02','The result does not depend on how participants are distributed over ranks',
 "Splitting either participant's mesh over any number of ranks in any way, including empty ranks, gives every rank for each of its vertices the same values, step limits, checkpoint requests and convergence decisions as the serial run, whatever communication layout, filter and initialization level are configured. No vertex contribution is lost or counted twice in conservative mapping or in global norms and integrals.",
 ['configurations','inputs','schedules'],
 "All distributions of small meshes over one to four ranks on each side, point-to-point and gather-scatter, one- and two-level initialization, all geometric filters, consistent and conservative, read and write mappings.",
 "Tests run a few fixed partitionings on four ranks; ownership and communication maps depend on the joint distribution on both sides.",
 ['src/partition/ReceivedPartition.cpp','src/partition/ProvidedPartition.cpp','src/m2n/GatherScatterCommunication.cpp','src/m2n/PointToPointCommunication.cpp','src/m2n/M2N.cpp','src/utils/IntraComm.cpp','src/com/Communication.cpp','src/mesh/Filter.hpp'],
 [('ownership and filtering','ReceivedPartition::createOwnerInformation/filterByBoundingBox'),('communication maps','PointToPointCommunication::buildCommunicationMap, ReceivedPartition::compute')],
 ['readData per rank','requires*Checkpoint per rank','deadlock'])

p('M03','Mesh definition calls build exactly the mesh they describe',
 "Vertex definition returns ids that are unique, consecutive from zero per rank and in definition order, and single and bulk calls for vertices, edges, triangles, quads and tetrahedra are interchangeable. The mesh that coupling and export see consists of exactly the defined vertices and elements plus the implied lower-dimensional ones, each once regardless of order, orientation or repetition; invalid elements (repeated or unknown vertices, non-convex or collapsed quads, tetrahedra in 2D) are rejected.",
 ['inputs','histories'],
 "All orders and mixes of mesh definition calls on small meshes in 2D and 3D, with and without connectivity required.",
 "Tests define a few fixed meshes; orientation, duplication and mixing of call variants are combinatorial.",
 ['src/precice/impl/ParticipantImpl.cpp','src/mesh/Mesh.cpp','src/mesh/Edge.cpp','src/mesh/Triangle.cpp','src/mesh/Tetrahedron.cpp','src/mesh/Utils.cpp','src/io/ExportVTU.cpp'],
 [('deduplication and implied elements','Mesh::preprocess'),('API checks','ParticipantImpl::setMesh*')],
 ['return values of setMeshVertex*','getMeshVertexSize','exported mesh files','errors'])

p('M04','Direct mesh access and just-in-time mapping see exactly the accessible vertices',
 "With direct access a participant sees exactly those partner vertices that lie inside its access region, with their coordinates and stable ids, can read and write the partner's data on them, and what it does not write counts as zero on the partner's mesh. Just-in-time reads and writes at arbitrary coordinates inside the region give the same result as a regular mapping from or to a mesh with those coordinates, contributions of several writes accumulate within a step, and coordinates outside are rejected.",
 ['inputs','histories','configurations'],
 "All small vertex sets, access regions (including faces touching vertices), subsets and orders of accessed vertices, one or several ranks.",
 "Tests use a few boxes and vertex sets; boundary inclusion, index translation and accumulation over call sequences are input dependent.",
 ['src/precice/impl/ParticipantImpl.cpp','src/precice/impl/MeshContext.hpp','src/precice/impl/ReadDataContext.cpp','src/precice/impl/WriteDataContext.cpp','src/mesh/BoundingBox.cpp','src/partition/ReceivedPartition.cpp','src/mapping/NearestNeighborMapping.cpp'],
 [('vertex filtering by region','ParticipantImpl::getMeshVertexIDsAndCoordinates/getMeshVertexSize'),('just-in-time mapping','ParticipantImpl::mapAndReadData/writeAndMapData')],
 ['getMeshVertexSize','getMeshVertexIDsAndCoordinates','readData','mapAndReadData','partner readData'])

p('R01','Redefining a mesh between windows takes effect for all participants consistently',
 "When remeshing is allowed, a participant may redefine a mesh only at the end of a window; the next step of every connected participant then works on the new meshes (new ids, sizes and mappings) while windows, coupled time and converged results stay as without remeshing. Data written on the new mesh in that step is what the partner receives mapped from it, and steps in which nobody redefines a mesh behave as if remeshing were not enabled.",
 ['histories','configurations'],
 "All sequences of windows in which any subset of participants redefines its mesh (grow, shrink, move), in explicit and parallel-implicit coupling, serial and parallel runs.",
 "Tests contain a few fixed remeshing moments; the effect depends on which side resets in which window and what was exchanged before.",
 ['src/precice/impl/ParticipantImpl.cpp','src/cplscheme/BaseCouplingScheme.cpp','src/partition/ProvidedPartition.cpp','src/partition/ReceivedPartition.cpp','src/mesh/Mesh.cpp'],
 [('reset handshake','ParticipantImpl::remeshingHandshake/reinitialize'),('reset rules','ParticipantImpl::resetMesh')],
 ['readData','getMeshVertexSize','window and step queries','errors'])

p('A01','Acceleration starts from the data of this iteration and keeps its fixed point',
 "After a repeated iteration the partner reads accelerated data: constant relaxation gives exactly the configured blend of the new and the previous iterate at every time sample, and Aitken and quasi-Newton methods start with their initial relaxation and then use only the residuals of the iterations allowed by their reuse settings. Data of a converged window is passed on unmodified, each window starts anew from converged data, data that already is a fixed point is not changed, and a linear problem with as many unknowns as iterations is solved exactly.",
 ['histories','inputs','configurations'],
 "All iterate histories over several windows with exact rational values, all schemes, several accelerated data fields, with and without substeps and changing step patterns.",
 "Tests check single acceleration objects on a few vectors or the final result of a converging run.",
 ['src/acceleration/ConstantRelaxationAcceleration.cpp','src/acceleration/AitkenAcceleration.cpp','src/acceleration/BaseQNAcceleration.cpp','src/acceleration/IQNILSAcceleration.cpp','src/acceleration/IQNIMVJAcceleration.cpp','src/cplscheme/CouplingData.cpp','src/cplscheme/BaseCouplingScheme.cpp'],
 [('relaxation','Acceleration::applyRelaxation'),('previous iterate','CouplingData::storeIteration'),('call in the scheme','BaseCouplingScheme::doImplicitStep')],
 ['readData of the partner after each iteration'])

p('A02','Configured data actions are applied exactly once at their configured moment',
 "A summation, area-scaling or other data action changes exactly its target data, at every time sample, once per exchange and at its configured moment (after the write mapping before sending, or after receiving and read mapping before the participant can read), in initialization, every step, iteration and window. Source data and data without action stay unchanged.",
 ['histories','configurations'],
 "All combinations of action type, timing, mesh, scheme and step/iteration history on small meshes.",
 "Tests run single actions on stored data or in one fixed coupling.",
 ['src/action/SummationAction.cpp','src/action/ScaleByAreaAction.cpp','src/action/Action.hpp','src/precice/impl/ParticipantImpl.cpp'],
 [('action timing','ParticipantImpl::performDataActions'),('action bodies','src/action')],
 ['readData on both sides'])

p('O01','Result files record exactly what happened',
 "The iteration and convergence logs list every window and iteration that took place with the right numbers; watch points and watch integrals contain one row per time at which they are due with the mesh data interpolated or integrated correctly; and exports are written exactly for the configured windows (and iterations), contain the mesh and the data values valid at that time, and exports of windows are listed in their series file. File names carry participant, mesh and rank without one output overwriting another.",
 ['histories','configurations'],
 "All window/iteration histories, export frequencies and triggers, formats, several meshes, participants and ranks.",
 "Tests look at one or two exports or log files of one fixed run.",
 ['src/cplscheme/BaseCouplingScheme.cpp','src/precice/impl/WatchPoint.cpp','src/precice/impl/WatchIntegral.cpp','src/precice/impl/ParticipantState.cpp','src/io/Export.cpp','src/io/ExportCSV.cpp','src/io/ExportVTU.cpp','src/io/ExportVTP.cpp','src/io/ExportVTK.cpp','src/io/ExportXML.cpp','src/io/TXTTableWriter.cpp'],
 [('log tables','BaseCouplingScheme::initializeTXTWriters/advanceTXTWriters'),('export triggers','ParticipantState::exportIntermediate/exportInitial/exportFinal')],
 ['files written in the working directory'])

p('O02','Profiling records are complete and properly nested',
 "With profiling on, every rank writes one record file whose begin and end entries are balanced and properly nested in time order, whose names are all defined before use, and which contains every user-defined section with its nesting, whatever flush interval is configured; lower profiling modes record a subset of the higher ones and mode off records nothing. Profiling settings never change coupling results.",
 ['histories','configurations'],
 "All sequences of user sections and coupling calls, all modes, flush settings and synchronization settings, serial and parallel.",
 "Tests check the registry with a few hand-made events and one mode.",
 ['src/profiling/EventUtils.cpp','src/profiling/Event.cpp','src/profiling/EventUtils.hpp','src/profiling/config/ProfilingConfiguration.cpp','src/precice/impl/ParticipantImpl.cpp'],
 [('write queue and flush','profiling::EventRegistry'),('user sections','ParticipantImpl::startProfilingSection/stopLastProfilingSection')],
 ['files in precice-profiling'])

p('N01','Participants connect in any start order and only to matching peers',
 "Participants that use the same configuration connect whatever the order and delay of their starts and whichever side accepts, and leave no connection files behind. Participants with different configurations refuse each other with an error on both sides, and a leftover connection file of an earlier run leads to an error instead of a hang of the accepting side or a connection to the wrong peer.",
 ['schedules','configurations','fault_sequences'],
 "All start orders and delays of the involved processes and ranks, acceptor directions, exchange directories, communication layouts, and leftover files.",
 "Tests start all participants together in one MPI job and never vary the start order, delay or leftovers.",
 ['src/com/ConnectionInfoPublisher.cpp','src/com/SocketCommunication.cpp','src/m2n/BoundM2N.cpp','src/m2n/M2N.cpp','src/utils/IntraComm.cpp','src/precice/impl/ParticipantImpl.cpp'],
 [('connection files','ConnectionInfoWriter/ConnectionInfoReader'),('version and configuration check','M2N::checkRemoteInfo')],
 ['success or error of initialize','files below the exchange directory'])

p('N02','A dead peer is reported as an error, never as data or success',
 "If a participant or one of its ranks ends without finishing the coupling, at any point after connecting, every peer that depends on further communication with it gets an error from its next dependent call within bounded time. It neither hangs, nor continues with values the dead peer never sent, nor reports the coupling as regularly completed.",
 ['crash_points','schedules','configurations'],
 "All points of a run at which one process may die, explicit and implicit schemes, serial and parallel direction, both communication layouts.",
 "Tests never kill a process.",
 ['src/com/SocketCommunication.cpp','src/com/SocketRequest.cpp','src/com/SocketSendQueue.cpp','src/m2n/PointToPointCommunication.cpp','src/m2n/M2N.cpp'],
 [('error on failed receive and send','SocketCommunication'),('asynchronous requests','SocketRequest, SocketSendQueue')],
 ['outcome of the surviving processes calls'])

p('F01','Every configuration is either accepted and runnable or rejected with an error',
 "A configuration that violates a documented rule (structure, names and references, uniqueness, ranges, compatible combinations of schemes, exchanges, mappings, data and accelerations) is rejected with an error when it is loaded, by the participant and by the checking tool alike, and a configuration that violates none is accepted. Optional settings that are left out behave exactly as their documented defaults.",
 ['configurations'],
 "All points of a finite configuration space that covers every rule and its boundary values.",
 "Tests contain single broken files; rules interact and are checked in different places of the reader.",
 ['src/xml/XMLTag.cpp','src/xml/ConfigParser.cpp','src/xml/XMLAttribute.hpp','src/cplscheme/config/CouplingSchemeConfiguration.cpp','src/precice/config/ParticipantConfiguration.cpp','src/mesh/config/MeshConfiguration.cpp','src/mapping/config/MappingConfiguration.cpp','src/m2n/config/M2NConfiguration.cpp','src/acceleration/config/AccelerationConfiguration.cpp','src/precice/Tooling.cpp','src/drivers/main.cpp'],
 [('schema checks','xml::XMLTag, ConfigParser'),('semantic checks','*Configuration::xmlEndTagCallback')],
 ['Participant construction','precice-tools check'])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import sys
try:
    import jsonschema
    S=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for d in P: jsonschema.validate(d,S)
except ImportError: pass
for d in P:
    for fl in d['anchors']['files']:
        if not os.path.exists('/repo/'+fl): print('missing',fl)
    n=d['statement'].count('. ')+1
    if n>3: print(d['id'],'sentences',n)
print(len(P))
