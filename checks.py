"""Registry of checks: property -> level, technique, parts (executables explored exhaustively)."""
ASAN=["-fsanitize=address,undefined","-fno-sanitize-recover=undefined","-O1"]
LA=["LinearAlgebra"]
CHECKS={
"P13":{"level":"model_checking","technique":"exhaustive operation/sequence enumeration against a reference model, under address sanitizer",
 "parts":[
  {"name":"values","harness":["p13_vec.cpp"],"cxxflags":ASAN,"dirs":LA,"external":False,"what":"every operation on every vector (pair) over a 5-value alphabet"},
  {"name":"sequences","harness":["p13_vec.cpp"],"harness_flags":["-DSEQ"],"cxxflags":ASAN,"dirs":LA,"external":False,"what":"every operation sequence on two vectors"}]},
"P14":{"level":"model_checking","technique":"exhaustive operation/sequence enumeration against a reference model, under address sanitizer",
 "parts":[
  {"name":"values","harness":["p14_mat.cpp"],"cxxflags":ASAN,"dirs":LA,"external":False,"ldflags":["-Wl,--wrap=_ZNSt13random_device9_M_getvalEv"],"what":"every operation on every small matrix (pair)"},
  {"name":"sequences","harness":["p14_mat.cpp"],"harness_flags":["-DSEQ"],"cxxflags":ASAN,"dirs":LA,"external":False,"what":"every operation sequence on two matrices"}]},
"P15":{"level":"model_checking","technique":"exhaustive enumeration of tables, file contents and truncation points against an independent reader",
 "parts":[
  {"name":"roundtrip","harness":["p15_csv.cpp"],"harness_flags":["-DPART=1"],"dirs":LA,"external":False,"what":"every small matrix over extreme values: save, read, append"},
  {"name":"contents","harness":["p15_csv.cpp"],"harness_flags":["-DPART=2"],"dirs":LA,"external":False,"what":"every file content up to the length bound over the format alphabet"},
  {"name":"tokens","harness":["p15_csv.cpp"],"harness_flags":["-DPART=3"],"cxxflags":ASAN,"dirs":LA,"external":False,"what":"every table of valid/invalid tokens, line-end styles, every truncation point"}]},
"P16":{"level":"model_checking","technique":"exhaustive enumeration of small integer matrices and solver-object histories against exact arithmetic",
 "parts":[{"name":"solvers","harness":["p16_solver.cpp"],"harness_flags":["-DOPENBLAS"],"dirs":LA,"external":False,"what":"all symmetric/general integer matrices in bounds, all reuse sequences of three factorisations on one solver object"}]},
"P18":{"level":"model_checking","technique":"exhaustive enumeration of bound pairs and of every outcome of the random source (draws, permutations)",
 "parts":[
  {"name":"bounds","harness":["p18_bounds.cpp"],"harness_flags":["-DPART=1"],"prelude":"ctl_random.hpp","prelude_harness":True,"cxxflags":ASAN,"what":"every pair of bound vectors in every form on objects in every prior state; membership around the faces"},
  {"name":"draws","harness":["p18_bounds.cpp"],"harness_flags":["-DPART=2"],"prelude":"ctl_random.hpp","prelude_harness":True,"what":"every sampling function, every outcome of each draw"},
  {"name":"lhs","harness":["p18_bounds.cpp"],"harness_flags":["-DPART=3"],"prelude":"ctl_random.hpp","prelude_harness":True,"what":"Latin hypercube: every draw at the stratum ends, every permutation"}]},
"P17":{"level":"model_checking","technique":"exhaustive enumeration of grid point sets, hyper-parameter grids and call sequences against the closed form",
 "parts":[
  {"name":"values","harness":["p17_corr.cpp"],"dirs":["LinearAlgebra","CorrelationFunctions"],"external":False,"what":"all point pairs of grids in 1-3 dimensions x hyper-parameter grid"},
  {"name":"sequences","harness":["p17_corr.cpp"],"harness_flags":["-DSEQ"],"cxxflags":ASAN,"dirs":["LinearAlgebra","CorrelationFunctions"],"external":False,"what":"all call sequences"}]},
"P22":{"level":"model_checking","technique":"exhaustive enumeration of all expression texts up to a length and all token sequences against a reference grammar",
 "parts":[
  {"name":"texts","harness":["p22_expr.cpp"],"what":"every text up to the length bound over the expression alphabet, both parsers"},
  {"name":"tokens","harness":["p22_expr.cpp"],"harness_flags":["-DTOK"],"what":"every token sequence"}]},
"P28":{"level":"model_checking","technique":"exhaustive enumeration of component/value placements and set-up sequences against a reference record",
 "parts":[
  {"name":"records","harness":["p28_design.cpp"],"cxxflags":ASAN,"what":"every placement of one (two) unusual values in a record of every small size: samples, texts, files, XML, copies, NaN detection"},
  {"name":"sequences","harness":["p28_design.cpp"],"harness_flags":["-DSEQ"],"cxxflags":ASAN,"what":"every sequence of set-up operations on two designs"}]},
"P04":{"level":"model_checking","technique":"exhaustive enumeration of history tables grown row by row against a reference selection",
 "parts":[
  {"name":"tables","harness":["p04_best.cpp"],"what":"every history table up to the row bound over extreme objective values, one reporting object carried along"},
  {"name":"runs","harness":["p01_run.cpp"],"harness_flags":["-DPROP=\"P04\""],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"what":"complete runs, every sequence of evaluator answers, XML file compared after every evaluation"}]},
"P01":{"level":"model_checking","technique":"exhaustive enumeration of evaluator answers over complete optimisation runs against a reference run",
 "parts":[
  {"name":"runs","harness":["p01_run.cpp"],"harness_flags":["-DPROP=\"P01\""],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"what":"complete runs, every sequence of evaluator answers"}]},
"P02":{"level":"model_checking","technique":"exhaustive enumeration of evaluator answers over complete optimisation runs against a reference run",
 "parts":[
  {"name":"runs","harness":["p01_run.cpp"],"harness_flags":["-DPROP=\"P02\""],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"what":"complete runs, every sequence of evaluator answers, history file compared after every evaluation"}]},
"P03":{"level":"model_checking","technique":"exhaustive enumeration of evaluator answers over complete optimisation runs against a reference run",
 "parts":[
  {"name":"runs","harness":["p01_run.cpp"],"harness_flags":["-DPROP=\"P03\""],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"what":"complete runs, every sequence of evaluator answers, training files compared after every evaluation"}]},
"P05":{"level":"model_checking","technique":"exhaustive enumeration of boxes, grids, incumbents and outcomes of the random draws over complete optimisation runs",
 "parts":[
  {"name":"grid","harness":["p05_grid.cpp"],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"what":"complete runs, every outcome of the draws of the search; evaluated design = rounding of an examined candidate"}]},
"P27":{"level":"model_checking","technique":"exhaustive enumeration of outcome sequences over complete optimisation runs against a reference automaton",
 "parts":[
  {"name":"window","harness":["p27_window.cpp"],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"what":"complete runs, every short outcome sequence and all segment patterns S^a F^b; window reconstructed from the candidates examined"}]},
"P06":{"level":"model_checking","technique":"exhaustive enumeration of evaluator mixes, inequality directions, registration orders and evaluator answers over optimisation runs",
 "parts":[
  {"name":"mixes","harness":["p06_cons.cpp"],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"what":"every mix of callback / external program / built-in function, direction and id permutation of up to 3 constraints (4: sub-lattice, thorough); every answer around the target, infinities and NaN"}]},
"P07":{"level":"model_checking","technique":"exhaustive enumeration of external-program fault sequences on the real evaluation code and complete runs",
 "parts":[
  {"name":"sequences","harness":["p07_ext.cpp"],"harness_flags":["-DPART=1"],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"what":"every sequence of program behaviours (40 kinds of output, exit, signal and start faults) on one evaluation object, every way of naming the program"},
  {"name":"runs","harness":["p07_ext.cpp"],"harness_flags":["-DPART=2"],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"what":"complete runs with one behaviour at one evaluation of the objective or the constraint program"}]},
"P08":{"level":"model_checking","technique":"exhaustive crash-point injection at every file-system operation of a run, followed by a resumed run judged against a reference run",
 "parts":[
  {"name":"crashes","harness":["p08_crash.cpp"],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"ldflags":["-rdynamic"],"what":"the process dies before every open/write/close/rename/remove and inside every evaluation; files judged, then a new run from them (thorough: dies again)"}]},
"P23":{"level":"model_checking","technique":"exhaustive enumeration of models, queries, incumbents, exploration factors and constraint mixes against the closed form in extended precision",
 "parts":[
  {"name":"formula","harness":["p23_ei.cpp"],"harness_flags":["-DPART=1"],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"what":"expected improvement for every model of the family, query grid and training points, 30 incumbents, 7 factors"},
  {"name":"products","harness":["p23_ei.cpp"],"harness_flags":["-DPART=2"],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"what":"acquisition value for every mix of up to 3 constraints (kind, direction, id order)"},
  {"name":"runs","harness":["p23_ei.cpp"],"harness_flags":["-DPART=3"],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"what":"candidate handed on in complete runs uses the best feasible objective so far"}]},
"P11":{"level":"model_checking","technique":"exhaustive enumeration of sample sets, outputs, hyper-parameters, queries and call sequences on the real model against the closed form in extended precision",
 "parts":[
  {"name":"predictions","harness":["p11_kriging.cpp"],"harness_flags":["-DPART=1"],"external":False,"what":"every sample subset of small grids in 1-2 dimensions, output patterns, hyper-parameters, nuggets, two file orders, queries on and off the samples"},
  {"name":"sequences","harness":["p11_kriging.cpp"],"harness_flags":["-DPART=2"],"external":False,"what":"every sequence of add sample / set hyper-parameters / re-read / copy"}]},
"P09":{"level":"model_checking","technique":"exhaustive enumeration of thread schedules (controlled scheduler on the real search) with a happens-before race detector on every memory access",
 "parts":[
  {"name":"search","harness":["p09_search.cpp"],"plain":["thr.cpp"],"harness_flags":["-fsanitize=thread"],"repo_cxxflags":["-fsanitize=thread"],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"ldflags":["-rdynamic","-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=_ZN5Rodop17ObjectiveFunction14trainSurrogateEv,--wrap=_ZN5Rodop18ConstraintFunction14trainSurrogateEv,--wrap=_ZNK5Rodop17ObjectiveFunction28calculateExpectedImprovementERNS_29DesignForBayesianOptimizationE"],"what":"complete runs, every schedule of the worker threads of the acquisition search at synchronisation operations, every order of candidate values"}]},
"P10":{"level":"model_checking","technique":"exhaustive enumeration of thread schedules (controlled scheduler on the real training) with a happens-before race detector on every memory access, and of call sequences",
 "parts":[
  {"name":"interleavings","harness":["p10_training.cpp"],"plain":["thr.cpp"],"harness_flags":["-fsanitize=thread","-DPART=1"],"repo_cxxflags":["-fsanitize=thread"],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"ldflags":["-rdynamic","-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=_ZN5Rodop30ExponentialCorrelationFunction18setHyperParametersERKNS_3vecE"],"what":"every schedule of 2-4 training threads at synchronisation operations up to the preemption bound"},
  {"name":"sequences","harness":["p10_training.cpp"],"plain":["thr.cpp"],"harness_flags":["-DPART=2"],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"ldflags":["-rdynamic","-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=_ZN5Rodop30ExponentialCorrelationFunction18setHyperParametersERKNS_3vecE"],"what":"every sequence of training, thread count, iteration count, new sample and re-reading"}]},
"P12":{"level":"model_checking","technique":"exhaustive enumeration of call sequences and of every outcome of the random split on the real data classes against a reference model of the split",
 "parts":[
  {"name":"data","harness":["p12_data.cpp"],"harness_flags":["-DPART=1"],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"what":"every sequence of reading two files, four ratios, normalising, reverting and reading test data, every permutation drawn by the split"},
  {"name":"models","harness":["p12_data.cpp"],"harness_flags":["-DPART=2"],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"what":"Kriging, universal Kriging and linear models on split data: every sequence of changing the ratio, re-reading, adding, training, copying"}]},
"P25":{"level":"model_checking","technique":"exhaustive enumeration of sample subsets, outputs, regularisations and call sequences on the real model against the least-squares solution in extended precision",
 "parts":[
  {"name":"solutions","harness":["p25_linear.cpp"],"harness_flags":["-DPART=1"],"external":False,"what":"every sample subset of grids in 1-3 dimensions, output patterns, regularisations, file orders"},
  {"name":"sequences","harness":["p25_linear.cpp"],"harness_flags":["-DPART=2"],"external":False,"what":"every sequence of regularisation changes, training, initialisation, file changes and copies"}]},
"P24":{"level":"model_checking","technique":"exhaustive enumeration of sequences of surrogate tests on the real test pipeline against the closed form in extended precision",
 "parts":[
  {"name":"tests","harness":["p24_tester.cpp"],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"what":"every sequence of two (three) tests: model type, training file, test file, error estimates, parameters from file or trained, files replaced or overwritten"}]},
"P19":{"level":"model_checking","technique":"exhaustive enumeration of the outcomes of the random draws and of the objective values on the real optimiser",
 "parts":[
  {"name":"runs","harness":["p19_ea.cpp"],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"what":"every sequence of objective values and death draws, every outcome of parent, gene and mutation draws, for every small population set-up; repeated, warm-started and step-wise runs"}]},
"P26":{"level":"model_checking","technique":"exhaustive enumeration of values, file damage and load sequences on the real models and populations against an own reading of the file",
 "parts":[
  {"name":"hyperparameters","harness":["p26_saved.cpp"],"harness_flags":["-DPART=1"],"external":False,"what":"Kriging, universal Kriging and linear models: every value set, every kind of damage of the file, every sequence of two loads"},
  {"name":"populations","harness":["p26_saved.cpp"],"harness_flags":["-DPART=2"],"external":False,"what":"populations over extreme values: saved, damaged in every way, read into fresh and filled objects"}]},
"P31":{"level":"model_checking","technique":"exhaustive enumeration of training intervals, run lengths, constraint mixes and outcome sequences over complete optimisation runs",
 "parts":[
  {"name":"schedule","harness":["p31_schedule.cpp"],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"ldflags":["-Wl,--wrap=_ZN5Rodop11EAOptimizer8optimizeEv"],"what":"complete runs with every training interval, number of iterations, constraint mix and outcome sequence; every training observed with the data it gets"}]},
"P21":{"level":"model_checking","technique":"exhaustive enumeration of call sequences of the programming interface on the real code against a reference model of the set-up",
 "parts":[
  {"name":"sequences","harness":["p21_api.cpp"],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"ldflags":["-Wl,--wrap=_ZN5Rodop9Optimizer34performEfficientGlobalOptimizationEv,--wrap=_ZN5Rodop17ObjectiveFunction14trainSurrogateEv,--wrap=_ZN5Rodop18ConstraintFunction14trainSurrogateEv"],"what":"permutations of the set-up calls, complete set-ups with two further calls inserted anywhere, subsets with one further call, every outcome of the draws of the design of experiments, failing evaluations"}]},
"P20":{"level":"model_checking","technique":"exhaustive enumeration of changed configuration documents on the real driver, runs judged against an own reading of the document",
 "parts":[
  {"name":"documents","harness":["p20_driver.cpp"],"main":True,"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"ldflags":["-Wl,--wrap=_ZN5Rodop9Optimizer34performEfficientGlobalOptimizationEv,--wrap=_ZN5Rodop17ObjectiveFunction14trainSurrogateEv,--wrap=_ZN5Rodop18ConstraintFunction14trainSurrogateEv"],"what":"three documents with 0-3 constraints, every single change in four layouts, pairs of changes: rejected, or the study written is carried out"}]},
"P29":{"level":"model_checking","technique":"exhaustive enumeration of starting points, windows, constraint mixes, incumbents and exploration factors on the real optimizer and models",
 "parts":[
  {"name":"refinement","harness":["p29_refine.cpp"],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"what":"the gradient refinement from every grid point and sample of every window, judged by recalculating the acquisition value"}]},
"P30":{"level":"model_checking","technique":"exhaustive enumeration of the interleavings of the operations of two studies (two models) in one process against each alone",
 "parts":[
  {"name":"studies","harness":["p30_two.cpp"],"harness_flags":["-DPART=1"],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"what":"two studies: interleavings of set-up steps and runs, one study carried out within an evaluation of the other"},
  {"name":"models","harness":["p30_two.cpp"],"harness_flags":["-DPART=2"],"prelude":"ctl_random.hpp","prelude_harness":True,"external":False,"what":"two surrogate models of every pair of types and dimensions: every interleaving of set-up, training, adding and re-reading"}]},
}
