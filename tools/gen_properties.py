#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that long statements stay readable).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,**kw):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    a.update({k:v for k,v in kw.items()})
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

OPT="src/Optimizers/optimization.cpp"; HIST="src/Optimizers/optimization_history.cpp"; EGO="src/Optimizers/efficient_global_optimization.cpp"
OCF="src/Optimizers/optimization_constraint_functions.cpp"; OBJ="src/ObjectiveFunctions/objective_function.cpp"; CON="src/ObjectiveFunctions/constraint_functions.cpp"
GOD="src/Optimizers/globalOptimalDesign.cpp"; KRI="src/SurrogateModels/kriging_training.cpp"; SMD="src/SurrogateModels/surrogate_model_data.cpp"
SM="src/SurrogateModels/surrogate_model.cpp"; LR="src/SurrogateModels/linear_regression.cpp"; SMT="src/SurrogateModels/surrogate_model_tester.cpp"
VEC="src/LinearAlgebra/vector.cpp"; MAT="src/LinearAlgebra/matrix.cpp"; LS="src/LinearAlgebra/linear_solver.cpp"
BND="src/Bounds/bounds.cpp"; DES="src/Design/design.cpp"; DRV="src/Driver/driver_xml.cpp"; KEY="src/Driver/configkey.cpp"; XMLF="src/Driver/xml_functions.cpp"; STRF="src/Driver/string_functions.cpp"
EAO="src/InternalOptimizers/ea_optimizer.cpp"; EAP="src/InternalOptimizers/ea_population.cpp"; EAI="src/InternalOptimizers/ea_individual.cpp"; GPO="src/InternalOptimizers/general_purpose_optimizer.cpp"
API="src/API/rodeo_api.cpp"

p("P01","Evaluation budget is spent exactly, and each new design is evaluated once",
"An optimisation run with an evaluation budget of N starting from a design of experiments calls the objective exactly N times, and every constraint exactly once per objective call at the very same design, whatever finite values the evaluators return (a NaN raises an error and nothing is recorded for it). The run then stops, and the history it reports holds the initial samples followed by exactly the N evaluated designs, in evaluation order, bit-equal to the designs the evaluators saw.",
["histories","inputs"],"all sequences of evaluator answers (objective better/equal/worse/huge, constraint feasible/infeasible/on the boundary) up to the budget, over 0, 1 and 2 constraints, continuous and discrete parameters and several starting data sets",
"The tests run one fixed objective per problem and only look at the exit code, so a lost, repeated or extra evaluation on some answer sequence is invisible.",
[EGO,OPT,OCF,OBJ],[("iteration loop and stop test","Optimizer::performEfficientGlobalOptimizationOnlyWithFunctionalValues"),("evaluation dispatch","ObjectiveFunction::evaluateDesign, Optimizer::computeConstraintsandPenaltyTerm")],observe_at="evaluator callbacks and the in-memory history after the run")

p("P02","The optimisation history tells the truth about every evaluated design",
"After every evaluation the history file has one line per known sample, in evaluation order, giving its design parameters, objective value, every constraint value in the column carrying that constraint's name, improvement and feasibility. A sample is marked feasible exactly when all constraints hold at it (and, for initial samples, the box too); an evaluated design's improvement is the amount by which a feasible design beats the best feasible initial objective (zero otherwise, and a tiny positive value for the first feasible design when no initial sample was feasible); numbers agree with what the evaluators returned to the printed precision.",
["histories","inputs"],"all sequences of evaluator answers up to the budget over 0-2 constraints of both kinds, over initial data sets with and without feasible samples, and with missing constraint samples",
"Which row is wrong depends on the order of feasible/infeasible and better/worse answers; the tests never read the history.",
[HIST,EGO,OPT],[("history append and rewrite","OptimizationHistory::updateOptimizationHistory, saveOptimizationHistoryFile"),("initial history assembly","Optimizer::setOptimizationHistoryData, setOptimizationHistoryConstraintsData, setOptimizationHistoryDataFeasibilityValues"),("improvement","Optimizer::calculateImprovementValue")],observe_at="optimizationHistory.csv after every iteration")

p("P03","Every evaluated sample enters the training data of its own model",
"After each iteration of a run, the training file of the objective and of each surrogate-modelled constraint consists of the rows it started with, unchanged and in order, followed by one row per evaluated design holding that design's parameters and that function's own value to the written precision (12 decimal places); the one exception is a row that agrees with an existing row of the same file to within the documented tolerance of 1e-4 in every entry, which is discarded. A constraint answered by a built-in explicit function gets no rows. The surrogate model in use holds the same samples as its file.",
["histories","inputs"],"all sequences of evaluator answers up to the budget over 0-2 constraints; all bounded sequences of sample additions including near duplicates",
"Tests never compare training files with evaluations, and misrouted or dropped rows need particular answer sequences.",
[OBJ,CON,KRI,SMD],[("append","ObjectiveFunction::addDesignToData, ConstraintFunction::addDesignToData"),("model update","KrigingModel::addNewSampleToData, SurrogateModelData::addNewRow")],observe_at="training CSV files and the models' raw data")

p("P04","The reported optimum is the best feasible design known",
"At any moment of a run the reported global optimum (in memory and in its XML file) is the row of the history with the smallest objective value among the feasible rows, the earliest one on ties, and its index, objective value, design parameters, constraint values and feasibility are those of that row (in the XML file to the printed precision). If no row is feasible, the row with the smallest objective value is reported and marked infeasible.",
["histories","inputs"],"all sequences of evaluator answers up to the budget; all history tables up to a bounded number of rows over a value alphabet with ties, negative values and infeasible rows, with 0-2 constraints",
"Tests only look whether the XML file is non-empty; ties, all-infeasible and infeasible-but-better rows need specific tables.",
[GOD,OPT],[("selection","GlobalOptimalDesign::findBestDesignIndex, setGlobalOptimalDesignFromHistoryFile"),("reporting","GlobalOptimalDesign::saveToXMLFile, generateXmlString")],observe_at="globalOptimalDesign.xml and the object's fields")

p("P05","Evaluated designs respect the box and the discrete grids",
"Every design passed to an evaluator during an optimisation run lies inside the box constraints, and every parameter declared discrete with increment d has a value lower bound + k*d for some integer k>=0 that does not exceed the upper bound, namely the one closest to the continuous proposal. This holds for any number and position of discrete parameters, any increment, and any location of the incumbent optimum, including on the faces of the box.",
["inputs","histories"],"all subsets of discrete parameters over a set of increments (dividing the range exactly, inexactly, larger than the range, floating-point awkward), boxes, incumbent positions and evaluator answers",
"No stable test declares a discrete parameter, and clipping at box faces depends on where the incumbent ends up.",
[OPT,EGO],[("rounding","Optimizer::roundDiscreteParameters, generateDiscreteValues, findClosestDiscreteValue"),("search window","Optimizer::defineTrustRegion, DesignForBayesianOptimization::generateRandomDesignVector*")],observe_at="designs passed to evaluators")

p("P06","Constraint values reach the right constraint; inequalities are strict",
"Whatever mix of evaluator kinds (callback, external program, built-in explicit function) and inequality directions is used and in whatever order constraints are registered, the value stored for each constraint is the one its own evaluator produced for the design, and the design is feasible exactly when every constraint value is strictly on the required side of its target, equality and NaN being infeasible. Registering two constraints with the same name is refused.",
["inputs","histories","configurations"],"all assignments of evaluator kind and inequality direction to up to 3 constraints in all registration orders, with values below/at/above the target and infinite",
"The stable tests have at most two callback constraints in one order and never reach a boundary value.",
[OCF,CON,OPT],[("routing","Optimizer::evaluateConstraints, addConstraintValuesToData, ConstraintFunction::evaluateDesign/readOutputDesign"),("feasibility","ConstraintFunction::checkFeasibility, Optimizer::checkConstraintFeasibility")],observe_at="design record after evaluation; history columns")

p("P07","External evaluations are either used faithfully or rejected",
"When an evaluation is delegated to an external program, the program is run exactly once in the working directory of the run with the design parameters written one per line so that they read back as exactly the same design, and the value recorded is the number that this run of the program wrote. If the program cannot be started, exits non-zero, dies from a signal, or leaves the output file missing, empty, truncated, non-numeric or unwritten by this run, the evaluation raises an error instead of recording a value.",
["fault_sequences","inputs","histories"],"all sequences up to length 3 of external-program behaviours (good, exit code, signal, no output, empty output, garbage, too few values, NaN text, extra values, stale output) and all executable/path configurations",
"The stable tests run well-behaved programs only; fault combinations across consecutive evaluations are never produced.",
[OBJ,CON],[("execution","ObjectiveFunction::evaluateObjectiveFunction, getExecutionCommand"),("reading","ObjectiveFunction::readOutput, ConstraintFunction::readOutputDesign"),("writing","ObjectiveFunction::writeDesignVariablesToFile")],observe_at="files seen by the child, design record, exceptions")

p("P08","A killed run can be resumed without losing or corrupting evaluated samples",
"If the process dies at any file-system operation during a run, each training file afterwards holds its initial rows plus a prefix of the evaluated samples (to 12 decimal places), no evaluated sample other than the one being recorded is missing from it, and no row is mixed, reordered or duplicated. A new run started from those files accepts them, and its history starts with exactly the samples of the objective file and proceeds with its own full budget; a sample whose constraint row had not been written yet counts as having no constraint value and hence as infeasible.",
["crash_points","histories"],"every file-system operation (create, write, close) of a bounded run as a crash point, over 0-2 constraints, followed by a resumed run",
"Tests never kill the optimiser; a lost or torn sample shows only at particular crash points.",
[OBJ,CON,KRI,VEC,MAT,HIST],[("append to training data","KrigingModel::addNewSampleToData, vec::appendToCSV"),("history and optimum rewrite","OptimizationHistory::saveOptimizationHistoryFile, GlobalOptimalDesign::saveToXMLFile"),("resume","Optimizer::initializeOptimizationHistory")],observe_at="training files after the crash and the resumed run's history")

p("P09","Parallel acquisition search returns the best candidate under every interleaving",
"However the worker threads of the acquisition search interleave, the design handed on for evaluation is one of the candidates examined, carries that candidate's own parameters and acquisition value together, and no examined candidate has a larger acquisition value. The search has no data race and is deadlock free.",
["schedules","inputs"],"all thread interleavings at shared-memory and synchronisation operations of 2-3 threads over a bounded number of candidates, up to a preemption bound, with and without constraints",
"A lost update needs two threads to pass the comparison before either stores; tests run with one thread by default and cannot steer the schedule.",
[OPT],[("parallel maximum search","Optimizer::searchAroundGlobalOptima, searchCompleteDesignSpace"),("hand-over","Optimizer::findTheMostPromisingDesignEGO")],state=["best candidate shared by the threads"],observe_at="the candidates scored and the design chosen")

p("P10","Parallel training keeps the best hyper-parameters of all threads, race free",
"Training a Kriging model with several threads installs the hyper-parameters of the best optimum found by any thread, so that no thread's result has a better value of the training criterion than the one installed, under every interleaving; threads share no unsynchronised mutable state. Training can be repeated any number of times with unchanged settings, and each training spends the same, configured number of training iterations (to within one generation per thread).",
["schedules","histories"],"all thread interleavings at shared-memory and synchronisation operations of 2-3 training threads up to a preemption bound; all bounded sequences of train / set-threads / set-iterations / add-sample calls",
"The outcome depends on the order in which threads finish and on unsynchronised random-number state; tests never train twice with threads.",
[KRI,EAO,EAP,EAI],[("training region","KrigingModel::train"),("best-of reduction","critical section in KrigingModel::train"),("shared generators","EAPopulation/EAIndividual static random engines")],state=["best optimiser, best likelihood, static random engines"],observe_at="hyper-parameters installed")

p("P11","The Kriging model interpolates its data and its error estimate is sound",
"For every non-degenerate training set the ordinary Kriging prediction equals the generalised-least-squares predictor for the current hyper-parameters, reproduces the training outputs at the training points and lies consistently with its error estimate, which is never negative, (nearly) vanishes at training points and equals the textbook mean squared error elsewhere. Adding samples one at a time gives the same model as building it from all samples at once with the same hyper-parameters, and every prediction is invariant under permutation of the samples. The criterion maximised by the training is the log-likelihood of the data up to a constant, and a setting whose correlation matrix cannot be factorised ranks below every other.",
["inputs","histories"],"all point subsets of small grids in 1-2 dimensions with all output patterns from a small alphabet, a grid of hyper-parameters and query points, and all insertion orders",
"Tests use one data set per problem and only check that a run finishes.",
[KRI,SM,SMD,LS],[("fit","KrigingModel::updateModelParams, calculateBeta0, linear system"),("prediction","KrigingModel::interpolate, interpolateWithVariance"),("update","KrigingModel::addNewSampleToData, updateModelWithNewData")],observe_at="predictions and variances")

p("P12","Training and validation samples never leak into each other",
"After any sequence of reading, splitting into training and validation parts, reverting, re-reading and adding samples, each sample of the training file is in exactly one of the training and validation parts, the validation part has exactly the requested share of the samples, rounded down, every data row keeps its own output, and normalised inputs and raw inputs describe the same samples. Reverting or reading again restores the complete data, and the validation error is the mean absolute difference of predictions and the true values of the same validation samples.",
["histories","inputs"],"all operation sequences up to a bounded length over {read, split(ratio), revert, add row, normalise} and all outcomes of the random split",
"Stale rows survive only specific sequences of operations and random splits.",
[SMD,SM],[("split","SurrogateModelData::assignDimensionFromTrainingData/ setValidationData / generateRandomIndicesForValidationData"),("revert","SurrogateModelData::revertBackToFullData"),("errors","SurrogateModel::calculateInSampleError, calculateOutSampleError, calculateValidationError")],observe_at="raw and normalised matrices, reported errors")

p("P13","Vector operations agree with their mathematical definition",
"Every operation of the vector type (construction, arithmetic, norms, dot product, min/max with index, quantiles and statistics, appending, head/tail, push_back, resize, copying parts, normalisation to the unit box and back, interval search (half-open), searching, sampling within bounds, copy and move) gives the mathematically defined result, leaves its operands unchanged unless it is documented as in place, and never reads or writes outside its storage, for any sequence of operations on finite values, including on empty vectors and self-assignment.",
["inputs","histories"],"all vectors up to a small length over a small value alphabet, and all sequences of operations up to a bounded depth, against a reference model",
"Aliasing, empty and boundary cases and operation sequences (copy then resize then move) are not sampled by the existing system tests.",
[VEC,"src/LinearAlgebra/INCLUDE/vector.hpp"],[("storage management","vec copy/move/resize/push_back"),("arithmetic and reductions","vec operators, norms, dot, min/max, statistics")],observe_at="public vector interface under address sanitizer")

p("P14","Matrix operations agree with their mathematical definition",
"Every operation of the matrix type (construction, element/row/column access and update, adding and deleting rows and columns, concatenation, transpose, sub-matrix, products with vectors and matrices, norms, normalisation to the unit box, copy and move) gives the mathematically defined result, leaves operands unchanged unless in place, and never touches memory outside its storage, for any sequence of operations.",
["inputs","histories"],"all matrices up to a small shape over a small alphabet and all operation sequences up to a bounded depth, against a reference model, for the plain and the BLAS back end",
"Row/column mix-ups vanish on the square or symmetric matrices a sample test picks, and storage bugs need operation sequences.",
[MAT,"src/LinearAlgebra/INCLUDE/matrix.hpp"],[("storage","mat copy/move/resize/addRow/deleteRow"),("algebra","mat products, transpose, norms"),("normalisation","mat::normalizeMatrix and inverse")],observe_at="public matrix interface under address sanitizer")

p("P15","Tables survive a round trip through files and malformed files are rejected",
"Writing a vector or matrix to a file, with or without header, and reading it back gives the same shape and the same values to the written precision, and appending rows one by one equals writing them at once. A text file whose rows differ in length or which holds a non-numeric entry is rejected with an error instead of producing wrong data, and a missing trailing newline changes nothing.",
["inputs","crash_points"],"all matrices up to a small shape over an alphabet of extreme doubles; all character strings up to a bounded length over the format alphabet as file content; every truncation point of a valid file",
"Tests only read well-formed files; malformed and truncated files and extreme values are never tried.",
[MAT,VEC],[("write","mat::saveAsCSV, vec::appendToCSV, saveToCSV"),("read","mat::readFromCSV, vec::readFromCSV")],observe_at="matrices read back")

p("P16","Linear solvers solve, and refuse what they cannot solve",
"For every symmetric positive definite matrix the Cholesky factorisation reproduces the matrix, succeeds, and the solution of the linear system satisfies it; for matrices that are not positive definite it reports failure and no solution is handed out as valid. LU factorisation, inverse and determinant agree with exact arithmetic for every non-singular matrix, and refactorising the same solver with another matrix gives the answer for the new matrix.",
["inputs","histories"],"all integer matrices up to 3x3 (symmetric up to 4x4) over a small entry range, all right-hand sides from a small set, and sequences of two factorisations on one solver object",
"Pivoting and indefiniteness need particular matrices; tests only factorise correlation matrices of one run.",
[LS,MAT],[("Cholesky","LinearSolver / mat Cholesky routines"),("LU, inverse, determinant","mat LU routines")],observe_at="factors, solutions, return flags")

p("P17","Correlation matrices are valid correlation matrices",
"For every training set and every admissible hyper-parameter setting (theta at least 0, gamma in (0,2]) the correlation between two samples depends only on the two samples, is symmetric, equals one (up to the nugget) for coincident samples, lies between zero and one and never increases with distance along any coordinate, and the correlation matrix and correlation vector agree entry by entry with this function; the directional derivative vector is the derivative of the correlation vector. Setting, reading back and re-setting hyper-parameters or the input sample never leaves stale values behind.",
["inputs","histories"],"all point pairs of small grids in 1-3 dimensions, a grid of hyper-parameters including extremes, and all bounded sequences of set-input / set-hyper-parameter / compute calls",
"The system tests exercise whatever hyper-parameters training happens to pick.",
["src/CorrelationFunctions/correlation_functions.cpp","src/CorrelationFunctions/exponential_correlation_function.cpp","src/CorrelationFunctions/gaussian_correlation_function.cpp"],[("correlation","computeCorrelation / corrMatrix / corrVector"),("hyper-parameters","setTheta, setGamma, setHyperParameters")],observe_at="matrix and vector entries")

p("P18","Bounds and sampling: every generated sample is inside the box and stratified",
"Bounds accept exactly the pairs with every lower bound strictly below its upper bound and report membership of a point correctly, inclusive of the faces. Whatever the random source returns, every random vector generated between bounds lies inside them, and a Latin hypercube design of n samples has exactly one sample in each of the n equal strata of every parameter.",
["inputs"],"all bound pairs over a small alphabet (equal, reversed, infinite, mismatched sizes), all points around the faces, and all outcomes of the random draws at the stratum ends and all shuffles for up to 4 samples and 3 parameters",
"A sampled test passes with probability close to one even when the extremes of the random source leave the box or two samples share a stratum.",
[BND,MAT,VEC],[("bounds","Bounds::setBounds, checkIfBoundsAreValid, isPointWithinBounds"),("sampling","vec::generateRandomVectorBetween/fillRandom, mat::fillRandomLHS")],observe_at="bounds objects and sample matrices with the random source under the checker's control")

p("P19","The evolutionary optimiser is elitist, stays in bounds and honours its budget",
"For every outcome of its random draws and every finite-valued objective, every candidate the evolutionary optimiser evaluates lies within its bounds, the best objective value it reports is the value of the objective at the reported point and the smallest value evaluated so far in this run, it never gets worse from one generation to the next, and the numbers of individuals, births, deaths and generations are as configured: the evaluations are those of the initial population and of whole generations, and no further generation starts once the configured maximum of evaluations is reached. Individuals are unambiguous within a run, also for warm-started and repeated runs of the same object.",
["inputs","histories"],"all outcomes of the random draws (extreme and middle values) for small populations over several generations, several objective patterns (all negative, constant, ties, all positive), and all bounded sequences of optimise / reset / warm start",
"Losing the best individual requires specific draws and ties; a stochastic test hides it because other individuals are almost as good.",
[EAO,EAP,EAI,GPO],[("population bookkeeping","EAPopulation::addIndividual, removeTheWorstIndividual, updatePopulationMinAndMax"),("generation","EAOptimizer::generateNewPopulation, crossover, mutation"),("warm start","EAPopulation::writeToCSV/readFromCSV")],observe_at="objective callback arguments and reported optimum")

p("P20","A configuration is executed as written or rejected",
"Every well-formed configuration leads to a study with exactly the written parameters: dimension, budget, bounds, parameter types and increments, objective and constraint definitions with their executables, files and surrogate settings, constraints in file order, each setting taken from its own section. A configuration that lacks a required entry, gives one twice, contradicts itself or has a malformed number in a required or recognised entry that is used is rejected with an error when it is read or run, and never replaced silently by a default that changes the problem.",
["configurations","inputs"],"all configurations obtained from a base document by removing, duplicating, swapping, reordering or corrupting up to two entries, for up to 3 constraints and both problem types",
"The tests contain a handful of correct configuration files; error paths and cross-section mix-ups are never run.",
[DRV,XMLF,KEY,STRF],[("parsing","xml_functions, Keyword::getValueFromXMLString"),("binding","RodeoDriver::setObjectiveFunction, readConstraint*, setParameterBounds"),("validation","RodeoDriver::check*")],observe_at="the study executed (calls of external programs) and error exit")

p("P21","API call sequences are order independent or rejected; the DoE is complete",
"Any sequence of set-up calls of the programmatic interface either raises an error for an incomplete or contradictory set-up or runs the study the calls describe, each setting ending at its last written value and independent of call order (a call that depends on the number of parameters may be refused before that number is set). A requested design of experiments evaluates exactly the requested number of samples in the box once each, records each in every training file (replacing an old one; values to 12 decimal places), and the optimisation continues from exactly those samples.",
["histories","inputs"],"all permutations and all subsets and one-call repetitions of the set-up calls, with 0-2 constraints and DoE on/off",
"The one API test uses one call order; repeated, missing and reordered calls are never tried.",
[API,"src/API/cppAPI.cpp"],[("set-up","RobustDesignOptimizer::setDimension/setBoxConstraints/setObjectiveFunction/addConstraint"),("DoE","RobustDesignOptimizer::performDoE*"),("run","RobustDesignOptimizer::run")],observe_at="callbacks, training files, exceptions")

p("P22","Constraint expressions mean what they say",
"A constraint expression consisting of a name, one of the two inequality signs and a number, with arbitrary blanks, is understood as exactly that constraint; any other text is rejected with an error rather than being turned into a different constraint. Printing and re-parsing an accepted expression gives the same constraint to the printed precision.",
["inputs"],"all strings up to a bounded length over the alphabet of names, signs, digits, exponent, decimal point, blanks and garbage characters, and all token sequences up to length 6",
"The space of malformed expressions cannot be sampled meaningfully by hand-written examples.",
[CON,API],[("parser","ConstraintDefinition::setDefinition"),("API front end","RobustDesignOptimizer::addConstraint expression parsing")],observe_at="parsed definition or exception")

p("P23","Feasibility in the acquisition equals the probability of satisfying constraints",
"The expected improvement of a candidate equals the textbook value for the model's prediction, error estimate and the best feasible objective so far, is never negative and vanishes where the model is certain (error estimate times exploration factor at most 1e-13); in a constrained problem it is multiplied by the probability that each constraint's model satisfies its own inequality (a constraint model that is certain of a value exactly on the target aside). A larger exploration factor never decreases it when the predicted value is not better than the incumbent.",
["inputs","configurations"],"all combinations from a grid of training sets, query points, incumbents and exploration factors, and of constraint directions and targets for up to 2 constraints",
"The tests never look at acquisition values; sign and direction mix-ups only slow the optimisation down.",
[OBJ,OCF,OPT],[("expected improvement","ObjectiveFunction::calculateExpectedImprovement"),("constraint probability","Optimizer::calculateFeasibilityProbabilities, normalCdf")],observe_at="acquisition values for given designs")

p("P24","The surrogate test pipeline reports the model's own predictions and errors",
"For a given training and test file the surrogate test mode predicts exactly the given test points, in file order, with the model built from exactly the training file, for every supported model type, and the reported squared errors, error estimates and the mean squared (generalization) error are those of the predictions at those points to the printed precision; without given values no error is reported. A request for error estimates of a model that has none is refused. Repeating the test or changing the files between runs never mixes in data of an earlier run.",
["inputs","histories","configurations"],"all combinations of model type, small training and test sets with and without function values, and all bounded sequences of read / train / test / save calls",
"The existing tests never run the surrogate test mode.",
[SMT,SM,SMD],[("pipeline","SurrogateModelTester::performSurrogateModelTest"),("reporting","SurrogateModel::saveTestResults, calculateOutSampleError")],observe_at="surrogate test result file and error values")

p("P25","Linear regression is the regularised least-squares solution",
"The linear surrogate's weights are the minimiser of the least-squares criterion on the normalised data with its regularisation (all weights alike, 1e-8 by default), its predictions equal the corresponding affine function at every query point, and with zero regularisation and affine data it reproduces the data exactly. Retraining after a changed regularisation or data depends only on the current values.",
["inputs","histories"],"all small integer data sets in 1-2 dimensions over a value alphabet, a grid of regularisation parameters, and all bounded sequences of set / train / initialise / change-file / copy operations",
"The stable tests do not use the linear model.",
[LR,SM],[("training","LinearModel::train"),("prediction","LinearModel::interpolate, interpolateAll")],observe_at="weights and predictions")

p("P26","Saved hyper-parameters and populations restore the saved state",
"Saving a model's hyper-parameters or an optimiser's population to a file and loading it into a fresh object gives the same hyper-parameters, the same predictions, and the same individuals (hyper-parameters to the six significant digits written, populations exactly). A missing file, a file with a damaged, missing or additional value, a file cut anywhere but inside its last hyper-parameter or exactly between two individuals, and a file of another dimension are rejected or ignored with the previous state kept, and never loaded partially.",
["crash_points","inputs","histories"],"all hyper-parameter vectors over a small alphabet including extreme values, every truncation point of the saved file, wrong sizes, and all bounded sequences of save / damage / load",
"The warm-start path is not exercised by the existing tests.",
[KRI,EAP,VEC,MAT],[("hyper-parameter file","KrigingModel::setReadWarmStartFile/WriteWarmStartFile, train"),("population file","EAPopulation::writeToCSV/readFromCSV")],observe_at="restored hyper-parameters, predictions, population")

p("P27","The search window adapts to success and never leaves its limits",
"Around the incumbent the acquisition search draws candidates from a window of the current relative size centred at the incumbent and clipped to the box, which shrinks only after the configured number of consecutive unsuccessful iterations, grows only after consecutive successes, and never exceeds its maximum or falls below its minimum size. Success is counted exactly when the iteration improved on the best feasible design, so that an identical sequence of outcomes always gives the identical window sequence.",
["histories"],"all sequences of iteration outcomes (improved, not improved, infeasible) up to the depth at which growth and shrinkage both occur",
"The shrink step needs many consecutive failures and its interaction with successes is a state machine no test follows.",
[EGO,OPT],[("trust region","Optimizer::defineTrustRegion and its counters")],state=["success counter, failure counter, window length"],observe_at="candidates drawn by the acquisition search")

p("P28","A design record reproduces what was evaluated",
"A design's training sample, its printed form and its XML form carry, for every dimension and number of constraints, the design's own parameters, objective value, constraint values, gradients and tangents in the documented order (in text to the printed precision), and a NaN in the objective, gradient or constraint values is detected. Copies are independent of the original.",
["inputs"],"all designs up to dimension 3 and 2 constraints over a value alphabet with NaN and infinities in every position",
"Only a fraction of the record is populated in any test and no test reads it back.",
[DES,GOD,"src/Design/design_bo.cpp"],[("sample construction","Design::constructSample*"),("checks","Design::checkIfHasNan"),("XML","Design::toXML / GlobalOptimalDesign::generateXmlString")],observe_at="sample vectors and XML text")

p("P29","Refining a candidate never makes it worse",
"The gradient based refinement of the most promising candidate returns a design whose (constraint weighted) acquisition value is at least that of the design it started from, moves only if it gains, stays within the search window, and reports the estimates (predicted value, error estimate, constraint values and probabilities, acquisition value) of the very design it returns, whatever the number of iterations. Where the acquisition function is smooth and a step along its gradient gains, it gains.",
["inputs","configurations"],"all starting points on a grid and at the samples, for all combinations of data set, constraint kinds and directions, window, incumbent, exploration factor and iteration limit",
"A refinement that loses ground, or leaves the window, only slows down a run; no test looks at a single candidate.",
[OPT,DES],[("refinement","Optimizer::maximizeAcqusitionFunctionGradientBased"),("gradient","Optimizer::calculateGradientOfAcquisitionFunction"),("step","DesignForBayesianOptimization::gradientUpdateDesignVector")],observe_at="the design returned by the refinement")

p("P30","Studies and models in one process do not influence each other",
"Two studies held by one program, each with its own files, give the same evaluations, the same history, training and result files as each one alone, in whatever order the steps of setting up and running the two are interleaved; two surrogate models of different size and data give the same predictions as each alone, whatever the interleaving of their operations.",
["histories"],"all interleavings of the set-up steps and runs of two studies, for all pairs from a set of configurations; all interleavings of the operations of two surrogate models",
"Every test runs one study per process; state shared through statics or globals would go unnoticed.",
[OPT,SM,OBJ],[("study","Optimizer, ObjectiveFunction, ConstraintFunction"),("model","KrigingModel, LinearModel")],observe_at="evaluations, files and predictions")

p("P31","Models are trained on schedule with every sample known",
"In an optimisation run the surrogate models of the objective and of every constraint that has one are trained, each exactly once, at the beginning of iterations 1, 1+n, 1+2n, ..., where n>=1 is the configured number of iterations between trainings, before any candidate of that iteration is examined and with all samples of their training files, including those evaluated in the run; in no other iteration is a model trained. n=0 is refused.",
["histories"],"all intervals from a set, run lengths up to a bound, constraint mixes and outcome sequences",
"No test changes the interval; a run with untrained or stale models still finishes.",
[EGO,OPT,OCF,KRI],[("schedule","Optimizer::performEfficientGlobalOptimizationOnlyWithFunctionalValues"),("training","Optimizer::trainSurrogates, trainSurrogatesForConstraints"),("data","Optimizer::initializeSurrogates, ObjectiveFunction::addDesignToData")],observe_at="calls of the hyper-parameter optimiser and the data it is given")

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for r in P:
        assert len(r["title"])<=80,(r["id"],len(r["title"]))
        f.write(json.dumps(r)+"\n")
print(len(P))
