#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the definitions below (run by hand, output is committed)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A, C, R, S, T, F, U = ("ruleskit/activation.py", "ruleskit/condition.py", "ruleskit/rule.py", "ruleskit/ruleset.py",
                       "ruleskit/thresholds.py", "ruleskit/utils/rfunctions.py", "ruleskit/utils/rule_utils.py")

P = []


def p(id, title, statement, over, text, why, files, mech, observe, level_note, technique):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, level_note=level_note, technique=technique))


p("P01", "An activation gives back exactly its vector in every representation",
  "Whatever accepted form a non-empty 0/1 vector is given in (raw array of any numeric type, bit array, integer with "
  "length, compressed string or array, string of binary digits, path, unread lazy path) and whatever the storage "
  "switches, the activation gives back exactly that vector and its length as raw array, bit array, integer, compressed "
  "string and compressed array. This holds for any order and repetition of accesses, including when the global switches "
  "change in between, and for copies and for activations rebuilt from one of those representations.",
  ["inputs", "configurations", "histories"],
  "all non-empty 0/1 vectors x input forms x storage switches x sequences of accesses and copies",
  "The unit tests convert about a dozen short vectors, each from one form under one switch setting; the product of "
  "forms, switches, lengths (1, powers of two, thousands) and access orders is never walked.",
  [A], [("conversion and compression methods", f"{A}: _compress/_decompress/_integer_to_raw/_bitarray_to_raw"),
        ("choice of the storage format", f"{A}: __init__, _init_with_*")],
  ["Activation.raw", "Activation.as_bitarray", "Activation.as_integer", "Activation.as_compressed_str",
   "Activation.as_compressed_array", "len"],
  "Random and structured vectors up to thousands of points against a plain-Python reference encoder/decoder.",
  "property-based testing (round trip against a reference encoder)")

p("P02", "Activation statistics are exact and reading them changes nothing",
  "Number and list of activated points, coverage, entropy (number of changes plus two) and relative entropy always equal "
  "those of the vector, whenever and in whatever order they and the profiling figures are asked for, with or without "
  "forced profiling. Asking for them never changes the vector or the way it is stored, they remain available after the "
  "data are deleted if they had been computed, and clearing an activation makes it all zeros of the same length with "
  "matching statistics.",
  ["inputs", "histories", "configurations"],
  "all vectors x storage switches x interleavings of statistics, profiling accessors, conversions, clear and delete",
  "Tests read each statistic once, just after construction, on a few vectors; statistics are cached lazily at many "
  "sites, so staleness only shows in particular orders.",
  [A], [("cached statistics", f"{A}: nones, coverage, entropy, rel_entropy"),
        ("profiling accessors swapping the data", f"{A}: sizeof_*, time_*"), ("clear/delete", f"{A}: clear, delete")],
  ["Activation.nones", "Activation.ones", "Activation.coverage", "Activation.entropy", "Activation.rel_entropy"],
  "Random access sequences against statistics recomputed in plain Python.",
  "property-based testing (access-sequence generation against a recomputed oracle)")

p("P03", "Logical operators act point by point across any storage formats",
  "AND, OR, XOR, difference and + (OR) of two activations, and the many-vector AND/OR (and two-vector XOR) in both their "
  "activation and array forms, equal the point-by-point logical operation whatever the formats of the operands, also "
  "when chained and when memory is short, and leave the operands unchanged. Vectors of different lengths are refused "
  "with ValueError by the two-operand operators and by correlation. Containment holds exactly when every point of the "
  "contained vector is a point of the container, and correlation is the fraction of equal points.",
  ["inputs", "programs", "configurations", "fault_sequences"],
  "all tuples of equal-length vectors x formats x switches x operator programs x memory conditions",
  "Tests apply each operator once to one or two pairs stored the same way; pairs of distinct formats, integer storage, "
  "results used as operands and the low-memory path are not reached.",
  [A], [("operators", f"{A}: __and__, __or__, __xor__, __sub__, __add__, multi_logical_*"),
        ("containment, correlation", f"{A}: __contains__, get_correlation")],
  ["result.raw", "result.nones", "operands"],
  "Random operator programs against a bit-string model; memory shortage is injected by stand-ins for psutil and numpy.",
  "property-based testing (model-based operator programs, fault injection)")

p("P04", "File-backed activations never interfere with each other or other files",
  "Over any history of creating, copying, combining, reading, clearing and deleting activations, of cleaning up and of "
  "changing the storage directory, every live activation keeps its own vector in a file of its own, even when file names "
  "collide. Deleting one removes its own data only, cleaning up removes exactly the activation files of the current "
  "directory, and no other file (including one a vector was eagerly read from) is ever modified or removed. Comparing "
  "vectors that were read, or asking for their figures, leaves no file behind.",
  ["histories", "inputs"],
  "all histories of file-backed activations, including colliding file names",
  "Tests create one activation at a time in an almost empty directory, so names never collide and no other activation "
  "is watched.",
  [A], [("file writing and naming", f"{A}: _write"), ("deletion", f"{A}: delete, clean_files"),
        ("copy", f"{A}: __copy__")],
  ["Activation.raw of every live activation", "content of the directory"],
  "Random histories checked after each step against a dictionary model, in a scratch directory.",
  "stateful property-based testing (model of the directory and of the live vectors)")

p("P05", "A condition is met exactly on the rows inside its closed box",
  "Evaluating a condition gives, for each row and in row order, 1 exactly when every one of its features is finite and "
  "lies within its closed [min, max] interval, and 0 otherwise (so always 0 for an impossible condition), whatever the "
  "other columns hold. An array (features by position) and a table with the same columns in any order and with any row "
  "index (features by name) give the same vector. A feature that is absent from the data raises IndexError unless the "
  "condition is impossible, and evaluation changes neither the condition nor the data.",
  ["inputs"], "all conditions x all numeric tables with NaN, infinities and boundary values",
  "Tests evaluate a handful of conditions on 3-row tables.",
  [C, R], [("evaluation", f"{C}: HyperrectangleCondition.evaluate"), ("rule evaluation", f"{R}: evaluate_activation")],
  ["HyperrectangleCondition.evaluate", "Rule.evaluate_activation"],
  "Random boxes and tables over a shared grid of values (so that boundaries are hit) against a row-by-row oracle.",
  "property-based testing (pointwise reference oracle, array/table differential)")

p("P06", "AND of two conditions is met exactly where both are",
  "The AND of two conditions is met on a row exactly when both are, is impossible exactly when some common feature is "
  "left with an empty interval or a parent is impossible, talks about exactly the union of their features, and does not "
  "modify its operands. It is commutative, associative and idempotent up to condition equality. Two conditions giving "
  "the same feature different positions, or the same position to different features, are refused with IndexError.",
  ["inputs"], "all pairs and triples of conditions x all tables",
  "Tests combine about ten fixed pairs and compare their textual bounds.",
  [C], [("intersection", f"{C}: HyperrectangleCondition.__and__")], ["evaluate of the result", "equality", "operands"],
  "Random pairs/triples sharing features, algebraic laws and pointwise evaluation as oracle.",
  "property-based testing (algebraic laws and pointwise oracle)")

p("P07", "Conditions and rules are equal exactly when they state the same bounds",
  "Two conditions are equal exactly when they bear on the same feature names with equal lower and upper bounds, whatever "
  "the order the features were given in and their positions; two rules are equal exactly when their conditions are, and "
  "two rulesets exactly when they hold equal sets of rules. Equal conditions, rules and rulesets have equal hashes, and "
  "equality with an object of another kind is false.",
  ["inputs"], "all pairs of conditions, rules, rulesets",
  "Tests compare a few pairs; equality built on hashes is right on those and wrong on colliding values such as -1 and "
  "-2.",
  [C, R, S], [("equality, hash", f"{C}: __eq__, __hash__, to_hash; {R}: __eq__, __hash__; {S}: __eq__, __hash__")],
  ["==", "hash", "set membership"],
  "Random pairs differing in at most one bound, name or order against set equality of (name, min, max).",
  "property-based testing (reference equality on canonical forms)")

p("P08", "Bounds stay attached to their features through sorting and updates",
  "After construction and any sequence of sorting (by position or by name) and of setting bounds, names or positions "
  "(as lists or as text, on the condition or through a rule holding it), each feature keeps the bounds, name and "
  "position it was last given, in the documented order, and the condition is flagged impossible exactly when some lower "
  "bound exceeds its upper bound. Duplicated features and lists of the wrong length are refused, leaving the "
  "condition unchanged, and values of the wrong type are refused at construction.",
  ["inputs", "histories"], "all conditions x sequences of sorts and setters",
  "Tests sort two or three conditions and call each setter once with valid values.",
  [C, R], [("sorting", f"{C}: sort"), ("setters", f"{C}: bmins, bmaxs, features_names, features_indexes"),
           ("forwarding", f"{R}: __setattr__, __getattr__")],
  ["bmins", "bmaxs", "features_names", "features_indexes", "impossible", "items"],
  "Random operation sequences against a dictionary model, including refused values.",
  "stateful property-based testing (dictionary model)")

p("P09", "Fitting a regression rule computes the statistics of its activated points",
  "After a fit on features and targets a regression rule's prediction is the mean and its deviation the unbiased "
  "standard deviation (0 for a single point) of the targets at the rows where its condition is met; sign, coverage, "
  "training size and z-score (distance of the prediction to the overall mean over the overall deviation scaled by the "
  "square root of horizon over number of activated points) follow. With no activated point they are NaN, missing "
  "targets are left out of the mean, and array and table inputs agree.",
  ["inputs"], "all conditions x features x targets (with NaN, constant, tiny and large values)",
  "Tests fit a few rules on 3 to 5 rows.",
  [R, F], [("fit", f"{R}: Rule.fit, RegressionRule.calc_*"), ("formulas", f"{F}: conditional_mean, conditional_std, "
                                                             "calc_zscore_external")],
  ["prediction", "std", "sign", "zscore", "coverage", "train_set_size"],
  "Random data against formulas evaluated in exact rational arithmetic or compensated sums.",
  "property-based testing (independent formula oracle)")

p("P10", "A classification rule predicts the most frequent class of its points",
  "After a fit on features and targets a classification rule predicts the most frequent class among the targets at the "
  "rows where its condition is met, the smallest such class in case of a tie, and NaN when there is no such row; its "
  "class probabilities are the class frequencies. Its criterion on an evaluation set is the fraction of the rows it "
  "activates there whose class is the predicted one.",
  ["inputs"], "all conditions x features x targets of integer or text classes, including 0, '' and long names",
  "Tests use two or three classes named with one letter or small integers on a few rows.",
  [R, F], [("class frequencies", f"{F}: class_probabilities"), ("prediction", f"{R}: ClassificationRule.prediction"),
           ("criterion", f"{F}: calc_classification_criterion, success_rate")],
  ["prediction", "criterion"], "Random data against counting in plain Python.",
  "property-based testing (counting oracle)")

p("P11", "A rule predicts its value exactly where its condition is met",
  "Predicting with a fitted rule gives its prediction at the rows where its condition is met and NaN (the text 'nan' for "
  "text classes) elsewhere, on the training rows when no features are given and on the given rows otherwise, as a "
  "series carrying the table's index when given a table; the prediction vector a rule computes over its stored "
  "activation says the same. Predicting, and evaluating on other data, never change the "
  "rule's prediction or its stored activation, while evaluating with recomputation replaces the stored activation by "
  "that of the given rows and still keeps the prediction.",
  ["inputs", "histories"], "all fitted rules x sequences of predict / eval on other data",
  "Tests call predict once per rule on the training rows.",
  [R], [("prediction vector", f"{R}: Rule.predict"), ("evaluation", f"{R}: Rule.eval")],
  ["Rule.predict", "Rule.calc_prediction_vector", "Rule.prediction", "Rule.activation", "Rule.criterion"],
  "Random histories of predict/eval against a model holding training activation and prediction.",
  "stateful property-based testing (model of the fitted rule)")

p("P12", "Criteria follow their formulas, one vector or many at a time",
  "Over the points where a prediction exists, mse and mae are the mean squared and absolute errors; the normalised ones "
  "divide them by the mean squared and absolute distance of the targets to their mean, and aae divides the absolute "
  "error by the mean absolute distance to the median. Success rate is the fraction of the predicted points that are "
  "right. Computing them for a table of vectors gives column by column what each vector gives alone, and lengths that "
  "differ or unknown criterion names are refused with ValueError.",
  ["inputs"], "all prediction vectors/tables with missing values x targets",
  "Tests check two or three hand-computed values per criterion; mae_norm is not tested at all.",
  [F], [("criteria", f"{F}: mse_function, mse_norm, mae_function, mae_norm, aae_function, success_rate, "
                     "calc_regression_criterion, calc_classification_criterion"),
        ("statistics on tables", f"{F}: class_probabilities, conditional_mean, conditional_std")],
  ["returned values"], "Random vectors against plain-Python formulas; table/vector differential.",
  "property-based testing (formula oracle and table/vector differential)")

p("P13", "Combining and comparing fitted rules follows their activations",
  "The AND of two fitted rules has the AND of their conditions and the AND of their activations, which is also the "
  "activation obtained by fitting the combined condition on the same rows, and leaves both rules unchanged; releasing "
  "or recomputing the activation of one of the three leaves the other two as they were. A rule is "
  "contained in another exactly when every row it activates is activated by the other (a rule never fitted contains "
  "nothing and is contained in nothing), and the correlation of two rules "
  "is the fraction of rows where their activations agree, times the product of the signs of their predictions.",
  ["inputs"], "all pairs of rules fitted on the same data", "Tests check two fixed pairs.",
  [R, A, C], [("rule AND, containment, correlation", f"{R}: __and__, __contains__, get_correlation")],
  ["(r1 & r2).activation", "r2 in r1", "r1.get_correlation(r2)"],
  "Random pairs of rules and data against pointwise oracles.",
  "property-based testing (pointwise oracle)")

p("P14", "A ruleset's activation is always the OR of its rules' activations",
  "After any history of building, appending, adding rules or rulesets, replacing the rule list, fitting, evaluating, "
  "sorting, slicing and dropping bad rules, a ruleset whose rules all have activations has as activation the OR of them "
  "and as coverage its fraction of ones, and if it keeps stacked activations they have exactly one column per rule, in "
  "rule order, equal to that rule's activation. Operations on one ruleset never change the rules' activations of "
  "another, nor its own vectors.",
  ["histories", "configurations"], "all histories of rulesets of distinct rules, stacked or not, both fit modes",
  "Tests run one operation from a fresh ruleset; incremental updates after other updates, and aliasing between "
  "rulesets, are not reached.",
  [S, A], [("incremental updates", f"{S}: __iadd__, append, _update_activation, _update_stacked_activation"),
           ("recomputation", f"{S}: fit, eval, calc_activation, sort, rules setter")],
  ["RuleSet.activation", "RuleSet.ruleset_coverage", "RuleSet.stacked_activations"],
  "Random histories checked after each step against per-rule activations computed by the oracle.",
  "stateful property-based testing (invariant over histories)")

p("P15", "Stacked and rule-by-rule computations agree",
  "Fitting or evaluating a ruleset of distinct rules all at once gives every rule the same prediction, deviation, sign, "
  "z-score, coverage, sizes and criterion as fitting and evaluating the rules one by one, and gives the ruleset the same "
  "activation, sizes and (unweighted) predictions and criterion. The agreement does not depend on the input being "
  "arrays or tables nor on the row index.",
  ["inputs", "configurations"], "all rulesets x data x both fit modes",
  "Tests give both modes hand-written expectations on a few examples and never compare them with each other.",
  [S, F, R], [("stacked mode", f"{S}: fit, eval, calc_predictions, calc_stds, calc_signs, calc_zscores, "
                               "calc_criterions"), ("rule mode", f"{R}: fit, eval")],
  ["attributes of the rules and of the ruleset"], "Differential testing of the two modes on random rulesets and data.",
  "property-based testing (differential between the two fit modes)")

p("P16", "A regression ruleset predicts the weighted mean of its active rules",
  "At each row a regression ruleset predicts the mean of the predictions of the rules active there, weighted by the "
  "given weights where these do not cancel out (rules with a null, missing or NaN weight, or a NaN prediction, do not take part), and NaN "
  "exactly where no participating rule is active (when there is none anywhere, a weighted prediction may be refused "
  "with ValueError); this holds for training rows and for new features, stacked or not, "
  "and for any number of rules; there is one value per row, numbered from 0. Predicting changes no activation, prediction or weight, so that repeating it gives the "
  "same result.",
  ["inputs", "configurations", "histories"], "all regression rulesets (up to hundreds of rules) x weights x features",
  "Tests check three rules with positive non-cancelling predictions; sums that cancel, many rules, integer weights and "
  "repeated calls are not reached.",
  [S, F], [("prediction", f"{S}: predict; {F}: calc_ruleset_prediction_*_regressor_*")], ["RuleSet.predict"],
  "Random rulesets against a per-row weighted mean in plain Python.",
  "property-based testing (per-row reference oracle)")

p("P17", "A classification ruleset predicts the class winning the vote of active rules",
  "At each row a classification ruleset predicts the class predicted by the largest number of the rules active there "
  "and NaN when no rule is active or several classes come first equal, for number and text classes, training rows and "
  "new features, stacked or not. With positive weights, the rule-by-rule mode predicts the class with the largest total "
  "weight of active rules (NaN in case of a tie), and rules with a null, missing or NaN weight do not take part; the "
  "stacked mode predicts it too wherever the active rules of greatest weight alone would elect the same class. There is "
  "one value per row, numbered from 0. When "
  "no participating rule is active anywhere the prediction may be refused with ValueError.",
  ["inputs", "configurations"], "all classification rulesets x weights x features",
  "Tests check one example with three rules per mode.",
  [S, F], [("vote", f"{S}: predict; {F}: calc_ruleset_prediction_*_classificator_*")], ["RuleSet.predict"],
  "Random rulesets against a per-row vote in plain Python.",
  "property-based testing (per-row reference oracle)")

p("P18", "Saving then loading a ruleset gives back the same ruleset",
  "A ruleset that is saved then loaded has the same rules in the same order and of the same kind (features, positions, "
  "bounds including infinite ones, names), with the same predictions, deviations, coverages, criteria and z-scores, and "
  "the same ruleset coverage, criterion and train and test sizes, for any feature names and any text classes that are "
  "ordinary words. The loaded ruleset predicts the same values on any features and can itself be saved and loaded again "
  "with the same result; saving does not change the ruleset. Loading into a ruleset that was already used leaves nothing of "
  "what it was before, whatever the file holds (no rule, no ruleset figures, rules of another kind).",
  ["inputs", "histories"], "all fitted (and possibly evaluated) rulesets x feature names x class names x rulesets loaded over",
  "Tests save and load one ruleset per kind with plain names and small integer bounds.",
  [S], [("serialisation", f"{S}: to_df, rule_to_series, save"), ("parsing", f"{S}: load, series_to_rule")],
  ["rules and attributes of the loaded ruleset", "predict"],
  "Random rulesets with awkward names and bounds; round trip compared attribute by attribute.",
  "property-based testing (round trip)")

p("P19", "A ruleset is a faithful ordered collection of its rules",
  "Building, appending, adding, slicing, indexing, iterating and sorting keep exactly the rules put in, in the documented "
  "order (adding two rulesets gives the union of their rules, one for each condition; sorting is a permutation ordered by "
  "the asked attribute, rules that are equal in it keeping their order, or by number of features then features then bounds). Membership is true exactly for rules with "
  "the same condition and prediction, the features listed and counted are exactly those of the rules, rules of another "
  "kind are refused with TypeError leaving the ruleset unchanged, and duplicates are refused when checking is on.",
  ["inputs", "histories"], "all histories of collection operations", "Tests sort two rulesets and add two.",
  [S], [("collection", f"{S}: __init__, __iadd__, __add__, __getitem__, append, sort, __contains__, "
                       "get_features_count, check_duplicated_rules")],
  ["list(ruleset)", "len", "in", "features_names", "get_features_count"],
  "Random histories against a Python list model.",
  "stateful property-based testing (list model)")

p("P20", "Thresholds flag exactly the bad rules, and only those are dropped",
  "After a fit, and after each further evaluation, under thresholds a rule is flagged bad exactly when one of its attributes that exists, "
  "after the requested transformation, is under its minimum, over its maximum, not equal to the required value or equal "
  "to the forbidden one (limits may name other attributes; coverage has a default minimum of 5%). A ruleset drops "
  "exactly its bad rules, returns each of them once, keeps the others in order, and updates its activation and features "
  "accordingly, identically in both fit modes; thresholds set on one rule apply to it alone, and with no thresholds no "
  "rule is flagged. A rule that its coverage, or an earlier call, disqualified is not fitted or evaluated by itself (its figures "
  "are NaN) unless the call is forced.",
  ["inputs", "configurations"], "all threshold files x rulesets x data x both fit modes",
  "Tests use one threshold file on a fixed example.",
  [T, R, S], [("limits", f"{T}: Thresholds.__call__"), ("flagging", f"{R}: check_thresholds"),
              ("dropping", f"{S}: fit, eval")],
  ["good", "bad_because", "rules returned and kept"],
  "Random threshold files and rulesets against an oracle evaluating the limits on independently computed statistics.",
  "property-based testing (reference oracle for limits)")

p("P21", "Rules extracted from a decision tree describe the tree",
  "The leaf rules extracted from a fitted decision tree of at least one split cover every sample within the given "
  "feature ranges (and not on a threshold) exactly once, by the rule of the leaf the tree sends it to, with the value or "
  "most probable class of that leaf as prediction. Extracting all nodes gives one rule per node but the root, active "
  "exactly on the samples that go through the node and predicting its value. Feature and class names are used when "
  "given, so tables are matched by column name. A classification ruleset of the leaf rules predicts what the tree does. "
  "Extracted rules can be saved and loaded, copied and fitted again like any others: fitted on the data of the tree they "
  "cover the samples of their node and predict its value.",
  ["inputs"], "all fitted trees (depth up to 6, repeated features, up to 12 features and 13 classes) x samples",
  "The only tests of this function cannot run with the installed scikit-learn.",
  [U], [("tree walk", f"{U}: extract_rules_from_tree")], ["rules", "their evaluation", "their predictions"],
  "Random datasets and trees against sklearn's own decision paths.",
  "property-based testing (differential against sklearn)")

p("P22", "Library calls never modify the data they are given",
  "Evaluating, fitting, predicting, scoring, saving, and extracting rules from features, targets, weights, predictions or "
  "bounds never modify the arrays, series, tables or lists passed in, their index or their types. Repeating a fit, an "
  "evaluation or a prediction with the same data gives the same result, whatever other rules or rulesets were used in "
  "between.",
  ["inputs", "histories", "configurations"], "all calls of the public functions x data x storage switches",
  "Tests pass literals and never look at them again.",
  [S, R, F, C, A], [("all entry points", f"{S}, {R}, {F}, {C}, {A}")], ["arguments after the call", "repeated results"],
  "Deep snapshots of the arguments before and after random calls; repeated calls compared.",
  "property-based testing (argument snapshots, repetition)")

p("P23", "Evaluation keeps the training state unless told otherwise",
  "Evaluating a fitted ruleset on test data leaves the rules' predictions and, unless new activations are to be kept, the "
  "activations of the rules and of the ruleset as fitted, while with new activations kept they become exactly those of "
  "the test rows. In both cases the criterion of each rule and of the ruleset are those of their predictions on the "
  "test rows, and the test size is recorded without touching the train size; refitting on other data overwrites "
  "everything as if the ruleset were fresh.",
  ["histories", "inputs", "configurations"], "all sequences of fit and eval on several data sets, both fit modes",
  "Tests fit once and evaluate once, on a fixed example.",
  [S, R], [("life cycle", f"{S}: fit, eval, calc_criterion, calc_activation")],
  ["activation, prediction, criterion, sizes after each step"],
  "Random sequences of fit/eval on several data sets against a model.",
  "stateful property-based testing (life-cycle model)")

p("P24", "Deep copies and pickles are faithful, and deep copies independent",
  "A deep copy of an activation, condition, rule or ruleset shows the same vector, figures, text, predictions and "
  "criteria as the original, whatever the storage switches, and nothing done afterwards to one of the two (deleting, "
  "clearing, releasing, changing bounds, refitting, evaluating, appending, dropping) is seen in the other. An object "
  "pickled and restored while its files are there is equally faithful.",
  ["inputs", "histories", "configurations"],
  "all activations, rules and rulesets x storage switches x operations on either side after the copy",
  "No test copies a fitted rule or ruleset deeply, let alone uses the original afterwards.",
  [A, R, S, C], [("ownership of the stored file", f"{A}: __deepcopy__, delete"),
                 ("attribute forwarding during copy and restore", f"{R}: __getattr__; {S}: __getattr__")],
  ["copy.deepcopy", "pickle.loads(pickle.dumps(...))", "vectors and figures of both sides"],
  "Snapshots of everything visible on both sides around random operations on one of them.",
  "stateful property-based testing (two-sided snapshots)")

p("P25", "Workers sharing a storage directory never disturb one another",
  "Workers (threads or forked processes) that create, combine, read, clear, copy and delete file-backed activations in "
  "the same directory, also when they draw the same file names, each always see exactly their own vectors: the result of "
  "every worker is the one it would get alone, under any interleaving.",
  ["schedules", "histories", "configurations"],
  "all interleavings, line by line, of small programs of 2 or 3 workers with equal or different random states; forked processes",
  "Tests run in one process and one thread; a collision of names needs a switch between two particular lines.",
  [A], [("choice and creation of the file", f"{A}: _write"), ("reading and removal", f"{A}: _read, delete")],
  ["vectors seen by each worker", "files left"],
  "A deterministic line-by-line scheduler drives real threads through generated schedules; real forked processes as well.",
  "property-based testing (generated schedules, controlled interleaving, per-worker oracle)")

p("P26", "Releasing activations frees their data and nothing else",
  "After the activations of a rule or ruleset are released (del_activation, del_activations, del_stacked_activations) "
  "they read as absent and their files are gone, while coverage, predictions, criteria and every other figure remain, "
  "predicting on new data gives the same result as before, and other rules and rulesets are untouched. Predicting without "
  "data is refused with ValueError, and a new fit brings everything back as if nothing had been released.",
  ["histories", "inputs", "configurations"], "all histories of fit, release, predict and refit over rulesets and storage modes",
  "Tests release one activation in one mode and look at one attribute.",
  [R, S, A], [("release", f"{R}: del_activation; {S}: del_activations, del_activation, del_stacked_activations"),
              ("availability", f"{S}: activation_available; {R}: activation_available")],
  ["activation", "coverage and other figures", "predict", "files in the storage directory"],
  "Random histories against a model of which data are held.",
  "stateful property-based testing (model of the data held)")

p("P27", "Rules that differ, however little, are never taken for one another",
  "Two rules of a ruleset whose bounds differ, even by one unit in the last place, keep separate predictions, columns of "
  "stacked activations, weights and flags, and are told apart by equality and by membership. The text of a condition "
  "states each of its features with its exact bounds, so that the condition can be read back from it.",
  ["inputs", "configurations"], "all rulesets of near-identical rules x rows at the bounds x both fit modes",
  "Tests use rules with one-decimal bounds that differ a lot.",
  [C, R, S], [("text of a condition", f"{C}: __str__"), ("text used as key", f"{S}: stacked activations, weights, fit, eval"),
              ("equality and hash", f"{C}: __eq__, __hash__")],
  ["str(condition)", "stacked_activations", "predict", "==, in, hash"],
  "Near-identical rules and rows placed on their bounds against independent per-rule evaluation.",
  "property-based testing (reference evaluation, text parsed back)")

p("P28", "A global map of feature positions governs the rulesets built under it",
  "When RuleSet.all_features_indexes maps feature names to positions, every ruleset built afterwards, however the positions "
  "were first given, reads each feature at its mapped position in arrays and by its name in tables, through building, "
  "slicing, adding, appending and combining of rules, fitting and predicting; without a map positions are kept as given.",
  ["inputs", "histories", "configurations"], "all maps x rulesets x arrays wider than the rules x operations",
  "Tests set the map once, on a fixed example.",
  [S, R, C], [("normalisation", f"{S}: __init__, set_features_indexes; {C}: normalize_features_indexes")],
  ["features_indexes", "activation", "predict"],
  "Random maps and wide arrays (other columns filled with NaN or constants) against evaluation by name.",
  "property-based testing (reference evaluation by name)")

p("P29", "Attributes a user adds to a rule class are handled like built-in ones",
  "Attributes added to a subclass of a rule through its lists of fitted, evaluated or index attributes are computed with "
  "their own calc_ method once all that precede them are known, on exactly the rows, targets and keyword arguments that the "
  "method takes, in fit and eval, alone and in both modes of a ruleset; thresholds on them drop exactly the offending rules, "
  "and tables show them under their name.",
  ["inputs", "configurations", "histories"], "all subclasses of a family x data x thresholds x fit modes",
  "One test subclass, fitted once.",
  [R, S], [("attribute lists and kwargs routing", f"{R}: fit, eval; {S}: fit, eval"),
           ("tables", f"{S}: rule_to_series, to_df")],
  ["added attributes of every rule", "rules dropped", "to_df"],
  "A family of generated subclasses against direct computation of their attributes.",
  "property-based testing (reference computation)")

p("P30", "A rule or ruleset shows the figures of its own condition and activation",
  "Every figure that a rule or ruleset offers of its activation or condition (number and list of activated points, length, "
  "entropies, coverage, integer, compressed, bit and raw forms, names, positions and bounds of features) is at any time that of "
  "the vector of its latest fit or computation and of its present condition; the text of a regression rule shows its "
  "condition and its prediction; names that neither has are refused with AttributeError.",
  ["inputs", "histories", "configurations"], "all rules and rulesets x histories of fit, computing, appending and dropping x figures",
  "Tests read one or two of these figures after one fit.",
  [R, S, A], [("forwarding", f"{R}: __getattr__, properties; {S}: __getattr__, properties")],
  ["figures of rules and rulesets"],
  "Random histories against figures recomputed in plain Python.",
  "stateful property-based testing (recomputed figures)")


p("P31", "A refused or failed operation changes nothing and can be tried again",
  "An operation that is refused (rules of another type, things that are no rules, vectors of other lengths, unknown names, "
  "tables with too few features, unreadable files, invalid thresholds or bounds) leaves rules, ruleset, modes and settings as "
  "they were: whatever is done next gives what it would have given without the attempt; fitting, evaluating or computing "
  "activations on a table without rows changes nothing either. The same holds of an operation that "
  "fails because a file could not be written or read, once it is tried again. (Figures of a fit, evaluation or computation "
  "that failed half way count only after the next one that succeeds.)",
  ["histories", "fault_sequences", "configurations"], "all histories of valid and refused operations x all points where an access to a file fails",
  "Tests check that an error is raised, never what is left behind; no test makes a file access fail.",
  [S, R, C, A], [("refusals", f"{S}: append, __iadd__, rules setter, load, sort_by, fit, eval; {C}: bounds setters; {R}: SET_THRESHOLDS"),
           ("restoration", f"{S}: append, fit, eval, load")],
  ["rules, activation, figures and predictions of the ruleset after the attempt"],
  "The same history is run with and without the refused operations, and with a file access made to fail, and compared.",
  "stateful property-based testing (differential history with refused operations; fault injection)")


p("P32", "Figures computed step by step or by function are those of fit and eval",
  "The figures of a rule (prediction or class probabilities, deviation, sign, z-score, criterion, sizes) are the same textbook "
  "values whether computed by the methods calc_... of a rule one after the other, for all rules at once by those of a ruleset, "
  "or by the functions of utils.rfunctions on one vector, on a table of vectors or on values already extracted; whatever the "
  "type of the vectors, the index of the targets (rows match by position), and for classes also from a one-column table. The "
  "methods of the ruleset that return one figure per rule set nothing, and activations that are given replace the stored ones "
  "for that call only.",
  ["inputs", "configurations"], "all activation vectors x targets in all forms x methods and functions",
  "Tests call these functions on two or three fixed arrays, never on a series with an index of its own.",
  [F, R, S], [("functions", f"{F}: class_probabilities, conditional_mean, conditional_std, success_rate, calc_classification_criterion, calc_zscore_external"),
              ("methods", f"{R}, {S}: calc_...")],
  ["returned figures", "attributes of the rules"],
  "Random vectors and targets against formulas in plain Python.",
  "property-based testing (reference formulas; differential between the ways to compute)")

p("P33", "Rules and rulesets serve any kind of condition",
  "With conditions that a user derives from Condition (evaluating rows in any way, with or without names of features), rules "
  "and rulesets do what they do with hyperrectangles: activations are what the condition evaluates to, and figures, conjunctions, "
  "predictions, weights, evaluation, stacking, membership, equality, slices, sums, sorting by a figure, listing and counting of "
  "features, copies and release follow from them; kinds of conditions can be mixed in a ruleset.",
  ["inputs", "configurations", "histories"], "all conditions (any function of a row) x tables x ways to build and use a ruleset",
  "All tests use hyperrectangles.",
  [R, S, C], [("conditions", f"{C}: Condition"), ("rules", f"{R}: Rule; {S}: RuleSet")],
  ["activations, figures and predictions of rules and rulesets", "features_indexes", "features_names"],
  "Conditions that are not hyperrectangles, written in the check, with data by position or by name, against plain Python.",
  "property-based testing (reference model with user-defined conditions)")


def main():
    have = [x for x in P if os.path.isfile(os.path.join(ROOT, "vf", "props", x["id"].lower() + ".py"))]
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
            f.write(json.dumps({
                "id": x["id"], "title": x["title"], "statement": x["statement"],
                "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
                "anchors": {"files": x["files"], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]],
                            "observe_at": x["observe"], "hook_needed": None},
            }) + "\n")
    m = {
        "version": 1, "setup_cmd": "bash setup.sh",
        "checks": [{
            "property": x["id"], "quick_cmd": f"python3 run.py {x['id']} --tier quick",
            "thorough_cmd": f"python3 run.py {x['id']} --tier thorough", "technique": x["technique"],
            "level": "exploration", "level_note": x["level_note"],
        } for x in have],
        "not_applicable": [{"property": x["id"], "reason": "check not built yet"} for x in P if x not in have],
        "notes": "Every check runs the code of /repo's working tree directly (pure Python, nothing to build) and needs "
                 "no hook.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(have), "checks")


main()
