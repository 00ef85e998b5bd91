#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                          mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe, hook_needed=hook))
    P.append(d)

V = "dataframe/view.go"; RD = "dataframe/raw_data.go"; DF = "dataframe/dataframe.go"; INP = "dataframe/inplace.go"
IDX = ("indices", "position in the view -> position in the backing columns", DF)
SH = ("shared / sharedMaps", "columns (or the whole column maps) borrowed from another dataframe", RD)

prop("C01", "Row views contain exactly the requested rows",
 "Index, slice, mask, reverse, plain, shuffled, sampled and index-reset views, composed in any order and to any depth on a dataframe of any size, contain exactly the rows that the same selection yields on a plain list of rows, in the documented order and with all the cells of a row kept together. Slice bounds mean [from, to) with -1 denoting the end of the dataframe, and from > to yields the rows between the two bounds in reverse order; a shuffle is a permutation of the rows, a sample of n holds n distinct rows, and an index reset keeps the same rows in storage order. Taking a view never changes the dataframe it was taken from.",
 ["inputs", "histories", "programs"], "every composition of row-selecting calls, every argument, every row/column count, every outcome of the random source",
 "The tests chain at most two selections on a 10-row frame with one checked column; the contiguous and index-based representations, from>to slices, repeated indices under a further view and size thresholds are barely touched.",
 [V, INP, DF], [("IndexView/SliceView/MaskView/ReverseView/ShuffleView/SampleView/ResetIndexView", V), ("cut: contiguous re-slicing vs index view", INP)],
 ["column accessors of every frame after every step", "NumRows"], [IDX])

prop("C02", "Splits partition the dataframe",
 "For any dataframe (including an empty one or an already derived view), concatenating in order the parts returned by a batch split, an n-way split or a train/test split gives back exactly the original rows in the original order. A batch split returns parts of exactly the batch size except a possibly smaller last one, an n-way split returns exactly n parts each having the columns of the original, and the test part of a train/test split is the last floor(rows*ratio) rows. The parts can afterwards be used and restructured independently of each other.",
 ["inputs"], "every row count, column count, batch size, number of parts and ratio",
 "Tests use 2-6 rows with 1 or 3 parts; empty frames, more parts than rows with their columns, and the contiguous fast path are not covered.",
 [V, INP], [("SplitView/SplitNView/SplitTrainTestViews", V), ("cut", INP)], ["the returned slice of dataframes"], [IDX])

prop("C03", "Sorted and top views order by the column's values",
 "A sorted view is a permutation of the dataframe's rows in which the non-missing values of the sort column ascend, exactly and for every float, int (at full 64-bit precision) or bool column, with false before true. A top view of n holds min(n, rows) distinct rows carrying the n lowest (or highest) values of a column without missing values, in the requested order when sorting is requested. Neither changes the data, row order or columns of its input, and the returned view can be restructured without affecting the input.",
 ["inputs"], "every column content (ties, NaN, infinities, large ints), every n, both directions, on plain and derived dataframes",
 "Tests sort four distinct small values; ties, missing values, ints above 2^53 (hashed strings are such ints), n at the boundaries and derived views are not covered.",
 [V, "utils/utils.go"], [("SortedView/TopView", V), ("FloatArgSort", "utils/utils.go")], ["column accessors of the view and of its parent"], [IDX])

prop("C04", "A write reaches exactly the dataframes sharing that cell",
 "A value written through any dataframe (cell setter or whole-column overwrite of an existing column) is immediately readable at the corresponding row of every dataframe that shares the column through views, shallow copies, column views or column concatenation, whatever chain of derivations connects them. No other cell of any dataframe changes. This holds for every column type.",
 ["histories"], "every history of derivations interleaved with writes through any of the live dataframes",
 "Tests write once through one view and look at one other frame; the product of derivation chains and writers is unexplored.",
 [V, RD, INP, "dataframe/column_access.go", DF], [("pointer sharing of column slices", RD), ("Set / Overwrite*", INP)], ["every cell of every live dataframe after every operation"], [IDX, SH])

prop("C05", "Copied and detached columns are isolated both ways",
 "A deep copy, or the columns named in a detached view, hold the values visible at that moment, and no later write on either side ever becomes visible on the other side, for every history of views, shallow copies, column views and earlier detachments leading to them. Columns of a detached view that were not named remain shared with the parent. Detaching columns in place on a derived dataframe protects its parents in the same way.",
 ["histories"], "every history of derivations, detachments and writes, including detaching a dataframe after one of its own views was detached",
 "TestUnshare/TestCopy detach once from one parent; bookkeeping of which columns are borrowed is a multi-step state machine that needs two or three derivations to go wrong.",
 [RD, V, DF], [("Unshare/DetachedView, shared bookkeeping", RD), ("Copy", DF)], ["every cell of every live dataframe after every operation"], [IDX, SH])

prop("C06", "Restructuring a view leaves every other dataframe intact",
 "Adding, allocating, overwriting-into-existence, renaming, dropping or converting columns on a dataframe obtained from another one (view of any kind, shallow copy, copy, split part, hashed or transformed view) never changes the set of columns, their types, their string marking or their values in the dataframe it came from or in its siblings. The restructured dataframe itself has exactly the expected columns.",
 ["histories"], "every sequence of derivations followed by structural operations on any derived dataframe",
 "The tests never restructure a view and then look at its parent (only one adds a column by hand to a shallow copy).",
 [RD, V, INP], [("copy-on-write of the column maps (sharedMaps, reallocateMaps)", RD), ("stringHeader", RD)], ["headers and cells of every live dataframe after every operation"], [SH, ("stringHeader", "which object columns hold strings", RD)])

prop("C07", "Column bookkeeping stays consistent through any history",
 "After any sequence of allocations, overwrites, renames, drops, conversions, views, detachments and concatenations, every column name denotes exactly one column of exactly one type, the per-type headers, string header and column count agree with what the accessors serve, and every column has exactly the dataframe's number of rows. Renaming moves a column with its values, type and string marking (onto an existing name it replaces that column, onto its own name it changes nothing); dropping removes it; int/bool-to-float conversion replaces it by the float column of equal values. A deep copy of any view has storage for exactly the rows of the view in every column.",
 ["histories"], "every history of structural operations up to the bound, on owned and derived dataframes",
 "Unit tests check one operation at a time; bool-to-float conversion, rename onto an existing or identical name, and allocation on empty frames have no test.",
 [RD, "dataframe/column_header.go", INP], [("Rename/Drop/Alloc*/IntToFloats/BoolToFloats", RD), ("headers", "dataframe/column_header.go")], ["headers, NumColumns, NumRows, accessors"], [("stringHeader", "which object columns hold strings", RD)])

prop("C08", "Concatenation aligns rows or reports an error",
 "Row concatenation of dataframes with identical columns returns all their visible rows in argument order, shares nothing with its arguments, and returns an error when the columns differ in either direction. Column concatenation (view, copy or smart) returns a dataframe whose row i holds row i of every argument with types and string markings preserved, or returns an error; it returns an error whenever row counts differ or column names overlap, and the view form never pairs rows that the storage of its arguments does not already align. The smart form succeeds whenever row counts match and columns do not overlap.",
 ["inputs", "histories"], "every pair/triple of dataframes: any row counts, index views, contiguous slices, column types and overlaps",
 "Tests concat two 3-row frames; unequal row counts, different but hash-colliding indices, string columns in the second argument, and mixed contiguous/indexed arguments are not covered.",
 ["dataframe/concat.go", "dataframe/checks.go", "utils/utils.go"], [("RowConcat/ColumnConcatView/ColumnCopyConcat/ColumnSmartConcat", "dataframe/concat.go"), ("index comparison", "utils/utils.go")], ["returned error and all read paths of the result"], [IDX])

prop("C09", "All read paths deliver the same cells",
 "For any dataframe or view of any size, the typed accessors, interface copies, the float32 row iterator (also after being reset on another dataframe), the dense-matrix batching (for any sequence of batch sizes through one batching object), the gonum vectors and a deep copy all deliver the same value for each row and column, in the requested column order, with true/false as 1/0. The iterator delivers every row exactly once with its position. The positions delivered by the iterator and the accessors locate the row's cells in the raw column data, and a dataframe whose indices are reported as unaltered has its rows in that order. Changing a delivered row, matrix or vector copy never changes the dataframe.",
 ["inputs", "histories"], "every dataframe shape and row count across internal block sizes, every sequence of batches/resets, every column selection",
 "One test iterates 1000 rows in order; dense batching with growing batches, partially filled iterator blocks, resets and view/contiguous representations are untested.",
 ["dataframe/row_iterators.go", "dataframe/dense_gonum_batching.go", "dataframe/float_batching.go", "dataframe/column_access.go", "dataframe/conversions.go", DF], [("Float32Iterator ring of 128 rows", "dataframe/row_iterators.go"), ("Dense64Batching buffer recycling", "dataframe/dense_gonum_batching.go")], ["values delivered by each reader"], [IDX])

prop("C10", "CSV reading infers the documented types and exact values",
 "For any CSV content and options, each non-excluded column is read as bool if all its values are booleans, else int if all are integers or missing, else float if all are numbers or missing, else string; with the BinaryAsFloat, BoolAsFloat and IntAsFloat options the 0/1, boolean and integer columns respectively become float columns instead. Every cell holds exactly the parsed value, missing values become -1, NaN or nil, rows keep file order and the given or in-file header names the columns. The result does not depend on the number of CPUs, on how the reader chunks the bytes, or on which other columns are present.",
 ["inputs", "configurations", "schedules"], "every small table over an alphabet of cell literals x every option combination x CPU counts x read chunkings",
 "One 4-row file with three option sets is tested; the option/type matrix and per-column independence are not.",
 ["dataframe/csv_parsing.go"], [("isBinary/isBool/isInt/isFloat, toNativeTypes", "dataframe/csv_parsing.go")], ["RawData/DataFrame headers and cells after FromCSV"], [])

prop("C11", "CSV writing emits every visible row exactly once",
 "Writing any dataframe or view to one CSV writer emits a header and then exactly its visible rows (each once, cells exact, missing strings as the chosen marker), in view order when order is to be maintained and in any order otherwise, for every row count, delimiter and line ending. Every bool, int, float and string column is written. Reading the output back yields the same values, and writing never changes the dataframe.",
 ["inputs"], "every view shape, row count across the internal batch size, column-type mix, special values and options",
 "The only writing test writes 3 rows of an unviewed frame and then compares the frame with itself.",
 ["dataframe/csv_writing.go"], [("To1CSV batching", "dataframe/csv_writing.go"), ("sortIfNeeded", "dataframe/csv_writing.go")], ["bytes received by the writer, parsed independently"], [IDX])

prop("C12", "Partitioned CSV output and multi-file input conserve rows",
 "Writing a dataframe to several writers, files or a directory and reading such a set of files (whose columns have the same types) back through a glob pattern conserves every row exactly once with its cells kept together, under every interleaving of the concurrent workers, for any number of rows, files and CPUs, including fewer rows than files. Each part is a well-formed CSV with the full header, and files listed by the directory form are exactly the files written. Column types, string marking, encoding and CPU limit of the merged result are those of the individual files and the reading options.",
 ["inputs", "schedules", "configurations"], "all interleavings (bounded preemptions) of the writer/reader pools x row counts x file counts x CPU counts",
 "Multi-file reading is not tested at all; multi-file writing is tested with 3 rows and 2 files and compared with itself.",
 ["dataframe/csv_writing.go", "dataframe/csv_parsing.go", RD, V], [("ToCSVs/ToCSVFiles/ToCSVDir", "dataframe/csv_writing.go"), ("FromCSVFilePattern, processFileQueue", "dataframe/csv_parsing.go"), ("MergeRawDataRows", RD)], ["files/bytes produced, RawData returned"], [])

prop("C13", "CSV I/O failures are reported, never swallowed",
 "If any write to any destination fails or is short at any point of the output, the CSV writing call returns an error, whatever the number of rows or writers and under every interleaving; if reading a source fails at any byte, or a record is malformed, or a file of a set cannot be read, the reading call returns an error instead of partial data. When nothing fails no error is returned.",
 ["fault_sequences", "schedules", "inputs"], "every failure point (each write call, each byte offset, each file) of a small workload, every writer index",
 "No test injects a fault.",
 ["dataframe/csv_writing.go", "dataframe/csv_parsing.go"], [("error propagation from csv.Writer/Reader and worker pools", "dataframe/csv_writing.go")], ["returned error"], [])

prop("C14", "Multi-threaded operations always complete",
 "Every operation that uses worker goroutines (string hashing, CSV reading of one or many files, CSV writing to many destinations, imputer, scaler and one-hot fitting and transforming, linear-regression training and prediction) returns under every interleaving, for any number of columns or files including zero, any column names including the empty name, any CPU limit, and when a worker reports an error. No worker goroutine is left blocked and none panics.",
 ["schedules", "inputs", "configurations"], "all interleavings up to the preemption bound x numbers of jobs x CPU settings x column names",
 "Tests run one or two free schedules with ordinary names; deadlocks that need a particular CPU/file ratio or name never occur in them.",
 ["utils/string_q.go", "dataframe/csv_parsing.go", V, "preprocessing/scaler.go", "preprocessing/float_imputer.go", "preprocessing/one_hot.go"], [("StringQ job/result channels", "utils/string_q.go")], ["completion of the call, number of live goroutines"], [("Keys/Errors channels", "pending jobs / finished jobs", "utils/string_q.go")])

prop("C15", "Worker pools are race-free and schedule-independent",
 "Under every interleaving of the worker goroutines, no two of them access the same memory without ordering when one writes, and everything a caller can observe after a multi-threaded operation returns was written before it returned. The results (hashes, fitted parameters, transformed cells, parsed columns) are the same for every interleaving, every CPU limit and every order in which Go iterates over maps, except for the order in which the columns generated by the one-hot encoder are numbered.",
 ["schedules", "configurations"], "all interleavings up to the preemption bound with happens-before tracking, all CPU limits, map-iteration deviations",
 "Tests observe a handful of free-running schedules, never under the race detector.",
 ["utils/string_q.go", V, "dataframe/csv_parsing.go", "preprocessing/scaler.go", "preprocessing/float_imputer.go", "preprocessing/one_hot.go"], [("per-column ownership of workers, completion via Results/Wait", "utils/string_q.go")], ["race reports, results compared across schedules"], [])

prop("C16", "Concurrent readers of one dataframe do not interfere",
 "Goroutines that concurrently take views (row views, column views, hashed views, detached views, copies, concatenations), read cells, or apply the transforms of one fitted preprocessor or the predictions of one fitted model on the same dataframe, without writing to it, neither race nor affect each other's results. With thread-safe masking enabled the same holds for masks and mask views taken from the dataframe or its views.",
 ["schedules", "histories"], "all interleavings (bounded) of two or three goroutines each performing one or two read-only operations on a shared dataframe prepared by any short history",
 "No test uses the library from two goroutines.",
 [V, RD, DF, "preprocessing/auto_preprocessor.go", "algorithms/linear_regression.go"], [("views copy the frame header; column maps are copied before modification", RD), ("ThreadSafeMasking", DF)], ["race reports, results of each goroutine vs sequential run"], [SH])

prop("C17", "Re-encoding strings is complete, reversible and atomic",
 "Re-encoding the string columns converts every non-missing string of the dataframe's rows exactly once, whatever view the rows come from (including repeated rows), and leaves missing values and other columns alone; converting back restores the original strings. If any string cannot be converted, an error is returned and every string is exactly as before. The encoding a dataframe was declared with follows it through views, copies, shallow copies and concatenations.",
 ["inputs", "histories", "fault_sequences"], "every placement of an unconvertible string among columns and rows, every encoding pair of the alphabet, every derivation before the call",
 "Two tests: one round trip and one failure in a single column of an unviewed frame.",
 [INP, DF, "dataframe/concat.go", RD], [("Encode with rollback", INP), ("textEncoding", RD)], ["string cells and returned error"], [("textEncoding", "current encoding of the strings", RD)])

prop("C18", "String hashing and labelling map equal strings alike",
 "Hashing string columns turns exactly the named columns into int columns in which equal strings have equal non-negative codes in every dataframe, call and CPU setting, distinct strings of the alphabet have distinct codes, and missing or non-string values are -1; all other columns are unchanged and the input dataframe keeps its columns. Label encoding numbers the distinct visible strings from zero in order of first appearance, -1 for missing, and the returned mapping inverts it.",
 ["inputs"], "every assignment of strings/missing to rows and columns, every subset of columns (including all of them), any view",
 "Tests hash one column of a frame that has other columns; hashing all the columns, several columns or columns of a view is not covered.",
 [V, "dataframe/conversions.go"], [("HashStringsView/workerHashes", V), ("LabelToInt", "dataframe/conversions.go")], ["returned view, mapping, and the input dataframe"], [])

prop("C19", "Imputing and scaling compute the documented statistics",
 "After fitting on any float data with missing values, imputing replaces exactly the missing cells, by the mean of the column's non-missing values (or zero, or one); centering yields mean zero, scaling unit population variance, and min-max scaling maps the training range onto [0,1] with the training extremes at 0 and 1, missing values being ignored when fitting and kept when scaling. Every visible row is transformed exactly once, including rows repeated in a view, columns not fitted are untouched, and the inverse scaling restores the original values up to rounding.",
 ["inputs"], "every small column content including constants, infinite-free extremes and NaN placements x all scaler/imputer options x views with repeated rows x several columns",
 "Tests use one column whose range is exactly 1 and never a repeated row, so a wrong formula or double application passes.",
 ["preprocessing/scaler.go", "preprocessing/float_imputer.go"], [("workerFits/workerTransforms/InverseTransformInplace", "preprocessing/scaler.go"), ("FloatImputer", "preprocessing/float_imputer.go")], ["cells after transform / inverse transform"], [])

prop("C20", "One-hot encoding marks exactly the right category",
 "For every fitted encoder and every dataframe with the categorical columns, each row gets exactly one true among the new columns of each categorical column: the column of its category if it was seen in training, otherwise the column its missing/unknown policy designates (own column, shared column, or a most frequent training category), consistently between rows. An error is returned if and only if a missing or unknown value meets the return-error policy, and then the input is unchanged. Categorical columns are removed unless kept by option, and all other columns are unchanged.",
 ["inputs", "configurations"], "every training and test column over a small category alphabet with missing and unknown values x all policy pairs x views",
 "Tests try a handful of policy pairs on one or two rows and mostly count columns.",
 ["preprocessing/one_hot.go"], [("workerFits/workerTransforms, OneHotOptions.fix", "preprocessing/one_hot.go")], ["bool columns of the result, error, input dataframe"], [])

prop("C21", "Transforms touch only what they are fitted for",
 "Fitting any preprocessor or model never modifies the training dataframe. A transform that returns a view never modifies its input dataframe (columns, values, row order) and shares all untransformed columns with it; an in-place transform changes only the visible rows of the fitted columns, and dataframes detached from it beforehand are unaffected. All of this holds for any input view and extra columns.",
 ["inputs", "histories"], "every preprocessor/model x every way of deriving the input dataframe x extra columns",
 "No test inspects the input after a transform.",
 ["preprocessing/auto_preprocessor.go", "preprocessing/one_hot.go", "preprocessing/hash_encoder.go", "preprocessing/scaler.go", "algorithms/linear_regression.go"], [("DetachedView/Unshare before in-place steps", "preprocessing/auto_preprocessor.go")], ["the input dataframe and its parents before/after"], [SH])

prop("C22", "The automatic preprocessor is consistent and honours exclusions",
 "Fit-and-transform returns the same dataframe as fitting and then transforming the same data, for every option combination and every mix of column types. Columns listed as excluded pass through with their name, type and values unchanged. Transforming other data applies the fitted imputation, then scaling, to float columns and hashing plus one-hot encoding to categorical columns, row by row independently of the other rows, and the reported transformed columns are those changed.",
 ["inputs", "configurations"], "every subset of column kinds, every option combination and exclusion set, small value tables with missing values",
 "Only exercised inside one training test with one float and one string column and both options on.",
 ["preprocessing/auto_preprocessor.go"], [("fit/TransformView", "preprocessing/auto_preprocessor.go")], ["result of FitTransform vs TransformView, excluded columns"], [])

prop("C23", "Fitted components survive JSON serialization unchanged",
 "Serializing any fitted imputer, scaler, hash encoder, one-hot encoder, automatic preprocessor or linear regressor to JSON and deserializing it gives a component that transforms or predicts every dataframe exactly as the original does, including policies, inverse scaling and error behaviour.",
 ["inputs", "configurations"], "every component x option combination x small training/test tables",
 "One test serializes a one-hot encoder with one policy pair.",
 ["preprocessing/scaler.go", "preprocessing/float_imputer.go", "preprocessing/one_hot.go", "preprocessing/hash_encoder.go", "preprocessing/auto_preprocessor.go", "algorithms/linear_regression.go"], [("exported fields hold the fitted state", "preprocessing/")], ["outputs of original vs deserialized component"], [])

prop("C24", "Predictions are row-aligned linear combinations",
 "For any fitted or deserialized regressor and any dataframe or view holding its features (any row order, repeated rows, row counts across internal batches, zero rows), every row of the prediction result carries the inverse-scaled weighted sum of that same row's features, and the result has exactly the rows and other columns of the input. The result column replaces an existing column of that name in the result only, and the input dataframe keeps its columns and values whatever the result column is called.",
 ["inputs"], "every small feature table, weight vector, view derivation and result-column name; row counts across batch boundaries",
 "One test checks an aggregate error on 20000 rows.",
 ["algorithms/linear_regression.go", "dataframe/dense_gonum_batching.go"], [("Predict", "algorithms/linear_regression.go")], ["result dataframe, input dataframe"], [])

prop("C25", "Training performs the documented gradient descent",
 "Fitting trains on all float and bool columns except the target and, for every batch of every epoch, adds to each weight minus the learning rate times the batch's accumulated gradient (plus momentum times the previous gradient), then applies weight decay; each row is used exactly once per epoch whatever the batch size, shuffling, memory option or view. Epochs, learning rate and batch size left at zero take working defaults. With one full batch the result does not depend on row order or on the memory option.",
 ["inputs", "configurations"], "small tables x hyper-parameter grid x every shuffle outcome x views",
 "One test checks the final error of one configuration.",
 ["algorithms/linear_regression.go"], [("Fit", "algorithms/linear_regression.go")], ["Weights, Features, TargetScaler after Fit"], [])

prop("C26", "Mask buffers fit the dataframe and select independently",
 "On any dataframe or view, requesting a mask yields a slice of exactly its number of rows (all false for the zeroed form), and mask views built from it select exactly the marked rows even if the buffer is reused afterwards for this or another dataframe. With thread-safe masking enabled, on the dataframe or one it derives from, every requested mask is independent of all others. A mask slice supplied by the caller is neither modified nor kept.",
 ["histories", "inputs"], "every derivation (including views larger than their parent, concatenations, empty frames) followed by every interleaving of mask requests, fills and mask views",
 "Three tests request one or two masks on simple frames.",
 [DF, V], [("EmptyMask/ZeroMask/ThreadSafeMasking", DF), ("mask growth in IndexView", V)], ["mask length/content, resulting views"], [("mask", "recycled buffer shared by a dataframe and its views", DF)])

prop("C27", "Printing shows the dataframe's actual content",
 "The head and record printers display, for every dataframe or view, exactly the first n visible rows (all if n is negative or too large) of every column with its name verbatim and its values, missing objects marked as missing, and return the dataframe itself; short names generated for record printing are distinct, unambiguous prefixes of the column names. The summary lists every column under its type and the number of visible rows.",
 ["inputs"], "every view shape, n, column-type mix and column-name set of the alphabet",
 "Tests call the printers and look at nothing.",
 ["dataframe/print.go"], [("PrintHead/PrintRecords/PrintSummary/GoodShortNames", "dataframe/print.go")], ["stdout"], [])

prop("C28", "Building and merging raw data preserves every value",
 "Values added or set through a data builder appear in the resulting dataframe in insertion order, exactly, under the right type and string marking, and building panics if and only if column lengths differ. Merging raw data column-wise or row-wise yields all columns or all rows of all parts in order, keeping types, string markings, encoding and CPU limit; row-wise merging copies. Column-header set operations return exactly the union or difference of names.",
 ["histories", "inputs"], "every short sequence of builder calls and merges over a small alphabet",
 "Builder calls are used by tests as a fixture; merging functions and header algebra are not tested.",
 ["dataframe/builder.go", RD, "dataframe/column_header.go"], [("Add*/Set*/MarkAsString, ToDataFrame", "dataframe/builder.go"), ("MergeRawDataRows/MergeRawDataColumns", RD)], ["dataframe built, headers"], [])

prop("C29", "Error metrics equal their definition on any views",
 "The mean-squared and mean-absolute errors of two float columns of equal size, taken from any dataframes or views, equal the mean over rows of the squared or absolute difference of the paired values, and unequal sizes are rejected by a panic. The columns are not modified.",
 ["inputs"], "every pair of small float columns, any views, row counts",
 "Only MAE is called once, in an aggregate check.",
 ["algorithms/evaluation.go"], [("MSE/MAE", "algorithms/evaluation.go")], ["returned value"], [])

prop("C30", "Work is divided without loss or repetition",
 "A job queue hands out each of its keys exactly once among all its workers whatever the schedule and the number of workers, signals every worker that no job is left, delivers exactly one notification per job, with its result or its error, to whoever waits for the results, who waits until every job has been notified even when some fail, and never changes the caller's list of keys; its number of workers is at most the requested maximum and the number of jobs, and at least one. Dividing elements or a list of strings into groups yields consecutive, non-overlapping groups that cover every element exactly once, of sizes that never exceed the rounded-up average, also when the same indexer is initialised again.",
 ["schedules", "inputs"], "every interleaving of 1-4 workers over 0-4 jobs, every shuffle outcome; every (elements, groups) pair of the bounds",
 "No test uses the queue or the group indexer directly; they only run underneath other operations with one schedule.",
 ["utils/string_q.go", "utils/group_indexer.go", "utils/utils.go"], [("CreateStringQueue/Next/Notify/Results/Wait", "utils/string_q.go"), ("Initialize/HasNext/Next", "utils/group_indexer.go"), ("SplitStringSlice", "utils/utils.go")], ["keys obtained by every worker, results, groups"],
 [("Keys / Errors", "remaining jobs and finished jobs", "utils/string_q.go")])

prop("C31", "Column headers are exact sets of names, independent of the data",
 "The float, bool, int, object and string headers of any dataframe or view list exactly its columns of that kind. Union, difference, exclusion and copy of headers yield exactly the corresponding set of names, whatever their arguments (including empty and zero-valued headers), without changing the headers or names given as arguments, now or when the result is changed later; a copy and its original are independent. Altering a header obtained from a dataframe, or a list of names obtained from a header, never changes the dataframe, another header, or what later calls return. The overlap check accepts a group of dataframes if and only if no two of them have a column in common.",
 ["histories", "inputs"], "every short sequence of header operations on every kind of header of every derived frame",
 "Header algebra is used by two tests with one argument each; aliasing between headers and dataframes is not tested.",
 ["dataframe/column_header.go", "dataframe/checks.go", "dataframe/dataframe.go"], [("And/Except/ExceptHeader/Copy/NameList/NameSet/Num", "dataframe/column_header.go"), ("CheckNoColumnOverlap", "dataframe/checks.go")], ["names in every header after every step"])

prop("C32", "Debug and verbose modes observe without altering",
 "Running the same operations with the debug flag of a dataframe or the verbose options of components switched on gives exactly the same rows, columns, models, errors and panics as without. The setting is inherited by the dataframes derived from one that has it, and nothing is printed or logged by operations on a dataframe or component that does not have it.",
 ["histories", "configurations"], "every short history of dataframe operations, and training of every component, with and without the flags",
 "Tests never compare a run with debugging to one without.",
 ["dataframe/dataframe.go", "dataframe/inplace.go", "algorithms/linear_regression.go", "preprocessing/auto_preprocessing.go"], [("debug output", "dataframe/dataframe.go"), ("Verbose", "algorithms/linear_regression.go")], ["dataframes, models, captured output"])

prop("C33", "The CPU limit is inherited, independent and respected",
 "A dataframe's CPU limit is the one requested, or the number of processors when the request is not positive or exceeds it; it is inherited by every dataframe derived from it and by those read with that option, and changing the limit of one dataframe changes that of no other. No operation on a dataframe or directory of CSV files has more column workers, or more file workers, alive at any time than the limit allows.",
 ["histories", "configurations"], "every short derivation history with limit changes in between; every column/file count x limit for each multi-threaded operation",
 "One test sets a limit; nothing observes the number of workers or the limits of derived dataframes.",
 ["dataframe/dataframe.go", "dataframe/raw_data.go", "utils/string_q.go", "dataframe/csv_parsing.go", "preprocessing/one_hot_encoder.go"], [("SetMaxCPU/CreateColumnQueue", "dataframe/dataframe.go"), ("CreateStringQueue", "utils/string_q.go")], ["MaxCPU, number of goroutines alive"])

prop("C34", "Shuffles and samples are uniform, and reproducible from the seed",
 "A shuffle of any dataframe or view puts its rows in each of their possible orders with the same probability. A sample of n rows without replacement is each of the possible arrangements of n of its rows with the same probability, like the first n rows of a shuffle. Each epoch of the training of a linear regressor goes through the rows in every order with the same probability, independently of the other epochs, and cuts that order into consecutive batches of the requested size. Starting from the same seed of math/rand, the same shuffles and samples of the same dataframe always give the same rows in the same order.",
 ["random choices", "configurations"], "every outcome of every random draw, for all row counts up to the bound; the probability of every result is the exact sum over all outcomes",
 "A test can draw a few shuffles; uniformity and independence are statements about all outcomes of the random source.",
 ["dataframe/view.go", "algorithms/linear_regression.go"], [("ShuffleView/SampleView", "dataframe/view.go"), ("Fit (epochs and batches)", "algorithms/linear_regression.go")], ["order of the rows, trained weights"])

prop("C35", "What an operation does depends only on what is visible",
 "For every dataframe or view, whatever the history of derivations, restructurings, detachments, concatenations and writes that led to it, every operation gives the same result as on a dataframe built afresh with the same visible rows, columns, types, string markings and values: row selection, sorting, splitting, copying, concatenation, hashing, labelling, conversions, iteration, matrices, CSV output, printing, the fitting and application of every component, and predictions (in-place writes when no row or column storage is visible twice). Hidden rows, dropped columns, row order in memory, sharing and the dataframes it is related to never influence a result.",
 ["histories", "inputs"], "every short history from several tables, every row and column count of the bounds, times every operation",
 "Tests run each operation on freshly built dataframes or on one kind of view; the product of histories and operations is not sampled.",
 ["dataframe/view.go", "dataframe/raw_data.go", "dataframe/dataframe.go", "dataframe/concat.go", "dataframe/conversions.go", "dataframe/inplace.go", "dataframe/csv_writing.go", "dataframe/row_iterators.go", "dataframe/dense_gonum_batching.go", "preprocessing/scaler.go", "preprocessing/one_hot.go", "preprocessing/auto_preprocessor.go", "algorithms/linear_regression.go"], [("every method of DataFrame", "dataframe/dataframe.go"), ("views", "dataframe/view.go")], ["results of every operation on a dataframe and on its rebuilt twin"])

prop("C36", "Invalid requests are refused and change nothing",
 "On every dataframe or view, whatever its history: access to a column that is missing or of another type, labelling of a non-string column, sorting or taking the top of a column that is missing or not numeric, a negative number of top rows, conversion to interfaces or renaming of a missing column, matrices of missing or object columns, samples larger than the dataframe or with replacement, splits into batches of zero or fewer rows, into a negative number of parts or by a ratio outside [0,1], and error metrics of columns of different sizes panic; row concatenation of dataframes whose columns differ in name, number or type, column concatenation of dataframes of different sizes or with a common column, and any concatenation of nothing return an error; building a dataframe from columns of different sizes panics. After a refused request, the dataframe and all related ones are as before.",
 ["histories", "inputs"], "every short history from several tables, every row and column count of the bounds, times every invalid request",
 "Tests never make an invalid request, except for two concatenations.",
 ["dataframe/view.go", "dataframe/column_access.go", "dataframe/conversions.go", "dataframe/concat.go", "dataframe/raw_data.go", "dataframe/float_batching.go", "algorithms/evaluation.go"], [("accessors", "dataframe/column_access.go"), ("SortedView/TopView/Sample/Split*", "dataframe/view.go"), ("concatenations", "dataframe/concat.go")], ["panic or error, state of every dataframe afterwards"])

prop("C37", "Transformations, predictions and conversions treat every row by itself",
 "Once trained, scalers (both ways), imputers, one-hot and hash encoders, the automatic preprocessor and the linear regressor (alone, after the preprocessor, and after deserialization), as well as the hashing of strings, the conversion of columns to floats, dense matrices, row iteration and the writing of CSV, turn a row into the same thing whichever rows come before, after and along with it, whether it is seen directly or through views, in a dataframe of any size and whatever is set as maximum number of CPUs: the result on a dataframe is made of the results on its rows taken alone, in the same order (any order for predictions and CSV without order), with the same columns whichever the rows, also without any row; it fails if and only if it fails on one of the rows; it does not change what was learnt, so that the next use gives the same.",
 ["inputs", "histories"], "every sequence of up to 4 rows of 6 kinds (seen, missing, unseen), every pair of view forms, every number of rows up to the bounds cut at many points",
 "Tests transform one small training table; none transforms part of it or a single unusual row among others.",
 ["preprocessing/", "algorithms/linear_regression.go", "dataframe/view.go", "dataframe/csv_writing.go", "dataframe/float_batching.go", "dataframe/row_iterators.go"], [("Transform*", "preprocessing/"), ("Predict", "algorithms/linear_regression.go"), ("HashStringsView", "dataframe/view.go")], ["result rows by identifier, header, error, serialized state"])

prop("C38", "What is learnt about a column depends on the values of that column only",
 "What scalers, imputers, one-hot encoders and the automatic preprocessor (fitted, or fitted while transforming) learn about a column - shift and scale, value to impute, categories, category for missing and unknown values - is the same whatever other columns the training dataframe has, whatever the columns are called, in whichever order its rows are, whether the table is seen once or repeated several times, directly or through views that hide other rows, with any maximum number of CPUs. They learn something about every column of the type they deal with and about no other column.",
 ["inputs", "histories"], "every sequence of up to 4 rows of 5 kinds (with missing values, constants and ties), every subset of 9 columns, every order of the rows, several namings, and every number of rows up to the bounds",
 "Tests train on one small table, with one set of columns in one order.",
 ["preprocessing/scaler.go", "preprocessing/float_imputer.go", "preprocessing/one_hot.go", "preprocessing/hash_encoder.go", "preprocessing/auto_preprocessor.go"], [("Fit", "preprocessing/"), ("FitTransform", "preprocessing/auto_preprocessor.go")], ["Shift/Scale", "Fallback", "Categories/Fallback/NewColumns", "TransformedColumns"])

prop("C39", "What columns are called changes nothing",
 "A column can be called anything - empty, made of spaces, separators, quotes, line breaks, control characters, invalid UTF-8, format verbs, patterns, very long, or hardly different from the name of another column - and every operation does to it what it does to a column with a plain name: views, copies, writes, restructuring, sorting, hashing, concatenation, read paths, CSV reading (exclusion, missing values, types) and writing, fitting and transforming with every preprocessing component before and after serialization (names in valid UTF-8), training and predicting. Names are compared byte by byte and come out as they went in; no name has a meaning to the library.",
 ["inputs", "histories"], "every concatenation of up to 2 of 30 building blocks and 18 families of names that are easily mistaken for one another, every pair of a family as the names of two columns of each type, one operation on every one of them and two on some",
 "Tests use about a dozen plain ASCII names.",
 ["dataframe/", "preprocessing/", "algorithms/linear_regression.go"], [("*", "dataframe/column_header.go"), ("*", "dataframe/raw_data.go"), ("FromCSV", "dataframe/csv_parsing.go"), ("To1CSV", "dataframe/csv_writing.go"), ("Fit/Transform*", "preprocessing/"), ("Fit/Predict", "algorithms/linear_regression.go")], ["headers", "cells by column", "written CSV", "columns read", "transformed dataframes", "predictions"])

prop("C40", "Shared helpers and test assertions do exactly what they say",
 "A range holds every value from its start, by its interval, up to but not including its end. Sorting floats by index returns each index exactly once, in ascending order of the values with missing values last, and leaves the values alone when asked to. The set of a list of strings holds exactly its elements, the keys of a set are listed once each, looking for a string returns its first position or -1, and equal lists of integers have equal hash codes; the arguments are not changed. The assertions for tests report a failure, and return false, exactly when what they assert does not hold (floats are equal up to 0.01; missing and infinite values equal only themselves). The consistency check of raw data accepts it exactly when all columns have the same number of values, every column marked as text is an object column and no other object column holds texts; it accepts every dataframe and view.",
 ["inputs"], "every range, list and pair of lists of the bounds",
 "Tests use these helpers to test other things.",
 ["utils/utils.go", "utils/asserts.go", "dataframe/checks.go"], [("CheckConsistency", "dataframe/checks.go"), ("MakeRange/FloatArgSort/ToStringSet/StringSetKeys/IndexOfString/HashIntSlice", "utils/utils.go"), ("Assert*", "utils/asserts.go")], ["returned values, arguments, failures reported"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
