PBT = "property-based testing (rapid): "
NOTE = "Random exploration with shrinking; assumes the reference in harness/props is right and covers only what its generators produce (bounds in DESIGN.md)."

prop("C01", "Row-selecting views show exactly the selected rows",
     "A view that selects rows (slice, index, mask, reverse, plain view, reset-index, shuffle, sample, copy, bootstrap) shows, in every column of every type, exactly the rows of the dataframe it was taken from that its arguments select, in the specified order, with the same columns, column types and missing values. Sampling without replacement and shuffling yield distinct rows of the dataframe, ResetIndexView the same rows in some order, and taking a view leaves the dataframe it is taken from, and its parents, as they were.",
     ["inputs", "histories"], "all tables of mixed types (0 to 600 rows), all chains of views, copies and concatenations below the view, all arguments in range",
     "The tests take one or two hard-coded views of 4-row dataframes; which index lists are shared, contiguous or repeated depends on the whole chain of views and on the sizes.",
     ["dataframe/view.go", "dataframe/inplace.go", "dataframe/dataframe_internals.go"],
     [("row indices composed with those of the parent", "dataframe/view.go"), ("in-place cut/reverse/shuffle of the indices", "dataframe/inplace.go")],
     PBT + "random view chains against a reference table", NOTE)

prop("C02", "Views share data with their parent, copies and detached columns do not",
     "A value written through any dataframe (an accessor's Set or an Overwrite of an existing column) is seen at the same row through every live dataframe that shares this row and column by way of views, including column views, concatenated column views and shallow copies. It is seen nowhere else: not in other rows or columns, not in deep copies, and not in columns that were detached or unshared.",
     ["histories"], "all histories of up to 14 view-taking, copying, detaching and writing operations over a pool of up to 9 dataframes with 1 to 45 rows",
     "Sharing is a relation between all the live dataframes of a history; the tests check one write through one view.",
     ["dataframe/view.go", "dataframe/column_access.go", "dataframe/inplace.go", "dataframe/dataframe_internals.go", "dataframe/raw_data.go"],
     [("views keep the column slices of the parent and a list of shared columns", "dataframe/view.go"), ("Unshare/DetachedView copy columns", "dataframe/inplace.go")],
     PBT + "stateful model with a grid of shared cells; every dataframe is re-read after every operation", NOTE)

prop("C03", "Changing the columns of a view never changes other dataframes",
     "Renaming, dropping, allocating or converting columns, or overwriting with a new column, does to the dataframe it is called on exactly what the operation says, and nothing to the set, the types or the content of the columns of the dataframes it was derived from or of their other views. The other rows, the other columns and the string tags of the dataframe itself are unaffected.",
     ["histories"], "all histories of up to 14 view-taking, restructuring and writing operations over a pool of up to 9 dataframes",
     "Each restructuring operation must leave alone all the other dataframes alive at that moment, whatever views were taken before; the tests check single operations on fresh dataframes.",
     ["dataframe/inplace.go", "dataframe/view.go", "dataframe/dataframe_internals.go", "dataframe/column_access.go", "dataframe/conversions.go"],
     [("copy-on-write of the column maps and of the header of string columns", "dataframe/dataframe_internals.go")],
     PBT + "stateful model with a grid of shared cells; every dataframe is re-read after every operation", NOTE)

prop("C04", "Splits partition the rows in order",
     "SplitView, SplitNView and SplitTrainTestViews return consecutive parts that, put one after the other, are exactly the rows of the dataframe in order, each part having all its columns. SplitView's parts have the requested number of rows except the last, which is not empty; SplitNView returns exactly n parts, some possibly empty, none with more than the number of rows divided by n, rounded up; the test part has the requested fraction of the rows (within one row).",
     ["inputs", "histories"], "all tables, all view chains below, all batch sizes, numbers of parts and fractions",
     "Remainders, parts larger than the dataframe, empty dataframes and views are combinations that the tests sample twice.",
     ["dataframe/view.go"], [("SplitView/SplitNView/SplitTrainTestViews built on SliceView", "dataframe/view.go")],
     PBT + "partition invariant on random tables and sizes", NOTE)

prop("C05", "SortedView and TopView order the rows by the column",
     "SortedView shows a permutation of the rows in ascending order of the column, for float, int and bool columns, integers being compared exactly. TopView shows the n rows (all of them if there are fewer) that come first in the order of SortedView or its reverse, sorted if sorting was asked for. Missing values (NaN) never disturb the order of the other rows, and the dataframe itself is not reordered.",
     ["inputs", "histories"], "all columns of random floats (NaN, infinities, ties), ints up to the full 64-bit range and bools, all n, both orders, all view chains below",
     "Ordering must hold for all value combinations, e.g. integers beyond 2^53 and NaN at any place, and for all internal row indices.",
     ["dataframe/view.go", "utils/utils.go"], [("argsort of the column, then IndexView", "dataframe/view.go")],
     PBT + "order and multiset invariants", NOTE)

prop("C06", "RowConcat stacks the rows of its arguments",
     "RowConcat returns the rows of all its arguments in order, with the same columns and types (an empty or column-less combination included), and shares no data with them. If the dataframes do not have exactly the same columns with the same types, it returns an error and changes nothing.",
     ["inputs", "histories"], "1 to 5 dataframes, any of which may be a view with repeated rows or be empty, same or different columns",
     "Tests concatenate two fresh dataframes; row order depends on the indices of all the arguments.",
     ["dataframe/concat.go"], [("column by column concatenation with a header check", "dataframe/concat.go")],
     PBT + "reference concatenation, mutation of inputs and outputs for independence", NOTE)

prop("C07", "Column concatenation aligns rows or refuses",
     "Column concatenation (view, copy or smart) of dataframes that have the same number of rows gives a dataframe whose row i has, side by side, the values of row i of each argument, with all their columns and types; ColumnConcatView may return an error instead only if the arguments' internal row orders differ, and never returns misaligned rows. Different numbers of rows or a column name in common is always an error. The copy shares no data with its arguments, the view shares it all, and no argument is changed.",
     ["inputs", "histories"], "2 to 4 dataframes with equal, nearly equal or unrelated row indices, any types",
     "Whether two views have the same internal order must be decided for all pairs of index lists, and misalignment shows only on some; tests use two.",
     ["dataframe/concat.go", "dataframe/checks.go"], [("comparison of the row indices before sharing columns", "dataframe/concat.go"), ("overlap check", "dataframe/checks.go")],
     PBT + "reference join; near-miss index lists to defeat weak comparisons", NOTE)

prop("C08", "Encoding, string tags and CPU limit survive derivation",
     "Every dataframe derived from another by views, copies, splits, sorting, or row or column concatenation remembers the text encoding of its strings, which of its columns are strings, and the CPU limit. In particular converting the derived dataframe to UTF-8 yields the text that the original dataframe contained.",
     ["inputs", "histories"], "8 encodings, all chains of up to 4 derivations plus one of 11 final steps",
     "The tests encode a fresh dataframe; losing the encoding needs a particular chain of derivations.",
     ["dataframe/view.go", "dataframe/concat.go", "dataframe/inplace.go", "dataframe/dataframe_internals.go"],
     [("textEncoding, stringHeader and maxCPU carried over by each derivation", "dataframe/dataframe_internals.go")],
     PBT + "metamorphic: derive then decode equals decode then derive", NOTE)

prop("C09", "Encode converts every string once, or changes nothing",
     "Encode converts all the string cells of the dataframe from the current to the requested encoding, whatever rows a view repeats or hides, so that any sequence of successful conversions shows the same text, and converting back gives the original bytes. If it returns an error, because some string is invalid or cannot be represented, no cell and no declared encoding has changed. Missing strings and the columns of other types are never altered.",
     ["inputs", "histories", "configurations"], "8 encodings, sequences of up to 5 conversions, refused ones included, on detached views with repeated rows, arbitrary byte strings",
     "Partial conversion shows only when a later column or row fails, double conversion only with repeated rows.",
     ["dataframe/inplace.go"], [("Encode computes all the converted columns before storing any", "dataframe/inplace.go")],
     PBT + "round trip against golang.org/x/text, all-or-nothing on injected unencodable strings", NOTE)

prop("C10", "CSV columns get the documented types and every cell its value",
     "FromCSV gives every column that is not excluded exactly one type, decided on all its values and the options: bool if all of them parse as booleans (float 0/1 if BoolAsFloat, or BinaryAsFloat and they are only 0 and 1), else int if all the non-missing ones parse as 64-bit integers (unless IntAsFloat), else float if all the non-missing ones parse as floats, else string. Every cell then holds the value that its text denotes, row by row in the order of the file: missing values read -1 in int columns, NaN in float columns, and nil in string columns. The result does not depend on quoting, line endings or MaxCPU, and keeps the declared encoding.",
     ["inputs", "configurations"], "random CSV texts of 0 to 300 records and 1 to 8 columns of 11 flavours, all options, with and without a header in the file",
     "Types depend on the combination of all the values, e.g. one odd cell in a late row, the missing-value list and five options; the tests read two fixed files.",
     ["dataframe/csv_parsing.go", "dataframe/raw_data.go", "dataframe/builder.go"],
     [("column-wise type detection and conversion by a pool of workers", "dataframe/csv_parsing.go"), ("conversions between raw columns", "dataframe/raw_data.go")],
     PBT + "differential against a reference inference written on encoding/csv and strconv", NOTE)

prop("C11", "FromCSVFilePattern returns the rows of all matching files, or an error",
     "FromCSVFilePattern reads all the regular files that match the pattern and returns, whatever the number of CPUs, all their rows, each exactly once and the rows of one file in order, with the columns, types, missing values and encoding that reading the files one by one gives. If any of the files cannot be read or is malformed, it returns an error; it never blocks.",
     ["inputs", "schedules", "faults"], "1 to 12 files with the same columns, some without rows, 1 to 8 CPUs, next to directories and other files; one malformed or unreadable file at any position",
     "The number of workers, the order in which they finish and the position of the failing file vary; the tests read two well-formed files. The schedules are those that the Go scheduler happens to take.",
     ["dataframe/csv_parsing.go", "dataframe/raw_data.go", "utils/string_q.go"],
     [("workers pop file names off a queue and send their RawData", "dataframe/csv_parsing.go"), ("merge of the rows", "dataframe/raw_data.go")],
     PBT + "multiset of the rows against per-file reference, with injected faulty files", NOTE)

prop("C12", "CSV input of any content gives a correct result or an error",
     "Whatever bytes FromCSV is given, it neither panics nor blocks: it returns an error exactly if the reader fails, if encoding/csv refuses the text with the same options, or if the text and the given header disagree so that a named column has no cell. A read error at any byte is returned, and data that arrive in small pieces give the same result as in one.",
     ["inputs", "faults"], "arbitrary strings over a CSV-heavy alphabet up to some hundred bytes, random separators and lazy quotes, given headers of any length, a reader failing at any byte",
     "Malformed input and read faults are unbounded families; the tests use only valid files.",
     ["dataframe/csv_parsing.go"], [("record reader and column workers", "dataframe/csv_parsing.go")],
     PBT + "fuzzed bytes and fault injection, differential against encoding/csv", NOTE)

prop("C13", "CSV files contain exactly the rows of the dataframe",
     "To1CSV, ToCSVs, ToCSVFiles and ToCSVDir write a header with every bool, int, float and string column once and then the rows of the dataframe (of the view, if it is one), each exactly once over all the outputs and as text that encoding/csv and strconv read back to the same values, missing values being written with the requested marker. The rows are in the order of the dataframe if MaintainOrder is set, and rows are never torn or mixed, whatever the number of CPUs and of outputs; ToCSVDir writes one file if there are fewer rows than MinRowsPerFile, never more files than CPUs, and returns the paths of exactly the files it wrote.",
     ["inputs", "configurations", "schedules"], "all tables and view chains, 1 to 8 outputs, 1 to 8 CPUs, both orders, random separators and line ends",
     "The rows of a view are split among parallel writers by size, number of CPUs and outputs; the tests write one small dataframe.",
     ["dataframe/csv_writing.go"], [("batches of rows formatted by parallel workers", "dataframe/csv_writing.go")],
     PBT + "the outputs are parsed by a reference reader and compared as sequences or multisets of rows", NOTE)

prop("C14", "A failed CSV write is always reported",
     "If any of the writers or files fails at any byte, cannot be opened, or is full, then To1CSV, ToCSVs, ToCSVFiles and ToCSVDir return an error; if none fails they return none. They never panic or block in either case.",
     ["faults", "inputs"], "writers that fail after k bytes: every k for small outputs, the buffer boundaries for large ones; 1 to 8 writers; full devices and missing directories",
     "The point of the failure is a byte offset and a buffer state; the tests never fail a write.",
     ["dataframe/csv_writing.go"], [("errors of csv.Writer collected after Flush", "dataframe/csv_writing.go")],
     PBT + "fault injection at every byte offset", NOTE)

prop("C15", "Writing a dataframe to CSV and reading it back gives the same dataframe",
     "For columns whose text determines their type, a dataframe or view written to CSV and read back with the same separator and the same missing-value marker has the same columns, types, values and missing values, in the same order for a single ordered file and in any order through a directory of files.",
     ["inputs", "histories"], "tables of up to 600 rows with typed columns, floats of any magnitude, strings with quotes, separators and line breaks, views, ToCSVDir followed by FromCSVFilePattern",
     "Round trips must hold for all values and for all the formatting choices at once.",
     ["dataframe/csv_writing.go", "dataframe/csv_parsing.go"], [("formatting of each type and its inverse", "dataframe/csv_writing.go")],
     PBT + "round trip", NOTE)

prop("C16", "Accessors and overwrites read and write exactly the addressed cells",
     "On any dataframe or view, Get(i) of an accessor returns the value that row i of the dataframe has, Set(i) and the Overwrite functions change exactly the underlying cells of the rows they address and nothing else, and all ways to read a cell (accessors, float-converting access, SharedIndex, VecDense, CopyValuesToInterfaces) agree. Slices given to an Overwrite function are copied; a new column has the length of the dataframe, neutral values in the rows not written, and reads back what was written, whether or not the dataframe had any other column; asking for a column that does not exist or has another type panics rather than returning other data.",
     ["inputs", "histories"], "histories of up to 10 accesses on views with repeated, reordered and sliced rows, all column types",
     "Every access goes through the indices of a chain of views; the tests use unit-stride views with one column.",
     ["dataframe/column_access.go", "dataframe/inplace.go", "dataframe/raw_data.go", "dataframe/dataframe.go"],
     [("accessors hold the column slice and the row indices", "dataframe/column_access.go"), ("Overwrite* and Alloc*", "dataframe/inplace.go")],
     PBT + "stateful access histories against a reference table", NOTE)

prop("C17", "Row iterators and matrices give the numeric rows in order",
     "DenseMatrix and Float32Iterator give, for each row of the dataframe in order, the values of the requested columns in the requested order, ints and bools being converted to numbers, and NextRow ends after exactly NumRows rows. The same batching or iterator object gives the right rows for every dataframe it is used on in turn, whatever their sizes and row orders, and the dataframe is unchanged.",
     ["inputs", "histories"], "1 to 6 numeric columns of mixed types, sequences of up to 5 dataframes of 1 to 600 rows over one batching object, views of any kind",
     "The objects recycle memory and adapt to contiguous or scattered rows; errors need a particular succession of sizes and views.",
     ["dataframe/row_iterators.go", "dataframe/dense_gonum_batching.go", "dataframe/float_batching.go", "dataframe/column_access.go"], [("recycled matrices and row buffers", "dataframe/dense_gonum_batching.go")],
     PBT + "reference rows; one object reused over a random sequence of dataframes", NOTE)

prop("C18", "String hashing is a function of the string alone",
     "HashStringsView and HashEncoder replace the requested string columns by int columns in which equal strings have equal, non-negative numbers, wherever they occur and however many CPUs are used, missing strings are -1, and no two different generated strings collide. Other columns, rows and the dataframe itself are unchanged.",
     ["inputs", "configurations"], "string tables with repeated and missing strings, any subset of columns hashed, several dataframes, 1 to 8 CPUs",
     "Equality must hold between all rows, columns, dataframes and CPU settings.",
     ["dataframe/view.go", "preprocessing/hash_encoder.go"], [("columns hashed by parallel workers", "dataframe/view.go")],
     PBT + "metamorphic comparison of all hashes of a case", NOTE)

prop("C19", "FloatImputer replaces missing values and nothing else",
     "After Fit, TransformInplace replaces every missing value (NaN) of the float columns it was trained on by the mean of the column's non-missing training values (0 if there are none), by 0 or by 1, according to the policy, in the rows of the dataframe or view it is given and nowhere else. Values that are not missing, other columns, other rows, and the training data are never altered, and a second transformation changes nothing.",
     ["inputs", "configurations"], "training on and transforming any views with repeated rows, float columns with any share of missing values, columns not seen in training, all policies",
     "Training uses the rows of a view while the data are shared; columns without values, repeated rows and columns of their own workers are combinations the tests do not have.",
     ["preprocessing/float_imputer.go"], [("column means by parallel workers", "preprocessing/float_imputer.go")],
     PBT + "reference imputation", NOTE)

prop("C20", "Scaler standardizes or min-max scales, and can be inverted",
     "A Scaler maps every value x of the float columns it was trained on to (x - mean) / standard deviation (or only one of both, or (x - min) / (max - min) for min-max scaling), the statistics being those of the non-missing training values; so the training rows get mean 0 and deviation 1, or range from 0 to 1. It is applied once to each row of the dataframe or view, repeated rows included; a constant column or one without values stays finite; missing values stay missing, and InverseTransformInplace restores the original values. Nothing else changes.",
     ["inputs", "configurations"], "all option combinations, training sets with constant, missing or widely ranging columns, transformation and inversion of other views",
     "The tests scale one column of three values.",
     ["preprocessing/scaler.go"], [("shift and scale of each column by parallel workers", "preprocessing/scaler.go")],
     PBT + "reference statistics with compensated sums, round trip", NOTE)

prop("C21", "OneHotEncoder gives each category its own column",
     "For every row and every categorical (int) column, TransformView sets exactly one of the new boolean columns: the one that stands for the row's category, each training category having a column of its own. Missing (-1) and unknown categories go where their policies say: a separate column, one shared by both, the most frequent training category, or an error, 'if seen' meaning a separate column for missing values only if some were missing in training, and the most frequent category otherwise. All other columns and the rows are passed through, the categorical ones being kept only if asked for.",
     ["inputs", "configurations"], "1 to 3 categorical columns with 1 to 9 categories of any int value, all policies that make sense together, training on views, other data with unknown and missing categories",
     "Which column stands for which category is an encoding over all the values; the tests check one table per policy.",
     ["preprocessing/one_hot.go"], [("category maps built by parallel workers", "preprocessing/one_hot.go")],
     PBT + "black-box identification of the new columns by probe rows, then prediction of every row", NOTE)

prop("C22", "AutoPreprocessor applies its parts to the included columns only",
     "AutoPreprocessor imputes (with the mean) and/or standardizes exactly the included float columns and one-hot encodes exactly the included string columns (or int columns if there is no string column), as the options say, and passes all excluded and other columns and the rows through unaltered. FitTransform gives the same result as Fit followed by TransformView on the training data, and TransformView applies what was learned in the last training to other data; categories that were not in training are handled without error.",
     ["inputs", "configurations"], "random tables and views, all option combinations, any excluded columns, trained before on other data, through JSON",
     "There is no test of AutoPreprocessor at all.",
     ["preprocessing/auto_preprocessor.go"], [("pipeline of imputer, scaler, hash encoder and one-hot encoder", "preprocessing/auto_preprocessor.go")],
     PBT + "reference pipeline on the table; new columns are compared as sets of rows", NOTE)

prop("C23", "Fitting and transforming views leave the caller's data alone",
     "Fit never alters the training data, and TransformView, FitTransform and Predict, as well as in-place transformations of detached views, alter neither the dataframe they are given nor its parents. Computed columns of their results share no data with anything, so that overwriting them has no effect elsewhere, and columns that are not concerned are passed through.",
     ["inputs", "histories"], "7 kinds of components on views of 0 to 200 rows, repeated application, results overwritten afterwards",
     "Side effects on shared data show up only in other views of it, which no test looks at.",
     ["preprocessing/auto_preprocessor.go", "preprocessing/one_hot.go", "preprocessing/hash_encoder.go", "algorithms/linear_regression.go", "dataframe/view.go"],
     [("detached views of the columns to be transformed", "dataframe/view.go")],
     PBT + "all dataframes are re-read after each step", NOTE)

prop("C24", "Fitted components survive serialization to JSON",
     "A fitted FloatImputer, Scaler, HashEncoder, OneHotEncoder, AutoPreprocessor or LinearRegressor that is marshalled to JSON and unmarshalled into a new one reports the same columns, and transforms, inverts and predicts exactly as the original one does, any number of round trips later.",
     ["inputs", "configurations"], "all components with random options fitted on random views, applied to the same or other data, 1 or 2 round trips",
     "The tests never serialize anything; a field that is not exported shows only when it matters for the data.",
     ["preprocessing/auto_preprocessor.go", "preprocessing/one_hot.go", "preprocessing/scaler.go", "preprocessing/float_imputer.go", "algorithms/linear_regression.go"],
     [("exported fields of the fitted structures", "preprocessing/one_hot.go")],
     PBT + "round trip and differential", NOTE)

prop("C25", "Predict gives every row the prediction of the linear model",
     "LinearRegressor.Predict returns the rows of the dataframe (in any order) with an additional float column that holds, for each row, the inverse-scaled sum of weights times that row's own feature values, features of any numeric type being found by name whatever the order of the columns. It does so for any number of rows (none included) and features, in however many batches it works, and any existing column is left as it is, except one named like the result.",
     ["inputs"], "1 to 6 features of mixed types out of views with repeated rows, hand-made or reloaded models, result names that collide; up to 140000 features so that several batches are needed",
     "Predictions must be matched to rows across internal batches and views; the tests only check the mean error on one data set.",
     ["algorithms/linear_regression.go", "dataframe/dense_gonum_batching.go"], [("batches of a reset-index view through Dense64Batching", "algorithms/linear_regression.go")],
     PBT + "reference prediction per row, rows identified by an id column", NOTE)

prop("C26", "LinearRegressor.Fit performs the gradient descent it documents",
     "Fit trains on all float and bool columns but the target: each step moves the weights by the learning rate against the gradient of the squared error of the batch, plus momentum times the previous gradient step, then shrinks them by the weight decay, for the given number of epochs, 0 meaning the default of each parameter, whether or not LowMemory is set. The rows are shuffled anew before each epoch. On noiseless linear data with standardized features and a suitable learning rate it converges to the target. It never alters the data.",
     ["inputs", "configurations"], "2 to 80 rows and 1 to 3 features in a full batch for 1 to 4 epochs against a reference descent; 60 to 200 rows of linear data with any batch size for convergence",
     "The tests check the error after training on one data set, which many wrong updates meet as well.",
     ["algorithms/linear_regression.go"], [("mini-batch gradient descent on scaled targets", "algorithms/linear_regression.go")],
     PBT + "differential against a reference descent from the same initial weights; convergence on generated problems", NOTE)

prop("C27", "MSE and MAE follow their definition",
     "MSE and MAE of two float columns of any views are the mean squared and mean absolute difference of the values at the same row of each view, are symmetric, and panic if the columns differ in length. They alter nothing.",
     ["inputs"], "columns of the same or different views with reordered and repeated rows, 1 to 700 rows",
     "Views index their columns differently; no test covers the metrics.",
     ["algorithms/evaluation.go"], [("row access through each view's indices", "algorithms/evaluation.go")],
     PBT + "reference with compensated sums", NOTE)

prop("C28", "Conversions of columns keep every value",
     "LabelToInt numbers the distinct strings of the rows of the view in order of first appearance, gives -1 to missing ones, and returns exactly the mapping it used. IntToFloats and BoolToFloats turn the named columns of a dataframe, view or RawData into float columns with the same rows (true becoming 1, false 0), leaving all the other columns as they are.",
     ["inputs", "histories"], "string, int and bool columns of views, any subset converted in any order, on the dataframe or on a view of it",
     "The tests convert one fresh column.",
     ["dataframe/conversions.go", "dataframe/raw_data.go", "dataframe/dataframe.go"], [("conversion of the shared column and removal of the old one", "dataframe/conversions.go")],
     PBT + "reference conversion", NOTE)

prop("C29", "Masks fit the dataframe and are not tied to the views made from them",
     "EmptyMask and ZeroMask return a mask of NumRows elements, all false for ZeroMask, on any dataframe or view whatever masks were used before. A view made by MaskView does not change when the mask is changed or recycled; masks of a dataframe with thread-safe masking, and those of a deep copy, have memory of their own.",
     ["histories"], "up to 6 requests of masks and MaskViews over the views of one dataframe, with and without thread-safe masking",
     "Masks are recycled between a dataframe and its views; stale contents or lengths need a history.",
     ["dataframe/dataframe.go", "dataframe/view.go"], [("recycled mask shared by the views", "dataframe/dataframe.go")],
     PBT + "histories against a reference table", NOTE)

prop("C30", "Results do not depend on the number of CPUs",
     "MaxCPU limits the number of workers and nothing else: hashing, imputing, scaling, encoding, predicting, reading and writing give the same results whatever the limit. ActualMaxCPU is the requested limit, or the number of cores if the request is not positive or larger, never 0, on dataframes, views, copies and data read from files, and a queue of columns has at least one worker and no more than that.",
     ["configurations", "inputs", "schedules"], "8 operations on random tables of 1 to 300 rows, CSV texts and sets of 1 to 6 equal files, with two different limits from -7 to far beyond the number of cores",
     "The tests run with one setting; distribution of work over workers depends on the number of columns, files and CPUs.",
     ["dataframe/raw_data.go", "dataframe/view.go", "dataframe/csv_parsing.go", "preprocessing/scaler.go", "preprocessing/one_hot.go", "preprocessing/float_imputer.go"],
     [("column queues with as many workers as allowed", "dataframe/raw_data.go")],
     PBT + "metamorphic: two limits, one result; a shard with the race detector", NOTE)

prop("C31", "A dataframe can be read, viewed and transformed concurrently",
     "Several goroutines may at the same time read one dataframe, take and restructure their own views of it, mask it (with ThreadSafeMasking), train components of their own on it, apply shared fitted components, predict and write: each sees exactly what it would see alone, the shared dataframe does not change, and there is no data race. Once a function has returned, with an error or without, none of its goroutines is left behind blocked.",
     ["schedules", "inputs", "faults"], "2 to 6 goroutines with programs of 1 to 3 out of 35 kinds of jobs on one view, schedules as they come, with the race detector in part of the shards; readers, writers and files that fail",
     "Races depend on the schedule and on which operations run together; the tests are sequential.",
     ["dataframe/view.go", "dataframe/dataframe.go", "dataframe/dataframe_internals.go", "utils/string_q.go", "preprocessing/one_hot.go"],
     [("immutable sharing of columns between views", "dataframe/view.go"), ("ThreadSafeMasking", "dataframe/dataframe.go"), ("workers fed by queues", "utils/string_q.go")],
     PBT + "concurrent programs against their sequential result, race detector, inspection of leftover goroutines", NOTE)

prop("C32", "Builders and merges of raw data give exactly the data that was put in",
     "A DataBuilder or RawData yields a dataframe with exactly the columns, types, rows and missing values that were added or set, or panics or reports if the columns have different lengths. Merging RawData by columns or by rows gives all the columns and rows of the parts, in order, with the string columns remembered, or an error if they do not fit, and leaves the parts usable.",
     ["inputs", "histories"], "random sequences of Add/Set/Mark calls on all types, 1 to 4 parts merged with equal, overlapping or different columns and lengths",
     "The tests build single columns by hand.",
     ["dataframe/builder.go", "dataframe/raw_data.go"], [("appending builder", "dataframe/builder.go"), ("merges", "dataframe/raw_data.go")],
     PBT + "model of the builder", NOTE)

prop("C33", "Column headers behave as sets",
     "And, Except, ExceptHeader and Copy of column headers give exactly the union, difference and copy of the sets of names, Num, NameList and NameSet agree with each other and list each name once, and headers taken from a dataframe list exactly its columns of that type. No operation changes its arguments, and neither changing a copy nor the returned lists changes the header or the dataframe.",
     ["inputs", "histories"], "expressions of up to 7 operations over headers with up to 5 names, duplicates and empty headers included",
     "Aliasing between headers shows up only in expressions that reuse an operand.",
     ["dataframe/column_header.go", "dataframe/raw_data.go"], [("map-based headers", "dataframe/column_header.go")],
     PBT + "random expressions against sets", NOTE)

prop("C34", "Printing shows the values of the dataframe",
     "PrintHead, PrintRecords and PrintSummary print exactly the names and the values of the requested number of rows of the dataframe or view (all of them for a negative or too large number), rows and columns not being mixed up, and leave it unchanged. GoodShortNames gives distinct prefixes, as short as the minimum length allows, that cannot be confused with the names of other columns.",
     ["inputs"], "views of any kind with up to 50 rows, names with format directives and line breaks, 4 float formats, 0 to 40 names with common prefixes",
     "No test looks at the printed text.",
     ["dataframe/print.go"], [("formatting of head, records, and short names", "dataframe/print.go")],
     PBT + "captured output parsed and compared with the reference", NOTE)

prop("C35", "Work queues process every job exactly once; helpers meet their definition",
     "A string queue delivers every job to exactly one worker, Wait and Results return once all the jobs are done, and Results reports every job with its result and its error. The helpers that split lists, build ranges, sort, search and make sets return what their definition says for any input, and change read-only arguments never.",
     ["inputs", "schedules"], "0 to 60 jobs, 1 to 9 workers, any failing; lists of up to 3000 elements, any number of groups",
     "Every parallel function relies on the queue; the tests use it for a few jobs.",
     ["utils/string_q.go", "utils/utils.go"], [("buffered channels of keys and results", "utils/string_q.go")],
     PBT + "exactly-once accounting under real concurrency, reference definitions", NOTE)
prop("C36", "Assertion helpers and consistency checks fail exactly when they should",
     "Every Assert helper of utils returns true and leaves the test alone if what it asserts holds (floats: to within 0.01; NaN only equals NaN), and otherwise returns false and marks the test as failed, whatever the values, lengths and capacities. CheckConsistency does the same for RawData whose columns all have the same number of rows and whose strings are all in string columns, and accepts every dataframe that is derived from a sound one.",
     ["inputs"], "values, nearly equal floats, NaN and infinite ones; slices of 0 to 7 elements; dataframes in any state, one column shorter, longer, empty or unmarked",
     "An assertion that passes for wrong values hides every other defect; no test tests them.",
     ["utils/asserts.go", "dataframe/checks.go"], [("tolerance", "utils/asserts.go")],
     PBT + "definition of each relation, run against a testing.T of its own", NOTE)
