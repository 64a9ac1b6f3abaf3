#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step by hand with MANIFEST.json)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
      "anchors": {"files": list(files),
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
        "observe_at": list(observe), "hook_needed": None}})
TC="source/parser/type_checker.hpp"; PA="source/parser/parser.hpp"; CSV="source/parser/csv.hpp"
JS="source/parser/json.hpp"; MN="source/parser/mnist.hpp"; CI="source/parser/cifar.hpp"
DS="source/data/dataset.hpp"; DM="source/dnn/dlmath.hpp"; LA="source/dnn/layer.cpp"; MO="source/dnn/model.cpp"
FN="source/middleware/fnn.hpp"; NN="source/middleware/nn.hpp"; LD="source/middleware/layer_descriptor.cpp"
D="source/dnn/"

p("C01","Every text cell gets exactly the type its spelling has",
 "Type inference assigns every text exactly one type: empty text is none, `true`/`false` is boolean, an optionally signed decimal without superfluous leading zeros is integer, any other optionally signed decimal number, with optional integer part, optional fraction (digits required after the point) and optional exponent, is floating point, and everything else (including anything in double quotes) is string. The answer depends only on the text, agrees with the yes/no type queries and with inference applied to a whole list of cells, and inference never fails on any text.",
 ["inputs"],"all byte strings, empty, numeric near-misses, quoted, multi-kilobyte",
 "The unit test tries a few dozen literals; near-miss spellings (signs, leading zeros, exponents, dots, embedded newlines, long texts) form an infinite language it samples once each.",
 [TC],[("regular expressions tried in a fixed order",TC+" TypeChecker::parse")],["TypeChecker::parse","TypeChecker::is_*"])
p("C02","Random access to a CSV file returns the row that is in the file",
 "Reading row i of a CSV file, in any order, repeatedly and interleaved with any other access, returns the text of line i (indexes past the end wrap around), its index, the file's column count and column types, and its cells in order; the reported row and column counts are those of the file, whether or not its last line ends with a newline. Reading a cell that the row does not have is rejected with an error, while a cell that is present but empty reads as empty text. Rows and cells kept in variables stay what they were read as; assigning them to variables, also to ones that held a row or cell of another table, gives the variable the assigned text, place and types and changes no table.",
 ["inputs","histories"],"all files (rows, ragged rows, separators, empty cells, missing final newline) and all sequences of accesses",
 "The tests read one fixed well-formed file a handful of times; the single-row cache and line-skipping logic depend on the order of previous reads.",
 [CSV],[("single-row cache and line skipping",CSV+" CSV::operator[]"),("line/column counting and type sniffing",CSV+" CSV::CSV"),("cell splitting",CSV+" CSVRow::operator[]")],
 ["CSV::operator[]","CSV::header","CSV::rows_size","CSVRow::operator[]"],[("row cache","last row read",CSV+" CSV::_row_cache")])
p("C03","Iterating a CSV file visits every data row exactly once, in order",
 "A walk from the begin to the end iterator of a CSV file yields every data row after the header exactly once in file order and then stops, also when the file has no data rows. Moving an iterator forward, backward or copying it at any point, in any sequence, leaves it on the row random access returns for that index, independently of other iterators.",
 ["inputs","histories"],"all files and all sequences of iterator increments, decrements, copies and dereferences",
 "The test walks ten rows of one file and never reaches the end; lazily synchronised stream positions depend on the whole movement history.",
 [CSV],[("lazy seek of the underlying stream",CSV+" CSVIterator::update_row"),("range bounds",CSV+" CSV::begin/end")],["CSVIterator"],[("stream position vs requested row","lazy cursor",CSV+" CSVIterator")])
p("C04","All bulk and typed views of a CSV file agree cell by cell",
 "Converting a CSV file or row to a list of lines, a list of rows, a flat list of values or a table of values yields, for every cell, the same value as reading that cell alone, in row-major order. Numeric cells read as the number they spell, boolean cells as their truth value, and cells that are empty or do not begin like a number read numerically as zero; the dataset view exposes exactly the data rows below the header as numeric vectors, in order, with the file's column count.",
 ["inputs","histories"],"all files, all element types, any interleaving of views",
 "Tests only compare sizes of the views of one file.",
 [CSV,TC],[("conversion operators",CSV+" CSV/CSVRow conversion operators"),("text to value",TC+" convert")],["CSV::to_vec","CSV::to_mat","CSV::entry","CSVField::as"])
p("C05","Label encoding keeps every input and identifies every label",
 "Encoding a labelled data source keeps, for every entry, all non-label values unchanged and in order, and in one-hot form replaces each label by a block that has one position per distinct value of that label, in increasing order of value, with exactly one 1 at the position of the entry's value. The reported feature size and label positions describe exactly that layout (inputs first, then the blocks in column order) wherever the label columns are, and the plain encoding reproduces all entries unchanged.",
 ["inputs","configurations"],"all data tables, all sets of label columns (none, first, middle, last, several, all)",
 "Tests only use files whose label columns are trailing; the position arithmetic differs for every other label set.",
 [PA],[("one-hot layout",PA+" DatasetParser::data_to_encoding"),("sizes and label positions",PA+" encoding_feature_size / encoding_labels_idx"),("distinct values",PA+" unique / unique_map")],["DatasetParser::data_to_encoding"])
p("J01","A JSON document written out and read back is the same document",
 "Writing any document built from nested lists, dictionaries and scalar values (texts without double quotes) and reading it back yields an equal document that is written identically again, and finite floating point numbers come back exactly. Reading compact JSON text yields the tree the text denotes, including empty lists and dictionaries, and leaves the stream just after the document so that documents can follow one another; what the object read into held before is replaced, and copies taken from it keep it.",
 ["inputs"],"all documents (shapes, nesting, empty containers, punctuation inside texts and keys, extreme numbers)",
 "Tests round-trip a few fixed documents; the reader rewinds the stream by computed offsets that depend on which punctuation occurs where.",
 [JS],[("stream extraction with seek-back",JS+" operator>>"),("stream insertion",JS+" operator<<")],["operator<<","operator>>"])
p("J02","A JSON document behaves like an ordinary tree of independent values",
 "After any sequence of assignments, appends, key and index accesses and copies, the document has exactly the content an ordinary tree of values would have: key access creates missing keys, sizes and contents follow the edits made, and an invalid access (index out of range, missing key through read-only access, container operation on the wrong kind of value) is rejected with an error and changes nothing. A copy of a document is independent: editing one never shows in the other.",
 ["histories"],"all operation sequences on several documents",
 "Tests exercise each operation once on fixed documents; sharing and lazy creation of containers only show across sequences.",
 [JS],[("deep copy",JS+" JsonItem copy constructor/assignment"),("container creation on demand",JS+" JsonItem::operator[]/append")],["JsonItem"],[("shared value pointer","tree node",JS+" JsonItem::_value")])
p("J03","JSON equality is structural equality",
 "Two documents compare equal exactly when they have the same kind and equal content: scalars with the same text, lists with equal elements in order, dictionaries with the same keys bound to equal values, and empty documents equal only to empty documents; the comparison is symmetric, agrees with its negation, holds between a document and its copy and never fails.",
 ["inputs"],"all pairs of documents, including near-identical mutations and empty ones",
 "Tests compare fixed pairs; missing-key, prefix and empty cases form an open set.",
 [JS],[("structural comparison",JS+" operator== of JsonItem/JsonList/JsonDict")],["operator==","operator!="])
p("J04","Reading arbitrary text as JSON always ends safely",
 "Reading any byte sequence as a JSON document, from a text or a file, ends in time and memory proportional to a modest polynomial of its length: it either yields a document that can be printed, copied and compared, or raises an error; it never loops forever, crashes or reads out of bounds. An unterminated list or dictionary is rejected.",
 ["inputs","fault_sequences"],"all byte strings, in particular truncations and corruptions of valid documents",
 "Tests read only valid documents.",
 [JS],[("list/dictionary reading loops",JS+" operator>>(JsonList/JsonDict)")],["operator>>"])
p("J05","JSON values convert to and from native values without loss",
 "A number, truth value or text stored in a document and read back as its native type is the value that was stored, alone or as element of a list or dictionary converted as a whole, with order and keys preserved. Asking for the wrong shape (a scalar from a container, a list from a dictionary, anything from an empty document) raises an error.",
 ["inputs"],"all values of the supported scalar types, all flat containers of them, all shape mismatches",
 "Tests convert a few small numbers; extreme and fractional values are not covered.",
 [JS,TC],[("scalar text conversion",JS+" JsonLeaf constructors/as"),("container conversion",JS+" JsonList/JsonDict conversion operators, as_vec/as_map")],["JsonItem::as","as_vec","as_map"])
p("C06","Any bytes are a readable table, or are refused with an error",
 "Any file content, whatever its bytes and whatever separator is asked for, is read as the table its newlines and separators spell: one row per line, as many columns as the first line has separators plus one, each cell the bytes between two separators, the column types those of the second line's cells, an empty file no rows. All ways of reading it (rows, cells, lines, flat and table conversions, iteration, data set entries and encodings) agree on the text and number of every cell; a cell its line lacks, a row of an empty file, and a path that is no readable file are refused with an error, and nothing loops, crashes or reads out of bounds.",
 ["inputs","fault_sequences"],"all byte strings, all separators, all ways of reading",
 "Tests read three well-formed files; quoting, control bytes, odd separators, blank lines and damage are an open set.",
 [CSV,TC],[("counting rows and columns",CSV+" CSV::CSV"),("splitting",CSV+" CSVRow"),("text to value",TC+" convert")],["CSV","CSVRow","CSVField","CSVIterator"])
p("C07","Files mean the same whatever locale the program runs in",
 "The locale installed in the program changes nothing in what is read or written: the type found for a cell text, the value a text converts to and the text a value converts to, a whole table with its types, cells and encodings, the text of a JSON document and the document read back, and a saved model file are the same under any global locale (decimal marks, thousands separators and groupings, names of the truth values) as under the classic one, and what is written under one locale is read back unchanged under another.",
 ["inputs","configurations"],"all locales in pairs, all texts, tables, documents and models",
 "Tests run in the classic locale alone.",
 [TC,CSV,JS,MO],[("text to value and back",TC+" convert"),("numbers of a model file",MO+" dump/load"),("leaves of a document",JS+" JsonLeaf")],["TypeChecker","CSV","Json","Model::dump","Model::load"])
p("I01","MNIST images and labels are read exactly as stored, in any order",
 "For any well-formed image/label file pair, the declared count and image shape are reported, and image i and label i are exactly the stored bytes at position i, in file order, for any sequence of accesses including repeated, backward and wrapped-around ones. The dataset view of entry i is the pixels of image i followed by label i; the text rendering has one line per pixel row and shows brighter pixels with lighter glyphs, monotonically.",
 ["inputs","histories"],"all image counts and contents; all access sequences",
 "Tests read two ten-image samples of one shape, mostly in order.",
 [MN],[("header parsing and seek arithmetic",MN+" MnistImages/MnistLabels"),("cached current entry",MN+" Mnist image()/label()")],["Mnist::image","Mnist::label","Mnist::entry"])
p("I02","Malformed MNIST files are rejected and damage stays local",
 "Opening an image or label file whose leading magic number is wrong, or that is too short to hold its header, or that does not exist, raises an error, as do an image and a label file that declare different entry counts and an unsupported image shape. When a file holds fewer entries than it declares, reading a missing entry never corrupts the values of any entry that is present, before or afterwards.",
 ["inputs","fault_sequences","histories"],"all header corruptions and truncation points; accesses before and after a failed read",
 "Tests check one missing-file case; truncation at every offset is not sampled.",
 [MN],[("magic number check",MN+" constructors"),("stream state after a short read",MN+" read functions")],["MnistImages","MnistLabels"])
p("I03","CIFAR images and labels are read exactly as stored, in any order",
 "For any CIFAR-10 or CIFAR-100 batch, the labels and the three colour planes of image i are exactly the stored bytes, in the pixel order requested (planes first or colours innermost), for any sequence of accesses, also after an access beyond the end of a short file. The dataset view of entry i is the image values followed by its class label (the fine one for CIFAR-100), class names are those of the metadata files in order, and the grey value of a pixel is the 0.21/0.72/0.07 weighted sum of its red, green and blue.",
 ["inputs","histories"],"all batch contents, both data sets, both pixel orders, all access sequences",
 "Tests read the first ten entries of one batch per data set.",
 [CI],[("record seek arithmetic",CI+" Cifar image()/labels"),("plane interleaving",CI+" image reading"),("brightness",CI+" perception_brightness")],["Cifar::image","Cifar::entry"])
p("D01","A data set keeps the longest prefix of whole sequences and nothing else",
 "A data set built from flat values, a table or a stack of tables contains the longest prefix of the given entries (cut to the smallest common entry width) that forms whole sequences, in order, with every reported size consistent with that content, and nothing else (the sequence length in force is the requested one, limited to the number of entries). Every entry and every sequence below the reported counts reads exactly those values, every index beyond reads as empty, and changing the sequence length later keeps the same guarantee.",
 ["inputs","configurations"],"all shapes (empty, ragged, zero sizes, incomplete sequences) and all sequence lengths",
 "Tests use a few rectangular shapes with exact multiples.",
 [DS],[("size computation and truncation",DS+" constructors, sequence_size()")],["Dataset::entry","Dataset::entry_seq","Dataset::size"])
p("D02","Input and label views split every entry without loss or overlap",
 "For any choice of label positions, the input and label positions partition the feature positions, and for every entry and sequence the input values and label values are exactly the entry's values at those positions in increasing order, alone, per sequence and as whole data sets. Label positions outside the entry are ignored, and re-choosing the labels at any time re-partitions the same data.",
 ["inputs","configurations","histories"],"all data sets, all label sets, re-labelling at any point",
 "Tests use one data set with trailing labels.",
 [DS],[("index sets",DS+" label_idx/input_idx"),("view extraction",DS+" inputs/labels/_field_from_*")],["Dataset::input","Dataset::label","inputs","labels"])
p("D03","Sub-ranges and splits divide a data set without loss or duplication",
 "A sub-range holds exactly the requested consecutive entries (limited to the end of the data set and to whole sequences, the sequence length being limited to the entries taken) with the same labels, and a reversed range is rejected. Splitting by any fraction yields a training part and a testing part that, put one after the other, are the original data set, cut at a sequence boundary with the training share never above the requested fraction and less than one sequence below it.",
 ["inputs"],"all data sets, ranges and fractions including out-of-range ones and empty data",
 "Tests use one data set and three fractions.",
 [DS],[("range and fraction arithmetic",DS+" subdata/split")],["Dataset::subdata","Dataset::split"])
p("D04","Shuffling permutes whole entries and is reproducible",
 "Shuffling a data set yields a rearrangement of exactly the same entries, each kept whole with its labels, with all sizes unchanged, and the arrangement depends only on the generator passed in. Every arrangement of a small data set is reachable.",
 ["inputs"],"all data sets and generator states",
 "Tests check that something moved in one data set.",
 [DS,DM],[("index permutation",DM+" unique_rand_sequence"),("entry relocation",DS+" shuffle")],["Dataset::shuffle"])
p("D05","Concatenating data sets joins them exactly along the chosen axis",
 "Concatenating two data sets of compatible shape along entries, along sequence steps or along features yields the data set whose every value comes from the corresponding position of the first or second operand, with sizes adding up along that axis and labels kept along the first two axes; an empty operand yields the other unchanged. An axis out of range, different labels along the first two axes, or incompatible shapes are rejected with an error.",
 ["inputs","configurations"],"all pairs of shapes and all axes",
 "Tests join one pair of small shapes per axis.",
 [DS,DM],[("block copy",DM+" concatenate"),("shape handling",DS+" concatenate")],["Dataset::concatenate"])
p("D06","Min-max normalisation rescales each column linearly and nothing else",
 "Normalising with explicit bounds maps every value x of the chosen columns to (x-min)/(max-min) and leaves the others unchanged; equal bounds are rejected. Automatic normalisation maps each column into [0,1], sending its minimum to 0 and its maximum to 1 and preserving order, for columns whose range is itself a finite number, and never produces a value that is not a number from finite data, even for a constant column or an empty data set.",
 ["inputs"],"all data sets, bounds and column selections, constant columns, single entries, empty data",
 "Tests normalise one small table.",
 [DS],[("per-column extremes and rescale",DS+" min_max_normalization")],["Dataset::min_max_normalization"])
p("D07","A data set parsed from a file contains exactly the file's encoded entries",
 "Building a data set from any parsed source (CSV, MNIST or CIFAR file) yields one entry per record of the file, in order, whose input values are the record's input values and whose label values are the chosen encoding of the record's labels, with label positions that separate the two.",
 ["inputs","configurations"],"all files, label sets, encodings and sequence lengths",
 "Tests parse one fixed file per format.",
 [DS,PA,CSV,MN,CI],[("composition of parser, encoding and data set",DS+" Dataset::parse")],["Dataset::parse"])
p("D08","Data sets stay exact and independent through any history of operations",
 "After any sequence of constructions, copies, assignments, swaps, re-sequencing, re-labelling, direct writes, sub-ranges, splits, shuffles, normalisations, concatenations and input/label views over several data sets, every data set still holds exactly the entries, sequences, inputs and labels that an ordinary table put through the same operations holds, through every accessor, and no operation on one data set changes another one, its operands included.",
 ["histories","inputs"],"all sequences of data set operations over several data sets",
 "Tests apply one operation to a freshly built data set; what an operation leaves behind for the next one (sizes, label positions, sequence length, shared storage) only shows in histories.",
 [DS],[("members kept in step by every operation",DS+" _dataset, _feature_size, _sequence_size, _dataset_size, _labels_idx, _input_idx")],["Dataset accessors after every operation"],[("sizes and index lists","derived from the data and kept by every operation",DS)])
p("D09","Data sets of every element type behave alike",
 "Any history of constructions, parsing, re-sequencing, re-labelling, writes, sub-ranges, splits, shuffles, joins and views gives, on a data set of any numeric element type (float, long double, signed and unsigned integers of any width), the same shapes, labels, positions and errors as on a data set of doubles, and exactly the values stored, also those a double cannot hold; normalising a data set of floating point numbers gives the same values up to the precision of the element type.",
 ["histories","inputs","configurations"],"all element types, all histories, all values of the type",
 "Tests use data sets of doubles only.",
 [DS],[("the template and its storage",DS)],["Dataset<T>"])
p("L01","Vector, matrix and reduction primitives compute their definitions",
 "Element-wise sums and products, scalar sums and products, reductions, extrema with the first position of the maximum, searches, matrix-vector products and the fully connected kernels over arrays of any length and shape equal their textbook definition, write exactly the destination and read only the operands, also when the destination is one of the operands of an element-wise operation.",
 ["inputs"],"all lengths, shapes and values",
 "Tests use a few hand-written arrays.",
 [DM],[("loops over raw pointers",DM+" arr_*/matarr_*/max*/sum* functions")],["DLMath"])
p("L02","Activations compute their definition, stably, with matching derivatives",
 "Each activation function equals its mathematical definition for every finite input; the stable softmax, which the softmax layer uses, stays at any magnitude a probability distribution ordered like its input and invariant to shifting all inputs; each derivative routine, in the form taking the input and in the form reusing the output, equals the mathematical derivative of the forward function and agrees with it.",
 ["inputs"],"all finite inputs including large magnitudes and ties; all lengths; non-default parameters",
 "Tests evaluate a few fixed vectors.",
 [DM,D+"activation.cpp"],[("activation formulas",DM+" relu/elu/tanh/sigmoid/softmax and *_1"),("layer wrappers",D+"activation.cpp")],["ActivationLayer::forward/backward"])
p("L03","Convolution and pooling equal their naive definitions",
 "Convolution with any kernel, stride, padding, channel and filter count, and maximum and average pooling with any window and stride, equal the direct sums, maxima and means over the windows of the zero-padded input, the convolutional layer adding the bias of each filter to its outputs, the reported output shape is the number of window positions that fit, and no element outside the arrays is touched.",
 ["inputs","configurations"],"all shapes, kernels, strides, paddings, channels, filters",
 "Tests fix a few geometries; index arithmetic errors show only for rectangular kernels, uneven strides or several channels.",
 [DM,D+"convolutional.cpp",D+"max_pooling.cpp",D+"avg_pooling.cpp",D+"pooling.cpp"],[("kernel sliding",DM+" kernel_slide/conv*/max_pool/avg_pool"),("output shapes",D+"convolutional.cpp, pooling.cpp")],["ConvolutionalLayer::forward","PoolingLayer::forward"])
p("L04","Joining, extracting and separating tensors are exact inverses",
 "Concatenating tensors along any axis places every element of every operand at its position shifted along that axis, extracting a range along an axis returns exactly that slice, and separating the concatenation returns the operands unchanged; incompatible shapes or axes are rejected.",
 ["inputs","configurations"],"all 3-d shapes, all axes, zero-sized parts",
 "Tests use a couple of fixed shapes.",
 [DM],[("strided copies",DM+" concatenate/extract/separate")],["DLMath::concatenate","DLMath::extract","DLMath::separate"])
p("L05","Every layer's backward pass is the derivative of its forward pass",
 "For every layer kind, configuration, parameters, input and upstream gradient, the input gradient and all parameter gradients produced by the backward pass equal the derivatives of the forward computation, as observed through finite differences of the forward pass.",
 ["inputs","configurations"],"all layer kinds, geometries, parameters, inputs and upstream gradients",
 "Tests check gradients against a few hand-computed numbers, so a wrong term at another position or geometry passes.",
 [D+"dense.cpp",D+"activation.cpp",D+"convolutional.cpp",D+"max_pooling.cpp",D+"avg_pooling.cpp",DM],[("per-layer backward",D+"*.cpp backward()")],["Layer::backward","Layer::gradient","Layer::last_input_gradient"])
p("L06","Gradients add up over a batch and reset after each update",
 "Between two parameter updates, each parameter's gradient is the sum of the gradients each sample would contribute alone, in any order of samples, and it is zero right after an update, so that one update never leaks into the next. Prediction between training steps changes neither parameters nor accumulated gradients.",
 ["inputs","histories","configurations"],"all models of the supported layers, batches, and interleavings of training steps, updates and predictions",
 "Tests run single backward passes.",
 [D+"dense.cpp",D+"convolutional.cpp",D+"recurrent.cpp",D+"optimizer.cpp",MO],[("accumulation",D+"*.cpp backward()"),("reset",D+"optimizer.cpp train()")],["Layer::gradient","Model::step","Model::train","Model::predict"])
p("L07","The recurrent layer follows its recurrence and its exact gradient",
 "For any sequence length, sizes, parameters and initial state, the recurrent layer's outputs are those of the recurrence h_t = tanh(W_ih x_t + W_hh h_(t-1) + b_h), y_t = W_ho h_t + b_o, where the state left by one pass is the initial state of the next, and its backward pass yields the derivatives through time of every parameter and input, for every time step.",
 ["inputs","configurations","histories"],"all sizes, sequence lengths, states, sequences of calls",
 "Tests check sizes and absence of errors only.",
 [D+"recurrent.cpp"],[("unrolled forward",D+"recurrent.cpp forward"),("backpropagation through time",D+"recurrent.cpp backward")],["RecurrentLayer"],[("hidden state","state kept across calls",D+"recurrent.cpp")])
p("L08","Losses, their gradients and their running scores are exact",
 "Each loss value equals its definition on prediction and target, its gradient is the documented gradient scaled by the batch size, average loss and accuracy after any history of evaluations and resets equal the averages over the samples since the last reset, and a missing target, or one without any positive class for cross-entropy, is rejected.",
 ["inputs","histories","configurations"],"all predictions (including zeros and ties), targets, batch sizes and evaluation histories",
 "Tests evaluate a few vectors once.",
 [D+"loss.cpp",D+"mse_loss.cpp",D+"cce_loss.cpp",DM],[("loss formulas",DM+" cross_entropy/mean_squared_error and *_1"),("running counters",D+"loss.cpp")],["LossLayer::avg_loss","LossLayer::accuracy","backward"],[("score counters","since last reset",D+"loss.hpp")])
p("L09","Optimisers apply exactly their update rule to every parameter",
 "One update by gradient descent moves every parameter by minus the learning rate times its accumulated gradient, and a sequence of updates by Adam moves every parameter by the bias-corrected Adam rule driven by that parameter's own gradient history; each parameter of each trained layer is updated exactly once and its gradient is then zero. A layer that is created after another was destroyed starts with no history.",
 ["inputs","histories","configurations"],"all hyper-parameters, gradient histories and layer shapes",
 "Tests perform one or two steps on fixed numbers.",
 [D+"gd_optimizer.cpp",D+"adam_optimizer.cpp",D+"optimizer.cpp"],[("update rules",D+"*_optimizer.cpp"),("parameter loop",D+"optimizer.cpp")],["Optimizer::train"],[("Adam moments","per-parameter history",D+"adam_optimizer.hpp")])
p("L10","Dropout drops, rescales and back-propagates consistently",
 "In training, each output of a dropout layer is either zero or its input divided by the keep probability, the gradient is passed on, with the same scale, exactly at the kept positions of the latest training pass, and the dropped fraction follows the drop probability; at prediction time the layer is the identity. The pattern depends only on the generator given, and different training passes use different patterns.",
 ["inputs","configurations","histories"],"all inputs, probabilities, generator states and call sequences",
 "Tests check sums over one vector.",
 [D+"dropout.cpp"],[("mask",D+"dropout.cpp training_forward/backward")],["DropoutLayer"],[("drop mask","positions dropped by the latest training pass",D+"dropout.hpp")])
p("L11","Random draws follow their stated distribution and only their generator",
 "Uniform and normal draws, draws between two bounds and the initialisation distributions (zero-centred, with variance one over the number of inputs for Xavier, two over it for Kaiming when normal, and that deviation as full width when uniform) follow the stated distribution, stay within its bounds, and depend only on the state of the generator passed in; a random order of a range of integers contains each exactly once, each equally likely at each position, and an unknown kind of distribution or initialisation is rejected.",
 ["inputs","histories"],"all centres, widths, bounds, input counts, ranges and generator states",
 "Tests draw a few numbers and compare loose bounds; a distribution, or a dependence on hidden state, only shows over many draws from many generators.",
 [DM],[("distributions",DM+" uniform_pdf/normal_pdf/pdf/rand"),("initialisation scale",DM+" initialization/initialization_pdf"),("random order",DM+" unique_rand_sequence")],["DLMath::pdf","DLMath::initialization_pdf","DLMath::unique_rand_sequence"])
p("L12","A layer resized or cloned behaves like the layer built for that shape",
 "A layer of any kind whose input shape is set anew (on it and on all its clones) reports the sizes, shapes and parameter count of, and computes outputs, input gradients and parameter gradients exactly like, a layer constructed directly for that shape with the same parameters. Clones share parameters, so that one written, initialised or updated through any of them is seen by all, while outputs, gradients and states of one are never altered by using another or by its end; every parameter and gradient has an index of its own and an index beyond the last is rejected.",
 ["histories","configurations","inputs"],"all layer kinds, shapes, and histories of resizing, cloning, training, predicting and writing over a family of clones",
 "Tests resize a few layers once and compare sizes; buffers left over from the former shape or shared between clones show only when the layer is used afterwards, in turn with others.",
 [LA,D+"dense.cpp",D+"convolutional.cpp",D+"pooling.cpp",D+"max_pooling.cpp",D+"recurrent.cpp",D+"activation.cpp",D+"dropout.cpp",D+"loss.cpp"],[("resizing",D+"*.cpp _set_input_shape"),("cloning",D+"*.cpp clone"),("shared parameters",LA+" SharedFields"),("parameter indexing",D+"*.cpp param/gradient")],["Layer::input_shape","Layer::clone","Layer::param","Layer::gradient"],[("shared fields","common to all clones",D+"layer.hpp")])
p("M01","A saved model loads back as the same model",
 "Dumping any model and loading the file into a model of the same structure makes every parameter exactly equal and every prediction identical, whatever the parameter values, and restores the layer settings it stores (names without double quotes, kernels, strides, paddings, filters, hidden sizes, time steps, drop probabilities, ELU alpha); dumping again writes the same file; a file describing other kinds of layers is rejected.",
 ["inputs","configurations"],"all supported layer kinds and structures, all finite parameter values",
 "Tests dump and load one small model with parameters near one, within a loose tolerance.",
 [MO,LA,D+"dense.cpp",D+"convolutional.cpp",D+"recurrent.cpp",JS],[("dump/load of each layer",D+"*.cpp dump/load"),("model file",MO+" dump/load")],["Model::dump","Model::load"])
p("M02","Model copies share parameters, keep private gradients, and predict alike",
 "A copy of a model, made at any time, predicts exactly what the original predicts, both see every later parameter update made through either, and training steps on one never alter the gradients, activations or scores of the other; the copy stays usable after the original is gone.",
 ["histories","configurations"],"all models and interleavings of copying, stepping, updating and predicting",
 "Tests copy one model and compare names and sizes.",
 [MO,D+"dlgraph.cpp",LA],[("state cloning",MO+" Model copy, State"),("shared parameter storage",LA+" shared fields")],["Model copy constructor"],[("shared parameters","storage common to all copies",D+"layer.hpp")])
p("M03","The layer graph runs every layer after its inputs, exactly as declared",
 "The graph reports exactly the arcs that were declared, its input and output layers are those without predecessors and successors, and the forward order visits every arc reachable from the inputs once with a layer always computed before it is used, the backward order being consistent in the same way; a copied graph is equal and independent. Prediction of a model wired as any chain or tree of layers, in which each layer has at most one predecessor, equals the composition of its layers' functions.",
 ["histories","configurations"],"all graphs built by sequences of additions",
 "Tests build three fixed graphs.",
 [D+"dlgraph.cpp",D+"dlgraph.hpp",MO],[("arc sets and run orders",D+"dlgraph.cpp"),("execution",MO+" predict/step")],["DLGraph","Model::predict"])
p("M04","Training follows the reference updates, also when it is threaded",
 "Training a network sequentially makes, in order, one optimiser update per batch with the sum of the gradients of its entries, a last shorter batch included. Training a network without dropout with per-entry or per-batch parallelism ends, under every schedule of the worker tasks, with the parameters a sequential execution obtains that computes every sample's gradient of the group at the parameters the group started with and then applies the updates in order.",
 ["schedules","inputs","configurations"],"all task schedules, data sets, batch sizes, worker counts, epochs",
 "Tests run it once under whatever schedule happens and check nothing but absence of errors.",
 [FN,MO],[("task fan-out and collection",FN+" Training<THREAD_*>::run"),("shared parameters",MO+" copy constructor")],["FeedforwardNeuralNetwork::fit"])
p("M05","Threaded dense kernels equal the sequential kernels under any schedule",
 "The threaded forward and backward kernels of a fully connected layer compute exactly the output, input gradient and accumulated parameter gradients of the sequential kernels, up to reordering of floating point sums, under every interleaving of their worker tasks.",
 ["schedules","inputs"],"all sizes, values and interleavings of the tasks' reads and writes",
 "Tests run them once on tiny inputs; lost updates need a particular interleaving.",
 [DM],[("per-row tasks",DM+" dense_thread_opt/dense_1_thread_opt")],["DLMath::dense_thread_opt","DLMath::dense_1_thread_opt"])
p("M06","Initialisation and training are reproducible from their seed",
 "Initialising a model with a given non-zero seed, and training it sequentially on given data with given settings, always produces exactly the same parameters, independently of what happened before in the process, and different seeds produce different parameters. Weights follow the scale of the chosen initialisation rule and biases start at one small constant.",
 ["inputs","histories","configurations"],"all structures, seeds, rules and preceding activity",
 "Tests check that initialisation does not fail.",
 [MO,D+"dense.cpp",D+"convolutional.cpp",D+"recurrent.cpp"],[("seeded generator",MO+" init"),("weight distributions",D+"*.cpp init")],["Model::init","fit"])
p("M07","Network prediction and evaluation are pure and agree with each other",
 "Predicting a data set returns one output per entry, in order, each depending only on that entry and the parameters, whatever other entries, predictions or evaluations came before; evaluation reports exactly the average loss and accuracy computed from those predictions and the labels, and neither changes the parameters. Training with a learning rate of zero changes nothing but the initial parameters drawn.",
 ["inputs","histories","configurations"],"all networks, data sets and sequences of predict/evaluate/fit",
 "Tests compare one value on one network.",
 [FN,NN],[("per-entry prediction",FN+" predict"),("evaluation loop",NN+" evaluate")],["FeedforwardNeuralNetwork::predict/evaluate/fit"])
p("M08","A network description builds exactly the described chain of layers",
 "For every valid list of layer descriptions, the built network has the layers described, in order, each with its activation and with the shape computed from its predecessor, its input and output sizes are those of its ends, and its predictions equal those of the same layers composed by hand; an input description anywhere but first is rejected.",
 ["configurations","inputs"],"all lists of layer descriptions",
 "Tests build two fixed networks.",
 [FN,LD,"source/middleware/layer_descriptor.hpp"],[("layer construction and shape propagation",FN+" add/_add_layer"),("descriptors",LD)],["FeedforwardNeuralNetwork","StaticNeuralNetwork::input_size/output_size"])
p("M09","Training lowers the loss, and reaches the optimum of convex problems",
 "One update over all entries, by gradient descent or by Adam, of any network without dropout, with a rate small enough for the loss to change linearly, lowers the training loss, at least by what the biases of a last dense layer account for. Full-batch gradient descent on a single linear layer with squared error, or a single softmax layer with cross-entropy, at a rate of at most the inverse smoothness of the loss never increases the loss from epoch to epoch and after k epochs exceeds the loss of any parameters u by at most |start-u|^2/(2*rate*k).",
 ["inputs","configurations","histories"],"all networks, data sets, losses and optimisers; all linear and softmax regression problems, rates and epoch counts",
 "Tests train a few fixed networks and look at one number; that the whole chain of loss, backward pass, accumulation and update is a descent method for every network and data set is a statement over all of them.",
 [FN,MO,D+"optimizer.cpp",D+"loss.cpp",D+"dense.cpp"],[("loss gradient, backward pass, accumulation and update composed",FN+" Training<SEQUENTIAL>::run"),("model step and update",MO+" step/train")],["FeedforwardNeuralNetwork::fit/predict"])
p("M10","A damaged model file is rejected and leaves the model as it was",
 "Loading a model file that is missing, empty, cut short at any byte, that lacks a layer, a member or an element of a list, or has a list or dictionary where a number belongs, raises an error, whatever the structure of the model; afterwards the model still has its own name, settings and parameters, predicts what it predicted before, can be trained and copied, and loads the undamaged file.",
 ["inputs","histories"],"all models, all places of the file, all of the faults listed, several in a row",
 "Tests load only files that were written a moment before; what a fault does depends on the place it hits, and leaves a half-loaded model only when it hits behind the first layer.",
 [MO,LA,D+"dense.cpp",D+"convolutional.cpp",D+"recurrent.cpp",D+"pooling.cpp",D+"dropout.cpp",JS],[("layer by layer loading with restoration",MO+" load"),("checked access to the file",JS+" at/as_vec")],["Model::load","Model::dump","Model::predict"])
p("M11","A training step accumulates the gradient of the sum of all the losses",
 "In a model wired as any chain, tree or forest of layers with losses attached to any of its layers, one training step over a sample leaves every layer with the output of its input layer's output, and adds to the gradient of every parameter exactly the derivative of the sum of the losses: a layer that feeds several layers or losses receives the sum of the gradients they hand back, whatever the depth of the branches and the order in which the arcs were created, and a layer that no loss depends on receives none. An update then moves every parameter by the accumulated gradients, and works the same on a copy of the model.",
 ["configurations","inputs","histories"],"all trees and forests of layers, all places of losses, all orders of creation, samples and updates",
 "Tests train chains only; the gradient of a shared layer depends on the shape of the whole graph and the order in which it is walked back.",
 [MO,"source/dnn/dlgraph.cpp",LA,D+"loss.cpp"],[("order and summing of the backward pass",MO+" step, State::gradient_run"),("forward order","source/dnn/dlgraph.cpp training_forward_run")],["Model::step","Model::train","Model::create_edge","Model::create_loss_edge"])
p("K01","Separate objects can be used from several threads at the same time",
 "Threads that each work on objects of their own (JSON documents, table and digit files, data sets, random generators, models and networks, with or without names), or on copies they make of a common object that no thread changes, get exactly the results each would get alone, with no data race between them; names generated for unnamed layers and models never repeat, whichever threads create them.",
 ["schedules","inputs","histories"],"all interleavings of such threads and all their inputs",
 "Tests run on one thread; the training of the library itself relies on this guarantee, and a hidden shared counter, cache or buffer shows only in some interleavings.",
 [D+"dlmath.hpp",JS,"source/parser/csv.hpp",LA,MO,"source/data/dataset.hpp"],[("process-wide counter of generated names",D+"dlmath.hpp unique"),("copies of models and their shared state",LA+" SharedFields")],["Json","CSV","Mnist","Dataset","DLMath::unique","Model","EdgeFeedforwardNeuralNetwork"])
p("K02","Printing shows all parameters of a model in their order and changes nothing",
 "The text printed for a layer is its name followed by every one of its parameters, grouped as the headings say, each heading giving the sizes of the group below it (a recurrent layer prints all its weights, then all its biases); a layer without parameters prints no number. A model prints its layers in order, a loss its average loss and the percentage of correct predictions. Printing changes neither parameters, gradients, outputs nor losses.",
 ["inputs","configurations"],"all layers and models, all parameters",
 "Tests call print and look at nothing.",
 [D+"dense.cpp",D+"convolutional.cpp",D+"recurrent.cpp",D+"loss.cpp",MO],[("printing",D+"*.cpp print")],["Layer::print","Model::print","LossLayer::print"])
p("K03","From a file to predictions, every stage hands on exactly what it was given",
 "A table or digit file with any label columns, plain or one-hot, read into a data set, normalised, shuffled and split, used to fit a network and to evaluate and run it on both parts, gives the predictions, losses and accuracies that follow from the numbers in the file, the formulas of the layers and the update rule; the trained parameters, dumped and loaded into another model, give the same predictions.",
 ["inputs","configurations","histories"],"all files, label columns, networks, losses, optimisers and splits",
 "Tests exercise each stage alone on fixed data; that the columns, orders and sizes the stages assume agree with each other is not tested anywhere.",
 ["source/parser/parser.hpp","source/parser/csv.hpp","source/parser/mnist.hpp","source/data/dataset.hpp",FN,NN,MO],[("parsing into data sets",DS+" parse"),("training loop",FN+" Training<SEQUENTIAL>::run"),("evaluation",NN+" evaluate")],["Dataset::parse","Dataset::split","FeedforwardNeuralNetwork::fit/predict/evaluate","Model::dump/load"])
p("P01","A profile times exactly its calls and reports the statistics of their times",
 "A stopwatch's durations are the times from its latest start, restart or reset to each click in the resolution asked for, never less than was waited and never more than passed; the file it dumps holds exactly these durations, one per click, with all their digits, appended behind what the file held if asked for. A profile calls its function exactly the number of times asked for, with the running number of the call, reports the mean, median (the lower middle one of an even number) and deviation of the recorded times of its own calls only, and writes them to the file it names; a function that throws, or a path that cannot be written, is reported and leaves later profiles unaffected.",
 ["histories","inputs"],"all histories of clicks, resets, dumps and profiles, all durations",
 "Tests call the stopwatch twice and look at nothing; the profile has no test.",
 ["profile/profile.hpp","profile/stopwatch.hpp"],[("timing","profile/stopwatch.hpp click/start"),("statistics and files","profile/profile.hpp profile/_pretty_print")],["Profile::profile","StopWatch"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for q in P:
        if not q["anchors"]["state"]: del q["anchors"]["state"]
        assert len(q["title"])<=80,(q["id"],len(q["title"]))
        f.write(json.dumps(q,ensure_ascii=False)+"\n")
print(len(P))
