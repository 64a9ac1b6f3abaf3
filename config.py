"""Table of checks: one entry per claimed property."""
SETS = {
    "dnn": [r"source/dnn/.*\.cpp"],
    "middleware": [r"source/middleware/(fnn|layer_descriptor)\.cpp"],
    "parser": [r"source/parser/parser\.cpp"],
}
CHECKS = {}
def check(pid, **kw):
    kw.setdefault("harness", pid + ".cpp")
    CHECKS[pid] = kw

check("C01", technique="property-based testing against a hand-written reference recogniser; coverage-guided fuzzing in the thorough tier",
      fuzz=True, require=["none", "int", "float", "bool", "string", "long", "neighbour"])
check("C02", technique="stateful property-based testing: generated CSV files and access histories against the file content kept in memory",
      require=["assigned", "huge_file", "header_only", "no_final_newline", "ragged", "explicit_types", "wrapped", "copied", "empty_last_cell", "missing_cell", "long_line", "many_rows", "many_columns", "aligned_line", "huge_index"])
check("C03", technique="stateful property-based testing: generated iterator histories against row indexes",
      require=["huge_file", "header_only", "no_final_newline", "moved_back", "copied", "read_at_end", "long_line", "many_rows", "many_columns"])
check("C04", technique="property-based testing: differential check of all views of generated CSV files against the generated cells",
      require=["ragged", "labels", "no_final_newline", "header_only", "long_line", "many_rows", "many_columns", "blanks"])
check("C05", technique="property-based testing against a reference encoder",
      require=["hundreds_of_entries", "many_columns", "leading_label", "no_label", "all_labels", "no_entries", "several_labels", "close_values", "many_entries"])
check("C06", technique="fuzzing: random bytes, token soup and edited files under sanitizers against a reference splitter, all views compared; coverage-guided fuzzing in the thorough tier",
      fuzz=True, require=["soup", "edited", "raw", "run", "missing_cell", "empty_file", "directory", "missing", "one_hot", "nul", "carriage_return", "odd_separator"])
check("C07", sources=["dnn", "parser"], technique="differential property-based testing: conversions, tables, documents and model files under generated locales against the classic one",
      require=["odd_locale", "texts", "table", "document", "model"])
check("I01", technique="stateful property-based testing: generated MNIST files and access histories against the bytes written",
      require=["wrapped", "text", "huge_index"])
check("I02", technique="fault-injecting property-based testing: one fault per generated MNIST file pair, then access histories",
      require=["image_magic", "label_magic", "image_header_cut", "label_header_cut", "counts", "shape", "no_image_file", "no_label_file", "image_body_cut", "label_body_cut", "over_declared", "shape_same_size", "magic_of_the_other", "present_after_missing", "directory", "huge_count"])
check("I03", technique="stateful property-based testing: generated CIFAR files and access histories against the bytes written",
      require=["cifar10", "cifar100", "planes", "interleaved", "wrapped", "present_after_missing", "text"])
check("J01", technique="property-based testing: write/read round trip of generated documents; coverage-guided fuzzing of the same property in the thorough tier",
      fuzz=True, require=["list", "dict", "scalar", "empty_container", "double", "trailing", "file", "several_documents", "deep", "long_text", "wide"])
check("J02", technique="stateful model-based testing: editing histories against an ordinary tree",
      require=["created_key", "rejected", "copied", "bad_index", "wide"])
check("J03", technique="property-based testing: pairs of generated and mutated documents against structural equality of the models",
      require=["independent", "copy", "rebuilt", "mutated", "equal", "different", "empty_document", "requoted", "wide", "long_text"])
check("J04", technique="fuzzing: grammar-aware random texts under address/undefined-behaviour sanitizers with time and memory limits; libFuzzer (quick and thorough)",
      fuzz=True, quick_fuzz_s=8, require=["soup", "edited", "prefix", "raw", "run", "rejected", "nested"], case_cpu=10)
check("J05", technique="property-based testing: round trip of generated native values and wrong-shape requests",
      require=["signed", "unsigned", "bool", "double", "float", "text", "many_signed", "many_unsigned", "many_bool", "many_double", "many_text", "empty_document"])

check("D01", technique="property-based testing: generated shapes and re-sequencing histories against the kept rows",
      require=["flat", "table", "ragged_table", "stack", "ragged_stack", "resequenced", "cut", "empty", "sequences", "no_columns"])
check("D02", technique="stateful property-based testing: re-labelling histories against the selected positions",
      require=["hundreds_of_columns", "huge", "relabelled", "label_out_of_range", "leading_label", "no_labels", "all_labels", "sequences", "empty", "with_past", "many_entries", "many_columns"])
check("D03", technique="property-based testing: generated ranges and fractions against the rows kept in memory",
      require=["huge", "sharp", "range", "reversed", "beyond", "prefix", "split", "split_sequences", "empty", "fraction_out_of_range", "with_past", "many_entries", "many_columns"])
check("D04", technique="property-based testing: permutation, reproducibility and reachability of generated shuffles",
      require=["large", "permuted", "moved", "reachability", "empty", "single", "with_past", "many_entries", "many_columns"])
check("D05", technique="property-based testing against an index-by-index reference concatenation",
      require=["labels_dropped", "axis0", "axis1", "axis2", "rejected", "bad_axis", "other_labels", "empty", "labels_kept", "large", "re_sequenced", "cut_from_larger", "labelled_later"])
check("D06", technique="property-based testing: linear map and order invariants over generated columns",
      require=["hundreds_of_columns", "explicit", "automatic", "equal_bounds", "some_columns", "constant_column", "single_entry", "empty", "with_past", "many_entries", "many_columns"])
check("D07", technique="property-based testing: generated files parsed into data sets against the records written",
      require=["csv", "mnist", "cifar", "one_hot", "plain", "sequences", "several_labels", "inner_label", "no_records"], case_cpu=120)

check("D08", technique="stateful model-based testing: histories over several data sets against ordinary tables",
      require=["copied", "assigned", "self_assigned", "swapped", "re_sequenced", "relabelled", "written", "range", "split", "shuffled", "normalised", "automatic", "joined0", "joined1", "joined2", "joined_empty", "join_rejected", "view", "many_entries", "long_history"])

check("D09", sources=["parser"], technique="differential stateful property-based testing: the same histories on data sets of doubles and of other element types",
      require=["float", "int", "long_double", "long_integer", "size", "byte", "cube", "parsed", "joined", "normalised"])
check("L01", technique="property-based testing of each primitive against its definition, over generated lengths, shapes, types and aliasing",
      require=["huge_matrix", "product", "sum", "aliased", "empty", "matrix", "alias_rejected", "extremum", "tie", "found", "not_found", "dense", "dense_1", "simd", "float_type", "int_type", "long_arrays", "large_matrix"])
check("L02", sources=["dnn"], technique="property-based testing against extended-precision definitions, difference quotients and metamorphic laws of softmax",
      require=["relu", "elu", "tanh", "sigmoid", "softmax", "shifted", "plain_softmax", "softmax_layer", "huge", "zero", "in_place", "layer_Relu", "layer_Elu", "layer_Tanh", "layer_Sigmoid", "layer_Linear", "layer_Softmax", "used_before", "many_values", "many_classes"])
check("L03", sources=["dnn"], technique="property-based testing: differential check against direct sums over windows",
      require=["conv", "max", "avg", "layer", "padding", "padding_beyond_kernel", "stride_beyond_kernel", "kernel_too_large", "not_square", "input_shape_changed", "large_image", "many_channels", "many_filters", "large_kernel"])
check("L04", technique="property-based testing: index-by-index reference and join/separate round trips",
      require=["pair", "list", "many", "axis0", "axis1", "axis2", "bad_axis", "bad_shape", "empty_operand", "slice", "empty_slice", "many_dimensions", "bad_slice_axis", "many_operands", "large_operands", "large_slice"])
check("L05", sources=["dnn"], technique="property-based testing: analytic gradients against central differences of the forward pass",
      require=["small_input", "large_input", "dense", "conv", "recurrent", "max_pool", "avg_pool", "relu", "elu", "tanh", "sigmoid", "linear", "softmax", "clone", "second_pass", "gradients_present", "predicted_before", "big_layer", "big_input"])
check("L06", sources=["dnn"], technique="stateful property-based testing: batches in any order against the sum of single-sample gradients and loss differences",
      require=["dense", "conv", "recurrent", "model", "predicted_between", "several_updates", "loss_differences", "big_layer", "big_input"])
check("L07", sources=["dnn"], technique="stateful model-based testing against a reference recurrence and back-propagation through time",
      require=["very_wide", "trained", "one_step", "state_carried", "predicted_on_state", "state_set", "state_reset", "steps_changed", "parameters_changed", "cloned", "long_sequence", "wide"])
check("L08", sources=["dnn"], technique="stateful model-based testing: evaluation histories against kept averages",
      require=["functions", "cce", "mse", "model", "gradient", "correct", "wrong", "reset", "batch_changed", "cloned", "no_target", "zero_target", "long_history", "many_outputs"])
check("L09", sources=["dnn"], technique="stateful model-based testing: interleaved update histories against reference moments",
      require=["adam", "gd", "dense", "conv", "recurrent", "relu", "model", "model_copy", "copy", "reset", "mismatch", "adam_several_layers", "long_history", "zero_gradients", "big_layer", "tiny_gradients", "replaced_in_place"])
check("L10", sources=["dnn"], technique="stateful property-based testing with a statistical bound",
      require=["init", "keep_all", "drop_all", "mixed", "backward", "backward_later", "predicted", "cloned", "fraction", "patterns_differ", "other_generator", "rarely_dropped", "rarely_kept"])

check("L11", technique="property-based testing: distances of generated samples from the stated distributions, permutations, and repetition from equal generators",
      require=["huge_order", "order", "long_order", "empty_order", "positions", "uniform", "normal", "between", "initialisation", "other_draws", "no_width", "unknown_kind"])

check("L12", sources=["dnn"], technique="stateful differential testing: histories over families of clones and changes of shape against layers built directly",
      require=["flat_layer_of_images", "dense", "conv", "recurrent", "max_pool", "avg_pool", "relu", "elu", "tanh", "sigmoid", "linear", "softmax", "dropout", "loss", "resized", "cloned", "used_in_turn", "written", "destroyed", "initialised", "no_such_parameter", "big_input"])

check("M01", sources=["dnn", "parser"], technique="property-based testing: dump/load round trip of generated models",
      require=["dense", "conv", "recurrent", "max_pool", "avg_pool", "relu", "elu", "tanh", "sigmoid", "linear", "softmax", "dropout", "loss", "tree", "extreme", "used_before", "dumped_copy", "other_settings", "target_used", "loaded_copy", "dropout_probability", "trained", "other_kind"])
check("M02", sources=["dnn"], technique="stateful differential testing: histories over model copies against independently built shadows",
      require=["dense", "conv", "recurrent", "dropout", "copied", "stepped", "updated", "updated_from_copy", "written", "initialised", "destroyed", "assigned", "assigned_other", "swapped", "no_loss"])
check("M03", sources=["dnn"], technique="stateful model-based testing of graph construction, and differential testing of wired models against composed layers",
      require=["same_node", "same_loss", "loss", "many", "loss_edge", "arc", "unknown", "copied", "assigned", "self_assigned", "wired", "used_before_added", "several_inputs", "several_outputs", "stepped", "long_history"])
check("M04", san="thread", sources=["dnn", "middleware", "parser"], technique="property-based testing under generated task schedules and real threads under a race detector, against a one-by-one reference trainer",
      require=["tens_of_epochs", "sequential", "per_entry", "per_batch", "chosen", "threads", "eager", "out_of_order", "cce", "mse", "adam", "gd", "partial_batch", "partial_group", "epochs", "network", "fitted_before", "conv", "max_pool", "many_entries", "large_batch", "many_workers", "many_epochs", "big_layer", "big_input"])
check("M05", san="thread", tries=40, technique="property-based testing under generated schedules: numbers that hand over control at every access, chosen task orders, and real threads under a race detector, against the sequential kernels",
      require=["forward", "backward", "interleaved", "chosen", "threads", "eager", "switched", "one_output", "one_input", "large", "many_tasks", "non_finite"])
check("M06", sources=["dnn", "middleware", "parser"], technique="property-based testing: repeated initialisation and training from one seed amid unrelated activity, with statistical bounds on the scale",
      require=["dense", "conv", "recurrent", "dropout", "rule_auto", "rule_xavier", "rule_kaiming", "normal", "uniform", "noise", "another", "again", "copied", "masks", "other_seed", "auto_relu", "random_seed", "scale_normal", "scale_uniform", "training", "training_with_dropout", "trained_before", "refit", "equal_network", "dynamic", "static", "long_past", "big_layer", "big_input"])
check("M07", sources=["dnn", "middleware", "parser"], technique="stateful property-based testing: fit/predict/evaluate histories against single-entry predictions and scores recomputed from them",
      require=["hundreds_of_entries", "long_evaluation", "mse", "cce", "edge", "static", "dynamic", "predicted", "evaluated", "rate_zero", "sequences", "labels_first", "none_right", "some_right", "all_right", "nothing", "not_compiled", "dropout", "conv", "many_entries", "long_history", "big_layer", "big_input"])
check("M08", sources=["dnn", "middleware", "parser"], technique="property-based testing: generated descriptions against a model wired by hand",
      require=["mse", "cce", "he", "xavier", "auto", "edge", "static", "dynamic", "generic", "edited", "late_input", "no_layers", "predicted_first", "recompiled", "trained", "dense", "conv", "max_pool", "avg_pool", "dropout", "relu", "elu", "tanh", "sigmoid", "linear", "softmax"])
check("M09", sources=["dnn", "middleware", "parser"], technique="property-based testing: metamorphic relation between the losses after updates at several rates, and the convergence bound of gradient descent on generated convex problems",
      require=["mse", "cce", "adam", "gd", "edge", "static", "descent", "fell", "bounded", "least_squares", "attainable", "softmax_regression", "halved", "dense", "conv", "max_pool", "avg_pool", "relu", "tanh", "softmax"], case_cpu=60)
check("M10", sources=["dnn", "parser"], technique="fault-injecting property-based testing: one fault per dumped model file, then the state of the loading model",
      require=["other_type", "dense", "conv", "recurrent", "max_pool", "elu", "dropout", "loss", "cut", "element_missing", "member_missing", "no_number", "layers_missing", "empty", "no_file", "stepped", "other_settings"])
check("M11", sources=["dnn"], technique="differential property-based testing of training steps over generated layer trees against the layers run by hand, with central differences of the summed loss",
      require=["branched", "tree", "chain", "several_losses", "inner_loss", "several_inputs", "uneven_branches", "end_without_loss", "cce", "mse", "differences", "several_updates", "several_samples", "copy", "predicted_before"])
check("K01", san="thread", tries=40, sources=["dnn", "middleware", "parser"], technique="property-based testing: generated jobs on several real threads under a race detector, differential against the same jobs run alone",
      require=["json", "json_copy", "csv", "csv_copy", "data", "data_reads", "network", "mnist", "model", "model_copy", "names"])
check("K02", sources=["dnn"], technique="property-based testing: printed text of generated models parsed back and compared with the parameters",
      require=["dense", "conv", "recurrent", "stepped", "loss"])
check("K03", sources=["dnn", "middleware", "parser"], technique="differential property-based testing of the whole pipeline, from generated files to evaluated and reloaded models",
      require=["table", "digits", "one_hot", "normalised", "shuffled", "split", "cce", "mse", "adam", "gd", "by_description", "loaded"])
check("P01", sources=["dnn", "middleware", "parser"], technique="stateful property-based testing of stopwatch and profile histories against times taken outside, their files read back",
      require=["nanoseconds", "microseconds", "milliseconds", "profile", "restarted", "reset", "existing_file", "dumped", "bad_path", "even", "odd", "over_a_millisecond", "new_directory", "appended", "failed"])

NOT_APPLICABLE = {}
