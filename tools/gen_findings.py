#!/usr/bin/env python3
"""Writes known_findings.json: the repaired defects, with the commit that repairs each, and the recorded (unrepaired) ones."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# (property, start of the fix: commit subject, what failed before)
FIXED = [
 ("C01", "infer cell types without std::regex", "a cell of some ten thousand digits overflowed the stack (std::regex recursion)"),
 ("C05", "one-hot encoding keeps the inputs contiguous", "inputs after a leading label column were written over or shifted"),
 ("I03", "perceived brightness is the weighted sum", "the grey value of (r,g,b) was not 0.21r+0.72g+0.07b"),
 ("I02", "reading beyond the end of a short MNIST or CIFAR", "after one read past the end of a short file every later read of a present entry gave zeros"),
 ("I02", "reject MNIST files too short", "a file shorter than its header opened with uninitialised counts"),
 ("I02", "accessing an entry of an empty MNIST", "entry 0 of a file declaring no entries divided by zero"),
 ("C04", "an empty CSV cell reads as zero", "reading an empty cell as a number returned uninitialised memory"),
 ("C02", "an empty last cell of a CSV row", "the last cell of `a,b,` was reported as missing"),
 ("C02", "count the last CSV row", "a file without a final newline reported one row too few"),
 ("C03", "the CSV end iterator", "walking from begin to end lost the last row"),
 ("C02", "CSV row access wraps before", "row(i) with i past the end returned the cached row, and an empty file divided by zero"),
 ("C03", "a CSV iterator moved back", "an iterator moved back after reading past the end read empty rows"),
 ("C02", "the rows of a copied CSV", "rows of a copied CSV referred to the destroyed original's column types"),
 ("J04", "JSON reading accepts empty lists", "`[]`, `{}` misread; `[1,` looped forever"),
 ("J01", "reading JSON from an exhausted stream", "an exhausted stream read an uninitialised character; the stream was left failed after a complete document"),
 ("J03", "comparing an empty JSON document", "Json() == Json() dereferenced a null pointer"),
 ("J05", "an empty JSON leaf reads as zero", "an empty leaf read as a number returned uninitialised memory"),
 ("J01", "an empty text in a JSON document", "an empty text was written as nothing, so [\"\"] was written as []"),
 ("J01", "floating point values written in JSON", "doubles were written with 6 digits"),
 ("J04", "JSON text nested too deeply", "100k opening brackets overflowed the stack"),
 ("J05", "single precision values written in JSON", "floats were written with 6 digits"),
 ("D01", "a data set built from a table", "a table whose entries do not fill the last sequence reported one sequence too many; an empty table was read out of bounds"),
 ("D06", "automatic min-max normalisation", "a constant column became not-a-number and an empty data set read its missing first row"),
 ("D03", "splitting an empty data set", "splitting an empty data set divided by zero"),
 ("L02", "the softmax derivative does not overflow", "the derivative in terms of the input was not-a-number for inputs above about 709"),
 ("L03", "a kernel larger than its input", "a kernel larger than the input wrapped the output size around and read out of bounds; a zero stride divided by zero"),
 ("L05", "average pooling passes the gradient also", "the gradient of element 0 of the input was never written"),
 ("L05", "max pooling passes the gradient to the first", "a maximum at element 0 of the input got no gradient"),
 ("L06", "the bias gradient of a convolutional layer", "each sample overwrote the bias gradient of the previous one"),
 ("L07", "the recurrent layer differentiates tanh", "tanh was differentiated at its result, so every gradient through the state was wrong"),
 ("L07", "the recurrent layer with one time step", "with one time step the output was computed from a partly overwritten state"),
 ("L07", "the recurrent layer takes the first time step", "the gradient of the first time step used the final state instead of the initial one"),
 ("L09", "Adam keeps the moments", "all layers shared one pair of moment vectors indexed by position"),
 ("L10", "a dropout layer outputs its inputs", "prediction returned the outputs of the latest training pass"),
 ("M06", "the initialisation seed of a model determines", "dropout layers drew their masks from a random device whatever the seed"),
 ("M01", "the alpha of an ELU layer", "alpha was neither written nor read"),
 ("M06", "fitting again with another batch size", "a second fit kept scaling the gradients by the first fit's batch size"),
 ("M02", "an assigned or swapped model", "an assigned model ran the layers of the graph it was copied from"),
 ("M03", "a graph counts a layer without arcs", "a graph whose last addition was a node reported stale input and output layers"),
 ("M04", "parallel training updates the parameters only", "the first finished copy updated the shared parameters while others were still reading them"),
 ("M04", "parallel training on batches does not update", "chunks beyond the end of the data applied optimiser updates with zero gradients"),
 ("L03", "a convolutional layer adds the bias", "the bias of a filter was trained but never added to its output"),
 ("M03", "a loss layer added to a graph twice", "the graph listed the latest layer as a loss layer once more"),
 ("M05", "the threaded dense gradient", "several tasks added to the same input gradient without synchronisation"),
 ("M10", "a model file that cannot be loaded", "a file rejected half-way left the model with the name, some layers and some buffer sizes of the file, so that its next use read outside its buffers"),
 ("M11", "a training step sums the gradients", "a layer followed by several layers or losses handed back only the gradient of the last of them, and ran backwards before a deeper branch was done"),
 ("J01", "reading a JSON list or dictionary replaces", "a list or dictionary read into an object that held elements was appended to or merged with them"),
 ("K01", "generated names are unique across threads", "the counter behind the names of unnamed layers and models was a plain static incremented by all threads"),
 ("K02", "a loss layer prints one percent sign", "the loss printed two percent signs"),
 ("K02", "a recurrent layer prints the sizes of its weights", "the headings of the hidden and output weights gave the input size as their width"),
 ("P01", "a profile does not report the times of a failed one", "the times of a profile whose function threw were counted to the next one"),
 ("P01", "a stopwatch dumps all the digits of its durations", "durations above a million units were written with six digits"),
 ("C06", "a directory is not read as a table", "a directory was read as a table with one row"),
 ("C07", "numbers are converted the same way in every locale", "with a decimal comma in the global locale a saved model could not be loaded and tables lost their decimals"),
 ("C02", "assigning a row or a cell does not change the types of its table", "a row or cell variable assigned from another column or table overwrote the column types of the table it had come from"),
 ("L09", "Adam does not carry the history", "a layer created where a destroyed one had been inherited its Adam moments and time step"),
 ("D09", "data sets of every element type can be parsed", "Dataset<T>::parse compiled for doubles only"),
]
FINDINGS = []
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s", "4ea01c7..HEAD"], text=True).splitlines()]
out = []
for pid, start, what in FIXED:
    m = [h for h, s in log if s.startswith("fix: " + start)]
    assert len(m) == 1, (start, m)
    out.append("fixed: property=%s %s %s" % (pid, m[0], what))
assert len(out) == len(log), "a fix commit is not recorded"
json.dump({"findings": FINDINGS, "fixed": out}, open(V + "/known_findings.json", "w"), indent=1)
open(V + "/known_findings.json", "a").write("\n")
