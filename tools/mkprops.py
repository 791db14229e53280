#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so that the statements stay readable).
import json,os
S='src/'
def P(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    return dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[f for f in files],state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None))
W='src/models/wisard/'; C='src/models/cluswisard/'; K='src/common/'; D='src/data/'
props=[
P('C01','RAM addresses are exact, injective, and bad values are rejected',
 "Every RAM turns the input values v_0..v_{n-1} at its mapped positions into the address sum(v_j * base^j), so that inputs that differ at a mapped position always get different addresses. An input value that is negative or not below the base makes training, untraining and classification throw. A RAM whose base and number of positions give more than 2^64 addresses cannot be constructed.",
 ['inputs','configurations'],"all inputs, all mappings, all bases and address sizes",
 "Tests train a handful of tiny binary patterns with base 2 (and one base 3 case); 64-bit wrap-around, large bases and off-by-one range checks need values no test samples.",
 [W+'ram.cc','include/wisardpkg.hpp'],
 [('RAM::getIndex / checkPos / checkLimitAddressSize',W+'ram.cc')],[('addresses, base','mapped positions and radix of a RAM',W+'ram.cc')],
 ['RAM::getVote','RAM::train','RAM::untrain','Discriminator::classify']),
P('C02','A vote counts the trainings that share the address',
 "The vote of each RAM for an input equals the number of training inputs that had the same values as it at that RAM's mapped positions, in whatever order the trainings came, and is 0 if there were none or if ignoreZero is set and all those values are 0. The votes of a discriminator are those of its RAMs, in order, one per RAM, and its number of trainings is the number of inputs trained. Classifying never changes the model.",
 ['inputs','histories','configurations'],"all training histories, all inputs, all mappings and bases, ignoreZero on and off",
 "Tests check a few fixed vote vectors after one or two trainings; the count must be right for every history, including collisions and repeated inputs.",
 [W+'ram.cc',W+'discriminator.cc'],
 [('RAM::train, RAM::getVote',W+'ram.cc'),('Discriminator::train, _classify',W+'discriminator.cc')],
 [('positions','content of each address of a RAM',W+'ram.cc'),('count','number of trainings',W+'discriminator.cc')],
 ['Discriminator::classify','Discriminator::getNumberOfTrainings']),
P('C03','Untraining exactly reverses training',
 "Untraining an input takes exactly one from the content of the address the input selects in each RAM that has that address, and from the number of trainings, and changes nothing else; so training an input and then untraining it gives back the votes of every input and the number of trainings. Leaving inputs out of a Wisard does this in the model of the given class only, and does nothing for a class it does not know. Untraining an input no RAM knows changes no vote.",
 ['inputs','histories'],"all histories followed by a train/untrain pair, all inputs probed afterwards",
 "The tests untrain one sample and look at one output; they do not compare the votes of other inputs, shared addresses or other classes.",
 [W+'ram.cc',W+'discriminator.cc',W+'wisard.cc'],
 [('RAM::untrain',W+'ram.cc'),('Discriminator::untrain',W+'discriminator.cc'),('Wisard::leaveOneOut, leaveMoreOut',W+'wisard.cc')],(),
 ['Discriminator::untrain','Wisard::leaveOneOut','Wisard::leaveMoreOut']),
P('C04','A discriminator maps the entry as configured',
 "With a random mapping every RAM gets exactly addressSize positions of the entry and, with complete addressing, every position of the entry belongs to some RAM (only the padding of the last RAM repeats positions); without it no position is used twice. A given list of indexes is cut in order into RAMs of addressSize positions and a given mapping is used verbatim, one RAM per list. Address sizes below 2 or above the entry size, entry sizes below 2, bases below 2, positions outside the entry and index lists that are not a permutation of the entry are rejected with an exception.",
 ['inputs','configurations'],"all entry sizes, address sizes, index lists, mappings, random draws",
 "Tests construct a few fixed sizes; divisibility corner cases and every possible shuffle cannot be sampled.",
 [W+'discriminator.cc'],
 [('setRAMShuffle, setRAMByIndex, setRAMByMapping',W+'discriminator.cc'),('checkAddressSize, checkListOfIndexes, checkIndexesRange',W+'discriminator.cc')],
 [('rams','the RAMs and their positions',W+'discriminator.cc')],['Discriminator::Discriminator','Discriminator::json','Discriminator::classify']),
P('C05','Classes of a Wisard are independent and results stay in order',
 "Training a Wisard on (image, label) pairs trains exactly the model of each label with its own images, creating it with the configured mapping, indexes, base and flags when the label is new, and leaves the models of all other labels as they were. Classification gives one label per image in the order of the images and the result for one image does not depend on the other images. Lists of images and labels of different length, and a confidence above the number of RAMs, are rejected before anything is trained.",
 ['inputs','histories'],"all sequences of train and classify calls, all label sets",
 "Tests use two classes and a few images; independence is a statement about all labels, all histories and all positions in the list.",
 [W+'wisard.cc'],
 [('Wisard::train, makeDiscriminator, checkInputSizes, checkConfidence',W+'wisard.cc'),('Wisard::_classify, __classify',W+'wisard.cc')],
 [('discriminators','label -> model',W+'wisard.cc')],['Wisard::train','Wisard::classify']),
P('C06','Bleaching picks the first threshold that separates the classes',
 "The degree of a class at threshold b is the number of its RAM votes that are at least b, and without bleaching the result is the degrees at threshold 1. With bleaching the result is the degrees at the smallest threshold b >= 1 at which the two largest degrees differ by at least the confidence or no degree is above 1 (a single class is never ambiguous for a positive confidence). The search always ends and does not depend on the names or order of the classes.",
 ['inputs','configurations'],"all vote tables, all confidences, bleaching on and off",
 "Tests look at the final label of a few images; termination, the exact stopping threshold and order independence need all vote tables.",
 [K+'bleaching.cc'],
 [('Bleaching::makeConfidenceless, isThereAmbiguity, make',K+'bleaching.cc')],(),['Bleaching::make','Wisard::classify']),
P('C07','The winner has the largest degree and confidence is the relative margin',
 "The class returned is one with the largest degree, the last in alphabetical order if several tie, and the empty label if there is no class. The confidence of a degree is (degree - largest lower degree)/degree, always between 0 and 1, and 0 for a degree of 0. Neither computation changes the degrees.",
 ['inputs'],"all tables of class degrees",
 "Tests check one table; ties, empty tables, zero degrees and any number of classes matter.",
 [K+'bleaching.cc'],
 [('Bleaching::getBiggestCandidate, getConfidence',K+'bleaching.cc')],(),['Wisard::classify','ClusWisard::classify','Bleaching::getConfidence']),
P('C08','Base64 encoding round-trips every byte string',
 "Decoding the encoding of any byte string gives back exactly that string, and the encoding is the padded RFC 4648 base64 text of it. Encoding and decoding never touch memory outside of their strings, for any text given, and a text whose length is not a multiple of 4 is rejected.",
 ['inputs'],"all byte strings of any length (including bytes above 127 and NUL), all texts for decode",
 "The test encodes a few strings; sign extension, each residue of the length modulo 3 and every byte value must work.",
 [K+'utils.cc'],[('Base64::encode, Base64::decode',K+'utils.cc')],[('charsMap, indexMap','the alphabet and its inverse',K+'utils.cc')],
 ['Base64::encode','Base64::decode','BinInput::data','RAMDataHandle::data']),
P('C09','Serialized RAM contents read back identically',
 "The data text of a set of RAM contents, read back, gives the same addresses with the same values for every RAM, for all 64-bit addresses and all 32-bit values and any number of RAMs. Comparing two sets says equal exactly when they hold the same contents, reading one address or RAM never changes a set and gives 0 or nothing for what is not there, and setting a value changes that address of that RAM only.",
 ['inputs','histories'],"all contents, all texts, all sequences of get/set/compare/data",
 "Tests round-trip one small set; byte order, sign, separators and RAM order must be right for all contents.",
 [W+'ramdatahandle.cc',K+'utils.cc'],
 [('RAMDataHandle::data, setData, dataToRam, get, set, compare',W+'ramdatahandle.cc'),('convertToBytes, convertToValue',K+'utils.cc')],
 [('ramdata','RAM number -> address -> value',W+'ramdatahandle.cc')],['RAMDataHandle']),
P('C10','A saved discriminator or Wisard restores to an equal model',
 "A Discriminator or Wisard restored from the JSON its json() gives, inline or with the contents in files, has the same classes, mapping, base, ignoreZero, entry size, number of trainings and RAM contents, so it gives the same votes and can be trained on with the same effect as the original. A configuration from jsonConfig() restores to an untrained model with the same settings and mapping. Saving does not change the model.",
 ['inputs','histories','configurations'],"all models reachable by construction and training, untrained models and models of several classes included",
 "Tests restore one or two small models and compare one classification; every field, every label and every content must survive.",
 [W+'discriminator.cc',W+'wisard.cc',W+'ram.cc',W+'ramdatahandle.cc'],
 [('Discriminator::json, getConfig, getRAMsData, setRAMsData',W+'discriminator.cc'),('Wisard::json, getConfig, getClassesJSON, Wisard(std::string)',W+'wisard.cc'),('RAM(nl::json), RAM::getData',W+'ram.cc')],(),
 ['Discriminator::json','Wisard::json','Wisard::Wisard(std::string)']),
P('C11','A saved ClusWisard restores to an equal model',
 "A ClusWisard restored from the JSON its json() gives has the same settings and the same clusters, in the same order, for every class and for the unsupervised cluster, with the same mappings, contents and numbers of trainings, so that it classifies and keeps learning as the original would. jsonConfig() restores to an untrained model with the same settings. Saving does not change the model.",
 ['inputs','histories','configurations'],"all ClusWisard models reachable by construction and training",
 "Tests restore one model and compare a classification; growth limits, scores and unsupervised clusters are not compared.",
 [C+'cluswisard.cc',C+'cluster.cc'],
 [('ClusWisard::json, getConfig, ClusWisard(std::string)',C+'cluswisard.cc'),('Cluster::getJson, Cluster(nl::json)',C+'cluster.cc')],(),
 ['ClusWisard::json','ClusWisard::ClusWisard(std::string)']),
P('C12','A cluster grows by its score and limit policy',
 "Training a cluster trains every discriminator whose score for the input (the sum of its votes over the largest vote times the number of RAMs, 0 without votes) reaches min(1, minScore + trainings/threshold); if none does, a new discriminator is added and trained while there are fewer than discriminatorsLimit, and otherwise one with the best score is trained. An empty cluster gets its first discriminator. Discriminators that are not trained stay as they were, and there are never more than discriminatorsLimit (at least one) of them.",
 ['inputs','histories','configurations'],"all training histories, scores, limits and thresholds",
 "Tests count discriminators after one short history; the policy concerns every history and the state of every discriminator.",
 [C+'cluster.cc'],[('Cluster::train, getScore, makeDiscriminator',C+'cluster.cc')],[('discriminators','the discriminators in order of creation',C+'cluster.cc')],
 ['ClusWisard::train','ClusWisard::getMentalImage','ClusWisard::json']),
P('C13','ClusWisard trains and answers per class',
 "Supervised training trains the cluster of each label with its images only; semi-supervised training first trains the labelled images and then each unlabelled image, in order, on the cluster of the class the model then gives it, and unsupervised training touches the unsupervised cluster only. Classification answers, for each image in order, with the class one of whose discriminators wins the bleaching, whatever characters the class name has, and does not change the model. Mismatched lists, more labels than inputs and label maps without any valid index are rejected.",
 ['inputs','histories'],"all sequences of supervised, semi-supervised, unsupervised training and classification, all labels",
 "Tests use a few images and labels; which image trains which cluster is visible only through the state of every cluster.",
 [C+'cluswisard.cc'],
 [('ClusWisard::train (3 overloads), trainUnsupervised, classify, classifyUnsupervised',C+'cluswisard.cc')],
 [('clusters, unsupervisedCluster','label -> cluster, and the unsupervised one',C+'cluswisard.cc')],['ClusWisard::train','ClusWisard::classify','ClusWisard::getMentalImages']),
P('C14','BinInput is an exact bit vector',
 "A BinInput of size n reads back, at each index below n, whether the last value set there (or the value it was built from) was non-zero, and 0 where nothing was set; setting one index changes no other. Its size is exactly n, any access at or beyond n throws, and its data text rebuilds a BinInput with the same size and bits. Texts that do not describe a bit vector are rejected.",
 ['inputs','histories'],"all sizes (all residues modulo 8), all sequences of set, all values, all data texts",
 "Tests set a few bits of two sizes; bit order, the last partial byte, sign extension and neighbouring bits must be right for all.",
 [D+'bininput.cc',K+'utils.cc'],[('BinInput::get, set, size, data, setConfig, BinInput(data)',D+'bininput.cc')],[('input, remain','packed bits and unused bits of the last byte',D+'bininput.cc')],
 ['BinInput']),
P('C15','BinInput and plain lists are interchangeable',
 "Training or classifying with a BinInput has exactly the same effect and result as with the list of its bits, for discriminators, clusters and Wisard (through DataSet). This includes sizes, votes, exceptions and the state of the model afterwards.",
 ['inputs','histories','configurations'],"all bit vectors, all models, mixed histories of both kinds",
 "Tests compare one trained Wisard; the template instances must agree on every input and in every state.",
 [W+'ram.cc',W+'discriminator.cc',W+'wisard.cc',C+'cluster.cc',D+'bininput.cc'],
 [('RAM::getIndex<T>, train<T>, getVote<T>',W+'ram.cc'),('Discriminator::train<T>, _classify<T>',W+'discriminator.cc'),('Wisard::train(DataSet), classify(DataSet)',W+'wisard.cc')],(),
 ['Discriminator::train','Discriminator::classify','Wisard::train','Wisard::classify']),
P('C16','A DataSet keeps its inputs and labels, in memory and in files',
 "Inputs added to a DataSet are returned at their position, in the order added, with the label given for that position; asking for a missing position or for the label of an unlabelled one throws. A DataSet loaded from the file another was saved to has the same inputs at the same positions with the same labels, and the same positions without label, whatever bytes the labels have and whatever the file held before. Saving does not change the DataSet.",
 ['inputs','histories'],"all sequences of add/get/getLabel/save/load, all labels",
 "Tests save and load one small set; separators in labels, unlabelled and empty inputs and existing files are not covered.",
 [D+'dataset.cc',D+'bininput.cc',K+'utils.cc'],[('DataSet::add, get, getLabel, save, DataSet(filename)',D+'dataset.cc')],[('data, labels','inputs, and labels by position',D+'dataset.cc')],
 ['DataSet']),
P('C17','KernelCanvas output marks the activated kernels only',
 "The output of a transform has numberOfKernels*bitsByKernel values, each 0 or 1, with equal values within each kernel's group of bits, and a group is 1 exactly if its kernel was among the round(activationDegree*numberOfKernels) nearest kernels for some point of the sequence. Dimensions, numbers of kernels or bits below 1, activation degrees outside [0,1] and points of the wrong dimension are rejected. A transform changes neither the kernels nor its input, and never reads or writes out of bounds, with or without direction.",
 ['inputs','configurations'],"all sequences, dimensions, numbers of kernels, degrees",
 "Tests check the output size of one configuration; the buffer arithmetic of the direction mode and the group structure need all configurations.",
 ['src/binarization/kernelcanvas.cc'],
 [('KernelCanvas::transform, calculatePoint, calculateDistances, activateKernels, checkInputs',"src/binarization/kernelcanvas.cc")],[('kernels','the fixed kernel points','src/binarization/kernelcanvas.cc')],
 ['KernelCanvas::transform']),
P('C18','A mental image counts the non-zero trained values per position',
 "The mental image of a discriminator has one value per entry position: the sum, over the RAMs and the places in them mapped to that position, of the contents of the non-zero addresses whose digit at that place is not 0. Cluster and model mental images are those of their discriminators, by class and in order, and an unknown class has none. Computing mental images does not change the model.",
 ['inputs','histories','configurations'],"all trained models, mappings that repeat positions, all bases",
 "Tests compare one binary mental image; digits of large bases, repeated positions and 64-bit addresses are not sampled.",
 [W+'ram.cc',W+'discriminator.cc',W+'wisard.cc',C+'cluster.cc',C+'cluswisard.cc'],
 [('RAM::getMentalImage, convertToBase',W+'ram.cc'),('Discriminator::getMentalImage',W+'discriminator.cc'),('Wisard/Cluster/ClusWisard::getMentalImages',W+'wisard.cc')],(),
 ['Discriminator::getMentalImage','Wisard::getMentalImages','ClusWisard::getMentalImage','ClusWisard::getMentalImages']),
P('C19','Synthesized patterns follow the mental image',
 "Every pattern a Synthesizer makes has the size of its mental image and only values 0 and 1. With m the largest value of the image (m > 0), position i is 1 in exactly min(max(v_i,0), m) of the m equally likely patterns, so positions of value 0 or less are always 0 and those of the largest value always 1. An image without positive values gives only zeros, and making patterns does not change the Synthesizer.",
 ['inputs','schedules'],"all mental images, all random draws",
 "The test makes one pattern; the guarantee is about every draw and every image (blank, negative, single valued).",
 ['src/synthetic_data/synthesizers.cc'],[('Synthesizer::makeCube, make','src/synthetic_data/synthesizers.cc')],[('cube, maxData','patterns by position and their number','src/synthetic_data/synthesizers.cc')],
 ['Synthesizer::make']),
P('C20','No call crashes: bad arguments throw, memory is never violated',
 "No public operation of the library, called with any arguments and in any order, reads or writes outside of its containers, divides by zero, dereferences a null pointer, converts or shifts out of range, or runs for ever. Arguments that cannot be served are rejected with an exception, and inputs of the wrong size never change a model.",
 ['inputs','histories','configurations'],"all arguments and all call sequences (containers below 2^31 elements, counters below 2^31-1)",
 "The tests pass valid small arguments and check a few rejections; memory safety is a statement about all arguments.",
 [K+'utils.cc',K+'bleaching.cc',D+'bininput.cc',D+'dataset.cc',W+'ram.cc',W+'ramdatahandle.cc',W+'discriminator.cc',W+'wisard.cc',C+'cluster.cc',C+'cluswisard.cc','src/synthetic_data/synthesizers.cc','src/binarization/kernelcanvas.cc'],
 [('the check* functions of every class','src')],(),['every public operation']),
P('C21','Every configured option reaches the model',
 "Every option of a Discriminator, Wisard, ClusWisard or KernelCanvas takes exactly the value given for it, in the C++ JSON options and in the Python keyword arguments alike, and its documented default when it is not given; options not named do not affect it. The options govern the models created afterwards. ClusWisard rejects minScore outside [0,1], thresholds below 1 and discriminator limits below 1.",
 ['inputs','configurations'],"all combinations of options and values",
 "Tests set one or two options at a time and never check the defaults of the others.",
 [W+'discriminator.cc',W+'wisard.cc',C+'cluswisard.cc','src/wrappers/wisardwrapper.cc','src/wrappers/cluswisardwrapper.cc','src/wrappers/discriminatorwrapper.cc'],
 [('Wisard(int, nl::json), ClusWisard(..., nl::json), Discriminator(..., nl::json)',W+'wisard.cc'),('WisardWrapper, ClusWisardWrapper, DiscriminatorWrapper','src/wrappers')],(),
 ['constructors','json()']),
]
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl'),'w') as f:
    for p in props:
        assert p['statement'].count('. ')<=2,(p['id'],p['statement'].count('. '))
        assert len(p['title'])<=80,p['title']
        f.write(json.dumps(p)+'\n')
