"""Which functions (contract keys, as regular expressions) each property rests on, and its harness."""
import os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ASSUMPTIONS = [
    'containers have fewer than 2^31 elements; larger sizes throw std::length_error or std::bad_alloc',
    'accumulated counters (contents, numbers of trainings) stay within int',
    'allocation succeeds or throws; no other thread uses the same object at the same time',
    'the meaning of the standard library operations in lib/*.mlw (std::vector, std::string, std::map, std::unordered_map, streams, nlohmann::json)',
]

def known(pid):
    out = []
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'known: property=%s (.*)' % pid, l)
        if m: out.append(m.group(1).strip())
    return out

PROPS = {
'C01': dict(roots=[r'RAM::RAM\(vec<int>,bool,int\)', r'RAM::checkLimitAddressSize\(int,int\)', r'RAM::checkPos\(int\)', r'RAM::getIndex\(.*\)', r'RAM::train\(.*\)', r'RAM::untrain\(.*\)', r'RAM::getVote\(.*\)'],
            lemmas=['addr_bound', 'addr_inj', 'addr_mono'],
            harness=['c01']),
'C02': dict(roots=[r'RAM::RAM\(vec<int>,bool,int\)', r'RAM::train\(.*\)', r'RAM::getVote\(.*\)', r'Discriminator::train\(.*\)', r'Discriminator::classify\(.*\)', r'Discriminator::getNumberOf.*\(\)'], lemmas=['counts_train', 'dcounts_train_all', 'dcounts_vote_all'], harness=['c02']),
'C03': dict(roots=[r'RAM::untrain\(.*\)', r'RAM::train\(.*\)', r'Discriminator::untrain\(.*\)', r'Discriminator::train\(.*\)', r'Discriminator::classify\(.*\)', r'Wisard::leaveOneOut\(.*\)', r'Wisard::leaveMoreOut\(.*\)'], lemmas=['untrain_train', 'untrain_unknown', 'wleftout_step'], harness=['c03']),
'C04': dict(roots=[r'^Discriminator::Discriminator\(int,int(,json)?\)', r'Discriminator::Discriminator\(int,int,bool,bool,int\)', r'Discriminator::Discriminator\(vec<int>,int,int,bool,int\)', r'Discriminator::Discriminator\(vec<vec<int>>,int,bool,int\)', r'Discriminator::setMapping\(.*\)', r'calculateNumberOfRams\(.*\)'], harness=['c04']),
'C05': dict(roots=[r'^Wisard::train\(vec.*\)', r'^Wisard::train\(DataSet\)', r'^Wisard::classify\((vec<vec<int>>|DataSet)\)', r'^Wisard::makeDiscriminator\(.*\)'], lemmas=['wtrained_step', 'wline_other', 'wanswer_unique'], harness=['c05', 'pyout.py']),
'C06': dict(roots=[r'Bleaching::make\(.*\)', r'Bleaching::makeConfidenceless\(.*\)', r'Bleaching::makeWithConfidence\(.*\)'], lemmas=['undecided_at', 'undecided_fit'], harness=['c06', 'pyout.py']),
'C07': dict(roots=[r'Bleaching::getBiggestCandidate\(.*\)', r'Bleaching::getConfidence\(.*\)'], harness=['c07', 'pyout.py']),
'C08': dict(roots=[r'Base64::encode\(str\)', r'Base64::decode\(str\)'], harness=['c08']),
'C12': dict(roots=[r'^Cluster::train\(.*\)', r'^Cluster::classify\(.*\)', r'^Cluster::getScore\(.*\)', r'^Cluster::makeDiscriminator\(int\)', r'^Cluster::getSize\(\)', r'^Cluster::getNumberOfDiscriminators\(\)', r'^Cluster::Cluster\(int.*\)', r'^Cluster::Cluster\(\)'],
            lemmas=['cbest_one_at'], harness=['c12']),
'C13': dict(roots=[r'^ClusWisard::ClusWisard\(int,float,int,int(,json)?\)', r'ClusWisard::train\(.*\)', r'ClusWisard::trainUnsupervised\(.*\)', r'ClusWisard::classify\(.*\)', r'ClusWisard::classifyUnsupervised\(.*\)', r'ClusWisard::makeClusters\(.*\)', r'ClusWisard::check(InputSizes|Confidence|LabellessSize|InputLabels)\(.*\)'],
            lemmas=['cwreach_step', 'cwlab_step', 'cwunl_step', 'cunsup_step', 'missing_in', 'ckey_inj'], harness=['c13', 'pyout.py']),
'C18': dict(roots=[r'RAM::getMentalImage\(\)', r'Discriminator::getMentalImage\(\)', r'^Wisard::getMentalImages\(\)', r'Cluster::getMentalImages\(\)', r'ClusWisard::getMentalImages?\(.*\)'], harness=['c18']),
'C19': dict(roots=[r'^Synthesizer::Synthesizer\(vec<int>\)', r'Synthesizer::make\(\)', r'Synthesizer::makeCube\(vec<int>\)', r'^randint\(.*\)'], lemmas=['syn_pattern', 'ones_number'], harness=['c19']),
'C17': dict(roots=[r'^KernelCanvas::KernelCanvas\(int,int(,json)?\)', r'^KernelCanvas::transform\(.*\)', r'^KernelCanvas::setupKernelCanvas\(.*\)', r'^KernelCanvas::check(Inputs|Dimension)\(.*\)'], lemmas=['kc_sorted', 'kc_active_fits'], harness=['c17']),
'C15': dict(roots=[r'^RAM::(train|getVote|getIndex)\((vec<int>|BinInput)\)', r'^Discriminator::(train|classify|_classify)\((vec<int>|BinInput)\)', r'^Cluster::(train|classify)\((vec<int>|BinInput)\)', r'^Wisard::train\((vec<int>|BinInput),str\)', r'^Wisard::(__)?classify\((vec<int>|BinInput),bool\)',
    r'^Wisard::train\((DataSet|vec<vec<int>>,vec<str>)\)', r'^Wisard::_?classify\((DataSet|vec<vec<int>>)\)', r'^BinInput::(BinInput\(vec<s16>\)|get\(u64\)|operator\[\]\(u64\)|size\(\))', r'^DataSet::add\(.*\)', r'^DataSet::operator\[\]\(.*\)', r'^DataSet::size\(\)'], harness=['c15']),
'C14': dict(roots=[r'BinInput::BinInput\(\)', r'BinInput::BinInput\(u64\)', r'BinInput::BinInput\(vec<s16>\)', r'BinInput::BinInput\(str\)', r'BinInput::operator\[\]\(u64\)', r'BinInput::get\(u64\)', r'BinInput::set\(u64,int\)', r'BinInput::size\(\)', r'BinInput::data\(\)'],
            harness=['c14']),
'C09': dict(roots=[r'^RAMDataHandle::.*', r'Base64::encode\(str\)', r'Base64::decode\(str\)'], harness=['c09'],
    note='Files are modelled as named texts (lib/stream.mlw).'),
'C10': dict(roots=[r'Discriminator::setMapping\(.*\)', r'RAM::RAM\((vec<int>,bool,int|json)\)', r'RAM::(getConfig|getData)\(\)', r'^Discriminator::(train|classify|_classify)\(vec<int>\)', r'^Wisard::train\(vec<int>,str\)', r'^Wisard::classify\(vec<int>,bool\)',
            r'^Discriminator::(json|jsonConfig|getJSON|getConfig|getConfigJSON|getRAMsData|setRAMsData)\(.*\)', r'^Discriminator::Discriminator\((json|str)\)', r'^Wisard::(json|jsonConfig|getConfig|getClassesJSON|getConfigClassesJSON)\(.*\)', r'^Wisard::Wisard\(str\)', r'^getRandomString\(int\)'],
            lemmas=['saved_loads', 'config_loads', 'wsaved_loads', 'wconfig_loads', 'dequal_votes', 'dequal_trains'], harness=['c10'],
    note='JSON values and texts are modelled by lib/json.mlw (trusted: nlohmann::json encodes and decodes as documented, and a written text parses back to the same value); files by lib/stream.mlw. Contracts: what saving writes (dsaved, wsaved), what restoring builds (dloaded, wloaded); lemmas: whatever is saved can be restored and restores to an equal model.'),
'C11': dict(roots=[r'ClusWisard::makeClusters\(.*\)', r'^Cluster::train\(vec<int>\)', r'^Cluster::classify\(vec<int>\)', r'^Cluster::(getJson\(.*\)|Cluster\(json\))', r'^ClusWisard::(json|jsonConfig|getConfig|getClustersJson)\(.*\)', r'^ClusWisard::ClusWisard\(str\)',
            r'^Discriminator::(getJSON|getConfig|getRAMsData|setRAMsData)\(.*\)', r'^Discriminator::Discriminator\(json\)', r'RAM::RAM\(json\)', r'RAM::(getConfig|getData)\(\)', r'^getRandomString\(int\)'],
            lemmas=['saved_loads', 'cmerged', 'cwconf_loads', 'cluster_loads', 'cwsaved_loads', 'cwconfig_loads', 'dequal_votes', 'dequal_trains'], harness=['c11'],
    note='JSON values and texts are modelled by lib/json.mlw (trusted: nlohmann::json encodes and decodes as documented, and a written text parses back to the same value); files by lib/stream.mlw. Contracts: what saving writes (csaved, cwsaved), what restoring builds (cloaded, cwloaded); lemmas: whatever is saved can be restored and restores to an equal model.'),
'C16': dict(roots=[r'^DataSet::.*', r'^BinInput::BinInput\((str|vec<s16>)\)', r'^BinInput::data\(\)', r'Base64::(encode|decode)\(str\)'], contracted=True, harness=['c16'],
    note='Files are named texts with the trusted contracts of lib/stream.mlw for std::ifstream, std::ofstream and getline. The loaded DataSet is specified against the text that save writes (ds_text, ds_read in contracts/08_ramdata.mlw).'),
'C20': dict(roots=['.*'], contracted=True, harness=['c20']),
'C21': dict(roots=[r'^(Wisard::Wisard|Discriminator::Discriminator|ClusWisard::ClusWisard|KernelCanvas::KernelCanvas)\(int.*json\)', r'^Wisard::Wisard\(int\)', r'^ClusWisard::ClusWisard\(int,float,int,int\)', r'^Wisard::makeDiscriminator\(.*\)', r'ClusWisard::makeClusters\(.*\)', r'ClusWisard::check.*\(.*\)', r'^Cluster::makeDiscriminator\(int\)'], harness=['c21', 'c21.py'], level='other',
    note='Proved: the constructors store every option given (or its default), reject malformed ones, and the models created use the options stored. nlohmann::json values are modelled by lib/json.mlw. Turning Python keyword arguments into JSON and saving options are decided by the bounded harness only (bounded, not proved).'),
}
NA = {}
TECHNIQUE = 'contract-based deductive verification: contracts on the functions of /repo, translated from the clang AST to WhyML on every run; Why3 obligations discharged by z3/cvc5'
BASE_NOTE = ('All inputs and iterations, no bound, for the functions under contract: every obligation (postconditions, loop invariants, bounds, overflow, termination of counted loops) generated from the current sources is discharged. '
  'Trusted: clang AST, the translation vf/trans.py, the library axioms of lib/*.mlw for std containers, the solvers; containers below 2^31 elements, counters within int. '
  'Beside it a harness (bounded random cases under ASan/UBSan, not counted as proved) runs the real code against an independent oracle and supplies failing inputs.')
def note(pid):
    P = PROPS[pid]
    return P.get('note', '') + (' ' if P.get('note') else '') + BASE_NOTE
