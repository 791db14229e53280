RAM='src/models/wisard/ram.cc'; D='src/models/wisard/discriminator.cc'; W='src/models/wisard/wisard.cc'; BL='src/common/bleaching.cc'; CL='src/models/cluswisard/cluster.cc'; CW='src/models/cluswisard/cluswisard.cc'
BI='src/data/bininput.cc'; DS='src/data/dataset.cc'; SY='src/synthetic_data/synthesizers.cc'; RD='src/models/wisard/ramdatahandle.cc'; K='src/binarization/kernelcanvas.cc'; U='src/common/utils.cc'
V='typedef std::vector<int> I; typedef std::vector<std::vector<int>> VV;\n'
BUGS = [
dict(id='b11_power_32_bits', property='C01', needs='a RAM whose addresses need more than 32 bits (33 positions or more in base 2)',
 breaks='the power of the base is kept in 32 bits, so inputs that differ only at a high position share an address',
 edits=[(RAM, '    addr_t p = 1;\n', '    unsigned int p = 1;\n')],
 demo='''int main(){ std::vector<int> m(40); for(int i = 0; i < 40; i++) m[i] = i; RAM r(m); std::vector<int> a(40, 0), b(40, 0); b[36] = 1; r.train(a); if(r.getVote(b) != 0){ printf("different inputs share an address\\n"); return 1; } r.train(b); if(r.getVote(a) != 1 || r.getVote(b) != 1) return 1; return 0; }
'''),
dict(id='b12_mapping_base', property='C05', needs='a Wisard with a mapping for the class and a base other than 2',
 breaks='a class created from its mapping gets base 2 whatever base the Wisard has',
 edits=[(W, 'Discriminator(it->second, entrySize, ignoreZero, base)', 'Discriminator(it->second, entrySize, ignoreZero)')],
 demo=V+'''int main(){ Wisard w(2, nlj::json{{"base", 3}, {"mapping", {{"a", {{0, 1}, {2, 3}}}}}}); try { w.train(VV{I{2, 0, 1, 2}}, {"a"}); } catch(...) { printf("a value below the base is rejected\\n"); return 1; } return w.classify(VV{I{2, 0, 1, 2}})[0] != "a"; }
'''),
dict(id='b13_bleaching_stride', property='C06', needs='votes above 16 that only threshold 18 separates',
 breaks='above 16 the bleaching goes up in twos, so it may pass over the first threshold that separates the classes',
 edits=[(BL, '      bleaching++;\n', '      bleaching += bleaching > 16 ? 2 : 1;\n')],
 demo='''int main(){ std::map<std::string,std::vector<int>> v{{"a", {18, 30, 30}}, {"b", {17, 18, 18}}}; std::map<std::string,int> d = Bleaching::make(v, true); printf("%d %d\\n", d["a"], d["b"]); return d["a"] != 3 || d["b"] != 2; }
'''),
dict(id='b14_unnamed_class', property='C07', needs='a class whose name is the empty text and that wins',
 breaks='the class with the empty name never wins',
 edits=[(BL, '      if(i->second >= biggest){\n', '      if(i->second >= biggest && !i->first.empty()){\n')],
 demo='''int main(){ std::map<std::string,int> d{{"", 5}, {"a", 3}}; std::string l = Bleaching::getBiggestCandidate(d); printf("winner '%s'\\n", l.c_str()); return l != ""; }
'''),
dict(id='b15_address_32_bits', property='C09', needs='a content at an address of more than 32 bits',
 breaks='addresses are read back with 32 bits',
 edits=[(RD, 'convertToValue<addr_t>(decodedData', 'convertToValue<unsigned int>(decodedData')],
 demo='''int main(){ ram_t m; m[(addr_t)1 << 40] = 7; RAMDataHandle a(m); RAMDataHandle b(a.data(0)); ram_t r = b.get(0); printf("%d contents\\n", (int)r.size()); return r != m; }
'''),
dict(id='b16_count_short', property='C10', needs='a discriminator with more than 32767 trainings that is saved and restored',
 breaks='the number of trainings is restored in 16 bits',
 edits=[(D, 'count = value.is_null() ? 0 : value.get<int>();', 'count = value.is_null() ? 0 : value.get<short>();')],
 demo=V+'''int main(){ Discriminator d(I{0, 1, 2, 3}, 2, 4); for(int i = 0; i < 40000; i++) d.train(I{1, 0, 1, 0}); Discriminator e(d.json()); printf("%d %d\\n", d.getNumberOfTrainings(), e.getNumberOfTrainings()); return d.getNumberOfTrainings() != e.getNumberOfTrainings(); }
'''),
dict(id='b17_threshold_byte', property='C11', needs='a ClusWisard with a threshold above 255 that is saved, restored and trained on',
 breaks='the restored clusters keep the threshold modulo 256, so they learn differently',
 edits=[(CL, 'value.get<unsigned int>();', 'value.get<unsigned char>();')],
 demo=V+'''int main(){ ClusWisard a(2, 0.1f, 257, 5); a.train(VV{I{1, 1, 0, 0}}, {"x"}); ClusWisard b(a.json()); VV im{I{1, 1, 0, 0}, I{1, 1, 0, 0}}; VV half{I{1, 1, 0, 1}}; a.train(half, {"x"}); b.train(half, {"x"}); a.train(half, {"x"}); b.train(half, {"x"});
 size_t x = a.getMentalImage("x").size(), y = b.getMentalImage("x").size(); int s = 0, t = 0; for(auto& i : a.getMentalImage("x")) for(int v : i) s = s * 7 + v; for(auto& i : b.getMentalImage("x")) for(int v : i) t = t * 7 + v; printf("%d %d\\n", (int)x, (int)y); return x != y; }
'''),
dict(id='b18_limit_uncapped', property='C12', needs='a cluster whose discriminator has been trained more than threshold times',
 breaks='the score limit goes above 1, so a discriminator that knows the input perfectly is not trained and a new one is added',
 edits=[(CL, 'limit = limit > 1.0 ? 1.0 : limit;', 'limit = limit > 2.0 ? 1.0 : limit;')],
 demo=V+'''int main(){ Cluster c(4, 2, 0.5f, 4, 3); for(int i = 0; i < 4; i++) c.train(I{1, 0, 1, 1}); printf("%d discriminators\\n", (int)c.getNumberOfDiscriminators()); return c.getNumberOfDiscriminators() != 1; }
'''),
dict(id='b19_empty_label', property='C13', needs='semi-supervised training with an input labelled with the empty text',
 breaks='an input whose label is the empty text counts as unlabelled',
 edits=[(CW, '      if(labels.find(i) == labels.end()){\n', '      if(labels.find(i) == labels.end() || labels[i].empty()){\n')],
 demo=V+'''int main(){ ClusWisard c(2, 0.5f, 10, 3); std::map<int,std::string> l{{0, "a"}, {1, ""}}; c.train(VV{I{1, 1, 0, 0}, I{0, 0, 1, 1}}, l); printf("%d\\n", (int)c.getMentalImages().size()); return c.getMentalImages().size() != 2; }
'''),
dict(id='b20_long_bits', property='C14', needs='a BinInput of more than 524288 bits',
 breaks='reading uses the byte number modulo 65536',
 edits=[(BI, '    int section = index/8;\n', '    unsigned short section = index/8;\n')],
 demo='''int main(){ BinInput b((index_size_t)600000); b.set(524288 + 5, 1); printf("%d %d\\n", b.get(524288 + 5), b.get(5)); return b.get(524288 + 5) != 1 || b.get(5) != 0; }
'''),
dict(id='b21_bin_vote_byte', property='C15', needs='an address trained more than 255 times, asked with a BinInput',
 breaks='votes for a BinInput stop at 255',
 edits=[(RAM, '    return getVote<BinInput>(image);', '    return std::min(getVote<BinInput>(image), 255);')],
 demo=V+'''int main(){ RAM r(I{0, 1}); I a{1, 0}; BinInput b(std::vector<short>{1, 0}); for(int i = 0; i < 300; i++) r.train(a); printf("%d %d\\n", r.getVote(a), r.getVote(b)); return r.getVote(a) != r.getVote(b); }
'''),
dict(id='b22_label_position', property='C16', needs='a labelled input after 256 others',
 breaks='labels are kept by the position modulo 256',
 edits=[(DS, '''  void add(const BinInput& input, const std::string& label){
    if(label.size()>0) labels[data.size()]=label;''', '''  void add(const BinInput& input, const std::string& label){
    if(label.size()>0) labels[(unsigned char)data.size()]=label;''')],
 demo='''int main(){ DataSet d; BinInput b((index_size_t)3); d.add(b, "first"); for(int i = 1; i < 256; i++) d.add(b); d.add(b, "last"); try { printf("%s %s\\n", d.getLabel(0).c_str(), d.getLabel(256).c_str()); return d.getLabel(0) != "first" || d.getLabel(256) != "last"; } catch(...) { printf("label lost\\n"); return 1; } }
'''),
dict(id='b23_stop_at_active', property='C17', needs='a sequence whose later point has an already activated kernel nearer than a new one',
 breaks='activation stops at the first kernel that is active already',
 edits=[(K, 'if(output[kernelIndex*bitsByKernel] == 1) continue;', 'if(output[kernelIndex*bitsByKernel] == 1) break;')],
 demo='''struct KC : KernelCanvas { KC(): KernelCanvas(1, 7, nlj::json{{"bitsByKernel", 1}, {"activationDegree", 0.28}}) { kernels = {{-0.95}, {-0.8}, {-0.25}, {0.0}, {0.35}, {0.8}, {0.95}}; } };
int main(){ KC k;
 std::vector<std::vector<double>> s{{-0.02}, {-0.15}, {1.0}, {-1.0}}; std::vector<int> o = k.transform(s);
 double m = 0, v = 0; for(auto& p : s) m += p[0]; m /= 4; for(auto& p : s) v += (m - p[0]) * (m - p[0]); v = std::sqrt(v / 4);
 std::vector<int> w(7, 0); double ks[7] = {-0.95, -0.8, -0.25, 0.0, 0.35, 0.8, 0.95};
 for(auto& p : s){ double x = std::tanh((m - p[0]) / v); int a = 0; for(int i = 0; i < 7; i++) if(std::fabs(ks[i] - x) < std::fabs(ks[a] - x)) a = i; int b = a ? 0 : 1; for(int i = 0; i < 7; i++) if(i != a && std::fabs(ks[i] - x) < std::fabs(ks[b] - x)) b = i; w[a] = w[b] = 1; }
 for(int i = 0; i < 7; i++) printf("%d%d ", o[i], w[i]); printf("\\n"); return o != w; }
'''),
dict(id='b24_mental_digit', property='C18', needs='a base above 2 and trained values above 1',
 breaks='only the digits equal to 1 are counted in the mental image',
 edits=[(RAM, '        if(address[i] > 0){\n', '        if(address[i] == 1){\n')],
 demo=V+'''int main(){ Discriminator d(VV{I{0, 1}}, 2, false, 3); d.train(I{2, 1}); I m = d.getMentalImage(); printf("%d %d\\n", m[0], m[1]); return m[0] != 1 || m[1] != 1; }
'''),
dict(id='b25_pattern_beyond', property='C19', needs='many patterns of one image, looking at a position of the largest value',
 breaks='one pattern more than there are may be drawn, in which every position is 0',
 edits=[(SY, 'int index = randint(0, maxData-1);', 'int index = randint(0, maxData);')],
 sh='''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/include"; ln -s "$PWD/src" "$d/src"
(cd "$d" && python3 "$OLDPWD/generate_include.py") || exit 2
g++ -std=c++11 -w -O1 -I "$d/include" "$here/demo.cc" -o "$d/demo" || exit 3
# the generator is seeded with the time: ask in several seconds
for k in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25; do "$d/demo" || exit 1; sleep 1; done
exit 0
''',
 demo=V+'''int main(){ Synthesizer s(I{1, 0}); I p = s.make(); if(p[0] != 1 || p[1] != 0){ printf("%d %d\\n", p[0], p[1]); return 1; } return 0; }
'''),
dict(id='b26_position_at_end', property='C20', needs='a mapping that names the position just after the entry, and a mental image',
 breaks='a position equal to the entry size is accepted, and a mental image then writes past its end',
 edits=[(D, 'indexes[i] >= entrySize', 'indexes[i] > entrySize')],
 demo=V+'''int main(){ try { Discriminator d(VV{I{0, 4}}, 4); } catch(...) { return 0; } printf("a position outside of the entry is accepted\\n"); return 1; }
'''),
dict(id='b27_degree_default', property='C21', needs='a KernelCanvas with the default activation degree and enough kernels',
 breaks='the default activation degree is 0.1, not 0.07',
 edits=[(K, 'value.is_null() ? 0.07 : value.get<float>();', 'value.is_null() ? 0.1 : value.get<float>();')],
 demo='''int main(){ KernelCanvas k(2, 100, nlj::json{{"bitsByKernel", 1}}); std::vector<int> o = k.transform({{0.5, 0.25}}); int n = 0; for(int v : o) n += v; printf("%d kernels\\n", n); return n != 7; }
'''),
]
