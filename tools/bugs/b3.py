RAM='src/models/wisard/ram.cc'; D='src/models/wisard/discriminator.cc'; W='src/models/wisard/wisard.cc'; CL='src/models/cluswisard/cluster.cc'; CW='src/models/cluswisard/cluswisard.cc'
V='typedef std::vector<int> I; typedef std::vector<std::vector<int>> VV;\n'
BUGS = [
dict(id='b29_cluster_base', property='C21', needs='a ClusWisard with a base other than 2',
 breaks='the discriminators of a cluster get base 2 whatever base the ClusWisard has',
 edits=[(CL, 'new Discriminator(addressSize, entrySize, ignoreZero, completeAddressing, base)', 'new Discriminator(addressSize, entrySize, ignoreZero, completeAddressing)')],
 demo=V+'''int main(){ ClusWisard a(2, 0.1f, 10, 3, nlj::json{{"base", 3}}); try { a.train(VV{I{2, 1, 0, 2}}, std::vector<std::string>{"x"}); } catch(...) { printf("a value below the base is rejected\\n"); return 1; } return 0; }
'''),
dict(id='b30_best_strict', property='C12', needs='a full cluster and an image that scores zero everywhere',
 breaks='an image that scores zero on every discriminator of a full cluster is not learnt by any',
 edits=[(CL, '      if(score>=bestValue){', '      if(score>bestValue){')],
 demo=V+'''int main(){ ClusWisard a(2, 0.5f, 10, 1, nlj::json{{"completeAddressing", true}}); std::vector<std::string> x{"x"}; VV p{I{1, 1, 1, 1}}, q{I{0, 0, 0, 0}}; a.train(p, x); a.train(q, x); int s = 0; auto m = ClusWisard(a.json()).json(); nlj::json c = nlj::json::parse(m); s = c["clusters"]["x"]["discriminators"][0]["count"]; printf("%d trainings\\n", s); return s != 2; }
'''),
dict(id='b31_padding_range', property='C04', needs='an entry size that the address size does not divide, and the padding drawing its largest value',
 breaks='a position drawn to fill up the last RAM can be one past the input',
 edits=[(D, 'indexes[i] = randint(0, entrySize-1, false);', 'indexes[i] = randint(0, entrySize, false);')],
 demo='''int main(){ for(int e = 5; e < 40; e++){ Discriminator d(e - 1, e); nlj::json c = nlj::json::parse(d.jsonConfig()); for(auto& r : c["mapping"]) for(int i : r) if(i < 0 || i >= e){ printf("position %d of %d\\n", i, e); return 1; } } return 0; }
'''),
dict(id='b32_file_limit', property='C10', needs='a discriminator saved with huge whose contents are more than 4095 characters in one RAM',
 breaks='restoring from a file cuts the contents of a RAM at 4096 characters',
 edits=[(D, "          std::getline(dataFile,rdata,'.');\n", "          std::getline(dataFile,rdata,'.');\n          if(rdata.size() > 4096) rdata.resize(4096);\n")],
 demo=V+'''int main(){ I m(16); for(int i = 0; i < 16; i++) m[i] = i; Discriminator d(16, 16); for(int k = 0; k < 3000; k++){ I x(16); for(int i = 0; i < 16; i++) x[i] = (k >> i) & 1; d.train(x); } Discriminator e(d.json(true)); int bad = 0; for(int k = 0; k < 3000; k++){ I x(16); for(int i = 0; i < 16; i++) x[i] = (k >> i) & 1; I a = d.classify(x), b = e.classify(x); bad += a != b; } printf("%d differ\\n", bad); return bad > 0; }
'''),
dict(id='b33_settings_lost', property='C11', needs='a ClusWisard with ignoreZero and a class, saved, restored and trained on an image of zeros',
 breaks='a restored cluster does not ignore the zero address',
 edits=[(CW, '        {"ignoreZero", ignoreZero},\n        {"base", base}\n      };', '        {"base", base}\n      };')],
 demo=V+'''int main(){ ClusWisard a(2, 0.1f, 10, 3, nlj::json{{"ignoreZero", true}}); std::vector<std::string> x{"x"}; VV p{I{1, 1, 0, 0}}, z{I{0, 0, 0, 0}}; a.train(p, x); ClusWisard b(a.json()); a.train(p, x); b.train(p, x); a.train(z, x); b.train(z, x); bool same = nlj::json::parse(a.json())["clusters"]["x"]["discriminators"][0]["data"] == nlj::json::parse(b.json())["clusters"]["x"]["discriminators"][0]["data"]; if(!same) printf("the restored model learns differently\\n"); return !same; }
'''),
]
