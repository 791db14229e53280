BUGS = [
dict(id='b01_wide_address', property='C01', needs='a RAM whose addresses need more than 32 bits (33 positions or more in base 2)',
 breaks='the power of the base is kept in 32 bits, so inputs that differ only at a high position share an address',
 edits=[('src/models/wisard/ram.cc', '    addr_t p = 1;\n    for(unsigned int i=0; i<addresses.size(); i++){\n      int bin', '    unsigned int p = 1;\n    for(unsigned int i=0; i<addresses.size(); i++){\n      int bin')],
 demo='''int main(){ std::vector<int> m(40); for(int i = 0; i < 40; i++) m[i] = i; RAM r(m); std::vector<int> a(40, 0), b(40, 0); b[36] = 1; r.train(a); if(r.getVote(b) != 0){ printf("different inputs share an address\\n"); return 1; } r.train(b); if(r.getVote(a) != 1 || r.getVote(b) != 1) return 1; return 0; }
'''),
dict(id='b02_saturating_count', property='C02', needs='more than 1000 trainings of the same address',
 breaks='the content of an address stops at 1000',
 edits=[('src/models/wisard/ram.cc', '''      positions.insert(it,std::pair<addr_t,content_t>(index, 1));
    }
    else{
      it->second++;
    }''', '''      positions.insert(it,std::pair<addr_t,content_t>(index, 1));
    }
    else if(it->second < 1000){
      it->second++;
    }''')],
 demo='''int main(){ RAM r(std::vector<int>{0, 1}); std::vector<int> a{1, 0}; for(int i = 0; i < 1500; i++) r.train(a); printf("%d\\n", r.getVote(a)); return r.getVote(a) != 1500; }
'''),
dict(id='b03_untrain_zero', property='C03', needs='untraining an input whose mapped values are all 0 for some RAM',
 breaks='untraining skips the zero address, so training and untraining changes the votes',
 edits=[('src/models/wisard/ram.cc', '''      if(it != positions.end()){
        it->second--;''', '''      if(it != positions.end() && index != 0){
        it->second--;''')],
 demo='''int main(){ Discriminator d(std::vector<std::vector<int>>{{0, 1}, {2, 3}}, 4); std::vector<int> a{0, 0, 1, 1}; d.train(a); d.untrain(a); std::vector<int> v = d.classify(a); printf("%d %d\\n", v[0], v[1]); return v[0] != 0 || v[1] != 0; }
'''),
dict(id='b04_padding_only_tail', property='C04', needs='complete addressing of an entry that the address size does not divide',
 breaks='the padding is drawn over the last real positions too, so some positions may be in no RAM',
 edits=[('src/models/wisard/discriminator.cc', '    for(int i=0; i<entrySize; i++) {\n      indexes[i]=i;\n    }\n    for(unsigned int i=entrySize; i', '    for(int i=0; i<entrySize; i++) {\n      indexes[i]=i;\n    }\n    for(unsigned int i=remain > 0 ? entrySize-1 : entrySize; i')],
 demo='''int main(){ for(int k = 0; k < 300; k++){ Discriminator d(7, 24, false, true); nlj::json j = nlj::json::parse(d.json()); std::vector<int> n(24, 0); for(auto& r: j["mapping"]) for(auto& p: r) n[p.get<int>()]++; for(int i = 0; i < 24; i++) if(!n[i]){ printf("position %d is not mapped\\n", i); return 1; } } return 0; }
'''),
dict(id='b06_base64_tail', property='C08', needs='a text of 2 (mod 3) bytes whose last byte has any of its 4 low bits set',
 breaks='the last character before the padding loses a bit',
 edits=[('src/common/utils.cc', 'index = dataIn[i+1] << 2 & 0x3c; // last 4', 'index = dataIn[i+1] << 2 & 0x38; // last 4')],
 demo='''int main(){ std::string s("a\\x01", 2); std::string t = Base64::decode(Base64::encode(s)); return t != s; }
'''),
dict(id='b07_bin_set_byte', property='C14', needs='setting a bit of a BinInput to 0 while a lower bit of the same byte is 1',
 breaks='', edits=[], demo=''),
]
BUGS = [b for b in BUGS if b['edits']]
