#include "idna.cpp"
#include "idna.h"
#include <cstdio>
using namespace ada::idna;
int main(){ ensure_tables();
 for(char32_t c=0;c<=0x10ffff;c++){ if(c>=0xd800&&c<0xe000)continue;
  std::u32string o; std::u32string in(1,c); bool ok=map(in,o);
  printf("%X;%d;",c,ok); for(auto x:o)printf("%X ",x);
  std::u32string n=in; normalize(n); printf(";"); for(auto x:n)printf("%X ",x);
  auto it=0; (void)it;
  bool comb=false; for(size_t i=0;i<combining_range_count;i++) if(c>=combining_ranges[i][0]&&c<=combining_ranges[i][1]){comb=true;break;}
  printf(";%d;%d;%d;%d;%d\n",find_direction(c),get_ccc(c),comb,valid_name_code_point(c,true),valid_name_code_point(c,false));
 }}
