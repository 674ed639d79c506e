#include "idna.cpp"
#include "idna.h"
#include <cstdio>
using namespace ada::idna;
int main(){ (void)ensure_tables();
 for(char32_t c=0;c<=0x10ffff;c++){ if(c>=0xd800&&c<0xe000)continue;
  size_t n=canonical_decomp_length(c);
  if(n){ auto*d=decomposition_block_row(decomposition_index[c>>8])+(c%256); printf("D %X",c); for(size_t k=0;k<n;k++)printf(" %X",decomposition_data[(d[0]>>2)+k]); puts("");}
  auto*r=composition_block_row(composition_index[c>>8])+(c%256);
  for(size_t i=r[0];i+1<r[1];i+=2) printf("C %X %X %X\n",c,composition_data[i],composition_data[i+1]);
 }}
